// Lines of a text, character by character (included inside the shared library module, after vlib_str.rs)

/// the last position of c in s
pub open spec fn last_at(s: Seq<char>, c: char, k: int) -> bool { 0 <= k < s.len() && s[k] == c && forall|j: int| k < j < s.len() ==> s[j] != c }
/// p occurs in s
pub open spec fn part_of(p: Seq<char>, s: Seq<char>) -> bool { exists|a: int| 0 <= a <= s.len() - p.len() && #[trigger] s.subrange(a, a + p.len()) == p }
pub trait VxChar {
    spec fn vx_one(&self) -> char;
    fn vx_is_whitespace(&self) -> (r: bool) ensures r == ws(self.vx_one());
}
impl VxChar for char {
    open spec fn vx_one(&self) -> char { *self }
    #[verifier::external_body]
    fn vx_is_whitespace(&self) -> (r: bool) { self.is_whitespace() }
}
pub trait VxLine {
    spec fn vx_l(&self) -> Seq<char>;
    fn vx_rfind(&self, c: char) -> (r: Option<usize>)
        ensures match r { Some(i) => exists|k: int| #[trigger] last_at(self.vx_l(), c, k) && i == bo(self.vx_l(), k), None => !self.vx_l().contains(c) };
    fn vx_has_text(&self, p: &str) -> (r: bool)
        ensures r == part_of(p@, self.vx_l());
    /// the characters one by one
    fn vx_chars_of(&self) -> (r: Vec<char>)
        ensures r@ == self.vx_l();
}
impl VxLine for str {
    open spec fn vx_l(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_rfind(&self, c: char) -> (r: Option<usize>) { self.rfind(c) }
    #[verifier::external_body]
    fn vx_chars_of(&self) -> (r: Vec<char>) { self.chars().collect() }
    #[verifier::external_body]
    fn vx_has_text(&self, p: &str) -> (r: bool) { self.contains(p) }
}
/// is there code before offset o on its line
pub open spec fn code_before(s: Seq<char>, k: int) -> bool { exists|i: int| 0 <= i < k <= s.len() && !ws(#[trigger] s[i]) && forall|j: int| i < j < k ==> s[j] != '\n' }
pub proof fn lemma_bo_inj(s: Seq<char>, j: int, k: int)
    requires 0 <= j <= s.len(), 0 <= k <= s.len(), bo(s, j) == bo(s, k),
    ensures j == k,
{ if j < k { lemma_bo(s, j, k); } else { lemma_bo(s, k, j); } }
/// the part of the line before k is what follows the last newline before k
pub proof fn lemma_code_before(s: Seq<char>, k: int, l: int)
    requires 0 <= l <= k <= s.len(), l == 0 || s[l - 1] == '\n', forall|j: int| l <= j < k ==> s[j] != '\n',
    ensures code_before(s, k) == exists|i: int| 0 <= i < k - l && !ws(#[trigger] s.subrange(l, k)[i]),
{
    let m = s.subrange(l, k);
    if code_before(s, k) {
        let i = choose|i: int| 0 <= i < k <= s.len() && !ws(#[trigger] s[i]) && forall|j: int| i < j < k ==> s[j] != '\n';
        assert(i >= l) by { if i < l { assert(s[l - 1] == '\n'); assert(i != l - 1); } }
        assert(m[i - l] == s[i]);
    }
    if exists|i: int| 0 <= i < k - l && !ws(#[trigger] m[i]) { let i = choose|i: int| 0 <= i < k - l && !ws(#[trigger] m[i]); assert(s[l + i] == m[i]); assert(code_before(s, k)); }
}
