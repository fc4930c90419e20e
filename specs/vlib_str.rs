// String operations: their meaning (spec fns, proved lemmas) and TRUSTED contracts of the std functions.
// (included inside the shared library module, after vlib.rs)

/// char::is_whitespace (Unicode White_Space)
pub open spec fn ws(c: char) -> bool {
    let u = c as u32;
    (9 <= u <= 13) || u == 32 || u == 0x85 || u == 0xa0 || u == 0x1680 || (0x2000 <= u <= 0x200a) || u == 0x2028 || u == 0x2029
        || u == 0x202f || u == 0x205f || u == 0x3000
}
pub open spec fn trim_start(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{ if s.len() > 0 && ws(s[0]) { trim_start(s.drop_first()) } else { s } }
pub open spec fn trim_end(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{ if s.len() > 0 && ws(s.last()) { trim_end(s.drop_last()) } else { s } }
pub open spec fn trim(s: Seq<char>) -> Seq<char> { trim_end(trim_start(s)) }
pub open spec fn concat(ls: Seq<Seq<char>>) -> Seq<char>
    decreases ls.len(),
{ if ls.len() == 0 { Seq::empty() } else { concat(ls.drop_last()) + ls.last() } }
/// ls are the pieces of s, each ended by c except possibly the last
pub open spec fn is_split_inclusive(s: Seq<char>, c: char, ls: Seq<Seq<char>>) -> bool {
    concat(ls) == s && forall|i: int| 0 <= i < ls.len() ==> piece_ok(#[trigger] ls[i], c, i + 1 == ls.len())
}
pub open spec fn piece_ok(l: Seq<char>, c: char, last: bool) -> bool {
    l.len() > 0 && (forall|k: int| 0 <= k < l.len() - 1 ==> l[k] != c) && (last || l.last() == c)
}
pub open spec fn views(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|x: &str| x@) }
pub open spec fn sviews(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|x: String| x@) }
/// s starts with p
pub open spec fn has_prefix(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.subrange(0, p.len() as int) =~= p }

pub assume_specification<T: core::default::Default>[ core::mem::take ](x: &mut T) -> (r: T)
    ensures r == *old(x), call_ensures(T::default, (), *final(x));

pub trait VxStr {
    spec fn vx_cs(&self) -> Seq<char>;
    fn vx_trim(&self) -> (r: &str)
        ensures r@ == trim(self.vx_cs());
    fn vx_trim_start(&self) -> (r: &str)
        ensures r@ == trim_start(self.vx_cs());
    fn vx_trim_end(&self) -> (r: &str)
        ensures r@ == trim_end(self.vx_cs());
    fn vx_split_inclusive(&self, c: char) -> (r: Vec<&str>)
        ensures is_split_inclusive(self.vx_cs(), c, views(r@));
}
impl VxStr for str {
    open spec fn vx_cs(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_trim(&self) -> (r: &str) { self.trim() }
    #[verifier::external_body]
    fn vx_trim_start(&self) -> (r: &str) { self.trim_start() }
    #[verifier::external_body]
    fn vx_trim_end(&self) -> (r: &str) { self.trim_end() }
    #[verifier::external_body]
    fn vx_split_inclusive(&self, c: char) -> (r: Vec<&str>) { self.split_inclusive(c).collect() }
}

pub proof fn lemma_concat_split(ls: Seq<Seq<char>>, i: int)
    requires 0 <= i <= ls.len(),
    ensures concat(ls) == concat(ls.take(i)) + concat(ls.skip(i)),
    decreases ls.len(),
{
    if i == ls.len() {
        assert(ls.take(i) =~= ls);
        assert(ls.skip(i) =~= Seq::<Seq<char>>::empty());
    } else {
        lemma_concat_split(ls.drop_last(), i);
        assert(ls.drop_last().take(i) =~= ls.take(i));
        assert(ls.skip(i).drop_last() =~= ls.drop_last().skip(i));
        assert(ls.skip(i).last() == ls.last());
    }
}
pub proof fn lemma_encode_concat(a: Seq<char>, b: Seq<char>)
    ensures encode_utf8(a + b) == encode_utf8(a) + encode_utf8(b),
    decreases a.len(),
{
    reveal_with_fuel(encode_utf8, 2);
    if a.len() == 0 { assert(a + b =~= b); assert(encode_utf8(a) + encode_utf8(b) =~= encode_utf8(b)); } else {
        lemma_encode_concat(a.drop_first(), b);
        assert((a + b).drop_first() =~= a.drop_first() + b);
        assert(encode_utf8(a + b) =~= encode_utf8(a) + encode_utf8(b));
    }
}

// ---------- byte positions ----------
/// byte offset of character k
pub open spec fn bo(s: Seq<char>, k: int) -> int { encode_utf8(s.take(k)).len() as int }
/// k is the index of the first occurrence of c
pub open spec fn first_at(s: Seq<char>, c: char, k: int) -> bool { 0 <= k < s.len() && s[k] == c && forall|j: int| 0 <= j < k ==> s[j] != c }
pub open spec fn find(s: Seq<char>, c: char) -> Option<int>
    decreases s.len(),
{
    if s.len() == 0 { None } else if s[0] == c { Some(0) } else {
        match find(s.drop_first(), c) { None => None, Some(k) => Some(k + 1) }
    }
}
pub broadcast proof fn lemma_find(s: Seq<char>, c: char)
    ensures match #[trigger] find(s, c) { Some(k) => first_at(s, c, k), None => !s.contains(c) },
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_first();
        lemma_find(t, c);
        match find(t, c) {
            Some(k) => { assert(t[k] == s[k + 1]); assert forall|j: int| 0 <= j < k + 1 && s[0] != c implies #[trigger] s[j] != c by { if j > 0 { assert(t[j - 1] == s[j]); } } }
            None => { if s.contains(c) && s[0] != c { let j = choose|j: int| 0 <= j < s.len() && s[j] == c; assert(t[j - 1] == c); } }
        }
    }
}
pub proof fn lemma_first_unique(s: Seq<char>, c: char, j: int, k: int)
    requires first_at(s, c, j), first_at(s, c, k),
    ensures j == k,
{ }
pub open spec fn ascii(c: char) -> bool { (c as u32) < 128 }
pub proof fn lemma_ascii_len(c: char)
    requires ascii(c),
    ensures encode_utf8(seq![c]).len() == 1,
{
    lemma_char_len(c);
    char_is_scalar(c);
    reveal(encode_scalar);
}
pub proof fn lemma_bo(s: Seq<char>, j: int, k: int)
    requires 0 <= j <= k <= s.len(),
    ensures
        bo(s, 0) == 0, bo(s, s.len() as int) == encode_utf8(s).len(),
        bo(s, k) == bo(s, j) + encode_utf8(s.subrange(j, k)).len(),
        bo(s, j) <= bo(s, k) <= encode_utf8(s).len(), j < k ==> bo(s, j) < bo(s, k),
        encode_utf8(s).subrange(bo(s, j), bo(s, k)) == encode_utf8(s.subrange(j, k)),
        is_char_boundary(encode_utf8(s), bo(s, j)), is_char_boundary(encode_utf8(s), bo(s, k)),
{
    let a = s.take(j); let m = s.subrange(j, k); let z = s.skip(k);
    lemma_encode_concat(a, m);
    lemma_encode_concat(a + m, z);
    assert(a + m =~= s.take(k));
    assert((a + m) + z =~= s);
    assert(s.take(0) =~= Seq::<char>::empty());
    assert(encode_utf8(Seq::<char>::empty()).len() == 0) by { reveal_with_fuel(encode_utf8, 2); }
    assert(s.take(s.len() as int) =~= s);
    assert(encode_utf8(s).subrange(bo(s, j), bo(s, k)) =~= encode_utf8(m));
    lemma_prefix_boundary(s, j);
    lemma_prefix_boundary(s, k);
    if j < k {
        lemma_char_len(s[j]);
        lemma_encode_concat(seq![s[j]], s.subrange(j + 1, k));
        assert(m =~= seq![s[j]] + s.subrange(j + 1, k));
    }
}
/// one character further
pub proof fn lemma_bo_next(s: Seq<char>, k: int)
    requires 0 <= k < s.len(),
    ensures bo(s, k + 1) == bo(s, k) + encode_utf8(seq![s[k]]).len(), ascii(s[k]) ==> bo(s, k + 1) == bo(s, k) + 1,
{
    lemma_bo(s, k, k + 1);
    assert(s.subrange(k, k + 1) =~= seq![s[k]]);
    if ascii(s[k]) { lemma_ascii_len(s[k]); }
}
/// what a slice between two character positions contains
pub proof fn lemma_slice(s: Seq<char>, j: int, k: int, r: Seq<char>)
    requires 0 <= j <= k <= s.len(), encode_utf8(r) == encode_utf8(s).subrange(bo(s, j), bo(s, k)),
    ensures r == s.subrange(j, k),
{
    lemma_bo(s, j, k);
    lemma_encode_inj(r, s.subrange(j, k));
}
pub proof fn lemma_encode_inj(a: Seq<char>, b: Seq<char>)
    requires encode_utf8(a) == encode_utf8(b),
    ensures a == b,
{
    encode_utf8_decode_utf8(a);
    encode_utf8_decode_utf8(b);
}

pub broadcast proof fn lemma_view_bytes(s: Seq<char>)
    ensures decode_utf8(#[trigger] encode_utf8(s)) == s,
{ encode_utf8_decode_utf8(s); }

// ---------- lines, split ----------
pub open spec fn strip_eol(l: Seq<char>) -> Seq<char> {
    if l.len() > 0 && l.last() == '\n' {
        let m = l.drop_last();
        if m.len() > 0 && m.last() == '\r' { m.drop_last() } else { m }
    } else { l }
}
/// str::lines
pub open spec fn is_lines(s: Seq<char>, ls: Seq<Seq<char>>) -> bool {
    exists|inc: Seq<Seq<char>>| #[trigger] is_split_inclusive(s, '\n', inc) && ls =~= inc.map_values(|l: Seq<char>| strip_eol(l))
}
/// str::split on one character
pub open spec fn split(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len(),
    via split_decreases
{
    match find(s, c) {
        None => seq![s],
        Some(k) => seq![s.take(k)] + split(s.skip(k + 1), c),
    }
}
#[via_fn]
proof fn split_decreases(s: Seq<char>, c: char) { lemma_find(s, c); }
/// str::replace of the two-character string ab by nothing
pub open spec fn remove2(s: Seq<char>, a: char, b: char) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { s } else if s.len() >= 2 && s[0] == a && s[1] == b { remove2(s.skip(2), a, b) } else { seq![s[0]] + remove2(s.drop_first(), a, b) }
}

pub trait VxStr2 {
    spec fn vx_c2(&self) -> Seq<char>;
    fn vx_lines(&self) -> (r: Vec<&str>)
        ensures is_lines(self.vx_c2(), views(r@));
    fn vx_split(&self, c: char) -> (r: Vec<&str>)
        ensures views(r@) == split(self.vx_c2(), c);
    fn vx_find(&self, c: char) -> (r: Option<usize>)
        ensures match r { Some(i) => find(self.vx_c2(), c) is Some && i == bo(self.vx_c2(), find(self.vx_c2(), c)->0), None => find(self.vx_c2(), c) is None };
    fn vx_contains_char(&self, c: char) -> (r: bool)
        ensures r == self.vx_c2().contains(c);
    fn vx_starts_with(&self, p: &str) -> (r: bool)
        ensures r == has_prefix(self.vx_c2(), p@);
    fn vx_strip_prefix(&self, p: &str) -> (r: Option<&str>)
        ensures match r { Some(t) => has_prefix(self.vx_c2(), p@) && t@ == self.vx_c2().skip(p@.len() as int), None => !has_prefix(self.vx_c2(), p@) };
    /// starts_with(char::is_whitespace)
    fn vx_starts_ws(&self) -> (r: bool)
        ensures r == (self.vx_c2().len() > 0 && ws(self.vx_c2()[0]));
    /// replace(">=", "")
    fn vx_remove_ge(&self) -> (r: String)
        ensures r@ == remove2(self.vx_c2(), '>', '=');
}
impl VxStr2 for str {
    open spec fn vx_c2(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_lines(&self) -> (r: Vec<&str>) { self.lines().collect() }
    #[verifier::external_body]
    fn vx_split(&self, c: char) -> (r: Vec<&str>) { self.split(c).collect() }
    #[verifier::external_body]
    fn vx_find(&self, c: char) -> (r: Option<usize>) { self.find(c) }
    #[verifier::external_body]
    fn vx_contains_char(&self, c: char) -> (r: bool) { self.contains(c) }
    #[verifier::external_body]
    fn vx_starts_with(&self, p: &str) -> (r: bool) { self.starts_with(p) }
    #[verifier::external_body]
    fn vx_strip_prefix(&self, p: &str) -> (r: Option<&str>) { self.strip_prefix(p) }
    #[verifier::external_body]
    fn vx_starts_ws(&self) -> (r: bool) { self.starts_with(char::is_whitespace) }
    #[verifier::external_body]
    fn vx_remove_ge(&self) -> (r: String) { self.replace(">=", "") }
}
#[verifier::external_body]
pub fn vx_string_from(s: &str) -> (r: String) ensures r@ == s@ { String::from(s) }
