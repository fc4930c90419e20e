// ---- the names and the definitions in a text ----
/// char::is_alphanumeric, char::is_alphabetic
pub uninterp spec fn alnum(c: char) -> bool;
pub uninterp spec fn alpha(c: char) -> bool;
pub assume_specification[ char::is_alphanumeric ](c: char) -> (r: bool) ensures r == alnum(c);
pub assume_specification[ char::is_alphabetic ](c: char) -> (r: bool) ensures r == alpha(c);
/// a character of a name of R, and one it can start with
pub open spec fn name_char(c: char) -> bool { alnum(c) || c == '.' || c == '_' }
pub open spec fn name_start(c: char) -> bool { alpha(c) || c == '.' || c == '_' }
/// where the name that p is in ends
pub open spec fn name_end(l: Seq<char>, p: int) -> int
    decreases l.len() - p,
{ if 0 <= p < l.len() && name_char(l[p]) { name_end(l, p + 1) } else { p } }
pub proof fn lemma_name_end(l: Seq<char>, p: int)
    requires 0 <= p <= l.len(),
    ensures p <= name_end(l, p) <= l.len(), forall|i: int| p <= i < name_end(l, p) ==> name_char(#[trigger] l[i]), name_end(l, p) < l.len() ==> !name_char(l[name_end(l, p)]),
    decreases l.len() - p,
{ if p < l.len() && name_char(l[p]) { lemma_name_end(l, p + 1); } }
pub proof fn lemma_name_end_is(l: Seq<char>, p: int, e: int)
    requires 0 <= p <= e <= l.len(), forall|i: int| p <= i < e ==> name_char(#[trigger] l[i]), e < l.len() ==> !name_char(l[e]),
    ensures name_end(l, p) == e,
    decreases e - p,
{ if p < e { lemma_name_end_is(l, p + 1, e); } }
/// the names written in a line, from p on
pub open spec fn words(l: Seq<char>, p: int) -> Seq<Seq<char>>
    decreases l.len() - p,
    via words_decreases
{
    if p < 0 || p >= l.len() { Seq::empty() } else if name_start(l[p]) { seq![l.subrange(p, name_end(l, p + 1))] + words(l, name_end(l, p + 1)) } else { words(l, p + 1) }
}
#[via_fn]
proof fn words_decreases(l: Seq<char>, p: int) { if 0 <= p < l.len() { lemma_name_end(l, p + 1); } }
pub open spec fn all_words(ls: Seq<Seq<char>>) -> Seq<Seq<char>>
    decreases ls.len(),
{ if ls.len() == 0 { Seq::empty() } else { all_words(ls.drop_last()) + words(ls.last(), 0) } }
/// how often x is among them
pub open spec fn times(w: Seq<Seq<char>>, x: Seq<char>) -> int
    decreases w.len(),
{ if w.len() == 0 { 0 } else { times(w.drop_last(), x) + (if w.last() == x { 1int } else { 0 }) } }
pub open spec fn counts(m: IMap<Seq<char>, usize>, w: Seq<Seq<char>>) -> bool {
    forall|x: Seq<char>| #![trigger m.dom().contains(x)] #![trigger cnt(m, x)] cnt(m, x) == times(w, x) && m.dom().contains(x) == (times(w, x) > 0)
}
pub proof fn lemma_times_push(w: Seq<Seq<char>>, y: Seq<char>, x: Seq<char>)
    ensures times(w.push(y), x) == times(w, x) + (if y == x { 1int } else { 0 }), 0 <= times(w, x) <= w.len(),
    decreases w.len(),
{ assert(w.push(y).drop_last() =~= w); if w.len() > 0 { lemma_times_push(w.drop_last(), y, x); } }
pub proof fn lemma_counts(o: IMap<Seq<char>, usize>, n: IMap<Seq<char>, usize>, w: Seq<Seq<char>>, y: Seq<char>)
    requires counts(o, w), cnt(o, y) + 1 <= usize::MAX, n == o.insert(y, (cnt(o, y) + 1) as usize),
    ensures counts(n, w.push(y)),
{
    assert forall|x: Seq<char>| #![trigger n.dom().contains(x)] #![trigger cnt(n, x)] cnt(n, x) == times(w.push(y), x) && n.dom().contains(x) == (times(w.push(y), x) > 0) by {
        lemma_times_push(w, y, x); assert(o.dom().contains(x) || !o.dom().contains(x)); assert(cnt(o, x) == times(w, x));
    }
}
/// the number of characters in the lines
pub open spec fn size(ls: Seq<Seq<char>>) -> int
    decreases ls.len(),
{ if ls.len() == 0 { 0 } else { size(ls.drop_last()) + ls.last().len() } }
pub proof fn lemma_words_size(l: Seq<char>, p: int)
    requires 0 <= p <= l.len(),
    ensures words(l, p).len() <= l.len() - p,
    decreases l.len() - p,
{ if p < l.len() { lemma_name_end(l, p + 1); if name_start(l[p]) { lemma_words_size(l, name_end(l, p + 1)); } else { lemma_words_size(l, p + 1); } } }
pub proof fn lemma_all_words_size(ls: Seq<Seq<char>>, k: int)
    requires 0 <= k <= ls.len(),
    ensures all_words(ls.take(k)).len() <= size(ls.take(k)) <= size(ls),
    decreases ls.len(),
{
    if ls.len() > 0 {
        if k < ls.len() { lemma_all_words_size(ls.drop_last(), k); assert(ls.drop_last().take(k) =~= ls.take(k)); }
        else { assert(ls.take(k) =~= ls); lemma_all_words_size(ls.drop_last(), k - 1); assert(ls.drop_last().take(k - 1) =~= ls.drop_last()); lemma_words_size(ls.last(), 0); }
    } else { assert(ls.take(k) =~= ls); }
}
pub proof fn lemma_all_words_step(ls: Seq<Seq<char>>, k: int)
    requires 0 <= k < ls.len(),
    ensures all_words(ls.take(k + 1)) == all_words(ls.take(k)) + words(ls[k], 0), size(ls.take(k + 1)) == size(ls.take(k)) + ls[k].len(), size(ls.take(k + 1)) <= size(ls),
{ assert(ls.take(k + 1).drop_last() =~= ls.take(k)); lemma_all_words_size(ls, k + 1); }
pub proof fn lemma_size_split(ls: Seq<Seq<char>>)
    ensures size(ls) == concat(ls).len(),
    decreases ls.len(),
{ if ls.len() > 0 { lemma_size_split(ls.drop_last()); } }
/// lines are shorter than the pieces that end with a newline, and some lines shorter than all
pub proof fn lemma_size_lines(inc: Seq<Seq<char>>, ls: Seq<Seq<char>>)
    requires ls == inc.map_values(|l: Seq<char>| strip_eol(l)),
    ensures size(ls) <= size(inc),
    decreases ls.len(),
{ if ls.len() > 0 { assert(ls.drop_last() =~= inc.drop_last().map_values(|l: Seq<char>| strip_eol(l))); lemma_size_lines(inc.drop_last(), ls.drop_last()); } }
pub proof fn lemma_lines_fit(s: Seq<char>, ls: Seq<Seq<char>>)
    requires is_lines(s, ls),
    ensures size(ls) <= s.len(),
{
    let inc = choose|inc: Seq<Seq<char>>| #[trigger] is_split_inclusive(s, '\n', inc) && ls =~= inc.map_values(|l: Seq<char>| strip_eol(l));
    lemma_size_lines(inc, ls); lemma_size_split(inc);
}
pub proof fn lemma_size_filter(ls: Seq<Seq<char>>, p: spec_fn(Seq<char>) -> bool)
    ensures size(ls.filter(p)) <= size(ls),
    decreases ls.len(),
{
    reveal(Seq::filter);
    if ls.len() > 0 { lemma_size_filter(ls.drop_last(), p); if p(ls.last()) { assert(ls.drop_last().filter(p).push(ls.last()).drop_last() =~= ls.drop_last().filter(p)); } }
}
pub proof fn lemma_chars_bytes(s: Seq<char>)
    ensures s.len() <= encode_utf8(s).len(),
    decreases s.len(),
{ if s.len() > 0 { lemma_chars_bytes(s.drop_last()); assert(s.drop_last() =~= s.take(s.len() - 1)); lemma_bo_next(s, s.len() - 1); lemma_char_len(s.last()); lemma_bo(s, 0, s.len() as int); } }
/// str::char_indices().peekable()
#[verifier::external_body]
pub struct VxChars<'a> { e: core::marker::PhantomData<&'a ()> }
impl<'a> VxChars<'a> {
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, char)>)
        ensures final(self).text() == old(self).text(), match r {
            Some(x) => old(self).pos() < old(self).text().len() && x.0 == bo(old(self).text(), old(self).pos()) && x.1 == old(self).text()[old(self).pos()] && final(self).pos() == old(self).pos() + 1,
            None => old(self).pos() >= old(self).text().len() && final(self).pos() == old(self).pos() },
    { unimplemented!() }
    /// next_if, of a condition on the character
    #[verifier::external_body]
    pub fn vx_next_if<F: Fn(&char) -> bool>(&mut self, f: F) -> (r: Option<(usize, char)>)
        requires forall|c: &char| call_requires(f, (c,)),
        ensures final(self).text() == old(self).text(), match r {
            Some(x) => old(self).pos() < old(self).text().len() && x.0 == bo(old(self).text(), old(self).pos()) && x.1 == old(self).text()[old(self).pos()] && final(self).pos() == old(self).pos() + 1 && call_ensures(f, (&x.1,), true),
            None => final(self).pos() == old(self).pos() && (old(self).pos() < old(self).text().len() ==> call_ensures(f, (&old(self).text()[old(self).pos()],), false)) },
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_peekable<'a>(l: &'a str) -> (r: VxChars<'a>) ensures r.text() == l@, r.pos() == 0 { unimplemented!() }
/// into_iter().map(|(k, v)| (k.to_string(), v)).collect()
#[verifier::external_body]
pub fn vx_owned<'a>(m: HashMap<&'a str, usize>) -> (r: HashMap<String, usize>) ensures r.m() == m.m() { unimplemented!() }

//@methods
//@fn crates/jarl-core/src/lints/base/unused_function/unused_function.rs count_symbols
//@subst `impl Iterator<Item = &'a str>` => `Vec<&'a str>`
//@subst `line.char_indices().peekable()` => `vx_peekable(line)`
//@subst `chars.next_if(|(_, c)|` => `chars.vx_next_if(|c|`
//@subst `*symbols.entry(name).or_insert(0) += 1;` => `vx_add_at(&mut symbols, name, 1);`
//@subst `symbols.into_iter().map(|(k, v)| (k.to_string(), v)).collect()` => `vx_owned(symbols)`
//@ret r
//@contract
    requires size(views(lines@)) <= usize::MAX,
    ensures counts(r.m(), all_words(views(lines@))),
//@closure 0 (c: &char) -> b: bool
    ensures b == name_char(*c),
//@at start
    let ghost ls = views(lines@);
//@at before loop 0
    proof { assert(ls.take(0) =~= Seq::<Seq<char>>::empty()); }
//@loop 0 it
    invariant
        it.seq() == lines@, ls == views(lines@), size(ls) <= usize::MAX, counts(symbols.m(), all_words(ls.take(it.index() as int))),
//@at loop 0 start
    let ghost k = it.index() as int;
    let ghost l = line@;
    let ghost mut w = all_words(ls.take(k));
    proof { assert(ls[k] == line@); lemma_all_words_step(ls, k); lemma_all_words_size(ls, k); lemma_words_size(l, 0); assert(line.spec_bytes().len() <= isize::MAX); encode_utf8_valid_utf8(l); }
//@at before loop 1
    proof { assert(w + words(l, 0) =~= all_words(ls.take(k + 1))); }
//@loop 1 -
    invariant
        chars.text() == l, l == line@, 0 <= chars.pos() <= l.len(), line.spec_bytes().len() <= isize::MAX, size(ls) <= usize::MAX,
        counts(symbols.m(), w), w + words(l, chars.pos()) == all_words(ls.take(k + 1)), all_words(ls.take(k + 1)).len() <= size(ls),
    ensures counts(symbols.m(), all_words(ls.take(k + 1))),
    decreases l.len() - chars.pos(),
//@at loop 1 start
    let ghost p = chars.pos() - 1;
    let ghost vx_so = symbols.m();
    proof { lemma_char_len(l[p]); lemma_bo_next(l, p); lemma_bo(l, p, p + 1); lemma_name_end(l, p + 1); lemma_bo(l, p + 1, l.len() as int); }
//@loop 2 -
    invariant
        chars.text() == l, l == line@, 0 <= p < chars.pos() <= l.len(), line.spec_bytes().len() <= isize::MAX, end == bo(l, chars.pos()), forall|i: int| p + 1 <= i < chars.pos() ==> name_char(#[trigger] l[i]),
    ensures chars.text() == l, p < chars.pos() <= l.len(), end == bo(l, chars.pos()), forall|i: int| p + 1 <= i < chars.pos() ==> name_char(#[trigger] l[i]), chars.pos() < l.len() ==> !name_char(l[chars.pos()]),
    decreases l.len() - chars.pos(),
//@at loop 2 start
    proof { lemma_char_len(l[chars.pos() - 1]); lemma_bo_next(l, chars.pos() - 1); lemma_bo(l, chars.pos(), l.len() as int); }
//@at before let name
    let ghost e = chars.pos();
    proof { lemma_name_end_is(l, p + 1, e); lemma_bo(l, p, e); encode_utf8_valid_utf8(l); }
//@at after let name
    let ghost vx_o = symbols.m();
    proof {
        lemma_slice(l, p, e, name@);
        assert(words(l, p) == seq![name@] + words(l, e));
        assert(w + words(l, p) =~= w.push(name@) + words(l, e));
        lemma_times_push(w, name@, name@);
        assert(cnt(vx_o, name@) == times(w, name@));
    }
//@at loop 1 end
    proof { if name_start(l[p]) { let y = l.subrange(p, name_end(l, p + 1)); lemma_counts(vx_so, symbols.m(), w, y); w = w.push(y); } }
//@at after loop 1
    proof { }
//@at after loop 0
    proof { assert(ls.take(ls.len() as int) =~= ls); }
//@end

/// a line that is no plain comment (roxygen comments, which may call functions, are read)
pub open spec fn read_line(l: Seq<char>) -> bool { let t = trim_start(l); !has_prefix(t, seq!['#']) || has_prefix(t, "#'"@) }
pub open spec fn code_words(s: Seq<char>, w: Seq<Seq<char>>) -> bool { exists|ls: Seq<Seq<char>>| #[trigger] is_lines(s, ls) && w == all_words(ls.filter(|l: Seq<char>| read_line(l))) }
pub open spec fn text_words(s: Seq<char>, w: Seq<Seq<char>>) -> bool { exists|ls: Seq<Seq<char>>| #[trigger] is_lines(s, ls) && w == all_words(ls) }
pub open spec fn counts_code(m: IMap<Seq<char>, usize>, s: Seq<char>) -> bool { exists|w: Seq<Seq<char>>| #[trigger] code_words(s, w) && counts(m, w) }
pub open spec fn counts_text(m: IMap<Seq<char>, usize>, s: Seq<char>) -> bool { exists|w: Seq<Seq<char>>| #[trigger] text_words(s, w) && counts(m, w) }
//@methods lines
//@fn crates/jarl-core/src/lints/base/unused_function/unused_function.rs scan_cpp_symbols
//@ret r
//@contract
    ensures counts_text(r.m(), content@),
//@subst `count_symbols(content.lines())` => `let vx_l = content.lines(); let vx_r = count_symbols(vx_l); vx_r`
//@at before let vx_r
    proof { assert(content.spec_bytes().len() <= isize::MAX); lemma_lines_fit(content@, views(vx_l@)); lemma_chars_bytes(content@); assert(text_words(content@, all_words(views(vx_l@)))); }
//@end

/// the lines that are read (proved)
pub fn vx_read_lines<'a, F: FnMut(&&'a str) -> bool>(v: Vec<&'a str>, f: F) -> (r: Vec<&'a str>)
    requires
        forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (&#[trigger] v@[i],)),
        forall|i: int, b: bool| 0 <= i < v@.len() && #[trigger] call_ensures(f, (&v@[i],), b) ==> b == read_line(v@[i]@),
    ensures views(r@) == views(v@).filter(|l: Seq<char>| read_line(l)), size(views(r@)) <= size(views(v@)),
{
    let ghost s = v@;
    let r = v.vx_filter(f);
    proof {
        let q = |x: &'a str| read_line(x@);
        let o = choose|o: Seq<Option<&'a str>>| r@ == #[trigger] somes(o) && o.len() == s.len() && forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i] == kept(s[i], o[i] is Some) && call_ensures(f, (&s[i],), o[i] is Some));
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] o[i] == kept(s[i], o[i] is Some) && (o[i] is Some) == q(s[i])) by { assert(call_ensures(f, (&s[i],), o[i] is Some)); }
        lemma_somes_filter(s, o, q);
        lemma_views_filter(s);
        lemma_size_filter(views(s), |l: Seq<char>| read_line(l));
    }
    r
}
pub proof fn lemma_views_filter(s: Seq<&str>)
    ensures views(s.filter(|x: &str| read_line(x@))) == views(s).filter(|l: Seq<char>| read_line(l)),
    decreases s.len(),
{
    reveal(Seq::filter);
    let q = |x: &str| read_line(x@); let p = |l: Seq<char>| read_line(l);
    if s.len() > 0 {
        lemma_views_filter(s.drop_last());
        assert(views(s).drop_last() =~= views(s.drop_last()));
        let a = s.drop_last().filter(q);
        assert(views(a.push(s.last())) =~= views(a).push(s.last()@));
        assert(views(s).last() == s.last()@);
        assert(views(s.filter(q)) =~= views(s).filter(p));
    } else { assert(views(s.filter(q)) =~= views(s).filter(p)); }
}
//@methods lines trim_start
//@fn crates/jarl-core/src/lints/base/unused_function/unused_function.rs scan_symbols
//@subst `count_symbols(content.lines().filter(` => `let vx_l = content.lines(); count_symbols(vx_read_lines(vx_l, `
//@subst `.starts_with(` => `.vx_pstarts_with(`
//@ret r
//@contract
    ensures counts_code(r.m(), content@),
//@closure 0 (line: &&str) -> b: bool
    ensures b == read_line(line@)
//@at after let vx_l
    proof { reveal_strlit("#'"); assert(content.spec_bytes().len() <= isize::MAX); lemma_lines_fit(content@, views(vx_l@)); lemma_chars_bytes(content@); assert(code_words(content@, all_words(views(vx_l@).filter(|l: Seq<char>| read_line(l))))); }
//@end

/// the text without the c's at its end
pub open spec fn trim_end_of(s: Seq<char>, c: char) -> Seq<char>
    decreases s.len(),
{ if s.len() > 0 && s.last() == c { trim_end_of(s.drop_last(), c) } else { s } }
pub open spec fn bare(l: Seq<char>) -> Seq<char> { trim_end_of(trim_end_of(l, '\n'), '\r') }
/// what is assigned, in what follows the name
pub open spec fn assigned(t: Seq<char>) -> Option<Seq<char>> {
    if has_prefix(t, "<-"@) { Some(trim_start(t.skip(2))) } else if t.len() > 0 && t[0] == '=' && !(t.len() > 1 && t[1] == '=') { Some(trim_start(t.skip(1))) } else { None }
}
pub open spec fn a_function(t: Seq<char>) -> bool { (has_prefix(t, "function"@) && (t.len() == 8 || !name_char(t[8]))) || (t.len() > 0 && t[0] == '\\') }
/// the length of the name of the function that a line (without its ending) defines at top level
pub open spec fn defined(l: Seq<char>) -> Option<int> {
    let e = name_end(l, 0);
    let a = assigned(trim_start(l.skip(e)));
    if l.len() > 0 && !ws(l[0]) && l[0] != '#' && e > 0 && a is Some && a_function(a->0) { Some(e) } else { None }
}
/// where line i begins
pub open spec fn off(ls: Seq<Seq<char>>, i: int) -> int { encode_utf8(concat(ls.take(i))).len() as int }
pub struct Def { pub name: Seq<char>, pub s: int, pub e: int, pub line: int, pub col: int }
/// the definitions in the first n lines
pub open spec fn found(ls: Seq<Seq<char>>, n: int) -> Seq<Def>
    decreases n,
{
    if n <= 0 { Seq::empty() } else {
        let l = bare(ls[n - 1]);
        found(ls, n - 1) + (match defined(l) { Some(e) => seq![Def { name: l.take(e), s: off(ls, n - 1), e: off(ls, n - 1) + bo(l, e), line: n, col: 1 }], None => Seq::empty() })
    }
}
pub open spec fn def_of(d: (String, TextRange, u32, u32)) -> Def { Def { name: d.0@, s: d.1.s as int, e: d.1.e as int, line: d.2 as int, col: d.3 as int } }
pub open spec fn defs_of(r: Seq<(String, TextRange, u32, u32)>) -> Seq<Def> { r.map_values(|d: (String, TextRange, u32, u32)| def_of(d)) }
pub open spec fn all_found(s: Seq<char>, r: Seq<Def>) -> bool { exists|ls: Seq<Seq<char>>| #[trigger] is_split_inclusive(s, '\n', ls) && r == found(ls, ls.len() as int) }
pub proof fn lemma_off(ls: Seq<Seq<char>>, k: int)
    requires 0 <= k < ls.len(),
    ensures off(ls, k + 1) == off(ls, k) + encode_utf8(ls[k]).len(), off(ls, 0) == 0, off(ls, k + 1) <= encode_utf8(concat(ls)).len(),
{
    assert(ls.take(k + 1).drop_last() =~= ls.take(k));
    lemma_encode_concat(concat(ls.take(k)), ls[k]);
    lemma_concat_split(ls, k + 1);
    lemma_encode_concat(concat(ls.take(k + 1)), concat(ls.skip(k + 1)));
    assert(ls.take(0) =~= Seq::<Seq<char>>::empty());
    assert(encode_utf8(Seq::<char>::empty()).len() == 0) by { reveal_with_fuel(encode_utf8, 2); }
}
pub proof fn lemma_trim_end_of(s: Seq<char>, c: char)
    ensures trim_end_of(s, c).len() <= s.len(), trim_end_of(s, c) == s.take(trim_end_of(s, c).len() as int),
    decreases s.len(),
{ if s.len() > 0 && s.last() == c { lemma_trim_end_of(s.drop_last(), c); assert(s.drop_last().take(trim_end_of(s, c).len() as int) =~= s.take(trim_end_of(s, c).len() as int)); } else { assert(s.take(s.len() as int) =~= s); } }
/// a line that does not begin with a blank is the same without the blanks at its start
pub proof fn lemma_trim_start(s: Seq<char>)
    ensures trim_start(s).len() <= s.len(), s.len() > 0 && !ws(s[0]) ==> trim_start(s) == s, s.len() > 0 && ws(s[0]) ==> trim_start(s).len() < s.len(), encode_utf8(trim_start(s)).len() <= encode_utf8(s).len(),
        s.len() > 0 && ws(s[0]) ==> encode_utf8(trim_start(s)).len() < encode_utf8(s).len(),
    decreases s.len(),
{
    if s.len() > 0 && ws(s[0]) { lemma_trim_start(s.drop_first()); lemma_bo(s, 1, s.len() as int); assert(s.subrange(1, s.len() as int) =~= s.drop_first()); lemma_bo(s, 0, 1); }
}
pub proof fn lemma_ascii_bo(s: Seq<char>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> ascii(#[trigger] s[i]),
    ensures bo(s, n) == n,
    decreases n,
{ if n > 0 { lemma_ascii_bo(s, n - 1); lemma_bo_next(s, n - 1); } else { lemma_bo(s, 0, 0); } }
pub proof fn lemma_rest(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures forall|t: Seq<char>| #[trigger] encode_utf8(t) == encode_utf8(s).subrange(bo(s, k), encode_utf8(s).len() as int) ==> t == s.skip(k),
{ lemma_bo(s, 0, s.len() as int); assert(s.subrange(k, s.len() as int) =~= s.skip(k)); assert forall|t: Seq<char>| #[trigger] encode_utf8(t) == encode_utf8(s).subrange(bo(s, k), encode_utf8(s).len() as int) implies t == s.skip(k) by { lemma_slice(s, k, s.len() as int, t); } }
pub proof fn lemma_prefix1(s: Seq<char>, c: char)
    ensures has_prefix(s, seq![c]) == (s.len() > 0 && s[0] == c),
{ if s.len() > 0 { assert(s.subrange(0, 1)[0] == s[0]); assert(seq![c][0] == c); if s[0] == c { assert(s.subrange(0, 1) =~= seq![c]); } } }
pub proof fn lemma_prefix2(s: Seq<char>, c: char, d: char)
    ensures has_prefix(s, seq![c, d]) == (s.len() > 1 && s[0] == c && s[1] == d),
{ if s.len() > 1 { assert(s.subrange(0, 2)[0] == s[0]); assert(s.subrange(0, 2)[1] == s[1]); assert(seq![c, d][0] == c && seq![c, d][1] == d); if s[0] == c && s[1] == d { assert(s.subrange(0, 2) =~= seq![c, d]); } } }
/// the first character for which the closure says yes
pub open spec fn stops<F: Fn(char) -> bool>(f: F, s: Seq<char>, k: int) -> bool { 0 <= k <= s.len() && (k < s.len() ==> call_ensures(f, (s[k],), true)) && forall|i: int| 0 <= i < k ==> call_ensures(f, (#[trigger] s[i],), false) }
pub trait VxScan {
    spec fn vx_sc(&self) -> Seq<char>;
    fn vx_find_by<F: Fn(char) -> bool>(&self, f: F) -> (r: Option<usize>)
        requires forall|c: char| call_requires(f, (c,)),
        ensures exists|k: int| #[trigger] stops(f, self.vx_sc(), k) && match r { Some(i) => k < self.vx_sc().len() && i == bo(self.vx_sc(), k), None => k == self.vx_sc().len() };
    fn vx_trim_end_matches(&self, c: char) -> (r: &str)
        ensures r@ == trim_end_of(self.vx_sc(), c);
    /// .chars().next().is_none_or(f)
    fn vx_first_is_none_or<F: Fn(char) -> bool>(&self, f: F) -> (r: bool)
        requires forall|c: char| call_requires(f, (c,)),
        ensures self.vx_sc().len() == 0 ==> r, self.vx_sc().len() > 0 ==> call_ensures(f, (self.vx_sc()[0],), r);
}
impl VxScan for str {
    open spec fn vx_sc(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_find_by<F: Fn(char) -> bool>(&self, f: F) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_trim_end_matches(&self, c: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_first_is_none_or<F: Fn(char) -> bool>(&self, f: F) -> (r: bool) { unimplemented!() }
}
//@methods trim_end_matches trim_start split_inclusive
//@fn crates/jarl-core/src/lints/base/duplicated_function_definition/duplicated_function_definition.rs scan_top_level_assignments attr=#[verifier::rlimit(60)]
//@subst `.starts_with(` => `.vx_pstarts_with(`
//@subst `.strip_prefix(` => `.vx_pstrip_prefix(`
//@subst `.find(` => `.vx_find_by(`
//@subst `.chars().next().is_none_or(` => `.vx_first_is_none_or(`
//@ret r
//@contract
    requires encode_utf8(content@).len() < u32::MAX,
    ensures all_found(content@, defs_of(r@)),
//@closure 0 (c: char) -> b: bool
    ensures b == !name_char(c)
//@closure 1 (c: char) -> b: bool
    ensures b == !name_char(c)
//@at before loop 0
    let ghost ls = views(vx_lines@);
    proof { assert(ls.take(0) =~= Seq::<Seq<char>>::empty()); assert(encode_utf8(Seq::<char>::empty()).len() == 0) by { reveal_with_fuel(encode_utf8, 2); } assert(content.spec_bytes().len() <= isize::MAX); }
//@loop 0 it hoist=vx_lines
    invariant
        it.seq() == vx_lines@, ls == views(vx_lines@), is_split_inclusive(content@, '\n', ls), encode_utf8(content@).len() < u32::MAX,
        byte_offset == off(ls, it.index() as int), line_no == it.index() + 1, it.index() <= byte_offset, byte_offset <= encode_utf8(content@).len(),
        defs_of(results@) == found(ls, it.index() as int),
//@at loop 0 start
    let ghost k = it.index() as int;
    let ghost l = ls[k];
    let ghost ro = results@;
    proof {
        assert(ls[k] == line_with_ending@); lemma_off(ls, k); lemma_chars_bytes(l); assert(piece_ok(l, '\n', k + 1 == ls.len()));
        assert(line_with_ending.spec_bytes().len() <= isize::MAX);
        encode_utf8_valid_utf8(l);
    }
//@at before let trimmed
    let ghost b = line@;
    proof {
        assert(b == bare(l)); lemma_trim_end_of(l, '\n'); lemma_trim_end_of(trim_end_of(l, '\n'), '\r'); lemma_trim_start(b); lemma_bo(l, b.len() as int, l.len() as int); assert(l.take(b.len() as int) =~= b);
        lemma_name_end(b, 0); encode_utf8_valid_utf8(b); lemma_bo(b, 0, b.len() as int); assert(line.spec_bytes().len() <= isize::MAX);
    }
//@at after let ident_end
    let ghost e = name_end(b, 0);
    proof { assert forall|j: int| 0 <= j <= b.len() && (forall|i: int| 0 <= i < j ==> name_char(#[trigger] b[i])) && (j < b.len() ==> !name_char(b[j])) implies j == e by { lemma_name_end_is(b, 0, j); } assert(ident_end == bo(b, e)); lemma_bo(b, 0, e); lemma_bo(b, e, b.len() as int); }
//@at after let name
    proof { lemma_slice(b, 0, e, name@); assert(name@ =~= b.take(e)); }
//@at before let after_ident
    proof { lemma_rest(b, e); }
//@at after let after_ident
    let ghost t = after_ident@;
    proof {
        assert(t == trim_start(b.skip(e)));
        reveal_strlit("<-"); reveal_strlit("=="); assert(after_ident.spec_bytes().len() <= isize::MAX); encode_utf8_valid_utf8(t);
        if t.len() > 0 && t[0] == '=' { lemma_ascii_bo(t, 1); lemma_rest(t, 1); lemma_bo(t, 1, t.len() as int); }
        lemma_prefix1(t, '='); lemma_prefix2(t, '=', '=');
    }
//@at after let after_op
    proof { assert(match after_op { Some(x) => assigned(t) == Some(x@), None => assigned(t) is None }); }
//@at before let is_function
    let ghost x = rhs@;
    proof {
        reveal_strlit("function"); assert(rhs.spec_bytes().len() <= isize::MAX); encode_utf8_valid_utf8(x);
        if has_prefix(x, "function"@) { assert forall|i: int| 0 <= i < 8 implies ascii(#[trigger] x[i]) by { assert(x[i] == x.subrange(0, 8)[i]); } lemma_ascii_bo(x, 8); lemma_rest(x, 8); lemma_bo(x, 8, x.len() as int); }
        lemma_prefix1(x, '\\');
    }
//@at after let is_lambda
    proof { assert((is_function || is_lambda) == a_function(x)); }
//@at loop 0 end
    proof { assert(defs_of(results@) =~= found(ls, k + 1)); }
//@at after loop 0
    proof { assert(ls.take(ls.len() as int) =~= ls); }
//@end
