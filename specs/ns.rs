// ---- NAMESPACE ----
/// the text from position `pos` on (str::chars)
#[verifier::external_body]
pub struct VxSrc<'a> { e: core::marker::PhantomData<&'a ()> }
impl<'a> VxSrc<'a> {
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures final(self).text() == old(self).text(), match r {
            Some(x) => old(self).pos() < old(self).text().len() && x == old(self).text()[old(self).pos()] && final(self).pos() == old(self).pos() + 1,
            None => old(self).pos() >= old(self).text().len() && final(self).pos() == old(self).pos() },
    { unimplemented!() }
    /// by_ref().find(|x| *x == c)
    #[verifier::external_body]
    pub fn vx_skip_past(&mut self, c: char) ensures final(self).text() == old(self).text(), final(self).pos() == past(old(self).text(), old(self).pos(), c) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_src<'a>(l: &'a str) -> (r: VxSrc<'a>) ensures r.text() == l@, r.pos() == 0 { unimplemented!() }
/// one after the first c from p on, or the end
pub open spec fn past(s: Seq<char>, p: int, c: char) -> int
    decreases s.len() - p,
{ if p < 0 || p >= s.len() { p } else if s[p] == c { p + 1 } else { past(s, p + 1, c) } }
pub proof fn lemma_past(s: Seq<char>, p: int, c: char)
    requires 0 <= p <= s.len(),
    ensures p <= past(s, p, c) <= s.len(),
    decreases s.len() - p,
{ if p < s.len() && s[p] != c { lemma_past(s, p + 1, c); } }
#[verifier::external_body]
pub fn vx_push(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { unimplemented!() }
/// String::extend by the character, if there is one
#[verifier::external_body]
pub fn vx_push_some(s: &mut String, c: Option<char>) ensures final(s)@ == (match c { Some(x) => old(s)@.push(x), None => old(s)@ }) { unimplemented!() }
/// std::mem::take
#[verifier::external_body]
pub fn vx_taken(s: &mut String) -> (r: String) ensures r@ == old(s)@, final(s)@ == Seq::<char>::empty() { unimplemented!() }

pub open spec fn quoting(c: char) -> bool { c == '"' || c == '\'' || c == '`' }
/// the pieces of a NAMESPACE, from position i on: `piece` was read since the last one, inside of `depth` parentheses and of the quote
pub open spec fn pieces_from(s: Seq<char>, i: int, piece: Seq<char>, depth: int, quote: Option<char>) -> Seq<Seq<char>>
    decreases s.len() - i,
    via pieces_decreases
{
    let none = Seq::<char>::empty();
    if i < 0 || i >= s.len() { seq![piece] } else {
        let c = s[i];
        match quote {
            // in a text, up to the quote that ends it; a backslash takes the next character along, except in backticks
            Some(q) => if c == '\\' && q != '`' { if i + 1 < s.len() { pieces_from(s, i + 2, piece.push(c).push(s[i + 1]), depth, quote) } else { seq![piece.push(c)] } }
                else { pieces_from(s, i + 1, piece.push(c), depth, if c == q { None } else { quote }) },
            None =>
                // a comment ends the piece, unless parentheses are open
                if c == '#' { if depth == 0 { seq![piece] + pieces_from(s, past(s, i + 1, '\n'), none, 0, None) } else { pieces_from(s, past(s, i + 1, '\n'), piece, depth, None) } }
                // so do the end of the line and a semicolon
                else if (c == '\n' || c == ';') && depth == 0 { seq![piece] + pieces_from(s, i + 1, none, 0, None) }
                else if c == '\n' { pieces_from(s, i + 1, piece.push(' '), depth, None) }
                // and the parenthesis that closes the outermost one
                else if c == ')' { if depth <= 1 { seq![piece.push(c)] + pieces_from(s, i + 1, none, 0, None) } else { pieces_from(s, i + 1, piece.push(c), depth - 1, None) } }
                else { pieces_from(s, i + 1, piece.push(c), if c == '(' { depth + 1 } else { depth }, if quoting(c) { Some(c) } else { None }) },
        }
    }
}
#[via_fn]
proof fn pieces_decreases(s: Seq<char>, i: int, piece: Seq<char>, depth: int, quote: Option<char>) { if 0 <= i < s.len() { lemma_past(s, i + 1, '\n'); } }
pub open spec fn pieces_of(s: Seq<char>) -> Seq<Seq<char>> { pieces_from(s, 0, Seq::empty(), 0, None) }
//@methods
//@fn crates/jarl-core/src/lints/base/unused_function/unused_function.rs namespace_directives attr=#[verifier::rlimit(60)]
//@subst `content.chars()` => `vx_src(content)`
//@subst `piece.push(c)` => `vx_push(&mut piece, c)`
//@subst `piece.push(' ')` => `vx_push(&mut piece, ' ')`
//@subst `piece.extend(chars.next())` => `vx_push_some(&mut piece, chars.next())`
//@subst `let _ = chars.by_ref().find(|c| *c == '\n')` => `chars.vx_skip_past('\n')`
//@subst `'\n' | ';' if depth == 0 => pieces.push(std::mem::take(&mut piece)),` => `'\n' if depth == 0 => pieces.push(std::mem::take(&mut piece)), ';' if depth == 0 => pieces.push(std::mem::take(&mut piece)),`
//@subst `std::mem::take(&mut piece)` => `vx_taken(&mut piece)`
//@ret r
//@contract
    ensures sviews(r@) == pieces_of(content@),
//@at start
    let ghost s = content@;
    proof { assert(content.spec_bytes().len() <= isize::MAX); lemma_chars_bytes(s); }
//@at before loop 0
    proof { assert(sviews(pieces@) + pieces_of(s) =~= pieces_of(s)); assert(piece@ =~= Seq::<char>::empty()); }
//@loop 0 -
    invariant
        s == content@, s.len() <= isize::MAX, chars.text() == s, 0 <= chars.pos() <= s.len(), depth <= chars.pos(),
        sviews(pieces@) + pieces_from(s, chars.pos(), piece@, depth as int, quote) == pieces_of(s),
    ensures sviews(pieces@).push(piece@) == pieces_of(s),
    decreases s.len() - chars.pos(),
//@at loop 0 start
    let ghost i = chars.pos() - 1;
    let ghost vo = sviews(pieces@);
    let ghost po = piece@;
    let ghost dp = depth as int;
    proof { lemma_past(s, i + 1, '\n'); lemma_pushed(vo, po, pieces_from(s, i + 1, Seq::empty(), 0, None)); lemma_pushed(vo, po.push(c), pieces_from(s, i + 1, Seq::empty(), 0, None)); lemma_pushed(vo, po, pieces_from(s, past(s, i + 1, '\n'), Seq::empty(), 0, None)); }
//@end
pub proof fn lemma_pushed(v: Seq<Seq<char>>, p: Seq<char>, z: Seq<Seq<char>>)
    ensures v + (seq![p] + z) == v.push(p) + z,
{ assert(v + (seq![p] + z) =~= v.push(p) + z); }
/// where p first occurs in l, from position k on
pub open spec fn find_text(l: Seq<char>, p: Seq<char>, k: int) -> Option<int>
    decreases l.len() - k + 1,
{ if k < 0 || k > l.len() { None } else if has_prefix(l.skip(k), p) { Some(k) } else { find_text(l, p, k + 1) } }
pub proof fn lemma_find_text(l: Seq<char>, p: Seq<char>, k: int)
    requires 0 <= k <= l.len() + 1,
    ensures find_text(l, p, k) is Some ==> k <= find_text(l, p, k)->0 && find_text(l, p, k)->0 + p.len() <= l.len() && l.subrange(find_text(l, p, k)->0, find_text(l, p, k)->0 + p.len()) == p,
    decreases l.len() - k + 1,
{ if k <= l.len() { if has_prefix(l.skip(k), p) { assert(l.skip(k).subrange(0, p.len() as int) =~= l.subrange(k, k + p.len())); } else { lemma_find_text(l, p, k + 1); } } }
/// where c last occurs in s
pub open spec fn rfind(s: Seq<char>, c: char) -> Option<int>
    decreases s.len(),
{ if s.len() == 0 { None } else if s.last() == c { Some(s.len() - 1) } else { rfind(s.drop_last(), c) } }
pub proof fn lemma_rfind(s: Seq<char>, c: char)
    ensures rfind(s, c) is Some ==> 0 <= rfind(s, c)->0 < s.len(),
    decreases s.len(),
{ if s.len() > 0 && s.last() != c { lemma_rfind(s.drop_last(), c); } }
pub open spec fn trim_start_of(s: Seq<char>, c: char) -> Seq<char>
    decreases s.len(),
{ if s.len() > 0 && s[0] == c { trim_start_of(s.drop_first(), c) } else { s } }
pub trait VxNs {
    spec fn vx_n(&self) -> Seq<char>;
    fn vx_find_text(&self, p: &String) -> (r: Option<usize>)
        ensures match r { Some(i) => find_text(self.vx_n(), p@, 0) is Some && i == bo(self.vx_n(), find_text(self.vx_n(), p@, 0)->0), None => find_text(self.vx_n(), p@, 0) is None };
    fn vx_rfind(&self, c: char) -> (r: Option<usize>)
        ensures match r { Some(i) => rfind(self.vx_n(), c) is Some && i == bo(self.vx_n(), rfind(self.vx_n(), c)->0), None => rfind(self.vx_n(), c) is None };
    fn vx_trim_matches(&self, c: char) -> (r: &str)
        ensures r@ == trim_end_of(trim_start_of(self.vx_n(), c), c);
    /// splitn(4, c).collect(): the first three parts are those of split
    fn vx_split4(&self, c: char) -> (r: Vec<&str>)
        ensures r@.len() == (if split(self.vx_n(), c).len() <= 4 { split(self.vx_n(), c).len() } else { 4 }), forall|i: int| 0 <= i < r@.len() && i < 3 ==> (#[trigger] r@[i])@ == split(self.vx_n(), c)[i];
    /// rsplit_once("::").map(|(_, g)| g).unwrap_or(the whole)
    fn vx_after_colons(&self) -> (r: &str)
        ensures r@ == after_colons(self.vx_n(), self.vx_n().len() as int);
}
impl VxNs for str {
    open spec fn vx_n(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_find_text(&self, p: &String) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_rfind(&self, c: char) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_trim_matches(&self, c: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_split4(&self, c: char) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_after_colons(&self) -> (r: &str) { unimplemented!() }
}
/// what follows the last `::` that begins before position k
pub open spec fn after_colons(s: Seq<char>, k: int) -> Seq<char>
    decreases k,
{ if k <= 0 { s } else if k < s.len() && s[k - 1] == ':' && s[k] == ':' { s.skip(k + 1) } else { after_colons(s, k - 1) } }
/// format!("{d}(")
#[verifier::external_body]
pub fn vx_paren(d: &str) -> (r: String) ensures r@ == d@.push('(') { unimplemented!() }
/// format!("{a}.{b}")
#[verifier::external_body]
pub fn vx_dotted(a: &str, b: &str) -> (r: String) ensures r@ == a@.push('.') + b@ { unimplemented!() }
pub open spec fn word_byte(b: u8) -> bool { (0x30 <= b <= 0x39) || (0x41 <= b <= 0x5a) || (0x61 <= b <= 0x7a) || b == 0x5f }
#[verifier::external_body]
pub fn vx_alnum_byte(b: u8) -> (r: bool) ensures r == (word_byte(b) && b != 0x5f) { b.is_ascii_alphanumeric() }
/// the arguments of a directive: what is between its parenthesis and the last one of the piece, if the directive is no part of a longer word
pub open spec fn args_of(l: Seq<char>, d: Seq<char>) -> Option<Seq<char>> {
    match find_text(l, d.push('('), 0) {
        None => None,
        Some(k) => if k > 0 && word_byte(encode_utf8(l)[bo(l, k) - 1]) { None } else {
            let rest = l.skip(k + d.len() + 1);
            match rfind(rest, ')') { None => None, Some(n) => Some(rest.take(n)) }
        },
    }
}
//@methods rfind
//@fn crates/jarl-core/src/lints/base/unused_function/unused_function.rs extract_directive
//@subst `format!("{directive}(")` => `vx_paren(directive)`
//@subst `line.find(&dir_with_paren)` => `line.vx_find_text(&dir_with_paren)`
//@subst `prev.is_ascii_alphanumeric()` => `vx_alnum_byte(prev)`
//@ret r
//@contract
    ensures match r { Some(x) => args_of(line@, directive@) == Some(x@), None => args_of(line@, directive@) is None },
//@at start
    let ghost l = line@;
    let ghost p = directive@.push('(');
    let ghost k = find_text(l, p, 0)->0;
    proof {
        assert(line.spec_bytes().len() <= isize::MAX); encode_utf8_valid_utf8(l); lemma_find_text(l, p, 0);
        if find_text(l, p, 0) is Some { lemma_bo(l, 0, k); lemma_bo(l, k, k + p.len()); lemma_bo(l, k + p.len(), l.len() as int); lemma_rest(l, k + p.len() as int); }
    }
//@at after let rest
    let ghost rr = rest@;
    proof { assert(rr == l.skip(k + p.len())); lemma_rfind(rr, ')'); encode_utf8_valid_utf8(rr); assert(rest.spec_bytes().len() <= isize::MAX); if rfind(rr, ')') is Some { let n = rfind(rr, ')')->0; lemma_bo(rr, 0, n); lemma_bo(rr, n, rr.len() as int); assert forall|t: Seq<char>| #[trigger] encode_utf8(t) == encode_utf8(rr).subrange(0, bo(rr, n)) implies t == rr.take(n) by { lemma_slice(rr, 0, n, t); assert(rr.subrange(0, n) =~= rr.take(n)); } } }
//@end
pub open spec fn unquoted(s: Seq<char>) -> Seq<char> { let a = trim(s); let b = trim_end_of(trim_start_of(a, '"'), '"'); let c = trim_end_of(trim_start_of(b, '\''), '\''); trim_end_of(trim_start_of(c, '`'), '`') }
//@methods trim trim_matches
//@fn crates/jarl-core/src/lints/base/unused_function/unused_function.rs unquote
//@ret r
//@contract
    ensures r@ == unquoted(name@),
//@end
/// the texts of a call, from position i on: a backslash stands for the character after it
pub open spec fn patterns_from(s: Seq<char>, i: int, p: Seq<char>, quote: Option<char>) -> Seq<Seq<char>>
    decreases s.len() - i,
{
    if i < 0 || i >= s.len() { Seq::empty() } else {
        let c = s[i];
        match quote {
            None => patterns_from(s, i + 1, p, if c == '"' || c == '\'' { Some(c) } else { None }),
            Some(q) => if c == '\\' { if i + 1 < s.len() { patterns_from(s, i + 2, p.push(s[i + 1]), quote) } else { Seq::empty() } }
                else if c == q { seq![p] + patterns_from(s, i + 1, Seq::empty(), None) }
                else { patterns_from(s, i + 1, p.push(c), quote) },
        }
    }
}
pub open spec fn patterns_of(s: Seq<char>) -> Seq<Seq<char>> { patterns_from(s, 0, Seq::empty(), None) }
//@methods
//@fn crates/jarl-core/src/lints/base/unused_function/unused_function.rs export_patterns attr=#[verifier::rlimit(60)]
//@subst `args.chars()` => `vx_src(args)`
//@subst `pattern.push(c)` => `vx_push(&mut pattern, c)`
//@subst `pattern.extend(chars.next())` => `vx_push_some(&mut pattern, chars.next())`
//@subst `std::mem::take(&mut pattern)` => `vx_taken(&mut pattern)`
//@ret r
//@contract
    ensures sviews(r@) == patterns_of(args@),
//@at start
    let ghost s = args@;
//@at before loop 0
    proof { assert(sviews(patterns@) + patterns_of(s) =~= patterns_of(s)); assert(pattern@ =~= Seq::<char>::empty()); }
//@loop 0 -
    invariant
        s == args@, chars.text() == s, 0 <= chars.pos() <= s.len(),
        sviews(patterns@) + patterns_from(s, chars.pos(), pattern@, quote) == patterns_of(s),
    ensures sviews(patterns@) == patterns_of(s),
    decreases s.len() - chars.pos(),
//@at loop 0 start
    let ghost i = chars.pos() - 1;
    proof { lemma_pushed(sviews(patterns@), pattern@, patterns_from(s, i + 1, Seq::empty(), None)); }
//@end

// ---- what it exports ----
pub open spec fn kind(i: int) -> Seq<char> { if i == 0 { "export"@ } else if i == 1 { "exportPattern"@ } else if i == 2 { "S3method"@ } else if i == 3 { "exportMethods"@ } else { "exportClasses"@ } }
/// the first kind of directive, from the i-th on, that the piece is
pub open spec fn kind_of(t: Seq<char>, i: int) -> Option<int>
    decreases 5 - i,
{ if i < 0 || i >= 5 { None } else if args_of(t, kind(i)) is Some { Some(i) } else { kind_of(t, i + 1) } }
/// regular expressions
pub uninterp spec fn regex_ok(p: Seq<char>) -> bool;
pub uninterp spec fn regex_hits(p: Seq<char>, x: Seq<char>) -> bool;
pub open spec fn listed(ns: Seq<Seq<char>>, n: int, x: Seq<char>) -> bool { x.len() > 0 && exists|j: int| 0 <= j < n && unquoted(#[trigger] ns[j]) == x }
pub open spec fn matched(ps: Seq<Seq<char>>, n: int, names: Seq<Seq<char>>, x: Seq<char>) -> bool { names.contains(x) && exists|j: int| 0 <= j < n && regex_ok(#[trigger] ps[j]) && regex_hits(ps[j], x) }
/// S3method(generic, class) registers generic.class, S3method(generic, class, f) registers f
pub open spec fn method_of(ps: Seq<Seq<char>>, x: Seq<char>) -> bool {
    if ps.len() < 2 { false } else if ps.len() >= 3 { x.len() > 0 && x == unquoted(ps[2]) } else { let g = unquoted(ps[0]); x == after_colons(g, g.len() as int).push('.') + unquoted(ps[1]) }
}
/// a piece of the NAMESPACE exports x
pub open spec fn exports(piece: Seq<char>, names: Seq<Seq<char>>, x: Seq<char>) -> bool {
    let t = trim(piece);
    match kind_of(t, 0) {
        None => false,
        Some(i) => { let a = args_of(t, kind(i))->0; if i == 1 { matched(patterns_of(a), patterns_of(a).len() as int, names, x) } else if i == 2 { method_of(split(a, ','), x) } else { listed(split(a, ','), split(a, ',').len() as int, x) } },
    }
}
pub open spec fn some_exports(ps: Seq<Seq<char>>, n: int, names: Seq<Seq<char>>, x: Seq<char>) -> bool { exists|i: int| 0 <= i < n && exports(#[trigger] ps[i], names, x) }
#[verifier::opaque]
pub open spec fn exported(ns: Seq<char>, names: Seq<Seq<char>>) -> ISet<Seq<char>> { ISet::new(|x: Seq<char>| some_exports(pieces_of(ns), pieces_of(ns).len() as int, names, x)) }
impl Regex {
    #[verifier::external_body]
    pub fn new(p: &String) -> (r: core::result::Result<Regex, ()>) ensures match r { Ok(re) => regex_ok(p@) && forall|x: Seq<char>| #[trigger] re.hits(x) == regex_hits(p@, x), Err(_) => !regex_ok(p@) } { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_five<'a>(a: &'a str, b: &'a str, c: &'a str, d: &'a str, e: &'a str) -> (r: Vec<&'a str>) ensures r@ == seq![a, b, c, d, e] { unimplemented!() }
/// the set holds what the first n pieces export and what `more` says
pub open spec fn holds(e: ISet<Seq<char>>, ps: Seq<Seq<char>>, n: int, names: Seq<Seq<char>>, more: spec_fn(Seq<char>) -> bool) -> bool { forall|x: Seq<char>| #[trigger] e.contains(x) == (some_exports(ps, n, names, x) || more(x)) }
pub open spec fn nothing() -> spec_fn(Seq<char>) -> bool { |x: Seq<char>| false }
pub open spec fn these(ns: Seq<Seq<char>>, n: int) -> spec_fn(Seq<char>) -> bool { |x: Seq<char>| listed(ns, n, x) }
pub open spec fn hit(ps: Seq<Seq<char>>, n: int, names: Seq<Seq<char>>, m: int) -> spec_fn(Seq<char>) -> bool { |x: Seq<char>| matched(ps, n, names, x) || (n < ps.len() && regex_ok(ps[n]) && regex_hits(ps[n], x) && names.take(m).contains(x)) }
pub proof fn lemma_some_next(ps: Seq<Seq<char>>, n: int, names: Seq<Seq<char>>, x: Seq<char>)
    requires 0 <= n < ps.len(),
    ensures some_exports(ps, n + 1, names, x) == (some_exports(ps, n, names, x) || exports(ps[n], names, x)),
{
    if some_exports(ps, n + 1, names, x) { let i = choose|i: int| 0 <= i < n + 1 && exports(#[trigger] ps[i], names, x); if i < n { assert(exports(ps[i], names, x)); } }
    if exports(ps[n], names, x) { assert(exports(ps[n], names, x)); }
}
pub proof fn lemma_piece_done(e: ISet<Seq<char>>, ps: Seq<Seq<char>>, n: int, names: Seq<Seq<char>>, more: spec_fn(Seq<char>) -> bool)
    requires 0 <= n < ps.len(), holds(e, ps, n, names, more), forall|x: Seq<char>| #[trigger] more(x) == exports(ps[n], names, x),
    ensures holds(e, ps, n + 1, names, nothing()),
{ assert forall|x: Seq<char>| #[trigger] e.contains(x) == (some_exports(ps, n + 1, names, x) || nothing()(x)) by { lemma_some_next(ps, n, names, x); assert(more(x) == exports(ps[n], names, x)); } }
pub proof fn lemma_listed_next(o: ISet<Seq<char>>, e: ISet<Seq<char>>, ps: Seq<Seq<char>>, n: int, names: Seq<Seq<char>>, ns: Seq<Seq<char>>, j: int)
    requires 0 <= j < ns.len(), holds(o, ps, n, names, these(ns, j)), e == (if unquoted(ns[j]).len() > 0 { o.insert(unquoted(ns[j])) } else { o }),
    ensures holds(e, ps, n, names, these(ns, j + 1)),
{
    assert forall|x: Seq<char>| #[trigger] e.contains(x) == (some_exports(ps, n, names, x) || these(ns, j + 1)(x)) by {
        assert(o.contains(x) == (some_exports(ps, n, names, x) || these(ns, j)(x)));
        if listed(ns, j + 1, x) { let i = choose|i: int| 0 <= i < j + 1 && unquoted(#[trigger] ns[i]) == x; if i < j { assert(listed(ns, j, x)); } }
        if x == unquoted(ns[j]) && x.len() > 0 { assert(listed(ns, j + 1, x)); }
        if listed(ns, j, x) { let i = choose|i: int| 0 <= i < j && unquoted(#[trigger] ns[i]) == x; assert(unquoted(ns[i]) == x); assert(listed(ns, j + 1, x)); }
    }
}
pub proof fn lemma_hit_name(o: ISet<Seq<char>>, e: ISet<Seq<char>>, ps: Seq<Seq<char>>, n: int, names: Seq<Seq<char>>, es: Seq<Seq<char>>, k: int, m: int)
    requires 0 <= k < es.len(), 0 <= m < names.len(), holds(o, ps, n, names, hit(es, k, names, m)), regex_ok(es[k]), e == (if regex_hits(es[k], names[m]) { o.insert(names[m]) } else { o }),
    ensures holds(e, ps, n, names, hit(es, k, names, m + 1)),
{
    assert(names.take(m + 1) =~= names.take(m).push(names[m]));
    assert forall|x: Seq<char>| #[trigger] e.contains(x) == (some_exports(ps, n, names, x) || hit(es, k, names, m + 1)(x)) by {
        assert(o.contains(x) == (some_exports(ps, n, names, x) || hit(es, k, names, m)(x)));
        assert(names.take(m + 1).contains(x) == (names.take(m).contains(x) || x == names[m])) by { if names.take(m).contains(x) { let i = names.take(m).index_of(x); assert(names.take(m + 1)[i] == x); } assert(names.take(m + 1)[m] == names[m]); }
    }
}
pub proof fn lemma_hit_next(e: ISet<Seq<char>>, ps: Seq<Seq<char>>, n: int, names: Seq<Seq<char>>, es: Seq<Seq<char>>, k: int)
    requires 0 <= k < es.len(), (holds(e, ps, n, names, hit(es, k, names, names.len() as int)) && regex_ok(es[k])) || (holds(e, ps, n, names, hit(es, k, names, 0)) && !regex_ok(es[k])),
    ensures holds(e, ps, n, names, hit(es, k + 1, names, 0)),
{
    assert(names.take(names.len() as int) =~= names);
    assert forall|x: Seq<char>| #[trigger] e.contains(x) == (some_exports(ps, n, names, x) || hit(es, k + 1, names, 0)(x)) by {
        assert(!names.take(0).contains(x));
        if regex_ok(es[k]) { assert(e.contains(x) == (some_exports(ps, n, names, x) || hit(es, k, names, names.len() as int)(x))); } else { assert(e.contains(x) == (some_exports(ps, n, names, x) || hit(es, k, names, 0)(x))); }
        lemma_matched_next(es, k, names, x);
    }
}
pub proof fn lemma_matched_next(es: Seq<Seq<char>>, k: int, names: Seq<Seq<char>>, x: Seq<char>)
    requires 0 <= k < es.len(),
    ensures matched(es, k + 1, names, x) == (matched(es, k, names, x) || (names.contains(x) && regex_ok(es[k]) && regex_hits(es[k], x))),
{
    if matched(es, k + 1, names, x) { let j = choose|j: int| 0 <= j < k + 1 && regex_ok(#[trigger] es[j]) && regex_hits(es[j], x); if j < k { assert(matched(es, k, names, x)); } }
    if matched(es, k, names, x) { let j = choose|j: int| 0 <= j < k && regex_ok(#[trigger] es[j]) && regex_hits(es[j], x); assert(regex_ok(es[j])); }
}
pub proof fn lemma_hit_start(e: ISet<Seq<char>>, ps: Seq<Seq<char>>, n: int, names: Seq<Seq<char>>, es: Seq<Seq<char>>)
    requires holds(e, ps, n, names, nothing()),
    ensures holds(e, ps, n, names, hit(es, 0, names, 0)),
{ assert forall|x: Seq<char>| #[trigger] e.contains(x) == (some_exports(ps, n, names, x) || hit(es, 0, names, 0)(x)) by { assert(!names.take(0).contains(x)); assert(e.contains(x) == (some_exports(ps, n, names, x) || nothing()(x))); } }
pub proof fn lemma_kinds()
    ensures forall|i: int, j: int| 0 <= i < 5 && 0 <= j < 5 && #[trigger] kind(i) == #[trigger] kind(j) ==> i == j,
{
    reveal_strlit("export"); reveal_strlit("exportPattern"); reveal_strlit("S3method"); reveal_strlit("exportMethods"); reveal_strlit("exportClasses");
    assert(kind(1)[6] == 'P' && kind(3)[6] == 'M' && kind(4)[6] == 'C');
    assert(kind(0).len() == 6 && kind(1).len() == 13 && kind(2).len() == 8 && kind(3).len() == 13 && kind(4).len() == 13);
}
pub proof fn lemma_no_kind(t: Seq<char>, i: int)
    requires t.len() == 0, 0 <= i <= 5,
    ensures kind_of(t, i) is None,
    decreases 5 - i,
{ if i < 5 { lemma_find_text(t, kind(i).push('('), 0); lemma_no_kind(t, i + 1); } }
pub proof fn lemma_piece_none(e: ISet<Seq<char>>, ps: Seq<Seq<char>>, n: int, names: Seq<Seq<char>>)
    requires 0 <= n < ps.len(), holds(e, ps, n, names, nothing()),
    ensures kind_of(trim(ps[n]), 0) is None || trim(ps[n]).len() == 0 ==> holds(e, ps, n + 1, names, nothing()),
{
    if trim(ps[n]).len() == 0 { lemma_no_kind(trim(ps[n]), 0); }
    if kind_of(trim(ps[n]), 0) is None { assert forall|x: Seq<char>| nothing()(x) == exports(ps[n], names, x) by { } lemma_piece_done(e, ps, n, names, nothing()); }
}
/// what a directive of kind i exports
pub open spec fn of_kind(i: int, a: Seq<char>, names: Seq<Seq<char>>) -> spec_fn(Seq<char>) -> bool { |x: Seq<char>| if i == 1 { matched(patterns_of(a), patterns_of(a).len() as int, names, x) } else if i == 2 { method_of(split(a, ','), x) } else { listed(split(a, ','), split(a, ',').len() as int, x) } }
pub open spec fn this_method(o: ISet<Seq<char>>, e: ISet<Seq<char>>, s: Seq<Seq<char>>) -> bool {
    if s.len() < 2 { e == o } else if s.len() >= 3 { e == (if unquoted(s[2]).len() > 0 { o.insert(unquoted(s[2])) } else { o }) } else { let g = unquoted(s[0]); e == o.insert(after_colons(g, g.len() as int).push('.') + unquoted(s[1])) }
}
pub proof fn lemma_directive(o: ISet<Seq<char>>, e: ISet<Seq<char>>, ps: Seq<Seq<char>>, n: int, names: Seq<Seq<char>>, i: int)
    requires 0 <= n < ps.len(), holds(o, ps, n, names, nothing()), kind_of(trim(ps[n]), 0) == Some(i), 0 <= i < 5, args_of(trim(ps[n]), kind(i)) is Some,
        ({ let a = args_of(trim(ps[n]), kind(i))->0; if i == 1 { holds(e, ps, n, names, hit(patterns_of(a), patterns_of(a).len() as int, names, 0)) } else if i == 2 { this_method(o, e, split(a, ',')) } else { holds(e, ps, n, names, these(split(a, ','), split(a, ',').len() as int)) } }),
    ensures holds(e, ps, n + 1, names, nothing()),
{
    let a = args_of(trim(ps[n]), kind(i))->0;
    let m = of_kind(i, a, names);
    assert forall|x: Seq<char>| #[trigger] e.contains(x) == (some_exports(ps, n, names, x) || m(x)) by {
        assert(o.contains(x) == (some_exports(ps, n, names, x) || nothing()(x)));
        if i == 1 { assert(e.contains(x) == (some_exports(ps, n, names, x) || hit(patterns_of(a), patterns_of(a).len() as int, names, 0)(x))); }
        else if i != 2 { assert(e.contains(x) == (some_exports(ps, n, names, x) || these(split(a, ','), split(a, ',').len() as int)(x))); }
    }
    lemma_piece_done(e, ps, n, names, m);
}
//@methods trim split
//@fn crates/jarl-core/src/lints/base/unused_function/unused_function.rs parse_namespace_exports attr=#[verifier::rlimit(100)]
//@subst `&[&str]` => `&Vec<&str>`
//@subst `["export", "exportPattern", "S3method", "exportMethods", "exportClasses",]` => `vx_five("export", "exportPattern", "S3method", "exportMethods", "exportClasses")`
//@subst `extract_directive(trimmed, directive)` => `extract_directive(trimmed, directive)`
//@subst `inner.splitn(4, ',').collect()` => `inner.vx_split4(',')`
//@subst `raw_generic.rsplit_once("::").map(|(_, g)| g).unwrap_or(raw_generic)` => `raw_generic.vx_after_colons()`
//@subst `format!("{generic}.{class}")` => `vx_dotted(generic, class)`
//@subst `for &name in all_names {` => `for vx_n in all_names { let name = *vx_n;`
//@ret r
//@contract
    ensures r.texts() == exported(content@, all_names@.map_values(|s: &str| s@)),
//@at start
    let ghost names = all_names@.map_values(|s: &str| s@);
    let ghost ps = pieces_of(content@);
//@at before loop 0
    proof { assert(holds(exports.texts(), ps, 0, names, nothing())); reveal(exported); }
//@loop 0 it hoist=vx_ps
    invariant
        it.seq() == vx_ps@, sviews(vx_ps@) == ps, names == all_names@.map_values(|s: &str| s@), holds(exports.texts(), ps, it.index() as int, names, nothing()),
//@at loop 0 start
    let ghost n = it.index() as int;
    proof { assert(ps[n] == piece@); lemma_kinds(); lemma_piece_none(exports.texts(), ps, n, names); }
//@loop 1 it1 hoist=vx_ds
    invariant_except_break
        holds(exports.texts(), ps, n, names, nothing()), kind_of(trimmed@, 0) == kind_of(trimmed@, it1.index() as int),
    invariant
        it1.seq() == vx_ds@, vx_ds@.len() == 5, forall|i: int| 0 <= i < 5 ==> (#[trigger] vx_ds@[i])@ == kind(i), 0 <= n < ps.len(), trimmed@ == trim(ps[n]), names == all_names@.map_values(|s: &str| s@),
    ensures holds(exports.texts(), ps, n + 1, names, nothing()) || (holds(exports.texts(), ps, n, names, nothing()) && kind_of(trimmed@, 0) is None),
//@at loop 1 start
    let ghost i = it1.index() as int;
    let ghost t = trimmed@;
    let ghost vx_b = exports.texts();
    proof { lemma_kinds(); assert(directive@ == kind(i)); assert(kind(0) == "export"@ && kind(1) == "exportPattern"@ && kind(2) == "S3method"@ && kind(3) == "exportMethods"@ && kind(4) == "exportClasses"@); }
//@at before `break`
    proof { assert(args_of(t, kind(i)) == Some(inner@)); assert(i == 2 ==> this_method(vx_b, exports.texts(), split(inner@, ','))); lemma_directive(vx_b, exports.texts(), ps, n, names, i); }
//@at after loop 1
    proof { if holds(exports.texts(), ps, n, names, nothing()) { lemma_piece_none(exports.texts(), ps, n, names); } }
//@loop 2 it2 hoist=vx_c2
    invariant it2.seq() == vx_c2@, views(vx_c2@) == split(inner@, ','), holds(exports.texts(), ps, n, names, these(views(vx_c2@), it2.index() as int)),
//@at loop 2 start
    let ghost vx_o = exports.texts();
//@at loop 2 end
    proof { lemma_listed_next(vx_o, exports.texts(), ps, n, names, views(vx_c2@), it2.index() as int); }
//@loop 3 it3 hoist=vx_c3
    invariant it3.seq() == vx_c3@, sviews(vx_c3@) == patterns_of(inner@), names == all_names@.map_values(|s: &str| s@), holds(exports.texts(), ps, n, names, hit(sviews(vx_c3@), it3.index() as int, names, 0)),
//@at before loop 3
    proof { lemma_hit_start(exports.texts(), ps, n, names, sviews(vx_c3@)); }
//@at loop 3 start
    let ghost k = it3.index() as int;
//@at loop 3 end
    proof { lemma_hit_next(exports.texts(), ps, n, names, sviews(vx_c3@), k); }
//@at loop 4 start
    let ghost vx_o = exports.texts();
    proof { assert(*vx_n == all_names@[it4.index() as int]); }
//@at loop 4 end
    proof { lemma_hit_name(vx_o, exports.texts(), ps, n, names, sviews(vx_c3@), k, it4.index() as int); }
//@loop 4 it4
    invariant 0 <= k < vx_c3@.len(), k == it3.index(), regex_ok(sviews(vx_c3@)[k]), forall|x: Seq<char>| #[trigger] re.hits(x) == regex_hits(sviews(vx_c3@)[k], x), forall|i: int| 0 <= i < all_names@.len() ==> *(#[trigger] it4.seq()[i]) == all_names@[i], it4.seq().len() == all_names@.len(), names == all_names@.map_values(|s: &str| s@), holds(exports.texts(), ps, n, names, hit(sviews(vx_c3@), it3.index() as int, names, it4.index() as int)),
//@at after loop 0
    proof {
        assert forall|x: Seq<char>| exports.texts().contains(x) == exported(content@, names).contains(x) by { assert(exports.texts().contains(x) == (some_exports(ps, ps.len() as int, names, x) || nothing()(x))); }
        assert(exports.texts() =~= exported(content@, names));
    }
//@loop 5 it5 hoist=vx_c5
    invariant it5.seq() == vx_c5@, views(vx_c5@) == split(inner@, ','), holds(exports.texts(), ps, n, names, these(views(vx_c5@), it5.index() as int)),
//@at loop 5 start
    let ghost vx_o = exports.texts();
//@at loop 5 end
    proof { lemma_listed_next(vx_o, exports.texts(), ps, n, names, views(vx_c5@), it5.index() as int); }
//@end
