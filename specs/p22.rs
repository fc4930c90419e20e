// P22: what is reported for an Rmd/Qmd file
use vstd::prelude::*;
verus! {
mod vx {
use vstd::prelude::*;
//@include vlib.rs
//@include vlib_str.rs
//@include vlib_iter.rs
//@include vlib_text.rs
impl vstd::std_specs::ops::AddSpecImpl<TextSize> for TextSize {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: TextSize) -> bool { self.raw + o.raw <= u32::MAX }
    open spec fn add_spec(self, o: TextSize) -> TextSize { TextSize { raw: (self.raw + o.raw) as u32 } }
}
impl core::ops::Add<TextSize> for TextSize {
    type Output = TextSize;
    fn add(self, o: TextSize) -> (r: TextSize) { TextSize { raw: self.raw + o.raw } }
}
}
use vx::*;
use vstd::utf8::*;
use vstd::string::*;
broadcast use {vx_axioms, lemma_view_bytes};
//@methods split_inclusive trim
//@include chunks.rs

// ---- std::collections::HashSet (TRUSTED stub: a set) ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { e: core::marker::PhantomData<T> }
impl<T> HashSet<T> {
    pub uninterp spec fn all(&self) -> ISet<T>;
    #[verifier::external_body]
    pub fn new() -> (r: HashSet<T>) ensures r.all() == ISet::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> (r: bool) ensures final(self).all() == old(self).all().insert(x), r == !old(self).all().contains(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, x: &T) -> (r: bool) ensures r == self.all().contains(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (forall|x: T| !#[trigger] self.all().contains(x)) { unimplemented!() }
}
/// Iterator::collect into a HashSet
#[verifier::external_body]
pub fn vx_to_set<T>(v: Vec<T>) -> (r: HashSet<T>) ensures forall|x: T| #[trigger] r.all().contains(x) == v@.contains(x) { unimplemented!() }

//@item expand:crates/jarl-core/src/rule_set.rs enum Rule derive=Clone,Copy,PartialEq,Eq,Structural
pub uninterp spec fn rule_named(n: Seq<char>) -> Option<Rule>;
impl Rule {
    #[verifier::external_body]
    pub fn from_name(n: &str) -> (r: Option<Rule>) ensures r == rule_named(n@) { unimplemented!() }
}
#[verifier::external_body]
pub struct PathBuf { e: () }
#[verifier::external_body]
pub struct Path { e: () }
impl Path {
    pub uninterp spec fn p(&self) -> PathBuf;
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: PathBuf) ensures r == self.p() { unimplemented!() }
}
#[verifier::external_body]
pub struct Location { e: () }
#[verifier::external_body]
pub struct Error { e: () }
pub type Result<T> = core::result::Result<T, Error>;
//@item crates/jarl-core/src/diagnostic.rs struct Fix
//@item crates/jarl-core/src/diagnostic.rs struct ViolationData
//@item crates/jarl-core/src/diagnostic.rs struct Diagnostic
pub open spec fn no_fix(f: Fix) -> bool { f.content@ == Seq::<char>::empty() && f.start == 0 && f.end == 0 }
impl Fix {
//@fn crates/jarl-core/src/diagnostic.rs Fix::empty
//@ret r
//@contract
    ensures no_fix(r),
//@at start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@end
}
//@item crates/jarl-core/src/suppression.rs struct SkipRegion
//@item crates/jarl-core/src/suppression.rs struct NodeSuppression
//@item crates/jarl-core/src/suppression.rs struct FileSuppression
//@item crates/jarl-core/src/suppression.rs struct ChunkSuppression
pub struct RLanguage { pub x: u8 }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Comments<T> { e: core::marker::PhantomData<T> }
//@item crates/jarl-core/src/suppression.rs struct SuppressionManager

// ---- the parser, and the rules (not under contract here) ----
#[verifier::external_body]
pub struct AnyRExpression { e: () }
pub struct RExpressionList { pub v: Vec<AnyRExpression> }
#[verifier::external_body]
pub struct RSyntaxNode { e: () }
#[verifier::external_body]
pub struct RParserOptions { e: () }
impl RParserOptions {
    #[verifier::external_body]
    pub fn default() -> RParserOptions { unimplemented!() }
}
#[verifier::external_body]
pub struct Parse { e: () }
#[verifier::external_body]
pub struct RRoot { e: () }
pub uninterp spec fn parse_of(t: Seq<char>) -> Parse;
impl Parse {
    pub uninterp spec fn bad(&self) -> bool;
    pub uninterp spec fn exprs(&self) -> Seq<AnyRExpression>;
    pub uninterp spec fn node(&self) -> RSyntaxNode;
    pub uninterp spec fn root(&self) -> RRoot;
    #[verifier::external_body]
    pub fn has_error(&self) -> (r: bool) ensures r == self.bad() { unimplemented!() }
    #[verifier::external_body]
    pub fn syntax(&self) -> (r: RSyntaxNode) ensures r == self.node() { unimplemented!() }
    #[verifier::external_body]
    pub fn tree(&self) -> (r: RRoot) ensures r.list() == self.exprs() { unimplemented!() }
}
impl RRoot {
    pub uninterp spec fn list(&self) -> Seq<AnyRExpression>;
    #[verifier::external_body]
    pub fn expressions(&self) -> (r: RExpressionList) ensures r.v@ == self.list() { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_parse(t: &str, o: RParserOptions) -> (r: Parse) ensures r == parse_of(t@) { unimplemented!() }
pub open spec fn lies_in(r: TextRange, t: Seq<char>) -> bool { r.s <= r.e && r.e <= encode_utf8(t).len() }
/// what from_node makes of a tree (P26 says what that is)
pub uninterp spec fn read_from(n: RSyntaxNode, t: Seq<char>, m: SuppressionManager) -> bool;
impl SuppressionManager {
    #[verifier::external_body]
    pub fn from_node(root: &RSyntaxNode, source: &str) -> (r: SuppressionManager)
        ensures read_from(*root, source@, r), forall|j: int| 0 <= j < r.file_suppressions@.len() ==> lies_in((#[trigger] r.file_suppressions@[j]).comment_range, source@),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct RuleSet { e: () }
impl RuleSet {
    #[verifier::external_body]
    pub fn empty() -> RuleSet { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: RuleSet) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct ResolvedRuleOptions { e: () }
impl ResolvedRuleOptions {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: ResolvedRuleOptions) ensures r == *self { unimplemented!() }
}
//@require crates/jarl-core/src/config.rs `pub rules_to_apply: RuleSet,`
//@require crates/jarl-core/src/config.rs `pub minimum_r_version: Option<(u32, u32, u32)>,`
//@require crates/jarl-core/src/config.rs `pub rule_options: ResolvedRuleOptions,`
pub struct Config { pub rules_to_apply: RuleSet, pub minimum_r_version: Option<(u32, u32, u32)>, pub rule_options: ResolvedRuleOptions }
#[verifier::external_body]
pub struct Duplicate { e: () }
//@item crates/jarl-core/src/checker.rs struct Checker
impl Checker {
//@fn crates/jarl-core/src/checker.rs Checker::new
//@ret r
//@contract
    ensures r.diagnostics@.len() == 0, r.suppression == suppression, r.rule_options == rule_options, r.minimum_r_version is None,
//@end
}
/// the rules at work on one expression
pub uninterp spec fn ran(e: AnyRExpression, before: Checker, after: Checker) -> bool;
#[verifier::external_body]
pub fn check_expression(e: &AnyRExpression, c: &mut Checker) -> (r: Result<()>)
    ensures r is Ok ==> ran(*e, *old(c), *final(c)),
{ unimplemented!() }
/// the rules on the whole document, and the suppressions (P10)
pub uninterp spec fn finished(es: Seq<AnyRExpression>, before: Checker, after: Checker) -> bool;
#[verifier::external_body]
pub fn check_document(es: &RExpressionList, c: &mut Checker, a: &[Duplicate], b: &[Duplicate]) -> (r: Result<()>)
    ensures r is Ok && a@.len() == 0 && b@.len() == 0 ==> finished(es.v@, *old(c), *final(c)),
{ unimplemented!() }
/// TRUSTED: what is found in a text lies in it
#[verifier::external_body]
pub broadcast proof fn axiom_found_inside(t: Seq<char>, m: SuppressionManager, cfg: Config, ds: Seq<Diagnostic>)
    requires #[trigger] linted(t, m, cfg, ds),
    ensures forall|k: int| 0 <= k < ds.len() ==> lies_in((#[trigger] ds[k]).range, t),
{ }
// ---- what the property says ----
pub open spec fn fresh(c: Checker, m: SuppressionManager, cfg: Config) -> bool {
    c.diagnostics@.len() == 0 && c.suppression == m && c.rule_options == cfg.rule_options && c.rule_set == cfg.rules_to_apply && c.minimum_r_version == cfg.minimum_r_version
}
pub open spec fn trace(es: Seq<AnyRExpression>, n: int, t: Seq<Checker>) -> bool { t.len() == n + 1 && forall|k: int| 0 <= k < n ==> #[trigger] ran(es[k], t[k], t[k + 1]) }
/// the diagnostics of a text checked by itself with these suppressions
pub open spec fn linted(t: Seq<char>, m: SuppressionManager, cfg: Config, ds: Seq<Diagnostic>) -> bool {
    exists|tr: Seq<Checker>, end: Checker| #[trigger] trace(parse_of(t).exprs(), parse_of(t).exprs().len() as int, tr) && fresh(tr[0], m, cfg) && #[trigger] finished(parse_of(t).exprs(), tr.last(), end) && ds == end.diagnostics@
}
/// the suppressions of chunk i: those of its comments; only in the first chunk can there be one for the whole file
pub open spec fn suppressions(t: Seq<char>, i: int, m: SuppressionManager) -> bool {
    exists|m0: SuppressionManager| #[trigger] read_from(parse_of(t).node(), t, m0) && (if i == 0 { m == m0 } else { in_later_chunk(m0, m) })
}
pub open spec fn ranges(f: Seq<FileSuppression>) -> Seq<TextRange> { f.map_values(|x: FileSuppression| x.comment_range) }
pub open spec fn in_later_chunk(a: SuppressionManager, b: SuppressionManager) -> bool {
    &&& b.file_suppressions@.len() == 0 && b.misplaced_file_suppressions@ == a.misplaced_file_suppressions@ + ranges(a.file_suppressions@)
    &&& same_rest(a, b)
}
pub open spec fn same_rest(a: SuppressionManager, b: SuppressionManager) -> bool {
    &&& b.comments == a.comments && b.skip_regions == a.skip_regions && b.chunk_suppressions == a.chunk_suppressions && b.node_suppressions == a.node_suppressions
    &&& b.has_any_suppressions == a.has_any_suppressions && b.blanket_suppressions == a.blanket_suppressions && b.invalid_chunk_suppressions == a.invalid_chunk_suppressions
    &&& b.unmatched_start_suppressions == a.unmatched_start_suppressions && b.unmatched_end_suppressions == a.unmatched_end_suppressions && b.unexplained_suppressions == a.unexplained_suppressions
    &&& b.misplaced_suppressions == a.misplaced_suppressions && b.misnamed_suppressions == a.misnamed_suppressions && b.used_suppressions == a.used_suppressions
}
/// a chunk: the suppressions in it (None if it does not parse) and what is found in it
pub struct Seen { pub m: Option<SuppressionManager>, pub ds: Seq<Diagnostic> }
pub open spec fn seen(t: Seq<char>, i: int, cfg: Config, x: Seen) -> bool {
    if parse_of(t).bad() { x.m is None && x.ds.len() == 0 } else { x.m is Some && suppressions(t, i, x.m->0) && linted(t, x.m->0, cfg, x.ds) }
}
/// the diagnostic d of a chunk at offset o, as one of the file
pub open spec fn moved(d: Diagnostic, o: int, file: &Path, r: Diagnostic) -> bool {
    r.message == d.message && r.range.s == d.range.s + o && r.range.e == d.range.e + o && r.filename == file.p() && no_fix(r.fix) && r.location == d.location
}
pub open spec fn all_moved(ds: Seq<Diagnostic>, o: int, file: &Path, r: Seq<Diagnostic>) -> bool { r.len() == ds.len() && forall|k: int| 0 <= k < ds.len() ==> moved(ds[k], o, file, #[trigger] r[k]) }
/// one list after the other
pub open spec fn joined(ps: Seq<Seq<Diagnostic>>) -> Seq<Diagnostic>
    decreases ps.len(),
{ if ps.len() == 0 { Seq::empty() } else { joined(ps.drop_last()) + ps.last() } }
/// the diagnostics of the first n chunks, as those of the file
pub open spec fn gathered(xs: Seq<Seen>, cs: Seq<(Seq<char>, int)>, file: &Path, n: int, ps: Seq<Seq<Diagnostic>>) -> bool {
    ps.len() == n && forall|i: int| 0 <= i < n ==> all_moved(xs[i].ds, cs[i].1, file, #[trigger] ps[i])
}
/// a comment with range c in the file (chunk at offset o) that suppresses rule r in the whole file
pub open spec fn at(f: FileSuppression, o: int, c: TextRange, r: Rule) -> bool { f.rule == r && f.comment_range.s + o == c.s && f.comment_range.e + o == c.e }
pub open spec fn among(f: Seq<FileSuppression>, o: int, c: TextRange, r: Rule) -> bool { exists|j: int| 0 <= j < f.len() && at(#[trigger] f[j], o, c, r) }
pub open spec fn file_wide_in(m: Option<SuppressionManager>, o: int, c: TextRange, r: Rule) -> bool { m is Some && among((m->0).file_suppressions@, o, c, r) }
pub open spec fn file_wide(xs: Seq<Seen>, cs: Seq<(Seq<char>, int)>, c: TextRange, r: Rule) -> bool { exists|i: int| 0 <= i < xs.len() && #[trigger] file_wide_in(xs[i].m, cs[i].1, c, r) }
#[verifier::external_body]
pub fn vx_is(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
pub open spec fn outdated(d: Diagnostic) -> bool { d.message.name@ == "outdated_suppression"@ }
/// the rule is broken somewhere in the file
pub open spec fn broken(all: Seq<Diagnostic>, r: Rule) -> bool { exists|k: int| 0 <= k < all.len() && !outdated(#[trigger] all[k]) && rule_named(all[k].message.name@) == Some(r) }
/// a diagnostic is left out if its rule is suppressed for the whole file, or if it says that such a suppression is of no use when it is
pub open spec fn left_out(f: spec_fn(TextRange, Rule) -> bool, all: Seq<Diagnostic>, d: Diagnostic) -> bool {
    ||| outdated(d) && exists|r: Rule| #[trigger] f(d.range, r) && broken(all, r)
    ||| rule_named(d.message.name@) is Some && exists|c: TextRange| #[trigger] f(c, rule_named(d.message.name@)->0)
}
/// everything but the location (that is P04)
pub open spec fn located(a: Seq<Diagnostic>, b: Seq<Diagnostic>) -> bool {
    a.len() == b.len() && forall|k: int| 0 <= k < a.len() ==> (#[trigger] b[k]).message == a[k].message && b[k].filename == a[k].filename && b[k].range == a[k].range && b[k].fix == a[k].fix
}
pub open spec fn staying(xs: Seq<Seen>, cs: Seq<(Seq<char>, int)>, all: Seq<Diagnostic>) -> Seq<Diagnostic> { all.filter(|d: Diagnostic| stays(xs, cs, all, d)) }
pub open spec fn reported(content: Seq<char>, cs: Seq<(Seq<char>, int)>, xs: Seq<Seen>, ps: Seq<Seq<Diagnostic>>, file: &Path, cfg: Config, r: Seq<Diagnostic>) -> bool {
    &&& chunks_of(content, cs) && xs.len() == cs.len() && forall|i: int| 0 <= i < cs.len() ==> seen((#[trigger] cs[i]).0, i, cfg, xs[i])
    &&& gathered(xs, cs, file, cs.len() as int, ps)
    &&& located(staying(xs, cs, joined(ps)), r)
}
pub open spec fn is_report(content: Seq<char>, file: &Path, cfg: Config, r: Seq<Diagnostic>) -> bool {
    exists|cs: Seq<(Seq<char>, int)>, xs: Seq<Seen>, ps: Seq<Seq<Diagnostic>>| #[trigger] reported(content, cs, xs, ps, file, cfg, r)
}
// ---- stubs for the vectors ----
pub trait VxRetain<T>: Sized {
    spec fn vx_rt(&self) -> Seq<T>;
    fn vx_retain<F: FnMut(&T) -> bool>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self).vx_rt().len() ==> call_requires(f, (&#[trigger] old(self).vx_rt()[i],)),
        ensures at_hand(old(self).vx_rt()), forall|p: spec_fn(T) -> bool| settles(f, old(self).vx_rt(), p) ==> final(self).vx_rt() == #[trigger] old(self).vx_rt().filter(p);
    fn vx_extend(&mut self, v: Vec<T>)
        ensures final(self).vx_rt() == old(self).vx_rt() + v@;
    /// drain(..)
    fn vx_drain_all(&mut self) -> (r: Vec<T>)
        ensures r@ == old(self).vx_rt(), final(self).vx_rt().len() == 0;
}
pub open spec fn settles<T, F: FnMut(&T) -> bool>(f: F, s: Seq<T>, p: spec_fn(T) -> bool) -> bool {
    forall|i: int, b: bool| 0 <= i < s.len() && #[trigger] call_ensures(f, (&s[i],), b) ==> b == p(s[i])
}
impl<T> VxRetain<T> for Vec<T> {
    open spec fn vx_rt(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_retain<F: FnMut(&T) -> bool>(&mut self, f: F) { self.retain(f) }
    #[verifier::external_body]
    fn vx_extend(&mut self, v: Vec<T>) { self.extend(v) }
    #[verifier::external_body]
    fn vx_drain_all(&mut self) -> (r: Vec<T>) { self.drain(..).collect() }
}
pub trait VxOptMap<T>: Sized {
    spec fn vx_om(&self) -> Option<T>;
    fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>)
        requires self.vx_om() is Some ==> call_requires(f, (self.vx_om()->0,)),
        ensures match self.vx_om() { Some(x) => r is Some && call_ensures(f, (x,), r->0), None => r is None };
}
impl<T> VxOptMap<T> for Option<T> {
    open spec fn vx_om(&self) -> Option<T> { *self }
    fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>) { match self { Some(x) => Some(f(x)), None => None } }
}
pub trait VxEnum<T>: Sized {
    spec fn vx_en(&self) -> Seq<T>;
    fn vx_enumerate(self) -> (r: Vec<(usize, T)>)
        ensures r@.len() == self.vx_en().len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (i as usize, self.vx_en()[i]);
}
impl<T> VxEnum<T> for Vec<T> {
    open spec fn vx_en(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_enumerate(self) -> (r: Vec<(usize, T)>) { self.into_iter().enumerate().collect() }
}
/// P04 says where; here only that nothing else changes
#[verifier::external_body]
pub fn find_new_lines_from_content(s: &str) -> Vec<usize> { unimplemented!() }
#[verifier::external_body]
pub fn compute_lints_location(ds: Vec<Diagnostic>, l: &Vec<usize>) -> (r: Vec<Diagnostic>) ensures located(ds@, r@) { unimplemented!() }
//@require crates/jarl-core/src/check.rs `struct ChunkState { parsed: air_r_parser::Parse, suppression: SuppressionManager, start_byte: usize, }`
pub struct ChunkState { pub parsed: Parse, pub suppression: SuppressionManager, pub start_byte: usize }

/// the comments for the whole file found so far
pub open spec fn known(f: Seq<(TextRange, Rule)>, c: TextRange, r: Rule) -> bool { exists|k: int| 0 <= k < f.len() && #[trigger] f[k] == (c, r) }
pub open spec fn rules_of(f: Seq<(TextRange, Rule)>, s: ISet<Rule>) -> bool {
    &&& forall|k: int| 0 <= k < f.len() ==> s.contains((#[trigger] f[k]).1)
    &&& forall|r: Rule| #[trigger] s.contains(r) ==> exists|c: TextRange| #[trigger] known(f, c, r)
}
pub open spec fn complete(f: Seq<(TextRange, Rule)>, ms: Seq<Option<SuppressionManager>>, cs: Seq<(Seq<char>, int)>) -> bool {
    &&& forall|c: TextRange, r: Rule| #[trigger] known(f, c, r) ==> exists|i: int| 0 <= i < ms.len() && #[trigger] file_wide_in(ms[i], cs[i].1, c, r)
    &&& forall|i: int, c: TextRange, r: Rule| 0 <= i < ms.len() && #[trigger] file_wide_in(ms[i], cs[i].1, c, r) ==> known(f, c, r)
}
/// chunk i after the first pass
pub open spec fn prepared(c: (Seq<char>, int), i: int, s: Option<ChunkState>) -> bool {
    if parse_of(c.0).bad() { s is None } else { s is Some && (s->0).parsed == parse_of(c.0) && (s->0).start_byte == c.1 && suppressions(c.0, i, (s->0).suppression) }
}
pub open spec fn man(s: Option<ChunkState>) -> Option<SuppressionManager> { match s { Some(x) => Some(x.suppression), None => None } }
pub open spec fn mans(s: Seq<Option<ChunkState>>) -> Seq<Option<SuppressionManager>> { s.map_values(|x: Option<ChunkState>| man(x)) }
pub open spec fn in_file(cs: Seq<(Seq<char>, int)>) -> bool { forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i]).1 >= 0 && cs[i].1 + encode_utf8(cs[i].0).len() <= u32::MAX }
// ---- lemmas ----
/// the comments of a chunk at offset o, as those of the file
pub open spec fn put(f: Seq<FileSuppression>, o: int, n: int) -> Seq<(TextRange, Rule)> { Seq::new(n as nat, |j: int| (TextRange { s: (f[j].comment_range.s + o) as u32, e: (f[j].comment_range.e + o) as u32 }, f[j].rule)) }
pub proof fn lemma_complete(f: Seq<(TextRange, Rule)>, ms: Seq<Option<SuppressionManager>>, cs: Seq<(Seq<char>, int)>, m: Option<SuppressionManager>, g: Seq<(TextRange, Rule)>)
    requires complete(f, ms, cs), ms.len() < cs.len(), in_file(cs),
        match m { None => g == f, Some(x) => g == f + put(x.file_suppressions@, cs[ms.len() as int].1, x.file_suppressions@.len() as int) && forall|j: int| 0 <= j < x.file_suppressions@.len() ==> lies_in((#[trigger] x.file_suppressions@[j]).comment_range, cs[ms.len() as int].0) },
    ensures complete(g, ms.push(m), cs),
{
    let n = ms.len() as int;
    let ms1 = ms.push(m);
    assert forall|c: TextRange, r: Rule| #[trigger] known(g, c, r) implies exists|i: int| 0 <= i < ms1.len() && #[trigger] file_wide_in(ms1[i], cs[i].1, c, r) by {
        let k = choose|k: int| 0 <= k < g.len() && #[trigger] g[k] == (c, r);
        if k < f.len() { assert(f[k] == (c, r)); assert(known(f, c, r)); let i = choose|i: int| 0 <= i < ms.len() && #[trigger] file_wide_in(ms[i], cs[i].1, c, r); assert(ms1[i] == ms[i]); assert(file_wide_in(ms1[i], cs[i].1, c, r)); }
        else { let j = k - f.len(); assert(at((m->0).file_suppressions@[j], cs[n].1, c, r)); assert(ms1[n] == m); assert(file_wide_in(ms1[n], cs[n].1, c, r)); }
    }
    assert forall|i: int, c: TextRange, r: Rule| 0 <= i < ms1.len() && #[trigger] file_wide_in(ms1[i], cs[i].1, c, r) implies known(g, c, r) by {
        if i < n { assert(ms1[i] == ms[i]); assert(file_wide_in(ms[i], cs[i].1, c, r)); assert(known(f, c, r)); let k = choose|k: int| 0 <= k < f.len() && #[trigger] f[k] == (c, r); assert(g[k] == (c, r)); }
        else { let j = choose|j: int| 0 <= j < (m->0).file_suppressions@.len() && at(#[trigger] (m->0).file_suppressions@[j], cs[n].1, c, r); assert(g[f.len() + j] == (c, r)); }
    }
}
pub proof fn lemma_rules_of(f: Seq<(TextRange, Rule)>, s: ISet<Rule>, c: TextRange, r: Rule)
    requires rules_of(f, s),
    ensures rules_of(f.push((c, r)), s.insert(r)),
{
    let g = f.push((c, r));
    assert(g[f.len() as int] == (c, r));
    assert(known(g, c, r));
    assert forall|q: Rule| #[trigger] s.insert(r).contains(q) implies exists|d: TextRange| #[trigger] known(g, d, q) by {
        if q == r { assert(known(g, c, q)); } else { let d = choose|d: TextRange| #[trigger] known(f, d, q); let k = choose|k: int| 0 <= k < f.len() && #[trigger] f[k] == (d, q); assert(g[k] == (d, q)); assert(known(g, d, q)); }
    }
}
pub proof fn lemma_filters<T>(s: Seq<T>, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool, z: spec_fn(T) -> bool)
    requires forall|k: int| 0 <= k < s.len() ==> z(#[trigger] s[k]) == (p(s[k]) && q(s[k])),
    ensures s.filter(p).filter(q) == s.filter(z),
    decreases s.len(),
{
    reveal_with_fuel(Seq::filter, 2);
    if s.len() > 0 {
        assert(forall|k: int| 0 <= k < s.drop_last().len() ==> s.drop_last()[k] == s[k]);
        lemma_filters(s.drop_last(), p, q, z);
        assert(z(s[s.len() - 1]) == (p(s.last()) && q(s.last())));
        let a = s.drop_last().filter(p);
        if p(s.last()) { assert(a.push(s.last()).drop_last() =~= a); assert(s.filter(p) == a.push(s.last())); assert(a.push(s.last()).last() == s.last()); }
        assert(s.filter(p).filter(q) =~= s.filter(z));
    }
}
pub proof fn lemma_filter_true<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    requires forall|k: int| 0 <= k < s.len() ==> p(#[trigger] s[k]),
    ensures s.filter(p) == s,
    decreases s.len(),
{
    reveal_with_fuel(Seq::filter, 2);
    if s.len() > 0 { lemma_filter_true(s.drop_last(), p); assert(p(s[s.len() - 1])); }
    assert(s.filter(p) =~= s);
}
pub proof fn lemma_violated(all: Seq<Diagnostic>, s0: ISet<Rule>, ia: Seq<&Diagnostic>, a: Seq<&Diagnostic>, b: Seq<Rule>, c: Seq<Rule>, o1: Seq<Option<&Diagnostic>>, o2: Seq<Option<Rule>>, o3: Seq<Option<Rule>>)
    requires
        ia.len() == all.len(), forall|k: int| 0 <= k < all.len() ==> *(#[trigger] ia[k]) == all[k],
        a == somes(o1), o1.len() == ia.len(), forall|k: int| 0 <= k < o1.len() ==> #[trigger] o1[k] == kept(ia[k], !outdated(*ia[k])),
        b == somes(o2), o2.len() == a.len(), forall|k: int| 0 <= k < o2.len() ==> #[trigger] o2[k] == rule_named(a[k].message.name@),
        c == somes(o3), o3.len() == b.len(), forall|k: int| 0 <= k < o3.len() ==> #[trigger] o3[k] == kept(b[k], s0.contains(b[k])),
    ensures forall|r: Rule| #[trigger] c.contains(r) == (s0.contains(r) && broken(all, r)),
{
    assert forall|r: Rule| #[trigger] c.contains(r) == (s0.contains(r) && broken(all, r)) by {
        lemma_somes_from(o3, r); lemma_somes_from(o2, r);
        if c.contains(r) {
            let k = choose|k: int| 0 <= k < o3.len() && o3[k] == Some(r);
            assert(b.contains(r));
            let j = choose|j: int| 0 <= j < o2.len() && o2[j] == Some(r);
            lemma_somes_from(o1, a[j]);
            assert(a.contains(a[j]));
            let i = choose|i: int| 0 <= i < o1.len() && o1[i] == Some(a[j]);
            assert(!outdated(all[i]) && rule_named(all[i].message.name@) == Some(r)) by { assert(*ia[i] == all[i]); }
        }
        if s0.contains(r) && broken(all, r) {
            let i = choose|i: int| 0 <= i < all.len() && !outdated(#[trigger] all[i]) && rule_named(all[i].message.name@) == Some(r);
            assert(o1[i] == Some(ia[i]) && *ia[i] == all[i]);
            lemma_somes_from(o1, ia[i]);
            let j = choose|j: int| 0 <= j < a.len() && a[j] == ia[i];
            assert(o2[j] == Some(r));
            assert(o2.contains(Some(r)));
            let k = choose|k: int| 0 <= k < b.len() && b[k] == r;
            assert(o3[k] == Some(r));
            assert(o3.contains(Some(r)));
        }
    }
}
pub proof fn lemma_used(f: Seq<(TextRange, Rule)>, rv: ISet<Rule>, ia: Seq<&(TextRange, Rule)>, a: Seq<&(TextRange, Rule)>, b: Seq<TextRange>, o1: Seq<Option<&(TextRange, Rule)>>)
    requires
        ia.len() == f.len(), forall|k: int| 0 <= k < f.len() ==> *(#[trigger] ia[k]) == f[k],
        a == somes(o1), o1.len() == ia.len(), forall|k: int| 0 <= k < o1.len() ==> #[trigger] o1[k] == kept(ia[k], rv.contains(ia[k].1)),
        b.len() == a.len(), forall|k: int| 0 <= k < b.len() ==> #[trigger] b[k] == a[k].0,
    ensures forall|c: TextRange| #[trigger] b.contains(c) == (exists|r: Rule| #[trigger] known(f, c, r) && rv.contains(r)),
{
    assert forall|c: TextRange| #[trigger] b.contains(c) == (exists|r: Rule| #[trigger] known(f, c, r) && rv.contains(r)) by {
        if b.contains(c) {
            let j = choose|j: int| 0 <= j < b.len() && b[j] == c;
            lemma_somes_from(o1, a[j]); assert(a.contains(a[j]));
            let i = choose|i: int| 0 <= i < o1.len() && o1[i] == Some(a[j]);
            assert(*ia[i] == f[i]); assert(f[i] == (c, f[i].1)); assert(known(f, c, f[i].1));
        }
        if exists|r: Rule| #[trigger] known(f, c, r) && rv.contains(r) {
            let r = choose|r: Rule| #[trigger] known(f, c, r) && rv.contains(r);
            let k = choose|k: int| 0 <= k < f.len() && #[trigger] f[k] == (c, r);
            assert(o1[k] == Some(ia[k]) && *ia[k] == f[k]);
            lemma_somes_from(o1, ia[k]);
            let j = choose|j: int| 0 <= j < a.len() && a[j] == ia[k];
            assert(b[j] == c);
        }
    }
}
pub open spec fn keeps_its_comment(xs: Seq<Seen>, cs: Seq<(Seq<char>, int)>, all: Seq<Diagnostic>, d: Diagnostic) -> bool {
    !(outdated(d) && exists|r: Rule| #[trigger] file_wide(xs, cs, d.range, r) && broken(all, r))
}
pub open spec fn not_named(fsr: ISet<Rule>, d: Diagnostic) -> bool { !(rule_named(d.message.name@) is Some && fsr.contains(rule_named(d.message.name@)->0)) }
pub open spec fn commented(xs: Seq<Seen>, cs: Seq<(Seq<char>, int)>, all: Seq<Diagnostic>) -> Seq<Diagnostic> { all.filter(|d: Diagnostic| keeps_its_comment(xs, cs, all, d)) }
pub open spec fn unnamed(fsr: ISet<Rule>, s: Seq<Diagnostic>) -> Seq<Diagnostic> { s.filter(|d: Diagnostic| not_named(fsr, d)) }
pub open spec fn all_known(fs: Seq<(TextRange, Rule)>, xs: Seq<Seen>, cs: Seq<(Seq<char>, int)>) -> bool { forall|c: TextRange, q: Rule| #![trigger known(fs, c, q)] #![trigger file_wide(xs, cs, c, q)] known(fs, c, q) == file_wide(xs, cs, c, q) }
pub proof fn lemma_known(fs: Seq<(TextRange, Rule)>, ss: Seq<Option<ChunkState>>, cs: Seq<(Seq<char>, int)>, xs: Seq<Seen>)
    requires complete(fs, mans(ss), cs), xs.len() == ss.len(), ss.len() == cs.len(), forall|k: int| 0 <= k < xs.len() ==> (#[trigger] xs[k]).m == man(ss[k]),
    ensures all_known(fs, xs, cs),
{
    assert forall|c: TextRange, q: Rule| #[trigger] known(fs, c, q) == file_wide(xs, cs, c, q) by {
        if known(fs, c, q) { let i = choose|i: int| 0 <= i < mans(ss).len() && #[trigger] file_wide_in(mans(ss)[i], cs[i].1, c, q); assert(file_wide_in(xs[i].m, cs[i].1, c, q)); }
        if file_wide(xs, cs, c, q) { let i = choose|i: int| 0 <= i < xs.len() && #[trigger] file_wide_in(xs[i].m, cs[i].1, c, q); assert(file_wide_in(mans(ss)[i], cs[i].1, c, q)); }
    }
}
/// no rule that is suppressed for the whole file is broken
pub proof fn lemma_nothing(fs: Seq<(TextRange, Rule)>, fsr: ISet<Rule>, xs: Seq<Seen>, cs: Seq<(Seq<char>, int)>, all: Seq<Diagnostic>)
    requires all_known(fs, xs, cs), rules_of(fs, fsr), fs.len() == 0 || forall|r: Rule| #[trigger] fsr.contains(r) ==> !broken(all, r),
    ensures commented(xs, cs, all) == all,
{
    let p = |d: Diagnostic| keeps_its_comment(xs, cs, all, d);
    assert forall|k: int| 0 <= k < all.len() implies p(#[trigger] all[k]) by {
        let c = all[k].range;
        if exists|r: Rule| #[trigger] file_wide(xs, cs, c, r) && broken(all, r) {
            let r = choose|r: Rule| #[trigger] file_wide(xs, cs, c, r) && broken(all, r);
            assert(known(fs, c, r)); let j = choose|j: int| 0 <= j < fs.len() && #[trigger] fs[j] == (c, r); assert(fsr.contains(fs[j].1));
        }
    }
    lemma_filter_true(all, p);
}
pub open spec fn stays(xs: Seq<Seen>, cs: Seq<(Seq<char>, int)>, all: Seq<Diagnostic>, d: Diagnostic) -> bool { !left_out(|c: TextRange, q: Rule| file_wide(xs, cs, c, q), all, d) }
pub proof fn lemma_final(fs: Seq<(TextRange, Rule)>, fsr: ISet<Rule>, xs: Seq<Seen>, cs: Seq<(Seq<char>, int)>, all: Seq<Diagnostic>)
    requires all_known(fs, xs, cs), rules_of(fs, fsr),
    ensures unnamed(fsr, commented(xs, cs, all)) == staying(xs, cs, all),
{
    let p1 = |d: Diagnostic| keeps_its_comment(xs, cs, all, d);
    let p2 = |d: Diagnostic| not_named(fsr, d);
    let z = |d: Diagnostic| stays(xs, cs, all, d);
    let fw = |c: TextRange, q: Rule| file_wide(xs, cs, c, q);
    assert forall|k: int| 0 <= k < all.len() implies z(#[trigger] all[k]) == (p1(all[k]) && p2(all[k])) by {
        let d = all[k];
        assert(forall|c: TextRange, q: Rule| #[trigger] fw(c, q) == file_wide(xs, cs, c, q));
        if rule_named(d.message.name@) is Some {
            let r = rule_named(d.message.name@)->0;
            if fsr.contains(r) { let c = choose|c: TextRange| #[trigger] known(fs, c, r); assert(fw(c, r)); }
            if exists|c: TextRange| #[trigger] fw(c, r) { let c = choose|c: TextRange| #[trigger] fw(c, r); assert(known(fs, c, r)); let j = choose|j: int| 0 <= j < fs.len() && #[trigger] fs[j] == (c, r); assert(fsr.contains(fs[j].1)); }
        }
        if !p1(d) { let r = choose|r: Rule| #[trigger] file_wide(xs, cs, d.range, r) && broken(all, r); assert(fw(d.range, r)); }
        if outdated(d) && exists|r: Rule| #[trigger] fw(d.range, r) && broken(all, r) { let r = choose|r: Rule| #[trigger] fw(d.range, r) && broken(all, r); assert(file_wide(xs, cs, d.range, r)); }
    }
    lemma_filters(all, p1, p2, z);
}
pub proof fn lemma_empty(cs: Seq<(Seq<char>, int)>)
    ensures complete(Seq::empty(), mans(Seq::empty()), cs), rules_of(Seq::empty(), ISet::empty()),
{ }
pub proof fn lemma_none(xs: Seq<Seen>, cs: Seq<(Seq<char>, int)>, file: &Path)
    ensures gathered(xs, cs, file, 0, Seq::empty()), joined(Seq::empty()) == Seq::<Diagnostic>::empty(),
{ }
pub proof fn lemma_more(xs: Seq<Seen>, cs: Seq<(Seq<char>, int)>, file: &Path, ps: Seq<Seq<Diagnostic>>, x: Seen, p: Seq<Diagnostic>)
    requires gathered(xs, cs, file, xs.len() as int, ps), all_moved(x.ds, cs[xs.len() as int].1, file, p),
    ensures gathered(xs.push(x), cs, file, xs.len() as int + 1, ps.push(p)), joined(ps.push(p)) == joined(ps) + p,
{
    let n = xs.len();
    assert(ps.push(p).drop_last() =~= ps);
    assert forall|i: int| 0 <= i < n + 1 implies all_moved(xs.push(x)[i].ds, cs[i].1, file, #[trigger] ps.push(p)[i]) by { if i < n { assert(xs.push(x)[i] == xs[i] && ps.push(p)[i] == ps[i]); } }
}
pub proof fn lemma_trace(es: Seq<AnyRExpression>, n: int, t: Seq<Checker>, c: Checker)
    requires trace(es, n, t), n >= 0, ran(es[n], t.last(), c),
    ensures trace(es, n + 1, t.push(c)), t.push(c)[0] == t[0], t.push(c).last() == c,
{
    assert forall|j: int| 0 <= j < n + 1 implies #[trigger] ran(es[j], t.push(c)[j], t.push(c)[j + 1]) by { if j < n { assert(ran(es[j], t[j], t[j + 1])); } }
}
pub proof fn lemma_trace_one(es: Seq<AnyRExpression>, c: Checker)
    ensures trace(es, 0, seq![c]),
{ }
pub proof fn lemma_linted(t: Seq<char>, m: SuppressionManager, cfg: Config, tr: Seq<Checker>, end: Checker)
    requires trace(parse_of(t).exprs(), parse_of(t).exprs().len() as int, tr), fresh(tr[0], m, cfg), finished(parse_of(t).exprs(), tr.last(), end),
    ensures linted(t, m, cfg, end.diagnostics@), forall|k: int| 0 <= k < end.diagnostics@.len() ==> lies_in((#[trigger] end.diagnostics@[k]).range, t),
{ assert(linted(t, m, cfg, end.diagnostics@)); axiom_found_inside(t, m, cfg, end.diagnostics@); }
/// a filter that does what is left of the comments of use
pub proof fn lemma_cleared(fs: Seq<(TextRange, Rule)>, fsr: ISet<Rule>, xs: Seq<Seen>, cs: Seq<(Seq<char>, int)>, all: Seq<Diagnostic>, rv: ISet<Rule>, used: ISet<TextRange>)
    requires all_known(fs, xs, cs), rules_of(fs, fsr),
        forall|r: Rule| #[trigger] rv.contains(r) == (fsr.contains(r) && broken(all, r)),
        forall|c: TextRange| #[trigger] used.contains(c) == (exists|r: Rule| #[trigger] known(fs, c, r) && rv.contains(r)),
    ensures forall|d: Diagnostic| #[trigger] keeps_its_comment(xs, cs, all, d) == !(outdated(d) && used.contains(d.range)),
{
    assert forall|d: Diagnostic| #[trigger] keeps_its_comment(xs, cs, all, d) == !(outdated(d) && used.contains(d.range)) by {
        let c = d.range;
        if used.contains(c) { let r = choose|r: Rule| #[trigger] known(fs, c, r) && rv.contains(r); assert(file_wide(xs, cs, c, r)); }
        if exists|r: Rule| #[trigger] file_wide(xs, cs, c, r) && broken(all, r) {
            let r = choose|r: Rule| #[trigger] file_wide(xs, cs, c, r) && broken(all, r);
            assert(known(fs, c, r)); let j = choose|j: int| 0 <= j < fs.len() && #[trigger] fs[j] == (c, r); assert(fsr.contains(fs[j].1)); assert(rv.contains(r));
        }
    }
}
//@methods map filter filter_map retain extend into_iter iter enumerate
//@fn crates/jarl-core/src/check.rs get_checks_rmd attr=#[verifier::rlimit(100)]
//@subst `use std::collections::HashSet;` => ``
//@subst `struct ChunkState { parsed: air_r_parser::Parse, suppression: SuppressionManager, start_byte: usize, }` => ``
//@subst `d.message.name != "outdated_suppression"` => `!vx_is(&d.message.name, "outdated_suppression")`
//@subst `d.message.name == "outdated_suppression"` => `vx_is(&d.message.name, "outdated_suppression")`
//@subst `Ok(compute_lints_location(all_diagnostics, &loc_new_lines))` => `let vx_r = compute_lints_location(all_diagnostics, &loc_new_lines); proof { assert(reported(contents@, cs, xs, ps, file, *config, vx_r@)); } Ok(vx_r)`
//@subst `crate::rmd::` => ``
//@subst `crate::utils::` => ``
//@subst `biome_rowan::` => ``
//@subst `air_r_parser::parse(` => `vx_parse(`
//@subst `drain(..)` => `vx_drain_all()`
//@subst `for expr in expressions` => `for expr in &expressions.v`
//@subst `check_expression(&expr,` => `check_expression(expr,`
//@subst `.map(|mut d| {` => `.map(|vx_d| { let mut d = vx_d;`
//@subst `= all_diagnostics.iter().filter(` => `= { let vx_a0 = all_diagnostics.iter(); let ghost vx_s0 = vx_a0@; let vx_a = vx_a0.filter(`
//@subst `).filter_map(` => `); let ghost vx_s1 = vx_a@; let vx_b = vx_a.filter_map(`
//@subst `).filter(|r|` => `); let ghost vx_s2 = vx_b@; let vx_c = vx_b.filter(|r|`
//@subst `.collect(); if !rules_violated` => `; proof { vx_proof_violated!(); } vx_to_set(vx_c) }; if !rules_violated`
//@subst `= file_suppression_ranges.iter().filter(` => `= { let vx_a0 = file_suppression_ranges.iter(); let ghost vx_s0 = vx_a0@; let vx_a = vx_a0.filter(`
//@subst `).map(|(range, _)| *range).collect();` => `); let ghost vx_s1 = vx_a@; let vx_b = vx_a.map(|(range, _)| *range); proof { vx_proof_used!(); } vx_to_set(vx_b) };`
//@subst `vx_proof_violated!();` => `let o1 = choose|o: Seq<Option<&Diagnostic>>| vx_s1 == #[trigger] somes(o) && o.len() == vx_s0.len() && forall|k: int| 0 <= k < o.len() ==> #[trigger] o[k] == kept(vx_s0[k], !outdated(*vx_s0[k])); let o2 = choose|o: Seq<Option<Rule>>| vx_s2 == #[trigger] somes(o) && o.len() == vx_s1.len() && forall|k: int| 0 <= k < o.len() ==> #[trigger] o[k] == rule_named(vx_s1[k].message.name@); let o3 = choose|o: Seq<Option<Rule>>| vx_c@ == #[trigger] somes(o) && o.len() == vx_s2.len() && forall|k: int| 0 <= k < o.len() ==> #[trigger] o[k] == kept(vx_s2[k], file_suppressed.all().contains(vx_s2[k])); lemma_violated(all_diagnostics@, file_suppressed.all(), vx_s0, vx_s1, vx_s2, vx_c@, o1, o2, o3);`
//@subst `vx_proof_used!();` => `let o1 = choose|o: Seq<Option<&(TextRange, Rule)>>| vx_s1 == #[trigger] somes(o) && o.len() == vx_s0.len() && forall|k: int| 0 <= k < o.len() ==> #[trigger] o[k] == kept(vx_s0[k], rules_violated.all().contains(vx_s0[k].1)); lemma_used(file_suppression_ranges@, rules_violated.all(), vx_s0, vx_s1, vx_b@, o1);`
//@ret r
//@contract
    requires encode_utf8(contents@).len() <= u32::MAX,
    ensures r is Ok ==> is_report(contents@, file, *config, (r->Ok_0)@),
//@at start
    hide(complete); hide(rules_of); hide(file_wide); hide(known); hide(all_known); hide(stays); hide(keeps_its_comment); hide(broken); hide(trace); hide(linted); hide(joined); hide(gathered);
//@at after let chunks
    let ghost cs = cviews(chunks@);
    proof { lemma_empty(cs);  assert forall|i: int| 0 <= i < cs.len() implies (#[trigger] cs[i]).1 >= 0 && cs[i].1 + encode_utf8(cs[i].0).len() <= u32::MAX by { assert(verbatim(contents@, cs[i])); } }
//@loop 0 it hoist=vx_chunks
    invariant
        cs == cviews(chunks@), in_file(cs), cs.len() <= usize::MAX, it.seq().len() == cs.len(), forall|k: int| 0 <= k < it.seq().len() ==> (#[trigger] it.seq()[k]).0 == k as usize && *it.seq()[k].1 == chunks@[k],
        states@.len() == it.index(), forall|k: int| 0 <= k < states@.len() ==> prepared(cs[k], k, #[trigger] states@[k]),
        complete(file_suppression_ranges@, mans(states@), cs), rules_of(file_suppression_ranges@, file_suppressed.all()),
//@at loop 0 start
    broadcast use {vx_axioms, lemma_view_bytes};
    let ghost n = it.index() as int;
    let ghost f0 = file_suppression_ranges@;
    let ghost st0 = states@;
    proof { assert(cs[n] == (chunk.code@, chunk.start_byte as int)); }
//@at before let offset
    proof {
        assert(chunk_index == n);
        assert(read_from(parse_of(chunk.code@).node(), chunk.code@, m0));
        assert(suppressions(chunk.code@, n, suppression));
    }
//@at after let suppression
    let ghost m0 = suppression;
//@loop 1 j hoist=vx_drained
    invariant
        j.seq() == m0.file_suppressions@,
        suppression.file_suppressions@.len() == 0, suppression.misplaced_file_suppressions@ == m0.misplaced_file_suppressions@ + ranges(m0.file_suppressions@.take(j.index() as int)),
        same_rest(m0, suppression),
//@at loop 1 end
    proof { let k = j.index() as int; assert(m0.file_suppressions@.take(k + 1) =~= m0.file_suppressions@.take(k).push(m0.file_suppressions@[k])); assert(suppression.misplaced_file_suppressions@ =~= m0.misplaced_file_suppressions@ + ranges(m0.file_suppressions@.take(k + 1))); }
//@at before loop 1
    proof { assert(suppression.misplaced_file_suppressions@ =~= m0.misplaced_file_suppressions@ + ranges(m0.file_suppressions@.take(0))); }
//@at after loop 1
    proof { assert(m0.file_suppressions@.take(m0.file_suppressions@.len() as int) =~= m0.file_suppressions@); assert(in_later_chunk(m0, suppression)); }
//@at before loop 2
    proof { assert(file_suppression_ranges@ =~= f0 + put(suppression.file_suppressions@, offset.raw as int, 0)); }
//@loop 2 k
    invariant
        k.seq().len() == suppression.file_suppressions@.len(), forall|q: int| 0 <= q < k.seq().len() ==> *(#[trigger] k.seq()[q]) == suppression.file_suppressions@[q],
        forall|q: int| 0 <= q < suppression.file_suppressions@.len() ==> lies_in((#[trigger] suppression.file_suppressions@[q]).comment_range, chunk.code@),
        offset.raw + encode_utf8(chunk.code@).len() <= u32::MAX,
        file_suppression_ranges@ == f0 + put(suppression.file_suppressions@, offset.raw as int, k.index() as int), rules_of(file_suppression_ranges@, file_suppressed.all()),
//@at loop 2 start
    let ghost q = k.index() as int;
    let ghost g0 = file_suppression_ranges@;
    let ghost s0 = file_suppressed.all();
    proof { assert(*fs == suppression.file_suppressions@[q]); }
//@at loop 2 end
    proof {
        let x = file_suppression_ranges@.last();
        lemma_rules_of(g0, s0, x.0, x.1);
        assert(file_suppression_ranges@ =~= f0 + put(suppression.file_suppressions@, offset.raw as int, q + 1));
    }
//@at loop 0 end
    proof {
        let x = states@.last();
        assert(states@ == st0.push(x));
        lemma_complete(f0, mans(st0), cs, man(x), file_suppression_ranges@);
        assert(mans(states@) =~= mans(st0).push(man(x)));
    }
//@at before loop 3
    let ghost ss = states@;
    let ghost fs = file_suppression_ranges@;
    let ghost mut xs: Seq<Seen> = Seq::empty();
    let ghost mut ps: Seq<Seq<Diagnostic>> = Seq::empty();
    proof { lemma_none(xs, cs, file); assert(all_diagnostics@ =~= Seq::<Diagnostic>::empty()); }
//@loop 3 sit
    invariant
        sit.seq() == ss, ss.len() == cs.len(), in_file(cs), forall|k: int| 0 <= k < ss.len() ==> prepared(cs[k], k, #[trigger] ss[k]),
        xs.len() == sit.index(), forall|k: int| 0 <= k < xs.len() ==> seen((#[trigger] cs[k]).0, k, *config, xs[k]) && xs[k].m == man(ss[k]),
        gathered(xs, cs, file, sit.index() as int, ps), joined(ps) == all_diagnostics@,
//@at loop 3 start
    broadcast use {vx_axioms, lemma_view_bytes};
    let ghost n = xs.len() as int;
    let ghost all0 = all_diagnostics@;
    let ghost mut found: Seq<Diagnostic> = Seq::empty();
    let ghost mut p: Seq<Diagnostic> = Seq::empty();
    proof { assert(state == ss[n]); assert(prepared(cs[n], n, ss[n])); }
//@at before loop 4
    let ghost mut tr: Seq<Checker> = seq![checker];
    proof { assert(fresh(checker, suppression, *config)); lemma_trace_one(expressions.v@, checker); }
//@loop 4 e
    invariant
        e.seq().len() == expressions.v@.len(), forall|k: int| 0 <= k < e.seq().len() ==> *(#[trigger] e.seq()[k]) == expressions.v@[k],
        trace(expressions.v@, e.index() as int, tr), tr.last() == checker, tr[0] == tr.first(), fresh(tr[0], suppression, *config),
//@at loop 4 start
    let ghost c0 = checker;
    let ghost t0 = tr;
//@at loop 4 end
    proof {
        tr = t0.push(checker);
        lemma_trace(expressions.v@, e.index() as int, t0, checker);
    }
//@at after loop 4
    let ghost c1 = checker;
//@at before let diagnostics
    let ghost t = cs[n].0;
    proof {
        found = checker.diagnostics@;
        lemma_linted(t, suppression, *config, tr, checker);
    }
//@at after let diagnostics
    proof { p = diagnostics@; assert(all_moved(found, cs[n].1, file, p)); }
//@at loop 3 end
    proof {
        let x = Seen { m: man(ss[n]), ds: found };
        assert(seen(cs[n].0, n, *config, x));
        let x0 = xs; let p0 = ps;
        xs = x0.push(x); ps = p0.push(p);
        lemma_more(x0, cs, file, p0, x, p);
        assert forall|k: int| 0 <= k < xs.len() implies seen((#[trigger] cs[k]).0, k, *config, xs[k]) && xs[k].m == man(ss[k]) by { if k < n { assert(xs[k] == x0[k]); } }
    }
//@at after loop 3
    let ghost all = all_diagnostics@;
    let ghost fsr = file_suppressed.all();
    let ghost all1 = commented(xs, cs, all);
    let ghost all2 = unnamed(fsr, all1);
    proof { lemma_known(fs, ss, cs, xs); }
//@at before `if !file_suppression_ranges.is_empty()`
    proof { if fs.len() == 0 { lemma_nothing(fs, fsr, xs, cs, all); } }
//@at before `if !rules_violated.is_empty()`
    proof {
        assert(forall|r: Rule| #[trigger] rules_violated.all().contains(r) == (fsr.contains(r) && broken(all, r)));
        if forall|r: Rule| !#[trigger] rules_violated.all().contains(r) {
            assert(forall|r: Rule| #[trigger] fsr.contains(r) ==> !broken(all, r)) by { assert(forall|r: Rule| #[trigger] fsr.contains(r) ==> rules_violated.all().contains(r) || !broken(all, r)); }
            lemma_nothing(fs, fsr, xs, cs, all);
        }
    }
//@at before #0 `all_diagnostics.vx_retain`
    proof { lemma_cleared(fs, fsr, xs, cs, all, rules_violated.all(), used_file_ranges.all()); }
//@at before #1 `all_diagnostics.vx_retain`
    proof {
        assert(all_diagnostics@ == all1);
    }
//@at after let loc_new_lines
    proof {
        assert(all_diagnostics@ == all2);
        lemma_final(fs, fsr, xs, cs, all);
        assert(joined(ps) == all);
    }
//@closure 0 (vx_d: Diagnostic) -> y: Diagnostic
    requires vx_d.range.s <= vx_d.range.e, vx_d.range.e + offset.raw <= u32::MAX
    ensures moved(vx_d, offset.raw as int, file, y)
//@closure 1 (d: &&Diagnostic) -> b: bool
    ensures b == !outdated(**d)
//@closure 2 (d: &Diagnostic) -> o: Option<Rule>
    ensures o == rule_named(d.message.name@)
//@closure 3 (r: &Rule) -> b: bool
    ensures b == file_suppressed.all().contains(*r)
//@closure 4 (x: &&(TextRange, Rule)) -> b: bool
    ensures b == rules_violated.all().contains((**x).1)
//@closure 5 (x: &(TextRange, Rule)) -> y: TextRange
    ensures y == (*x).0
//@closure 6 (d: &Diagnostic) -> b: bool
    ensures b == !(outdated(*d) && used_file_ranges.all().contains(d.range))
//@closure 7 (d: &Diagnostic) -> b: bool
    ensures b == !(rule_named(d.message.name@) is Some && file_suppressed.all().contains(rule_named(d.message.name@)->0))
//@closure 8 (r: Rule) -> b: bool
    ensures b == !file_suppressed.all().contains(r)
//@end
}
fn main() {}
