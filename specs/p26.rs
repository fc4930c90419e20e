// P26: what the suppression comments of a file apply to
use vstd::prelude::*;
verus! {
mod vx {
use vstd::prelude::*;
//@include vlib.rs
//@include vlib_str.rs
//@include vlib_pat.rs
//@include vlib_iter.rs
//@include vlib_text.rs
//@include vlib_line.rs
}
use vx::*;
use vstd::utf8::*;
use vstd::string::*;
broadcast use {vx_axioms, lemma_view_bytes};
//@methods trim trim_start find

//@item expand:crates/jarl-core/src/rule_set.rs enum Rule derive=Clone,Copy,PartialEq,Eq,Structural
/// the rule whose name is exactly n
pub uninterp spec fn rule_named(n: Seq<char>) -> Option<Rule>;
impl Rule {
    #[verifier::external_body]
    pub fn from_name(name: &str) -> (r: Option<Rule>) ensures r == rule_named(name@) { unimplemented!() }
}
//@include directives.rs

// ---- std collections (TRUSTED stubs) ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { e: core::marker::PhantomData<T> }
impl<T> HashSet<T> {
    pub uninterp spec fn all(&self) -> ISet<T>;
    #[verifier::external_body]
    pub fn new() -> (r: HashSet<T>) ensures r.all() == ISet::<T>::empty() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { e: core::marker::PhantomData<(K, V)> }
pub open spec fn at_key<K, V>(m: IMap<K, V>, k: K) -> Option<V> { if m.dom().contains(k) { Some(m[k]) } else { None } }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn map(&self) -> IMap<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: HashMap<K, V>) ensures r.map() == IMap::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self).map() == old(self).map().insert(k, v), r == at_key(old(self).map(), k) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self).map() == old(self).map().remove(*k), r == at_key(old(self).map(), *k) { unimplemented!() }
    /// every entry once, in some order
    #[verifier::external_body]
    pub fn drain(&mut self) -> (r: Vec<(K, V)>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> old(self).map().dom().contains((#[trigger] r@[i]).0) && old(self).map()[r@[i].0] == r@[i].1,
            forall|k: K| #[trigger] old(self).map().dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == k,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0 != (#[trigger] r@[j]).0,
            final(self).map() == IMap::<K, V>::empty(),
    { unimplemented!() }
}

// ---- the syntax tree, and which comments biome attaches to which node (TRUSTED stubs) ----
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
#[allow(non_camel_case_types)]
pub enum RSyntaxKind { R_BRACED_EXPRESSIONS, R_CALL_ARGUMENTS, R_ARGUMENT_LIST, R_ARGUMENT, R_ARGUMENT_NAME_CLAUSE, R_EXPRESSION_LIST, R_ROOT, R_CALL, R_FUNCTION_DEFINITION, R_PARAMETERS, R_IF_STATEMENT, OTHER }
pub ghost struct Tree { pub id: int, pub kind: RSyntaxKind, pub range: TextRange, pub kids: Seq<Tree> }
#[verifier::external_body]
pub struct RSyntaxNode { e: () }
impl RSyntaxNode {
    pub uninterp spec fn tree(&self) -> Tree;
    #[verifier::external_body]
    pub fn kind(&self) -> (r: RSyntaxKind) ensures r == self.tree().kind { unimplemented!() }
    #[verifier::external_body]
    pub fn text_trimmed_range(&self) -> (r: TextRange) ensures r == self.tree().range { unimplemented!() }
    #[verifier::external_body]
    pub fn children(&self) -> (r: Vec<RSyntaxNode>) ensures r@.len() == self.tree().kids.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).tree() == self.tree().kids[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn first_child(&self) -> (r: Option<RSyntaxNode>) ensures r is Some == (self.tree().kids.len() > 0) { unimplemented!() }
}
impl Clone for RSyntaxNode {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.tree() == self.tree() { unimplemented!() }
}
/// a comment of the file
pub ghost struct Note { pub text: Seq<char>, pub range: TextRange }
#[verifier::external_body]
pub struct SourceComment { e: () }
#[verifier::external_body]
pub struct Piece { e: () }
impl SourceComment {
    pub uninterp spec fn note(&self) -> Note;
    #[verifier::external_body]
    pub fn piece(&self) -> (r: &Piece) ensures r.note() == self.note() { unimplemented!() }
}
impl Piece {
    pub uninterp spec fn note(&self) -> Note;
    #[verifier::external_body]
    pub fn text(&self) -> (r: &str) ensures r@ == self.note().text { unimplemented!() }
    #[verifier::external_body]
    pub fn text_range(&self) -> (r: TextRange) ensures r == self.note().range { unimplemented!() }
}
pub struct RLanguage { pub x: u8 }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Comments<T> { e: core::marker::PhantomData<T> }
pub open spec fn notes_of(v: Seq<SourceComment>) -> Seq<Note> { v.map_values(|c: SourceComment| c.note()) }
/// the comments biome attaches to the nodes of a tree, given RCommentStyle
pub ghost struct Placed { pub lead: spec_fn(Tree) -> Seq<Note>, pub dang: spec_fn(Tree) -> Seq<Note>, pub trail: spec_fn(Tree) -> Seq<Note> }
pub uninterp spec fn placed(root: Tree) -> Placed;
impl Comments<RLanguage> {
    pub uninterp spec fn placed(&self) -> Placed;
    #[verifier::external_body]
    pub fn default() -> (r: Comments<RLanguage>) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_node(root: &RSyntaxNode, style: &RCommentStyle, map: Option<()>) -> (r: Comments<RLanguage>) ensures r.placed() == placed(root.tree()) { unimplemented!() }
    #[verifier::external_body]
    pub fn leading_comments(&self, n: &RSyntaxNode) -> (r: &[SourceComment]) ensures notes_of(r@) == (self.placed().lead)(n.tree()) { unimplemented!() }
    #[verifier::external_body]
    pub fn dangling_comments(&self, n: &RSyntaxNode) -> (r: &[SourceComment]) ensures notes_of(r@) == (self.placed().dang)(n.tree()) { unimplemented!() }
    #[verifier::external_body]
    pub fn trailing_comments(&self, n: &RSyntaxNode) -> (r: &[SourceComment]) ensures notes_of(r@) == (self.placed().trail)(n.tree()) { unimplemented!() }
}
pub struct RCommentStyle;

//@item crates/jarl-core/src/suppression.rs struct SkipRegion
//@item crates/jarl-core/src/suppression.rs struct NodeSuppression
//@item crates/jarl-core/src/suppression.rs struct FileSuppression
//@item crates/jarl-core/src/suppression.rs struct ChunkSuppression
//@item crates/jarl-core/src/suppression.rs struct CommentCollector
//@item crates/jarl-core/src/suppression.rs struct SuppressionManager

// ---- what the property says ----
/// what a comment asks for, given where it stands
pub ghost enum Kind { Nothing, Misplaced, Blanket, Unexplained, Misnamed, Start(Rule), End(Rule), ChunkLine, File(Rule), FileLate, Node(Rule), Chunk(Rule) }
pub ghost struct Act { pub k: Kind, pub at: TextRange, pub node: TextRange, pub level: int }
/// first: a file comment counts here; eol: there is code before it on its line
pub open spec fn kind_of(t: Seq<char>, first: bool, eol: bool) -> Kind {
    match meaning(t) {
        None => Kind::Nothing,
        Some(m) => if eol { Kind::Misplaced } else {
            match m {
                DirectiveParseResult::BlanketSuppression => Kind::Blanket,
                DirectiveParseResult::MissingExplanation => Kind::Unexplained,
                DirectiveParseResult::InvalidRuleName => Kind::Misnamed,
                DirectiveParseResult::Valid(d) => match d {
                    LintDirective::Ignore(r) => Kind::Node(r),
                    LintDirective::IgnoreStart(r) => Kind::Start(r),
                    LintDirective::IgnoreEnd(r) => Kind::End(r),
                    LintDirective::IgnoreChunk(r) => Kind::ChunkLine,
                    LintDirective::IgnoreFile(r) => if first { Kind::File(r) } else { Kind::FileLate },
                },
            }
        },
    }
}
/// an item of a Quarto list of ignored rules
pub open spec fn item_kind(t: Seq<char>) -> Option<Kind> {
    match array_item(t) {
        Some(DirectiveParseResult::Valid(LintDirective::IgnoreChunk(r))) => Some(Kind::Chunk(r)),
        Some(DirectiveParseResult::MissingExplanation) => Some(Kind::Unexplained),
        Some(DirectiveParseResult::InvalidRuleName) => Some(Kind::Misnamed),
        _ => None,
    }
}
pub open spec fn header(t: Seq<char>) -> bool { trim(t) == "#| jarl-ignore-chunk:"@ }
/// the items that follow the header of such a list
pub open spec fn items(l: Seq<Note>) -> Seq<Act>
    decreases l.len(),
{
    if l.len() == 0 { Seq::empty() } else {
        match item_kind(l[0].text) { None => Seq::empty(), Some(k) => seq![Act { k, at: l[0].range, node: l[0].range, level: 0 }] + items(l.drop_first()) }
    }
}
/// comments before a node: each by itself, except that a header takes the items after it
pub open spec fn lead_acts(l: Seq<Note>, node: TextRange, first: bool, level: int) -> Seq<Act>
    decreases l.len(),
{
    if l.len() == 0 { Seq::empty() }
    else if header(l[0].text) {
        let it = items(l.drop_first());
        if it.len() == 0 { seq![Act { k: Kind::Blanket, at: l[0].range, node: l[0].range, level: 0 }] + lead_acts(l.drop_first(), node, first, level) }
        else if it.len() < l.len() { it + lead_acts(l.skip(1 + it.len() as int), node, first, level) } else { it }
    }
    else { seq![Act { k: kind_of(l[0].text, first, false), at: l[0].range, node, level }] + lead_acts(l.drop_first(), node, first, level) }
}
pub open spec fn dang_acts(l: Seq<Note>, node: TextRange, level: int) -> Seq<Act> {
    l.map_values(|n: Note| Act { k: kind_of(n.text, false, false), at: n.range, node, level })
}
pub open spec fn eol_at(s: Seq<char>, at: TextRange) -> bool { exists|k: int| 0 <= k <= s.len() && bo(s, k) == at.s && #[trigger] code_before(s, k) }
/// comments that no node follows cover nothing but themselves
pub open spec fn trail_acts(l: Seq<Note>, src: Seq<char>, level: int) -> Seq<Act> {
    l.map_values(|n: Note| Act { k: kind_of(n.text, false, eol_at(src, n.range)), at: n.range, node: n.range, level })
}
pub open spec fn inner(t: Tree, level: int) -> int { if t.kind == RSyntaxKind::R_BRACED_EXPRESSIONS { level + 1 } else { level } }
/// what the comments attached to t and the nodes in it ask for. A comment in front of t covers t; braces make a new
/// level; a file comment counts only if nothing at all precedes it
pub open spec fn acts(c: Placed, src: Seq<char>, t: Tree, first: bool, level: int) -> Seq<Act>
    decreases t, t.kids.len() + 1,
{
    lead_acts((c.lead)(t), t.range, first, level) + dang_acts((c.dang)(t), t.range, inner(t, level)) + kid_acts(c, src, t, t.kids.len() as int, first, inner(t, level)) + trail_acts((c.trail)(t), src, level)
}
pub open spec fn kid_acts(c: Placed, src: Seq<char>, t: Tree, n: int, first: bool, level: int) -> Seq<Act>
    decreases t, n,
{
    if n <= 0 || n > t.kids.len() { Seq::empty() }
    else { kid_acts(c, src, t, n - 1, first, level) + acts(c, src, t.kids[n - 1], n == 1 && first && t.kids[0].range.s == t.range.s, level) }
}

// ---- one after the other ----
pub ghost struct St {
    pub starts: IMap<(Rule, usize), (TextRange, TextRange)>,
    pub regions: Seq<SkipRegion>, pub files: Seq<FileSuppression>, pub chunks: Seq<ChunkSuppression>, pub nodes: Seq<NodeSuppression>,
    pub blanket: Seq<TextRange>, pub chunkline: Seq<TextRange>, pub unexplained: Seq<TextRange>, pub filelate: Seq<TextRange>, pub misplaced: Seq<TextRange>,
    pub misnamed: Seq<TextRange>, pub lone_start: Seq<TextRange>, pub lone_end: Seq<TextRange>, pub any: bool,
}
pub open spec fn st(c: &CommentCollector) -> St {
    St {
        starts: c.starts.map(), regions: c.skip_regions@, files: c.file_suppressions@, chunks: c.chunk_suppressions@, nodes: c.node_suppressions@,
        blanket: c.blanket_suppressions@, chunkline: c.invalid_chunk_suppressions@, unexplained: c.unexplained_suppressions@, filelate: c.misplaced_file_suppressions@,
        misplaced: c.misplaced_suppressions@, misnamed: c.misnamed_suppressions@, lone_start: c.unmatched_start_suppressions@, lone_end: c.unmatched_end_suppressions@,
        any: c.has_any_valid_directive,
    }
}
pub open spec fn step(s: St, a: Act) -> St {
    match a.k {
        Kind::Nothing => s,
        Kind::Misplaced => St { misplaced: s.misplaced.push(a.at), ..s },
        Kind::Blanket => St { blanket: s.blanket.push(a.at), ..s },
        Kind::Unexplained => St { unexplained: s.unexplained.push(a.at), ..s },
        Kind::Misnamed => St { misnamed: s.misnamed.push(a.at), ..s },
        Kind::ChunkLine => St { chunkline: s.chunkline.push(a.at), any: true, ..s },
        Kind::File(r) => St { files: s.files.push(FileSuppression { rule: r, comment_range: a.at }), any: true, ..s },
        Kind::FileLate => St { filelate: s.filelate.push(a.at), any: true, ..s },
        Kind::Node(r) => St { nodes: s.nodes.push(NodeSuppression { node_range: a.node, rule: r, comment_range: a.at }), any: true, ..s },
        Kind::Chunk(r) => St { chunks: s.chunks.push(ChunkSuppression { rule: r, comment_range: a.at }), any: true, ..s },
        Kind::Start(r) => St {
            starts: s.starts.insert((r, a.level as usize), (a.at, a.at)),
            lone_start: match at_key(s.starts, (r, a.level as usize)) { Some(o) => s.lone_start.push(o.0), None => s.lone_start }, any: true, ..s },
        Kind::End(r) => match at_key(s.starts, (r, a.level as usize)) {
            Some(o) => St { starts: s.starts.remove((r, a.level as usize)), regions: s.regions.push(SkipRegion { range: TextRange { s: o.0.s, e: a.at.e }, rule: r, comment_range: o.0 }), any: true, ..s },
            None => St { starts: s.starts.remove((r, a.level as usize)), lone_end: s.lone_end.push(a.at), any: true, ..s },
        },
    }
}
pub open spec fn run(s: St, l: Seq<Act>) -> St
    decreases l.len(),
{ if l.len() == 0 { s } else { step(run(s, l.drop_last()), l.last()) } }
pub proof fn lemma_run(s: St, a: Seq<Act>, b: Seq<Act>)
    ensures run(s, a + b) == run(run(s, a), b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        lemma_run(s, a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
    }
}
pub proof fn lemma_run1(s: St, a: Act)
    ensures run(s, seq![a]) == step(s, a),
{
    reveal_with_fuel(run, 2);
    assert(seq![a].drop_last() =~= Seq::<Act>::empty());
}
pub open spec fn start_state() -> St {
    St {
        starts: IMap::empty(), regions: Seq::empty(), files: Seq::empty(), chunks: Seq::empty(), nodes: Seq::empty(), blanket: Seq::empty(), chunkline: Seq::empty(), unexplained: Seq::empty(),
        filelate: Seq::empty(), misplaced: Seq::empty(), misnamed: Seq::empty(), lone_start: Seq::empty(), lone_end: Seq::empty(), any: false,
    }
}
/// every start still open begins before the ends to come
#[verifier::opaque]
pub open spec fn before(s: St, l: Seq<Act>) -> bool {
    forall|k: (Rule, usize), j: int| 0 <= j < l.len() && s.starts.dom().contains(k) ==> (#[trigger] s.starts[k]).0.s <= (#[trigger] l[j]).at.e
}
/// the comments come in the order of the text
#[verifier::opaque]
pub open spec fn in_order(l: Seq<Act>) -> bool { forall|i: int, j: int| 0 <= i <= j < l.len() ==> (#[trigger] l[i]).at.s <= (#[trigger] l[j]).at.e }
pub proof fn lemma_before(s: St, a: Seq<Act>, b: Seq<Act>)
    requires before(s, a + b), in_order(a + b),
    ensures before(s, a), before(run(s, a), b), in_order(a), in_order(b),
    decreases a.len(),
{
    reveal(before); reveal(in_order);
    let w = a + b;
    assert forall|k: (Rule, usize), j: int| 0 <= j < a.len() && s.starts.dom().contains(k) implies (#[trigger] s.starts[k]).0.s <= (#[trigger] a[j]).at.e by { assert(a[j] == w[j]); }
    assert forall|i: int, j: int| 0 <= i <= j < a.len() implies (#[trigger] a[i]).at.s <= (#[trigger] a[j]).at.e by { assert(a[i] == w[i]); assert(a[j] == w[j]); }
    assert forall|i: int, j: int| 0 <= i <= j < b.len() implies (#[trigger] b[i]).at.s <= (#[trigger] b[j]).at.e by { assert(b[i] == w[a.len() + i]); assert(b[j] == w[a.len() + j]); }
    if a.len() == 0 { assert(a + b =~= b); } else {
        let a0 = a.drop_last(); let b0 = seq![a.last()] + b;
        assert(a0 + b0 =~= a + b);
        lemma_before(s, a0, b0);
        let u = run(s, a0);
        assert forall|k: (Rule, usize), j: int| 0 <= j < b.len() && run(s, a).starts.dom().contains(k) implies (#[trigger] run(s, a).starts[k]).0.s <= (#[trigger] b[j]).at.e by {
            assert(b0[j + 1] == b[j]);
            assert(b0[0] == a.last());
            if u.starts.dom().contains(k) && u.starts[k] == run(s, a).starts[k] { assert(u.starts[k].0.s <= b0[j + 1].at.e); }
            else { assert(run(s, a).starts[k].0 == a.last().at); assert(b0[0].at.s <= b0[j + 1].at.e); }
        }
    }
}

// ---- what a file is like (assumed of the parser and of biome) ----
pub open spec fn note_ok(src: Seq<char>, n: Note) -> bool {
    &&& n.range.s <= n.range.e
    &&& exists|k: int| 0 <= k <= src.len() && n.range.s == #[trigger] bo(src, k)
    &&& part_of(n.text, src)
}
pub open spec fn notes_ok(src: Seq<char>, l: Seq<Note>) -> bool { forall|i: int| 0 <= i < l.len() ==> note_ok(src, #[trigger] l[i]) }
/// depth at most d, and the comments of every node lie in the text
pub open spec fn sound(c: Placed, src: Seq<char>, t: Tree, d: int) -> bool
    decreases t,
{
    &&& d > 0 && notes_ok(src, (c.lead)(t)) && notes_ok(src, (c.dang)(t)) && notes_ok(src, (c.trail)(t))
    &&& forall|i: int| 0 <= i < t.kids.len() ==> sound(c, src, #[trigger] t.kids[i], d - 1)
}

impl CommentCollector {
//@fn crates/jarl-core/src/suppression.rs CommentCollector::new
//@ret r
//@contract
    ensures st(&r) == start_state(),
//@end
}
pub open spec fn fits(s: St, at: TextRange) -> bool { forall|k: (Rule, usize)| s.starts.dom().contains(k) ==> (#[trigger] s.starts[k]).0.s <= at.e }
pub proof fn lemma_fits(s: St, l: Seq<Act>, i: int)
    requires before(s, l), 0 <= i < l.len(),
    ensures fits(s, l[i].at),
{
    reveal(before);
    assert forall|k: (Rule, usize)| s.starts.dom().contains(k) implies (#[trigger] s.starts[k]).0.s <= l[i].at.e by { assert(s.starts[k].0.s <= l[i].at.e); }
}
/// one more act after the first ones
pub proof fn lemma_next(s: St, a: Seq<Act>, n: int)
    requires before(s, a), in_order(a), 0 <= n < a.len(),
    ensures fits(run(s, a.take(n)), a[n].at), run(s, a.take(n + 1)) == step(run(s, a.take(n)), a[n]),
{
    assert(a.take(n) + a.skip(n) =~= a);
    lemma_before(s, a.take(n), a.skip(n));
    lemma_fits(run(s, a.take(n)), a.skip(n), 0);
    assert(a.take(n + 1).drop_last() =~= a.take(n));
}
pub proof fn lemma_two(s: St, a: Seq<Act>, b: Seq<Act>)
    requires before(s, a + b), in_order(a + b),
    ensures before(s, a), in_order(a), in_order(b), before(run(s, a), b), run(s, a + b) == run(run(s, a), b),
{ lemma_before(s, a, b); lemma_run(s, a, b); }
#[verifier::external_body]
pub fn vx_refs(v: &[SourceComment]) -> (r: Vec<&SourceComment>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> *#[trigger] r@[i] == v@[i] { unimplemented!() }
pub proof fn lemma_items(l: Seq<Note>)
    ensures items(l).len() <= l.len(), l.len() > 0 && item_kind(l[0].text) is Some ==> items(l).len() > 0 && items(l).drop_first() == items(l.drop_first()),
        l.len() > 0 && item_kind(l[0].text) is None ==> items(l).len() == 0,
    decreases l.len(),
{
    if l.len() > 0 { lemma_items(l.drop_first()); }
    if l.len() > 0 && item_kind(l[0].text) is Some { assert(items(l).drop_first() =~= items(l.drop_first())); }
}
pub proof fn lemma_eol(s: Seq<char>, k: int, at: TextRange)
    requires 0 <= k <= s.len(), at.s == bo(s, k),
    ensures eol_at(s, at) == code_before(s, k),
{
    if eol_at(s, at) { let j = choose|j: int| 0 <= j <= s.len() && bo(s, j) == at.s && #[trigger] code_before(s, j); lemma_bo_inj(s, j, k); }
}
impl SuppressionManager {
//@fn crates/jarl-core/src/suppression.rs SuppressionManager::process_comment
//@contract
    requires
        fits(st(old(collector)), comment_range),
    ensures
        st(final(collector)) == step(st(old(collector)), Act { k: kind_of(text@, allow_file_suppression, is_trailing), at: comment_range, node: node_range, level: nesting_level as int }),
//@at start
    proof { assert forall|k: (Rule, usize)| old(collector).starts.map().dom().contains(k) implies (#[trigger] old(collector).starts.map()[k]).0.s <= comment_range.e by { assert(st(old(collector)).starts[k].0.s <= comment_range.e); } }
//@end
//@methods trim trim_start find into rfind is_whitespace any
//@fn crates/jarl-core/src/suppression.rs SuppressionManager::is_same_line_as_code
//@subst `.chars()` => `.vx_chars_of()`
//@ret r
//@contract
    requires exists|k: int| 0 <= k <= source@.len() && comment_range.s == #[trigger] bo(source@, k),
    ensures r == eol_at(source@, comment_range),
//@closure 0 (c: char) -> b: bool
    ensures b == !ws(c),
//@closure 1 (c: char) -> b: bool
    ensures b == !ws(c),
//@at start
    let ghost s = source@;
    let ghost k = choose|k: int| 0 <= k <= s.len() && comment_range.s == #[trigger] bo(s, k);
    proof { assert(source.spec_bytes().len() <= isize::MAX); lemma_bo(s, 0, k); encode_utf8_valid_utf8(s); lemma_eol(s, k, comment_range); }
//@at after let before_comment
    proof {
        lemma_slice(s, 0, k, before_comment@);
        assert(s.subrange(0, k) =~= s.take(k));
        if !before_comment@.contains('\n') { assert forall|j: int| 0 <= j < k implies s[j] != '\n' by { assert(before_comment@[j] == s[j]); } lemma_code_before(s, k, 0); assert(code_before(s, k) == exists|i: int| 0 <= i < before_comment@.len() && !ws(#[trigger] before_comment@[i])); }
    }
//@at before let between
    let ghost n = choose|n: int| #[trigger] last_at(before_comment@, '\n', n) && last_newline == bo(before_comment@, n);
    let ghost bc = before_comment@;
    proof {
        lemma_bo_next(bc, n); lemma_bo(bc, n + 1, bc.len() as int); encode_utf8_valid_utf8(bc); assert(before_comment.spec_bytes().len() <= isize::MAX);
        assert(bc[n] == s[n]);
        assert forall|j: int| n + 1 <= j < k implies s[j] != '\n' by { assert(bc[j] == s[j]); }
        lemma_code_before(s, k, n + 1);
        assert(s.subrange(n + 1, k) =~= bc.subrange(n + 1, bc.len() as int));
    }
//@at after let between
    proof { lemma_slice(bc, n + 1, bc.len() as int, between@); }
//@end
//@methods
//@fn crates/jarl-core/src/suppression.rs SuppressionManager::collect_all_directives
//@subst `comments.leading_comments(node).iter().collect()` => `vx_refs(comments.leading_comments(node))`
//@contract
    requires
        sound(comments.placed(), source@, node.tree(), usize::MAX - nesting_level),
        before(st(old(collector)), acts(comments.placed(), source@, node.tree(), is_first_expression, nesting_level as int)),
        in_order(acts(comments.placed(), source@, node.tree(), is_first_expression, nesting_level as int)),
    ensures
        st(final(collector)) == run(st(old(collector)), acts(comments.placed(), source@, node.tree(), is_first_expression, nesting_level as int)),
    decreases node.tree(),
//@at start
    let ghost c = comments.placed();
    let ghost t = node.tree();
    let ghost src = source@;
    let ghost s0 = st(collector);
    let ghost first = is_first_expression;
    let ghost level = nesting_level as int;
    let ghost ln = (c.lead)(t);
    let ghost la = lead_acts(ln, t.range, first, level);
    let ghost da = dang_acts((c.dang)(t), t.range, inner(t, level));
    let ghost ka = kid_acts(c, src, t, t.kids.len() as int, first, inner(t, level));
    let ghost ta = trail_acts((c.trail)(t), src, level);
    proof { lemma_two(s0, la + da + ka, ta); lemma_two(s0, la + da, ka); lemma_two(s0, la, da); }
    let ghost mut done = Seq::<Act>::empty();
//@at before loop 0
    proof { assert(ln.skip(0) =~= ln); assert(done + lead_acts(ln.skip(0), t.range, first, level) =~= la); }
//@loop 0 -
    invariant
        c == comments.placed(), t == node.tree(), node_range == t.range, first == is_first_expression, level == nesting_level, ln == (c.lead)(t), la == lead_acts(ln, t.range, first, level),
        before(s0, la), in_order(la),
        leading@.len() == ln.len(), forall|i: int| 0 <= i < ln.len() ==> (*#[trigger] leading@[i]).note() == ln[i],
        0 <= i <= ln.len(), st(collector) == run(s0, done), done + lead_acts(ln.skip(i as int), t.range, first, level) == la,
    decreases ln.len() - i,
//@at loop 0 start
    let ghost rest = lead_acts(ln.skip(i as int), t.range, first, level);
    let ghost i0 = i as int;
    let ghost sk = ln.skip(i0);
    proof {
        lemma_two(s0, done, rest);
        assert(sk[0] == ln[i0]); assert(sk.drop_first() =~= ln.skip(i0 + 1));
        lemma_items(sk.drop_first());
        if !header(sk[0].text) { lemma_fits(run(s0, done), rest, 0); }
    }
    let ghost its = items(sk.drop_first());
//@at before loop 1
    proof { assert(its.take(0) =~= Seq::<Act>::empty()); assert(its.skip(0) =~= its); lemma_run(s0, done, its.take(0)); }
//@loop 1 -
    invariant
        leading@.len() == ln.len(), forall|i: int| 0 <= i < ln.len() ==> (*#[trigger] leading@[i]).note() == ln[i],
        i0 + 1 <= i <= ln.len(), i - i0 - 1 <= its.len(), items(ln.skip(i as int)) == its.skip(i - i0 - 1),
        st(collector) == run(s0, done + its.take(i - i0 - 1)), found_any_item == (i > i0 + 1), its.len() <= ln.len() - i0 - 1,
    ensures i - i0 - 1 == its.len(),
    decreases ln.len() - i,
//@at loop 1 start
    let ghost n = i - i0 - 1;
    proof {
        let r = ln.skip(i as int);
        assert(r[0] == ln[i as int]); assert(r.drop_first() =~= ln.skip(i + 1));
        lemma_items(r);
        if item_kind(r[0].text) is Some {
            assert(items(r).len() > 0);
            assert(its.skip(n)[0] == its[n]);
            assert((done + its.take(n + 1)).drop_last() =~= done + its.take(n));
            assert((done + its.take(n + 1)).last() == its[n]);
            assert(its.skip(n).drop_first() =~= its.skip(n + 1));
        }
    }
//@at after loop 1
    proof {
        assert(its.take(its.len() as int) =~= its);
        if its.len() == 0 {
            let b = Act { k: Kind::Blanket, at: ln[i0].range, node: ln[i0].range, level: 0 };
            assert(done + its =~= done);
            assert((done + seq![b]).drop_last() =~= done);
            assert((done + seq![b]) + lead_acts(ln.skip(i0 + 1), t.range, first, level) =~= la);
            done = done + seq![b];
        } else {
            assert(sk.skip(1 + its.len() as int) =~= ln.skip(i0 + 1 + its.len()));
            done = done + its;
            if its.len() < sk.len() { assert(done + lead_acts(ln.skip(i as int), t.range, first, level) =~= la); }
        }
    }
//@at loop 0 end
    proof {
        if !header(sk[0].text) {
            let b = Act { k: kind_of(sk[0].text, first, false), at: sk[0].range, node: t.range, level };
            assert((done + seq![b]).drop_last() =~= done);
            assert((done + seq![b]) + lead_acts(ln.skip(i0 + 1), t.range, first, level) =~= la);
            done = done + seq![b];
        }
    }
//@at after loop 0
    proof { assert(lead_acts(ln.skip(ln.len() as int), t.range, first, level) =~= Seq::<Act>::empty()); assert(done =~= la); }
    let ghost s1 = st(collector);
    let ghost dn = (c.dang)(t);
//@loop 2 it hoist=vx_dangling
    invariant
        c == comments.placed(), t == node.tree(), node_range == t.range, dn == (c.dang)(t), child_nesting == inner(t, level), level == nesting_level, da == dang_acts(dn, t.range, inner(t, level)),
        before(s1, da), in_order(da), notes_of(vx_dangling@) == dn,
        it.seq().len() == dn.len(), forall|i: int| 0 <= i < dn.len() ==> *#[trigger] it.seq()[i] == vx_dangling@[i],
        st(collector) == run(s1, da.take(it.index() as int)),
//@at loop 2 start
    proof {
        let n = it.index() as int;
        assert(notes_of(vx_dangling@)[n] == vx_dangling@[n].note());
        lemma_next(s1, da, n);
    }
//@at after loop 2
    proof { assert(da.take(da.len() as int) =~= da); }
    let ghost s2 = st(collector);
//@loop 3 it hoist=vx_children
    invariant
        c == comments.placed(), t == node.tree(), node_range == t.range, child_nesting == inner(t, level), level == nesting_level, src == source@,
        sound(c, src, t, usize::MAX - nesting_level), first == is_first_expression,
        it.seq() == vx_children@, vx_children@.len() == t.kids.len(), forall|i: int| 0 <= i < t.kids.len() ==> (#[trigger] vx_children@[i]).tree() == t.kids[i],
        before(s2, ka), in_order(ka), ka == kid_acts(c, src, t, t.kids.len() as int, first, inner(t, level)),
        st(collector) == run(s2, kid_acts(c, src, t, it.index() as int, first, inner(t, level))),
        is_first == (first && it.index() == 0),
//@at loop 3 start
    let ghost n = it.index() as int;
    proof {
        lemma_kids(c, src, t, n, t.kids.len() as int, first, inner(t, level));
        lemma_kids(c, src, t, n + 1, t.kids.len() as int, first, inner(t, level));
        let k0 = kid_acts(c, src, t, n, first, inner(t, level)); let k1 = kid_acts(c, src, t, n + 1, first, inner(t, level));
        let a = acts(c, src, t.kids[n], n == 0 && first && t.kids[0].range.s == t.range.s, inner(t, level));
        assert(k1 == k0 + a);
        assert(k1 + ka.skip(k1.len() as int) =~= ka);
        lemma_two(s2, k1, ka.skip(k1.len() as int));
        lemma_two(s2, k0, a);
        lemma_deeper(c, src, t.kids[n], usize::MAX - nesting_level - 1, usize::MAX - child_nesting);
    }
//@at after loop 3
    let ghost s3 = st(collector);
    let ghost tn = (c.trail)(t);
//@loop 4 it hoist=vx_trailing
    invariant
        c == comments.placed(), t == node.tree(), tn == (c.trail)(t), level == nesting_level, ta == trail_acts(tn, src, level), src == source@,
        before(s3, ta), in_order(ta), notes_of(vx_trailing@) == tn, notes_ok(src, tn),
        it.seq().len() == tn.len(), forall|i: int| 0 <= i < tn.len() ==> *#[trigger] it.seq()[i] == vx_trailing@[i],
        st(collector) == run(s3, ta.take(it.index() as int)),
//@at loop 4 start
    proof {
        let n = it.index() as int;
        assert(notes_of(vx_trailing@)[n] == vx_trailing@[n].note());
        assert(note_ok(src, tn[n]));
        lemma_next(s3, ta, n);
    }
//@at after loop 4
    proof { assert(ta.take(ta.len() as int) =~= ta); }
//@end
}
pub proof fn lemma_kids(c: Placed, src: Seq<char>, t: Tree, m: int, n: int, first: bool, level: int)
    requires 0 <= m <= n <= t.kids.len(),
    ensures kid_acts(c, src, t, m, first, level).len() <= kid_acts(c, src, t, n, first, level).len(), kid_acts(c, src, t, m, first, level) == kid_acts(c, src, t, n, first, level).take(kid_acts(c, src, t, m, first, level).len() as int),
    decreases n - m,
{
    let km = kid_acts(c, src, t, m, first, level); let kn = kid_acts(c, src, t, n, first, level);
    if m < n {
        lemma_kids(c, src, t, m, n - 1, first, level);
        assert(kn.take(km.len() as int) =~= kid_acts(c, src, t, n - 1, first, level).take(km.len() as int));
    } else { assert(kn.take(km.len() as int) =~= km); }
}
pub proof fn lemma_deeper(c: Placed, src: Seq<char>, t: Tree, d: int, e: int)
    requires sound(c, src, t, d), d <= e,
    ensures sound(c, src, t, e),
    decreases t,
{
    assert forall|i: int| 0 <= i < t.kids.len() implies sound(c, src, #[trigger] t.kids[i], e - 1) by { lemma_deeper(c, src, t.kids[i], d - 1, e - 1); }
}

// ---- a text without "jarl-ignore" has no directives ----
pub proof fn lemma_part(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires part_of(a, b), part_of(b, c),
    ensures part_of(a, c),
{
    let i = choose|i: int| 0 <= i <= b.len() - a.len() && #[trigger] b.subrange(i, i + a.len()) == a;
    let j = choose|j: int| 0 <= j <= c.len() - b.len() && #[trigger] c.subrange(j, j + b.len()) == b;
    assert(c.subrange(i + j, i + j + a.len()) =~= a);
}
pub proof fn lemma_trim_part(s: Seq<char>)
    ensures part_of(trim_start(s), s), part_of(trim_end(s), s), exists|k: int| 0 <= k <= s.len() && trim_start(s) == #[trigger] s.skip(k),
    decreases s.len(),
{
    assert(s.subrange(0int, 0int + s.len()) =~= s);
    assert(s.skip(0) =~= s);
    if s.len() > 0 && ws(s[0]) {
        let d = s.drop_first();
        lemma_trim_part(d);
        assert(s.subrange(1int, 1int + d.len()) =~= d);
        lemma_part(trim_start(d), d, s);
        let k = choose|k: int| 0 <= k <= d.len() && trim_start(d) == #[trigger] d.skip(k);
        assert(s.skip(k + 1) =~= d.skip(k));
    }
    if s.len() > 0 && ws(s.last()) {
        let d = s.drop_last();
        lemma_trim_part(d);
        assert(s.subrange(0int, 0int + d.len()) =~= d);
        lemma_part(trim_end(d), d, s);
    }
}
pub proof fn lemma_silent_text(t: Seq<char>, src: Seq<char>)
    requires part_of(t, src), !part_of("jarl-ignore"@, src),
    ensures meaning(t) is None, !header(t),
{
    lemma_trim_part(t);
    lemma_trim_part(trim_start(t));
    if meaning(t) is Some {
        let u = trim_start(t);
        let b = (body(u)->0).0;
        lemma_literals();
        let k: int = if has_prefix(u, "#| "@) { 3 } else if has_prefix(u, "# "@) { 2 } else { 1 };
        assert(b == u.skip(k));
        let w = "jarl-ignore"@;
        assert(b.subrange(0, w.len() as int) =~= w);
        assert(u.subrange(k, k + w.len()) =~= w);
        lemma_part(w, u, t); lemma_part(w, t, src);
    }
    if header(t) {
        let h = "#| jarl-ignore-chunk:"@; let w = "jarl-ignore"@;
        reveal_strlit("#| jarl-ignore-chunk:"); reveal_strlit("jarl-ignore");
        assert(h.subrange(3int, 3int + w.len()) =~= w);
        lemma_part(h, trim_start(t), t); lemma_part(w, h, t); lemma_part(w, t, src);
    }
}
pub open spec fn silent(l: Seq<Act>) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).k == Kind::Nothing }
pub open spec fn levels(l: Seq<Act>) -> bool { forall|i: int| 0 <= i < l.len() ==> 0 <= (#[trigger] l[i]).level <= usize::MAX }
pub proof fn lemma_run_silent(s: St, l: Seq<Act>)
    requires silent(l),
    ensures run(s, l) == s,
    decreases l.len(),
{
    if l.len() > 0 {
        assert forall|i: int| 0 <= i < l.drop_last().len() implies (#[trigger] l.drop_last()[i]).k == Kind::Nothing by { assert(l.drop_last()[i] == l[i]); }
        lemma_run_silent(s, l.drop_last());
        assert(l.last() == l[l.len() - 1]);
    }
}
pub proof fn lemma_lead_silent(src: Seq<char>, l: Seq<Note>, node: TextRange, first: bool, level: int)
    requires notes_ok(src, l), !part_of("jarl-ignore"@, src),
    ensures silent(lead_acts(l, node, first, level)),
    decreases l.len(),
{
    if l.len() > 0 {
        assert(note_ok(src, l[0]));
        lemma_silent_text(l[0].text, src);
        assert forall|i: int| 0 <= i < l.drop_first().len() implies note_ok(src, #[trigger] l.drop_first()[i]) by { assert(l.drop_first()[i] == l[i + 1]); }
        lemma_lead_silent(src, l.drop_first(), node, first, level);
    }
}
pub proof fn lemma_silent(c: Placed, src: Seq<char>, t: Tree, d: int, first: bool, level: int)
    requires sound(c, src, t, d), !part_of("jarl-ignore"@, src),
    ensures silent(acts(c, src, t, first, level)),
    decreases t, t.kids.len() + 1,
{
    lemma_lead_silent(src, (c.lead)(t), t.range, first, level);
    let dn = (c.dang)(t); let tn = (c.trail)(t);
    assert forall|i: int| 0 <= i < dn.len() implies (#[trigger] dang_acts(dn, t.range, inner(t, level))[i]).k == Kind::Nothing by { assert(note_ok(src, dn[i])); lemma_silent_text(dn[i].text, src); }
    assert forall|i: int| 0 <= i < tn.len() implies (#[trigger] trail_acts(tn, src, level)[i]).k == Kind::Nothing by { assert(note_ok(src, tn[i])); lemma_silent_text(tn[i].text, src); }
    lemma_silent_kids(c, src, t, d, t.kids.len() as int, first, inner(t, level));
}
pub proof fn lemma_silent_kids(c: Placed, src: Seq<char>, t: Tree, d: int, n: int, first: bool, level: int)
    requires sound(c, src, t, d), !part_of("jarl-ignore"@, src), 0 <= n <= t.kids.len(),
    ensures silent(kid_acts(c, src, t, n, first, level)),
    decreases t, n,
{
    if n > 0 {
        lemma_silent_kids(c, src, t, d, n - 1, first, level);
        lemma_silent(c, src, t.kids[n - 1], d - 1, n == 1 && first && t.kids[0].range.s == t.range.s, level);
    }
}
pub proof fn lemma_items_levels(l: Seq<Note>)
    ensures levels(items(l)),
    decreases l.len(),
{ if l.len() > 0 { lemma_items_levels(l.drop_first()); } }
pub proof fn lemma_lead_levels(l: Seq<Note>, node: TextRange, first: bool, level: int)
    requires 0 <= level <= usize::MAX,
    ensures levels(lead_acts(l, node, first, level)),
    decreases l.len(),
{
    if l.len() > 0 {
        lemma_items_levels(l.drop_first());
        let it = items(l.drop_first());
        lemma_lead_levels(l.drop_first(), node, first, level);
        if 0 < it.len() < l.len() { lemma_lead_levels(l.skip(1 + it.len() as int), node, first, level); }
    }
}
pub proof fn lemma_levels(c: Placed, src: Seq<char>, t: Tree, first: bool, level: int)
    requires sound(c, src, t, usize::MAX - level), 0 <= level,
    ensures levels(acts(c, src, t, first, level)),
    decreases t, t.kids.len() + 1,
{
    lemma_lead_levels((c.lead)(t), t.range, first, level);
    lemma_levels_kids(c, src, t, level, t.kids.len() as int, first, inner(t, level));
}
pub proof fn lemma_levels_kids(c: Placed, src: Seq<char>, t: Tree, up: int, n: int, first: bool, level: int)
    requires sound(c, src, t, usize::MAX - up), 0 <= up <= level <= up + 1, 0 <= n <= t.kids.len(),
    ensures levels(kid_acts(c, src, t, n, first, level)),
    decreases t, n,
{
    if n > 0 {
        lemma_levels_kids(c, src, t, up, n - 1, first, level);
        lemma_deeper(c, src, t.kids[n - 1], usize::MAX - up - 1, usize::MAX - level);
        lemma_levels(c, src, t.kids[n - 1], n == 1 && first && t.kids[0].range.s == t.range.s, level);
    }
}

// ---- what the comments of a file amount to ----
pub open spec fn pick<T>(l: Seq<Act>, f: spec_fn(Act) -> Option<T>) -> Seq<T>
    decreases l.len(),
{
    if l.len() == 0 { Seq::empty() } else { match f(l.last()) { Some(x) => pick(l.drop_last(), f).push(x), None => pick(l.drop_last(), f) } }
}
pub open spec fn those(l: Seq<Act>, k: Kind) -> Seq<TextRange> { pick(l, |a: Act| if a.k == k { Some(a.at) } else { None }) }
pub open spec fn files_in(l: Seq<Act>) -> Seq<FileSuppression> { pick(l, |a: Act| match a.k { Kind::File(r) => Some(FileSuppression { rule: r, comment_range: a.at }), _ => None }) }
pub open spec fn chunks_in(l: Seq<Act>) -> Seq<ChunkSuppression> { pick(l, |a: Act| match a.k { Kind::Chunk(r) => Some(ChunkSuppression { rule: r, comment_range: a.at }), _ => None }) }
pub open spec fn nodes_in(l: Seq<Act>) -> Seq<NodeSuppression> { pick(l, |a: Act| match a.k { Kind::Node(r) => Some(NodeSuppression { node_range: a.node, rule: r, comment_range: a.at }), _ => None }) }
/// a start or end comment of this rule at this level
pub open spec fn mark(a: Act, r: Rule, level: int) -> bool { (a.k == Kind::Start(r) || a.k == Kind::End(r)) && a.level == level }
pub open spec fn no_mark(l: Seq<Act>, i: int, j: int, r: Rule, level: int) -> bool { forall|m: int| i < m < j ==> !mark(#[trigger] l[m], r, level) }
/// j ends what i starts: same rule, same level, no other start or end of them in between
pub open spec fn pair(l: Seq<Act>, i: int, j: int, r: Rule) -> bool {
    0 <= i < j < l.len() && l[i].k == Kind::Start(r) && l[j].k == Kind::End(r) && l[i].level == l[j].level && no_mark(l, i, j, r, l[i].level)
}
pub open spec fn region(l: Seq<Act>, i: int, j: int, r: Rule) -> SkipRegion { SkipRegion { range: TextRange { s: l[i].at.s, e: l[j].at.e }, rule: r, comment_range: l[i].at } }
/// i starts something and is the last mark of it so far
pub open spec fn open_at(l: Seq<Act>, i: int, r: Rule, level: int) -> bool { 0 <= i < l.len() && l[i].k == Kind::Start(r) && l[i].level == level && no_mark(l, i, l.len() as int, r, level) }
/// another start follows before any end
pub open spec fn replaced(l: Seq<Act>, i: int, j: int, r: Rule) -> bool {
    0 <= i < j < l.len() && l[i].k == Kind::Start(r) && l[j].k == Kind::Start(r) && l[i].level == l[j].level && no_mark(l, i, j, r, l[i].level)
}
pub open spec fn start_alone(l: Seq<Act>, i: int, r: Rule) -> bool { 0 <= i < l.len() && l[i].k == Kind::Start(r) && forall|j: int| !#[trigger] pair(l, i, j, r) }
pub open spec fn end_alone(l: Seq<Act>, j: int, r: Rule) -> bool { 0 <= j < l.len() && l[j].k == Kind::End(r) && forall|i: int| !#[trigger] pair(l, i, j, r) }
/// all the plain lists
pub open spec fn lists(s: St, l: Seq<Act>) -> bool {
    &&& s.files == files_in(l) && s.chunks == chunks_in(l) && s.nodes == nodes_in(l)
    &&& s.blanket == those(l, Kind::Blanket) && s.chunkline == those(l, Kind::ChunkLine) && s.unexplained == those(l, Kind::Unexplained)
    &&& s.filelate == those(l, Kind::FileLate) && s.misplaced == those(l, Kind::Misplaced) && s.misnamed == those(l, Kind::Misnamed)
    &&& s.nodes.len() > 0 ==> s.any
}
pub open spec fn region_for(l: Seq<Act>, x: SkipRegion) -> bool { exists|i: int, j: int| #[trigger] pair(l, i, j, x.rule) && x == region(l, i, j, x.rule) }
pub open spec fn replaced_for(l: Seq<Act>, c: TextRange) -> bool { exists|i: int, j: int, r: Rule| #[trigger] replaced(l, i, j, r) && c == l[i].at }
pub open spec fn end_alone_for(l: Seq<Act>, c: TextRange) -> bool { exists|j: int, r: Rule| #[trigger] end_alone(l, j, r) && c == l[j].at }
pub open spec fn start_alone_for(l: Seq<Act>, c: TextRange) -> bool { exists|i: int, r: Rule| #[trigger] start_alone(l, i, r) && c == l[i].at }
/// starts and ends
pub open spec fn matched(s: St, l: Seq<Act>) -> bool {
    &&& forall|x: SkipRegion| #[trigger] s.regions.contains(x) == region_for(l, x)
    &&& forall|c: TextRange| #[trigger] s.lone_start.contains(c) == replaced_for(l, c)
    &&& forall|c: TextRange| #[trigger] s.lone_end.contains(c) == end_alone_for(l, c)
    &&& forall|r: Rule, v: usize| #[trigger] s.starts.dom().contains((r, v)) ==> exists|i: int| #[trigger] open_at(l, i, r, v as int)
    &&& forall|i: int, r: Rule, v: usize| #[trigger] open_at(l, i, r, v as int) ==> s.starts.dom().contains((r, v)) && s.starts[(r, v)] == (l[i].at, l[i].at)
}
pub proof fn lemma_contains_push<T>(v: Seq<T>, x: T)
    ensures forall|y: T| #[trigger] v.push(x).contains(y) == (v.contains(y) || y == x),
{
    assert forall|y: T| #[trigger] v.push(x).contains(y) == (v.contains(y) || y == x) by {
        if v.contains(y) { let i = choose|i: int| 0 <= i < v.len() && v[i] == y; assert(v.push(x)[i] == y); }
        if y == x { assert(v.push(x)[v.len() as int] == y); }
    }
}
pub proof fn lemma_lists(s: St, l: Seq<Act>, a: Act)
    requires lists(s, l),
    ensures lists(step(s, a), l.push(a)),
{
    let w = l.push(a);
    assert(w.drop_last() =~= l);
    assert(w.last() == a);
}
/// the marks up to n are the same in a longer list
pub proof fn lemma_longer(l: Seq<Act>, a: Act)
    ensures
        forall|i: int, j: int, r: Rule| j < l.len() ==> #[trigger] pair(l.push(a), i, j, r) == pair(l, i, j, r),
        forall|i: int, j: int, r: Rule| j < l.len() ==> #[trigger] replaced(l.push(a), i, j, r) == replaced(l, i, j, r),
        forall|i: int, r: Rule| #[trigger] pair(l.push(a), i, l.len() as int, r) == (open_at(l, i, r, a.level) && a.k == Kind::End(r)),
        forall|i: int, r: Rule| #[trigger] replaced(l.push(a), i, l.len() as int, r) == (open_at(l, i, r, a.level) && a.k == Kind::Start(r)),
        forall|i: int, r: Rule, v: int| i < l.len() ==> #[trigger] open_at(l.push(a), i, r, v) == (open_at(l, i, r, v) && !mark(a, r, v)),
        forall|r: Rule, v: int| #[trigger] open_at(l.push(a), l.len() as int, r, v) == (a.k == Kind::Start(r) && a.level == v),
{
    let w = l.push(a);
    let n = l.len() as int;
    assert forall|i: int, j: int, r: Rule, v: int| j <= n implies #[trigger] no_mark(w, i, j, r, v) == no_mark(l, i, j, r, v) || i < -1 by {
        if i >= -1 {
        if no_mark(w, i, j, r, v) { assert forall|m: int| i < m < j implies !mark(#[trigger] l[m], r, v) by { assert(w[m] == l[m]); } }
        if no_mark(l, i, j, r, v) { assert forall|m: int| i < m < j implies !mark(#[trigger] w[m], r, v) by { assert(w[m] == l[m]); } }
        }
    }
    assert forall|i: int, j: int, r: Rule| j < n implies #[trigger] pair(w, i, j, r) == pair(l, i, j, r) by { if 0 <= i < j { assert(no_mark(w, i, j, r, l[i].level) == no_mark(l, i, j, r, l[i].level)); } }
    assert forall|i: int, j: int, r: Rule| j < n implies #[trigger] replaced(w, i, j, r) == replaced(l, i, j, r) by { if 0 <= i < j { assert(no_mark(w, i, j, r, l[i].level) == no_mark(l, i, j, r, l[i].level)); } }
    assert forall|i: int, r: Rule| #[trigger] pair(w, i, n, r) == (open_at(l, i, r, a.level) && a.k == Kind::End(r)) by { if 0 <= i < n { assert(no_mark(w, i, n, r, l[i].level) == no_mark(l, i, n, r, l[i].level)); } }
    assert forall|i: int, r: Rule| #[trigger] replaced(w, i, n, r) == (open_at(l, i, r, a.level) && a.k == Kind::Start(r)) by { if 0 <= i < n { assert(no_mark(w, i, n, r, l[i].level) == no_mark(l, i, n, r, l[i].level)); } }
    assert forall|i: int, r: Rule, v: int| i < n implies #[trigger] open_at(w, i, r, v) == (open_at(l, i, r, v) && !mark(a, r, v)) by {
        if 0 <= i {
            if open_at(w, i, r, v) { assert(!mark(w[n], r, v)); assert forall|m: int| i < m < n implies !mark(#[trigger] l[m], r, v) by { assert(w[m] == l[m]); } assert(no_mark(l, i, n, r, v)); }
            if open_at(l, i, r, v) && !mark(a, r, v) { assert forall|m: int| i < m < n + 1 implies !mark(#[trigger] w[m], r, v) by { if m < n { assert(w[m] == l[m]); } } }
        }
    }
}
pub proof fn lemma_matched(s: St, l: Seq<Act>, a: Act)
    requires matched(s, l), 0 <= a.level <= usize::MAX,
    ensures matched(step(s, a), l.push(a)),
{
    let w = l.push(a); let n = l.len() as int; let u = step(s, a);
    lemma_longer(l, a);
    lemma_longer_for(l, a);
    match a.k {
        Kind::Start(r) => {
            let k = (r, a.level as usize);
            if s.starts.dom().contains(k) {
                assert(s.starts.dom().contains((r, k.1)));
                let i = choose|i: int| #[trigger] open_at(l, i, r, k.1 as int);
                assert(s.starts[(r, k.1)] == (l[i].at, l[i].at));
                lemma_contains_push(s.lone_start, l[i].at);
                assert forall|c: TextRange| #[trigger] u.lone_start.contains(c) == replaced_for(w, c) by {
                    assert(replaced(w, i, n, r));
                    if replaced_for(w, c) && !replaced_for(l, c) {
                        let (i2, j2, r2) = choose|i: int, j: int, r: Rule| #[trigger] replaced(w, i, j, r) && c == w[i].at;
                        assert(j2 == n) by { if j2 < n { assert(replaced(l, i2, j2, r2)); } }
                        assert(open_at(l, i2, r, k.1 as int)); 
                        assert(w[i2] == l[i2]);
                    }
                    if c == l[i].at { assert(w[i] == l[i]); }
                }
            } else {
                assert forall|c: TextRange| #[trigger] u.lone_start.contains(c) == replaced_for(w, c) by {
                    if replaced_for(w, c) && !replaced_for(l, c) {
                        let (i2, j2, r2) = choose|i: int, j: int, r: Rule| #[trigger] replaced(w, i, j, r) && c == w[i].at;
                        assert(j2 == n) by { if j2 < n { assert(replaced(l, i2, j2, r2)); assert(w[i2] == l[i2]); } }
                        assert(open_at(l, i2, r, k.1 as int));
                    }
                }
            }
            assert forall|x: SkipRegion| #[trigger] u.regions.contains(x) == region_for(w, x) by { }
        },
        Kind::End(r) => {
            let k = (r, a.level as usize);
            if s.starts.dom().contains(k) {
                assert(s.starts.dom().contains((r, k.1)));
                let i = choose|i: int| #[trigger] open_at(l, i, r, k.1 as int);
                assert(s.starts[(r, k.1)] == (l[i].at, l[i].at));
                let y = region(w, i, n, r);
                lemma_contains_push(s.regions, y);
                assert(pair(w, i, n, r));
                assert forall|x: SkipRegion| #[trigger] u.regions.contains(x) == region_for(w, x) by {
                    if region_for(w, x) && !region_for(l, x) {
                        let (i2, j2) = choose|i: int, j: int| #[trigger] pair(w, i, j, x.rule) && x == region(w, i, j, x.rule);
                        if j2 < n { assert(pair(l, i2, j2, x.rule)); assert(w[i2] == l[i2]); assert(w[j2] == l[j2]); assert(x == region(l, i2, j2, x.rule)); }
                        assert(open_at(l, i2, r, k.1 as int));
                        assert(i2 == i) by { if i2 < i { assert(mark(l[i], r, k.1 as int)); } else if i < i2 { assert(mark(l[i2], r, k.1 as int)); } }
                    }
                    if x == y { assert(pair(w, i, n, x.rule)); }
                }
                assert forall|c: TextRange| #[trigger] u.lone_end.contains(c) == end_alone_for(w, c) by {
                    if end_alone_for(w, c) { let (j2, r2) = choose|j: int, r: Rule| #[trigger] end_alone(w, j, r) && c == w[j].at; if j2 == n { assert(r2 == r); assert(pair(w, i, n, r)); } else { assert(w[j2] == l[j2]); assert(end_alone(l, j2, r2)) by { assert forall|m: int| !#[trigger] pair(l, m, j2, r2) by { assert(!pair(w, m, j2, r2)); } } } }
                }
            } else {
                lemma_contains_push(s.lone_end, a.at);
                assert(end_alone(w, n, r)) by { assert forall|m: int| !#[trigger] pair(w, m, n, r) by { assert(!open_at(l, m, r, k.1 as int)); } }
                assert forall|c: TextRange| #[trigger] u.lone_end.contains(c) == end_alone_for(w, c) by {
                    if end_alone_for(w, c) { let (j2, r2) = choose|j: int, r: Rule| #[trigger] end_alone(w, j, r) && c == w[j].at; if j2 < n { assert(w[j2] == l[j2]); assert(end_alone(l, j2, r2)) by { assert forall|m: int| !#[trigger] pair(l, m, j2, r2) by { assert(!pair(w, m, j2, r2)); } } } }
                    if c == a.at { assert(w[n] == a); }
                }
                assert forall|x: SkipRegion| #[trigger] u.regions.contains(x) == region_for(w, x) by {
                    if region_for(w, x) && !region_for(l, x) {
                        let (i2, j2) = choose|i: int, j: int| #[trigger] pair(w, i, j, x.rule) && x == region(w, i, j, x.rule);
                        if j2 < n { assert(pair(l, i2, j2, x.rule)); assert(w[i2] == l[i2]); assert(w[j2] == l[j2]); assert(x == region(l, i2, j2, x.rule)); }
                        assert(open_at(l, i2, r, k.1 as int));
                    }
                }
            }
        },
        _ => { },
    }
    assert forall|r2: Rule, v: usize| #[trigger] u.starts.dom().contains((r2, v)) implies exists|i: int| #[trigger] open_at(w, i, r2, v as int) by {
        if a.k == Kind::Start(r2) && a.level == v { assert(open_at(w, n, r2, v as int)); }
        else {
            assert(s.starts.dom().contains((r2, v)));
            let i = choose|i: int| #[trigger] open_at(l, i, r2, v as int);
            assert(!mark(a, r2, v as int));
            assert(open_at(w, i, r2, v as int));
        }
    }
    assert forall|i: int, r2: Rule, v: usize| #[trigger] open_at(w, i, r2, v as int) implies u.starts.dom().contains((r2, v)) && u.starts[(r2, v)] == (w[i].at, w[i].at) by {
        if i < n { assert(open_at(l, i, r2, v as int)); assert(w[i] == l[i]); }
    }
}
/// what does not involve the last one stays as it was
pub proof fn lemma_longer_for(l: Seq<Act>, a: Act)
    ensures
        forall|x: SkipRegion| region_for(l, x) ==> #[trigger] region_for(l.push(a), x),
        forall|c: TextRange| replaced_for(l, c) ==> #[trigger] replaced_for(l.push(a), c),
        forall|c: TextRange| end_alone_for(l, c) ==> #[trigger] end_alone_for(l.push(a), c),
        !(a.k is End) ==> forall|x: SkipRegion| #[trigger] region_for(l.push(a), x) ==> region_for(l, x),
        !(a.k is Start) ==> forall|c: TextRange| #[trigger] replaced_for(l.push(a), c) ==> replaced_for(l, c),
        !(a.k is End) ==> forall|c: TextRange| #[trigger] end_alone_for(l.push(a), c) ==> end_alone_for(l, c),
{
    let w = l.push(a); let n = l.len() as int;
    lemma_longer(l, a);
    assert forall|x: SkipRegion| region_for(l, x) implies #[trigger] region_for(w, x) by {
        let (i, j) = choose|i: int, j: int| #[trigger] pair(l, i, j, x.rule) && x == region(l, i, j, x.rule);
        assert(w[i] == l[i]); assert(w[j] == l[j]); assert(pair(w, i, j, x.rule)); assert(x == region(w, i, j, x.rule));
    }
    assert forall|c: TextRange| replaced_for(l, c) implies #[trigger] replaced_for(w, c) by {
        let (i, j, r) = choose|i: int, j: int, r: Rule| #[trigger] replaced(l, i, j, r) && c == l[i].at;
        assert(w[i] == l[i]); assert(replaced(w, i, j, r));
    }
    assert forall|c: TextRange| end_alone_for(l, c) implies #[trigger] end_alone_for(w, c) by {
        let (j, r) = choose|j: int, r: Rule| #[trigger] end_alone(l, j, r) && c == l[j].at;
        assert(w[j] == l[j]);
        assert(end_alone(w, j, r)) by { assert forall|m: int| !#[trigger] pair(w, m, j, r) by { assert(!pair(l, m, j, r)); } }
    }
    if !(a.k is End) {
        assert forall|x: SkipRegion| #[trigger] region_for(w, x) implies region_for(l, x) by {
            let (i, j) = choose|i: int, j: int| #[trigger] pair(w, i, j, x.rule) && x == region(w, i, j, x.rule);
            assert(j < n); assert(w[i] == l[i]); assert(w[j] == l[j]); assert(pair(l, i, j, x.rule)); assert(x == region(l, i, j, x.rule));
        }
        assert forall|c: TextRange| #[trigger] end_alone_for(w, c) implies end_alone_for(l, c) by {
            let (j, r) = choose|j: int, r: Rule| #[trigger] end_alone(w, j, r) && c == w[j].at;
            assert(j < n); assert(w[j] == l[j]);
            assert(end_alone(l, j, r)) by { assert forall|m: int| !#[trigger] pair(l, m, j, r) by { assert(!pair(w, m, j, r)); } }
        }
    }
    if !(a.k is Start) {
        assert forall|c: TextRange| #[trigger] replaced_for(w, c) implies replaced_for(l, c) by {
            let (i, j, r) = choose|i: int, j: int, r: Rule| #[trigger] replaced(w, i, j, r) && c == w[i].at;
            assert(j < n); assert(w[i] == l[i]); assert(replaced(l, i, j, r));
        }
    }
}
pub proof fn lemma_run_all(l: Seq<Act>)
    requires levels(l),
    ensures lists(run(start_state(), l), l), matched(run(start_state(), l), l),
    decreases l.len(),
{
    if l.len() > 0 {
        let m = l.drop_last();
        assert forall|i: int| 0 <= i < m.len() implies 0 <= (#[trigger] m[i]).level <= usize::MAX by { assert(m[i] == l[i]); }
        lemma_run_all(m);
        assert(m.push(l.last()) =~= l);
        assert(l.last() == l[l.len() - 1]);
        lemma_lists(run(start_state(), m), m, l.last());
        lemma_matched(run(start_state(), m), m, l.last());
    }
}
/// a start is alone if it is replaced or still open at the end
pub proof fn lemma_alone(l: Seq<Act>, c: TextRange)
    ensures start_alone_for(l, c) == (replaced_for(l, c) || exists|i: int, r: Rule, v: int| #[trigger] open_at(l, i, r, v) && c == l[i].at),
{
    if start_alone_for(l, c) {
        let (i, r) = choose|i: int, r: Rule| #[trigger] start_alone(l, i, r) && c == l[i].at;
        let v = l[i].level;
        if !open_at(l, i, r, v) {
            let m = choose|m: int| i < m < l.len() && mark(#[trigger] l[m], r, v);
            let j = lemma_first(l, i, m, r, v);
            assert(!pair(l, i, j, r));
            assert(replaced(l, i, j, r));
        }
    }
    if replaced_for(l, c) {
        let (i, j, r) = choose|i: int, j: int, r: Rule| #[trigger] replaced(l, i, j, r) && c == l[i].at;
        assert forall|m: int| !#[trigger] pair(l, i, m, r) by { if pair(l, i, m, r) { if m < j { assert(mark(l[m], r, l[i].level)); } else if j < m { assert(mark(l[j], r, l[i].level)); } } }
        assert(start_alone(l, i, r));
    }
    if exists|i: int, r: Rule, v: int| #[trigger] open_at(l, i, r, v) && c == l[i].at {
        let (i, r, v) = choose|i: int, r: Rule, v: int| #[trigger] open_at(l, i, r, v) && c == l[i].at;
        assert forall|m: int| !#[trigger] pair(l, i, m, r) by { if pair(l, i, m, r) { assert(mark(l[m], r, v)); } }
        assert(start_alone(l, i, r));
    }
}
/// the first mark after i
pub proof fn lemma_first(l: Seq<Act>, i: int, m: int, r: Rule, v: int) -> (j: int)
    requires 0 <= i < m < l.len(), mark(l[m], r, v),
    ensures i < j <= m, mark(l[j], r, v), no_mark(l, i, j, r, v),
    decreases m,
{
    if no_mark(l, i, m, r, v) { m } else { let k = choose|k: int| i < k < m && mark(#[trigger] l[k], r, v); lemma_first(l, i, k, r, v) }
}
/// the property: what is recorded for a file whose comments ask for l
pub open spec fn recorded_as(m: &SuppressionManager, l: Seq<Act>) -> bool {
    &&& m.file_suppressions@ == files_in(l) && m.chunk_suppressions@ == chunks_in(l) && m.node_suppressions@ == nodes_in(l)
    &&& m.blanket_suppressions@ == those(l, Kind::Blanket) && m.invalid_chunk_suppressions@ == those(l, Kind::ChunkLine) && m.unexplained_suppressions@ == those(l, Kind::Unexplained)
    &&& m.misplaced_file_suppressions@ == those(l, Kind::FileLate) && m.misplaced_suppressions@ == those(l, Kind::Misplaced) && m.misnamed_suppressions@ == those(l, Kind::Misnamed)
    &&& forall|x: SkipRegion| #[trigger] m.skip_regions@.contains(x) == region_for(l, x)
    &&& forall|c: TextRange| #[trigger] m.unmatched_start_suppressions@.contains(c) == start_alone_for(l, c)
    &&& forall|c: TextRange| #[trigger] m.unmatched_end_suppressions@.contains(c) == end_alone_for(l, c)
    &&& m.used_suppressions.all() == ISet::<TextRange>::empty()
    // (P10 relies on this)
    &&& m.file_suppressions@.len() + m.chunk_suppressions@.len() + m.skip_regions@.len() + m.node_suppressions@.len() > 0 ==> m.has_any_suppressions
}
pub open spec fn opened(d: Seq<((Rule, usize), (TextRange, TextRange))>, n: int, c: TextRange) -> bool { exists|j: int| 0 <= j < n && j < d.len() && (#[trigger] d[j]).1.0 == c }
impl SuppressionManager {
//@methods
//@fn crates/jarl-core/src/suppression.rs SuppressionManager::from_node
//@subst `source.contains(` => `source.vx_has_text(`
//@ret r
//@contract
    requires
        sound(placed(root.tree()), source@, root.tree(), usize::MAX as int),
        in_order(acts(placed(root.tree()), source@, root.tree(), true, 0)),
    ensures recorded_as(&r, acts(placed(root.tree()), source@, root.tree(), true, 0)),
//@at start
    let ghost l = acts(placed(root.tree()), source@, root.tree(), true, 0);
    let ghost s1 = run(start_state(), l);
    proof {
        lemma_levels(placed(root.tree()), source@, root.tree(), true, 0);
        lemma_run_all(l);
        if !part_of("jarl-ignore"@, source@) { lemma_silent(placed(root.tree()), source@, root.tree(), usize::MAX as int, true, 0); lemma_run_silent(start_state(), l); }
        reveal(before);
        assert forall|c: TextRange| #[trigger] start_alone_for(l, c) == (replaced_for(l, c) || exists|i: int, r: Rule, v: int| #[trigger] open_at(l, i, r, v) && c == l[i].at) by { lemma_alone(l, c); }
    }
//@loop 0 it hoist=vx_open
    invariant
        it.seq() == vx_open@, st(&collector) == (St { lone_start: st(&collector).lone_start, starts: st(&collector).starts, ..s1 }),
        forall|c: TextRange| #[trigger] collector.unmatched_start_suppressions@.contains(c) == (s1.lone_start.contains(c) || opened(vx_open@, it.index() as int, c)),
//@at loop 0 start
    let ghost b = collector.unmatched_start_suppressions@;
    let ghost n = it.index() as int;
    proof { lemma_contains_push(b, vx_open@[n].1.0); assert forall|c: TextRange| opened(vx_open@, n + 1, c) == (opened(vx_open@, n, c) || c == vx_open@[n].1.0) by { } }
//@at after loop 0
    proof {
        assert forall|c: TextRange| #[trigger] collector.unmatched_start_suppressions@.contains(c) == start_alone_for(l, c) by {
            let n = vx_open@.len() as int;
            if opened(vx_open@, n, c) {
                let j = choose|j: int| 0 <= j < n && (#[trigger] vx_open@[j]).1.0 == c;
                let k = vx_open@[j].0;
                assert(s1.starts.dom().contains((k.0, k.1)));
                let i = choose|i: int| #[trigger] open_at(l, i, k.0, k.1 as int);
                assert(c == l[i].at);
            }
            if exists|i: int, r: Rule, v: int| #[trigger] open_at(l, i, r, v) && c == l[i].at {
                let (i, r, v) = choose|i: int, r: Rule, v: int| #[trigger] open_at(l, i, r, v) && c == l[i].at;
                assert(0 <= l[i].level <= usize::MAX);
                assert(open_at(l, i, r, (v as usize) as int));
                let k = (r, v as usize);
                assert(s1.starts.dom().contains(k));
                let j = choose|j: int| 0 <= j < n && (#[trigger] vx_open@[j]).0 == k;
                assert(vx_open@[j].1.0 == c);
            }
        }
    }
//@end
}

// ---- to which node a comment is attached: the default of biome, except that a comment among the arguments of a call
// belongs to the argument that follows it ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct DecoratedComment<T> { e: core::marker::PhantomData<T> }
impl<T> DecoratedComment<T> {
    pub uninterp spec fn around(&self) -> Tree;
    pub uninterp spec fn next(&self) -> Option<Tree>;
    #[verifier::external_body]
    pub fn enclosing_node(&self) -> (r: &RSyntaxNode) ensures r.tree() == self.around() { unimplemented!() }
    #[verifier::external_body]
    pub fn following_node(&self) -> (r: Option<&RSyntaxNode>) ensures match r { Some(n) => self.next() == Some(n.tree()), None => self.next() is None } { unimplemented!() }
}
#[verifier::reject_recursive_types(T)]
pub enum CommentPlacement<T> { Leading { node: RSyntaxNode, comment: DecoratedComment<T> }, Default(DecoratedComment<T>) }
impl<T> CommentPlacement<T> {
    pub fn leading(node: RSyntaxNode, comment: DecoratedComment<T>) -> (r: CommentPlacement<T>) ensures r == (CommentPlacement::<T>::Leading { node, comment }) { CommentPlacement::Leading { node, comment } }
}
pub open spec fn among_arguments(c: &DecoratedComment<RLanguage>) -> bool {
    &&& c.around().kind == RSyntaxKind::R_CALL_ARGUMENTS || c.around().kind == RSyntaxKind::R_ARGUMENT_LIST
    &&& c.next() is Some && c.next()->0.kind == RSyntaxKind::R_ARGUMENT && c.next()->0.kids.len() > 0
}
impl RCommentStyle {
//@fn crates/jarl-core/src/suppression.rs RCommentStyle::place_comment
//@subst `Self::Language` => `RLanguage`
//@ret r
//@contract
    ensures match r {
        CommentPlacement::Leading { node, comment: c } => among_arguments(&comment) && Some(node.tree()) == comment.next() && c == comment,
        CommentPlacement::Default(c) => !among_arguments(&comment) && c == comment,
    },
//@end
}
}
fn main() {}
