// P16: unreachable code
use vstd::prelude::*;
verus! {
mod vx {
use vstd::prelude::*;
//@include vlib.rs
//@include vlib_iter.rs
//@include vlib_text.rs
//@include vlib_set.rs
}
use vx::*;

// ---- rustc_hash (TRUSTED stubs: a set, a map) ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct FxHashSet<T> { e: core::marker::PhantomData<T> }
impl<T> FxHashSet<T> {
    pub uninterp spec fn all(&self) -> ISet<T>;
    #[verifier::external_body]
    pub fn default() -> (r: FxHashSet<T>) ensures r.all() == ISet::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> (r: bool) ensures final(self).all() == old(self).all().insert(x), r == !old(self).all().contains(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, x: &T) -> (r: bool) ensures r == self.all().contains(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_contains(&self, x: &T) -> (r: bool) ensures r == self.all().contains(*x) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct FxHashMap<K, V> { e: core::marker::PhantomData<(K, V)> }
impl<K, V> FxHashMap<K, V> {
    pub uninterp spec fn map(&self) -> IMap<K, V>;
    #[verifier::external_body]
    pub fn default() -> (r: FxHashMap<K, V>) ensures r.map() == IMap::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self).map() == old(self).map().insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(v) => self.map().dom().contains(*k) && self.map()[*k] == *v, None => !self.map().dom().contains(*k) } { unimplemented!() }
}

// ---- the syntax tree (TRUSTED stubs: a finite tree; no part is missing in a file that parses) ----
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
#[allow(non_camel_case_types)]
pub enum RSyntaxKind { R_BRACED_EXPRESSIONS, R_BREAK_EXPRESSION, R_NEXT_EXPRESSION, R_RETURN_EXPRESSION, R_IF_STATEMENT, R_FOR_STATEMENT, R_WHILE_STATEMENT, R_REPEAT_STATEMENT, R_CALL, R_IDENTIFIER, TRUE_KW, R_TRUE_EXPRESSION, FALSE_KW, R_FALSE_EXPRESSION, R_PARENTHESIZED_EXPRESSION, R_BINARY_EXPRESSION, OR, OR2, AND, AND2, OTHER }
/// kids: the statements in braces; condition, then and else part of an if; the body of a loop; the inside of parentheses; both sides of an operator
pub ghost struct Tree { pub id: int, pub kind: RSyntaxKind, pub range: TextRange, pub op: RSyntaxKind, pub head: Seq<char>, pub kids: Seq<Tree> }
#[verifier::external_body]
pub struct RSyntaxNode { e: () }
#[verifier::external_body]
pub struct Text { e: () }
impl Text {
    pub uninterp spec fn s(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.s() { unimplemented!() }
}
impl RSyntaxNode {
    pub uninterp spec fn tree(&self) -> Tree;
    #[verifier::external_body]
    pub fn kind(&self) -> (r: RSyntaxKind) ensures r == self.tree().kind { unimplemented!() }
    #[verifier::external_body]
    pub fn text_trimmed_range(&self) -> (r: TextRange) ensures r == self.tree().range, r.s <= r.e { unimplemented!() }
    /// the text of the first child: for a call, what is called
    #[verifier::external_body]
    pub fn vx_head(&self) -> (r: String) ensures r@ == self.tree().head { unimplemented!() }
}
impl Clone for RSyntaxNode {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.tree() == self.tree() { unimplemented!() }
}
//@item crates/jarl-core/src/lints/base/unreachable_code/cfg/graph.rs struct BlockId derive=Clone,Copy,PartialEq,Eq,Structural
//@item crates/jarl-core/src/lints/base/unreachable_code/cfg/graph.rs enum Terminator derive=Clone
//@item crates/jarl-core/src/lints/base/unreachable_code/cfg/graph.rs struct BasicBlock
//@item crates/jarl-core/src/lints/base/unreachable_code/cfg/graph.rs struct ControlFlowGraph
//@item crates/jarl-core/src/lints/base/unreachable_code/cfg/reachability.rs struct UnreachableCodeInfo
//@item crates/jarl-core/src/lints/base/unreachable_code/cfg/reachability.rs enum UnreachableReason derive=Clone,Copy

// ---- graphs ----
pub open spec fn inb(g: ControlFlowGraph, b: BlockId) -> bool { b.0 < g.blocks@.len() }
pub open spec fn at(g: ControlFlowGraph, b: BlockId) -> BasicBlock { g.blocks@[b.0 as int] }
pub open spec fn edge(g: ControlFlowGraph, a: BlockId, b: BlockId) -> bool { inb(g, a) && at(g, a).successors@.contains(b) }
pub open spec fn wf(g: ControlFlowGraph) -> bool {
    &&& inb(g, g.entry) && inb(g, g.exit)
    &&& forall|i: int| 0 <= i < g.blocks@.len() ==> (#[trigger] g.blocks@[i]).id.0 == i && (g.blocks@[i].range is Some ==> (g.blocks@[i].range->0).s <= (g.blocks@[i].range->0).e)
    &&& forall|i: int, k: int| 0 <= i < g.blocks@.len() && 0 <= k < g.blocks@[i].successors@.len() ==> inb(g, #[trigger] g.blocks@[i].successors@[k])
}
/// a chain of edges
pub open spec fn chain(g: ControlFlowGraph, p: Seq<BlockId>) -> bool { p.len() > 0 && forall|k: int| 0 <= k < p.len() - 1 ==> edge(g, #[trigger] p[k], p[k + 1]) }
pub open spec fn from_to(p: Seq<BlockId>, a: BlockId, b: BlockId) -> bool { p.first() == a && p.last() == b }
#[verifier::opaque]
pub open spec fn leads(g: ControlFlowGraph, a: BlockId, b: BlockId) -> bool { exists|p: Seq<BlockId>| #[trigger] chain(g, p) && from_to(p, a, b) }
pub proof fn lemma_leads_refl(g: ControlFlowGraph, a: BlockId)
    ensures leads(g, a, a),
{ reveal(leads); let p = seq![a]; assert(chain(g, p) && from_to(p, a, a)); }
pub proof fn lemma_leads_step(g: ControlFlowGraph, a: BlockId, b: BlockId, c: BlockId)
    requires leads(g, a, b), edge(g, b, c),
    ensures leads(g, a, c),
{
    reveal(leads);
    let p = choose|p: Seq<BlockId>| #[trigger] chain(g, p) && from_to(p, a, b);
    let q = p.push(c);
    assert forall|k: int| 0 <= k < q.len() - 1 implies edge(g, #[trigger] q[k], q[k + 1]) by { if k < p.len() - 1 { assert(q[k] == p[k] && q[k + 1] == p[k + 1]); } else { assert(q[k] == p.last()); } }
    assert(chain(g, q) && from_to(q, a, c)) by { assert(q.first() == p.first()); }
}
pub proof fn lemma_leads_trans(g: ControlFlowGraph, a: BlockId, b: BlockId, c: BlockId)
    requires leads(g, a, b), leads(g, b, c),
    ensures leads(g, a, c),
{
    reveal(leads);
    let p = choose|p: Seq<BlockId>| #[trigger] chain(g, p) && from_to(p, a, b);
    let q = choose|p: Seq<BlockId>| #[trigger] chain(g, p) && from_to(p, b, c);
    let r = p + q.subrange(1, q.len() as int);
    assert forall|k: int| 0 <= k < r.len() - 1 implies edge(g, #[trigger] r[k], r[k + 1]) by {
        if k < p.len() - 1 { assert(r[k] == p[k] && r[k + 1] == p[k + 1]); } else { let j = k - (p.len() - 1); assert(r[k] == q[j]); assert(r[k + 1] == q[j + 1]); }
    }
    assert(r.first() == p.first());
    assert(r.last() == q.last()) by { if q.len() > 1 { } else { assert(r.last() == p.last()); } }
    assert(chain(g, r) && from_to(r, a, c));
}
/// what holds at a and is passed on along edges holds wherever a leads
pub proof fn lemma_closed(g: ControlFlowGraph, a: BlockId, b: BlockId, s: ISet<BlockId>)
    requires leads(g, a, b), s.contains(a), forall|x: BlockId, y: BlockId| #[trigger] edge(g, x, y) && s.contains(x) ==> s.contains(y),
    ensures s.contains(b),
{
    reveal(leads);
    let p = choose|p: Seq<BlockId>| #[trigger] chain(g, p) && from_to(p, a, b);
    lemma_closed_at(g, p, s, p.len() - 1);
}
pub proof fn lemma_closed_at(g: ControlFlowGraph, p: Seq<BlockId>, s: ISet<BlockId>, k: int)
    requires chain(g, p), s.contains(p[0]), 0 <= k < p.len(), forall|x: BlockId, y: BlockId| #[trigger] edge(g, x, y) && s.contains(x) ==> s.contains(y),
    ensures s.contains(p[k]),
    decreases k,
{ if k > 0 { lemma_closed_at(g, p, s, k - 1); assert(edge(g, p[k - 1], p[k - 1 + 1])); } }
pub open spec fn found(g: ControlFlowGraph, v: ISet<BlockId>, q: Seq<BlockId>) -> bool {
    &&& forall|b: BlockId| #[trigger] v.contains(b) ==> leads(g, g.entry, b)
    &&& forall|k: int| 0 <= k < q.len() ==> inb(g, #[trigger] q[k]) && leads(g, g.entry, q[k])
}
pub proof fn lemma_len<T>(v: &Vec<T>)
    ensures v@.len() <= usize::MAX,
{ vstd::std_specs::vec::axiom_spec_len(v); }
// ---- how many blocks have not been seen ----
pub open spec fn unseen(s: ISet<BlockId>, n: nat) -> nat
    decreases n,
{ if n == 0 { 0 } else { unseen(s, (n - 1) as nat) + if s.contains(BlockId((n - 1) as usize)) { 0nat } else { 1nat } } }
pub proof fn lemma_unseen(s: ISet<BlockId>, t: ISet<BlockId>, n: nat)
    requires forall|b: BlockId| #[trigger] s.contains(b) ==> t.contains(b),
    ensures unseen(t, n) <= unseen(s, n),
    decreases n,
{ if n > 0 { lemma_unseen(s, t, (n - 1) as nat); } }
pub proof fn lemma_unseen_less(s: ISet<BlockId>, b: BlockId, n: nat)
    requires !s.contains(b), b.0 < n, n <= usize::MAX,
    ensures unseen(s.insert(b), n) < unseen(s, n),
    decreases n,
{
    if b.0 == n - 1 { lemma_unseen(s, s.insert(b), (n - 1) as nat); assert(BlockId((n - 1) as usize) == b); } else { lemma_unseen_less(s, b, (n - 1) as nat); }
}

pub open spec fn empty_block(b: BasicBlock, id: BlockId) -> bool {
    b.id == id && b.statements@.len() == 0 && b.successors@.len() == 0 && b.predecessors@.len() == 0 && b.terminator is None && b.range is None
}
impl BasicBlock {
//@fn crates/jarl-core/src/lints/base/unreachable_code/cfg/graph.rs BasicBlock::new
//@ret r
//@contract
    ensures empty_block(r, id),
//@end
}
/// the edge, in both directions, and nothing else
pub open spec fn with_edge(o: ControlFlowGraph, n: ControlFlowGraph, a: BlockId, b: BlockId) -> bool {
    &&& n.entry == o.entry && n.exit == o.exit && n.blocks@.len() == o.blocks@.len()
    &&& forall|i: int| #![trigger n.blocks@[i]] #![trigger o.blocks@[i]] 0 <= i < o.blocks@.len() ==> {
        &&& same_content(o.blocks@[i], n.blocks@[i])
        &&& n.blocks@[i].successors@ == (if i == a.0 && !o.blocks@[i].successors@.contains(b) { o.blocks@[i].successors@.push(b) } else { o.blocks@[i].successors@ })
        &&& n.blocks@[i].predecessors@ == (if i == b.0 && !o.blocks@[i].predecessors@.contains(a) { o.blocks@[i].predecessors@.push(a) } else { o.blocks@[i].predecessors@ })
    }
}
pub open spec fn same_content(a: BasicBlock, b: BasicBlock) -> bool { b.id == a.id && b.statements == a.statements && b.terminator == a.terminator && b.range == a.range }
impl ControlFlowGraph {
//@fn crates/jarl-core/src/lints/base/unreachable_code/cfg/graph.rs ControlFlowGraph::new as=new_graph
//@ret r
//@contract
    ensures wf(r), r.blocks@.len() == 2, r.entry != r.exit, empty_block(r.blocks@[0], BlockId(0)), empty_block(r.blocks@[1], BlockId(1)),
//@end
//@fn crates/jarl-core/src/lints/base/unreachable_code/cfg/graph.rs ControlFlowGraph::block
//@ret r
//@contract
    ensures match r { Some(x) => inb(*self, id) && *x == at(*self, id), None => !inb(*self, id) },
//@end
//@fn crates/jarl-core/src/lints/base/unreachable_code/cfg/graph.rs ControlFlowGraph::block_mut
//@ret r
//@contract
    ensures final(self).entry == old(self).entry, final(self).exit == old(self).exit, match r {
        Some(x) => inb(*old(self), id) && *x == at(*old(self), id) && final(self).blocks@ == old(self).blocks@.update(id.0 as int, *final(x)),
        None => !inb(*old(self), id) && final(self).blocks@ == old(self).blocks@ },
//@end
//@fn crates/jarl-core/src/lints/base/unreachable_code/cfg/graph.rs ControlFlowGraph::new_block
//@ret r
//@contract
    ensures one_more(*old(self), *final(self), r),
//@at after `self.blocks.push(BasicBlock::new(id));`
    proof { assert(self.blocks@.drop_last() =~= old(self).blocks@); }
//@end
//@methods contains
//@fn crates/jarl-core/src/lints/base/unreachable_code/cfg/graph.rs ControlFlowGraph::add_edge
//@contract
    ensures with_edge(*old(self), *final(self), from, to),
//@end
}
//@fn crates/jarl-core/src/lints/base/unreachable_code/cfg/reachability.rs find_reachable_blocks
//@subst `for &successor in &block.successors {` => `for vx_successor in &block.successors { let successor = *vx_successor;`
//@ret r
//@contract
    requires wf(*cfg),
    ensures forall|b: BlockId| #[trigger] r.all().contains(b) == leads(*cfg, cfg.entry, b),
//@at before loop 0
    proof { lemma_leads_refl(*cfg, cfg.entry); assert(queue@[0] == cfg.entry); lemma_len(&cfg.blocks); }
    let ghost mut qs = queue@;
//@loop 0 -
    invariant
        wf(*cfg), cfg.blocks@.len() <= usize::MAX, qs == queue@, found(*cfg, visited.all(), queue@), visited.all().contains(cfg.entry) || queue@.contains(cfg.entry),
        forall|x: BlockId, y: BlockId| #[trigger] edge(*cfg, x, y) && visited.all().contains(x) ==> visited.all().contains(y) || queue@.contains(y),
    ensures queue@.len() == 0,
    decreases unseen(visited.all(), cfg.blocks@.len()), queue@.len(),
//@at loop 0 start
    let ghost v0 = visited.all();
    let ghost q0 = queue@.push(block_id);
    proof { assert(q0 =~= qs); assert(q0.last() == block_id); assert(forall|y: BlockId| #[trigger] q0.contains(y) ==> y == block_id || queue@.contains(y)) by { assert forall|y: BlockId| #[trigger] q0.contains(y) implies y == block_id || queue@.contains(y) by { let k = choose|k: int| 0 <= k < q0.len() && q0[k] == y; if k < queue@.len() { assert(queue@[k] == y); } } } assert(q0.contains(block_id)); assert(forall|k: int| 0 <= k < queue@.len() ==> q0[k] == queue@[k]); }
    let ghost q1 = queue@;
    let ghost mut j: int = 0;
//@loop 1 it
    invariant
        wf(*cfg), inb(*cfg, block_id), *block == at(*cfg, block_id), visited.all() == v0.insert(block_id), leads(*cfg, cfg.entry, block_id),
        it.seq().len() == block.successors@.len(), forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == block.successors@[k],
        found(*cfg, visited.all(), queue@), forall|y: BlockId| #[trigger] q1.contains(y) ==> queue@.contains(y),
        forall|k: int| 0 <= k < it.index() ==> visited.all().contains(#[trigger] block.successors@[k]) || queue@.contains(block.successors@[k]),
//@at loop 1 start
    let ghost q2 = queue@;
    let ghost k = it.index() as int;
//@at loop 1 end
    proof {
        let s = block.successors@[k];
        assert(edge(*cfg, block_id, s)); lemma_leads_step(*cfg, cfg.entry, block_id, s);
        assert(inb(*cfg, cfg.blocks@[block_id.0 as int].successors@[k]));
        if queue@ != q2 { assert(queue@ == q2.push(s)); assert(queue@.last() == s); assert(forall|y: BlockId| #[trigger] q2.contains(y) ==> queue@.contains(y)) by { assert forall|y: BlockId| #[trigger] q2.contains(y) implies queue@.contains(y) by { let m = choose|m: int| 0 <= m < q2.len() && q2[m] == y; assert(queue@[m] == y); } } }
    }
//@at loop 0 end
    proof {
        qs = queue@;
        if !v0.contains(block_id) {
            lemma_unseen_less(v0, block_id, cfg.blocks@.len());
            assert(visited.all() == v0.insert(block_id));
        } else { assert(visited.all() =~= v0); }
        assert forall|x: BlockId, y: BlockId| #[trigger] edge(*cfg, x, y) && visited.all().contains(x) implies visited.all().contains(y) || queue@.contains(y) by {
            if v0.contains(x) { if q0.contains(y) { } } else { let k = choose|k: int| 0 <= k < at(*cfg, x).successors@.len() && at(*cfg, x).successors@[k] == y; }
        }
    }
//@at after loop 0
    proof {
        assert forall|b: BlockId| #[trigger] visited.all().contains(b) == leads(*cfg, cfg.entry, b) by {
            if leads(*cfg, cfg.entry, b) { lemma_closed(*cfg, cfg.entry, b, visited.all()); }
        }
    }
//@end
// ---- why (only: that the search for a reason ends) ----
pub open spec fn dom_of(c: FxHashMap<BlockId, Option<UnreachableReason>>) -> ISet<BlockId> { c.map().dom() }
pub open spec fn within(a: ISet<BlockId>, b: ISet<BlockId>) -> bool { forall|x: BlockId| #[trigger] a.contains(x) ==> b.contains(x) }
//@fn crates/jarl-core/src/lints/base/unreachable_code/cfg/reachability.rs find_terminator_in_path
//@subst `use super::graph::Terminator;` => ``
//@subst `rustc_hash::FxHashMap` => `FxHashMap`
//@subst `if let Some(&cached) = cache.get(&block_id) { return cached; }` => `if let Some(vx_cached) = cache.get(&block_id) { return *vx_cached; }`
//@subst `if let Some(&next) = block.successors.first() {` => `if let Some(vx_next) = vx_first(&block.successors) { let next = *vx_next;`
//@subst `for &succ_id in &block.successors {` => `for vx_succ in &block.successors { let succ_id = *vx_succ;`
//@ret r
//@contract
    requires wf(*cfg),
    ensures within(dom_of(*old(cache)), dom_of(*final(cache))),
    decreases unseen(dom_of(*old(cache)), cfg.blocks@.len()),
//@at before let block
    proof { lemma_len(&cfg.blocks); }
    let ghost d0 = dom_of(*old(cache));
    let ghost d1 = dom_of(*cache);
    proof { assert(d1 =~= d0.insert(block_id)); if inb(*cfg, block_id) { lemma_unseen_less(d0, block_id, cfg.blocks@.len()); } }
//@loop 0 it
    invariant
        wf(*cfg), inb(*cfg, block_id), *block == at(*cfg, block_id), it.seq().len() == block.successors@.len(), within(d1, dom_of(*cache)),
        unseen(d1, cfg.blocks@.len()) < unseen(d0, cfg.blocks@.len()), d0 == dom_of(*old(cache)), within(d0, d1),
//@at loop 0 start
    proof { lemma_unseen(d1, dom_of(*cache), cfg.blocks@.len()); }
//@at before `cache.insert(block_id, result);`
    let ghost d2 = dom_of(*cache);
    proof { assert(within(d0, d1)); assert(within(d1, d2)); assert(within(d0, d2)); }
//@at after `cache.insert(block_id, result);`
    proof { assert(dom_of(*cache) =~= d2.insert(block_id)); assert(within(d0, dom_of(*cache))); }
//@end
//@fn crates/jarl-core/src/lints/base/unreachable_code/cfg/reachability.rs find_branch_terminator_reason
//@subst `rustc_hash::FxHashMap::default()` => `FxHashMap::<BlockId, Option<UnreachableReason>>::default()`
//@subst `for &succ_id in &branch_block.successors {` => `for vx_succ in &branch_block.successors { let succ_id = *vx_succ;`
//@ret r
//@contract
    requires wf(*cfg),
//@loop 0 it
    invariant wf(*cfg),
//@end
//@methods iter any map
//@fn crates/jarl-core/src/lints/base/unreachable_code/cfg/reachability.rs determine_unreachable_reason
//@subst `use super::graph::Terminator;` => ``
//@subst `for &pred_id in &block.predecessors {` => `for vx_pred in &block.predecessors { let pred_id = *vx_pred;`
//@subst `|&pred_id| {` => `|vx_pred: &BlockId| { let pred_id = *vx_pred;`
//@ret r
//@contract
    requires wf(*cfg),
//@loop 0 it
    invariant wf(*cfg),
//@loop 1 jt
    invariant wf(*cfg),
//@closure 0 (vx_pred: &BlockId) -> b: bool
//@closure 1 (pred: &BasicBlock) -> b: bool
//@end

// ---- what is reported ----
pub open spec fn has_byte(r: TextRange, p: int) -> bool { r.s <= p < r.e }
/// the part of the text a block stands for
pub open spec fn part_of_block(b: BasicBlock) -> Option<TextRange> {
    if b.statements@.len() > 0 { Some(covering(b.statements@.first().tree().range, b.statements@.last().tree().range)) } else { b.range }
}
pub open spec fn covering(a: TextRange, b: TextRange) -> TextRange { TextRange { s: if a.s <= b.s { a.s } else { b.s }, e: if a.e >= b.e { a.e } else { b.e } } }
/// block i is one no chain of edges leads to, and byte p is in its part of the text
pub open spec fn off(g: ControlFlowGraph, i: int, p: int) -> bool {
    i != g.entry.0 && i != g.exit.0 && !leads(g, g.entry, BlockId(i as usize)) && part_of_block(g.blocks@[i]) is Some && has_byte(part_of_block(g.blocks@[i])->0, p)
}
pub open spec fn some_off(g: ControlFlowGraph, n: int, p: int) -> bool { exists|i: int| 0 <= i < n && #[trigger] off(g, i, p) }
pub open spec fn in_some(v: Seq<(TextRange, UnreachableReason)>, n: int, p: int) -> bool { exists|i: int| 0 <= i < n && has_byte((#[trigger] v[i]).0, p) }
pub open spec fn in_infos(v: Seq<UnreachableCodeInfo>, p: int) -> bool { exists|i: int| 0 <= i < v.len() && has_byte((#[trigger] v[i]).range, p) }
pub open spec fn in_group(c: Option<(TextRange, UnreachableReason)>, p: int) -> bool { c is Some && has_byte((c->0).0, p) }
#[verifier::external_body]
pub fn vx_same_reason(a: &UnreachableReason, b: &UnreachableReason) -> (r: bool) { core::mem::discriminant(a) == core::mem::discriminant(b) }
#[verifier::external_body]
pub fn vx_first(v: &Vec<BlockId>) -> (r: Option<&BlockId>) ensures match r { Some(x) => v@.len() > 0 && *x == v@[0], None => v@.len() == 0 } { v.first() }
/// sort_by_key: the same items in some order
#[verifier::external_body]
pub fn vx_sorted(v: &mut Vec<(TextRange, UnreachableReason)>)
    ensures final(v)@.len() == old(v)@.len(), forall|x: (TextRange, UnreachableReason)| #[trigger] final(v)@.contains(x) == old(v)@.contains(x),
{ v.sort_by_key(|(range, _)| range.s) }
pub proof fn lemma_push_part(v: Seq<(TextRange, UnreachableReason)>, x: (TextRange, UnreachableReason))
    ensures forall|p: int| #[trigger] in_some(v.push(x), v.len() as int + 1, p) == (in_some(v, v.len() as int, p) || has_byte(x.0, p)),
{
    let w = v.push(x);
    assert forall|p: int| #[trigger] in_some(w, v.len() as int + 1, p) == (in_some(v, v.len() as int, p) || has_byte(x.0, p)) by {
        if in_some(v, v.len() as int, p) { let i = choose|i: int| 0 <= i < v.len() && has_byte((#[trigger] v[i]).0, p); assert(has_byte(w[i].0, p)); }
        if has_byte(x.0, p) { assert(has_byte(w[v.len() as int].0, p)); }
        if in_some(w, v.len() as int + 1, p) { let i = choose|i: int| 0 <= i < v.len() as int + 1 && has_byte((#[trigger] w[i]).0, p); if i < v.len() { assert(has_byte(v[i].0, p)); } }
    }
}
pub proof fn lemma_next_part(v: Seq<(TextRange, UnreachableReason)>, n: int)
    requires 0 <= n < v.len(),
    ensures forall|p: int| #[trigger] in_some(v, n + 1, p) == (in_some(v, n, p) || has_byte(v[n].0, p)),
{
    assert forall|p: int| #[trigger] in_some(v, n + 1, p) == (in_some(v, n, p) || has_byte(v[n].0, p)) by {
        if in_some(v, n, p) { let i = choose|i: int| 0 <= i < n && has_byte((#[trigger] v[i]).0, p); assert(has_byte(v[i].0, p)); }
        if has_byte(v[n].0, p) { assert(has_byte(v[n].0, p)); }
    }
}
pub proof fn lemma_push_info(v: Seq<UnreachableCodeInfo>, x: UnreachableCodeInfo)
    ensures forall|p: int| #[trigger] in_infos(v.push(x), p) == (in_infos(v, p) || has_byte(x.range, p)),
{
    let w = v.push(x);
    assert forall|p: int| #[trigger] in_infos(w, p) == (in_infos(v, p) || has_byte(x.range, p)) by {
        if in_infos(v, p) { let i = choose|i: int| 0 <= i < v.len() && has_byte((#[trigger] v[i]).range, p); assert(has_byte(w[i].range, p)); }
        if has_byte(x.range, p) { assert(has_byte(w[v.len() as int].range, p)); }
        if in_infos(w, p) { let i = choose|i: int| 0 <= i < w.len() && has_byte((#[trigger] w[i]).range, p); if i < v.len() { assert(has_byte(v[i].range, p)); } }
    }
}
pub proof fn lemma_off(g: ControlFlowGraph, n: int)
    requires n >= 0,
    ensures forall|p: int| #[trigger] some_off(g, n + 1, p) == (some_off(g, n, p) || off(g, n, p)),
{
    assert forall|p: int| #[trigger] some_off(g, n + 1, p) == (some_off(g, n, p) || off(g, n, p)) by {
        if some_off(g, n, p) { let i = choose|i: int| 0 <= i < n && #[trigger] off(g, i, p); assert(off(g, i, p)); }
    }
}
pub proof fn lemma_sorted(a: Seq<(TextRange, UnreachableReason)>, b: Seq<(TextRange, UnreachableReason)>)
    requires a.len() == b.len(), forall|x: (TextRange, UnreachableReason)| #[trigger] b.contains(x) == a.contains(x), forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]).0.s <= a[k].0.e,
    ensures forall|p: int| #[trigger] in_some(b, b.len() as int, p) == in_some(a, a.len() as int, p), forall|k: int| 0 <= k < b.len() ==> (#[trigger] b[k]).0.s <= b[k].0.e,
{
    assert forall|k: int| 0 <= k < b.len() implies (#[trigger] b[k]).0.s <= b[k].0.e by { assert(b.contains(b[k])); assert(a.contains(b[k])); let j = choose|j: int| 0 <= j < a.len() && a[j] == b[k]; assert(a[j].0.s <= a[j].0.e); }
    assert forall|p: int| #[trigger] in_some(b, b.len() as int, p) == in_some(a, a.len() as int, p) by {
        if in_some(b, b.len() as int, p) { let i = choose|i: int| 0 <= i < b.len() && has_byte((#[trigger] b[i]).0, p); assert(b.contains(b[i])); assert(a.contains(b[i])); let j = choose|j: int| 0 <= j < a.len() && a[j] == b[i]; assert(has_byte(a[j].0, p)); }
        if in_some(a, a.len() as int, p) { let i = choose|i: int| 0 <= i < a.len() && has_byte((#[trigger] a[i]).0, p); assert(a.contains(a[i])); assert(b.contains(a[i])); let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i]; assert(has_byte(b[j].0, p)); }
    }
}
pub trait VxOptMap<T>: Sized {
    spec fn vx_om(&self) -> Option<T>;
    fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>)
        requires self.vx_om() is Some ==> call_requires(f, (self.vx_om()->0,)),
        ensures match self.vx_om() { Some(x) => r is Some && call_ensures(f, (x,), r->0), None => r is None };
}
impl<T> VxOptMap<T> for Option<T> {
    open spec fn vx_om(&self) -> Option<T> { *self }
    fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>) { match self { Some(x) => Some(f(x)), None => None } }
}
//@fn crates/jarl-core/src/lints/base/unreachable_code/cfg/reachability.rs find_unreachable_code
//@subst `unreachable_blocks.sort_by_key(|(range, _)| range.start())` => `vx_sorted(&mut unreachable_blocks)`
//@subst `std::mem::discriminant(group_reason) == std::mem::discriminant(&reason)` => `vx_same_reason(group_reason, &reason)`
//@subst `reason: group_reason }); } unreachable` => `reason: group_reason }); } let vx_r = unreachable;`
//@ret r
//@at end
    proof {
        if vx_r@.len() > u1.len() { let x = vx_r@.last(); assert(vx_r@ == u1.push(x)); lemma_push_info(u1, x); }
        assert forall|p: int| #[trigger] in_infos(vx_r@, p) == some_off(*cfg, cfg.blocks@.len() as int, p) by { assert((in_infos(u1, p) || in_group(g1, p)) == some_off(*cfg, cfg.blocks@.len() as int, p)); }
    }
    vx_r
//@contract
    requires wf(*cfg),
    ensures forall|p: int| #[trigger] in_infos(r@, p) == some_off(*cfg, cfg.blocks@.len() as int, p),
//@loop 0 it
    invariant
        wf(*cfg), it.seq().len() == cfg.blocks@.len(), forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == cfg.blocks@[k],
        forall|b: BlockId| #[trigger] reachable.all().contains(b) == leads(*cfg, cfg.entry, b),
        unreachable@.len() == 0, forall|k: int| 0 <= k < unreachable_blocks@.len() ==> (#[trigger] unreachable_blocks@[k]).0.s <= unreachable_blocks@[k].0.e,
        forall|p: int| #[trigger] in_some(unreachable_blocks@, unreachable_blocks@.len() as int, p) == some_off(*cfg, it.index() as int, p),
//@loop 1 jt hoist=vx_parts
    invariant
        jt.seq() == parts, forall|k: int| 0 <= k < parts.len() ==> (#[trigger] parts[k]).0.s <= parts[k].0.e,
        current_group is Some ==> (current_group->0).0.s <= (current_group->0).0.e,
        forall|p: int| #[trigger] in_some(parts, jt.index() as int, p) == (in_infos(unreachable@, p) || in_group(current_group, p)),
//@at loop 0 start
    let ghost ub = unreachable_blocks@;
    let ghost i = it.index() as int;
    proof { lemma_off(*cfg, i); assert(*block == cfg.blocks@[i]); assert(block.id == BlockId(i as usize)); }
//@at loop 0 end
    proof {
        if unreachable_blocks@.len() > ub.len() { let x = unreachable_blocks@.last(); assert(unreachable_blocks@ == ub.push(x)); lemma_push_part(ub, x); assert(forall|p: int| off(*cfg, i, p) == has_byte(x.0, p)); }
        else { assert(unreachable_blocks@ == ub); assert(forall|p: int| !off(*cfg, i, p)); }
    }
//@at before `vx_sorted(`
    let ghost ub = unreachable_blocks@;
//@at before loop 1
    let ghost parts = vx_parts@;
    proof { lemma_sorted(ub, parts); }
//@at loop 1 start
    let ghost u0 = unreachable@;
    let ghost g0 = current_group;
    let ghost j = jt.index() as int;
    proof { lemma_next_part(parts, j); }
//@at loop 1 end
    proof {
        if unreachable@.len() > u0.len() { let x = unreachable@.last(); assert(unreachable@ == u0.push(x)); lemma_push_info(u0, x); }
        assert forall|p: int| #[trigger] in_some(parts, j + 1, p) == (in_infos(unreachable@, p) || in_group(current_group, p)) by { assert(in_some(parts, j, p) == (in_infos(u0, p) || in_group(g0, p))); }
    }
//@at after loop 1
    let ghost u1 = unreachable@;
    let ghost g1 = current_group;
    proof {
        assert forall|p: int| (#[trigger] in_infos(u1, p) || in_group(g1, p)) == some_off(*cfg, cfg.blocks@.len() as int, p) by { assert(in_some(parts, parts.len() as int, p) == in_some(ub, ub.len() as int, p)); assert(in_some(parts, parts.len() as int, p) == (in_infos(u1, p) || in_group(g1, p))); }
    }
//@end
// ==== the graph of a function ====
pub open spec fn is_if(t: Tree) -> bool { t.kind == RSyntaxKind::R_IF_STATEMENT }
pub open spec fn is_loop(t: Tree) -> bool { t.kind == RSyntaxKind::R_FOR_STATEMENT || t.kind == RSyntaxKind::R_WHILE_STATEMENT || t.kind == RSyntaxKind::R_REPEAT_STATEMENT }
pub open spec fn is_or(k: RSyntaxKind) -> bool { k == RSyntaxKind::OR || k == RSyntaxKind::OR2 }
pub open spec fn is_and(k: RSyntaxKind) -> bool { k == RSyntaxKind::AND || k == RSyntaxKind::AND2 }
/// the parts of a node are within it and one after the other (ranges of tokens of a text)
pub open spec fn in_place(t: Tree) -> bool
    decreases t, 0nat,
{
    &&& t.range.s <= t.range.e && kids_in_place(t.kids, t.kids.len())
    &&& forall|k: int| 0 <= k < t.kids.len() ==> t.range.s <= (#[trigger] t.kids[k]).range.s && t.kids[k].range.e <= t.range.e
    &&& is_if(t) ==> 2 <= t.kids.len() <= 3
    &&& is_loop(t) ==> t.kids.len() == 1
    &&& t.kind == RSyntaxKind::R_PARENTHESIZED_EXPRESSION ==> t.kids.len() == 1
    &&& t.kind == RSyntaxKind::R_BINARY_EXPRESSION ==> t.kids.len() == 2
}
pub open spec fn kids_in_place(l: Seq<Tree>, n: nat) -> bool
    decreases l, n,
{ n == 0 || n > l.len() || (kids_in_place(l, (n - 1) as nat) && in_place(l[n - 1]) && (n >= 2 ==> l[n - 2].range.e <= l[n - 1].range.s)) }
pub proof fn lemma_kid(l: Seq<Tree>, n: nat, k: int)
    requires kids_in_place(l, n), 0 <= k < n, n <= l.len(),
    ensures in_place(l[k]), k > 0 ==> l[k - 1].range.e <= l[k].range.s, l[k].range.s <= l[k].range.e,
    decreases n,
{ if k < n - 1 { lemma_kid(l, (n - 1) as nat, k); } else { assert(l[k] == l[n - 1]); assert(in_place(l[n - 1])); } }
pub proof fn lemma_kids_order(l: Seq<Tree>, j: int, k: int)
    requires kids_in_place(l, l.len()), 0 <= j < k < l.len(),
    ensures l[j].range.e <= l[k].range.s,
    decreases k - j,
{ lemma_kid(l, l.len(), k); if j < k - 1 { lemma_kids_order(l, j, k - 1); lemma_kid(l, l.len(), k - 1); } }
/// TRUSTED: the nodes of a file that parses
#[verifier::external_body]
pub proof fn axiom_in_place(n: &RSyntaxNode)
    ensures in_place(n.tree()),
{ }
pub open spec fn size(t: Tree) -> nat
    decreases t, 0nat,
{ 1 + size_l(t.kids, t.kids.len()) }
pub open spec fn size_l(l: Seq<Tree>, n: nat) -> nat
    decreases l, n,
{ if n == 0 || n > l.len() { 0 } else { size(l[n - 1]) + size_l(l, (n - 1) as nat) } }
pub proof fn lemma_size(l: Seq<Tree>, n: nat, k: int)
    requires 0 <= k < n <= l.len(),
    ensures size(l[k]) <= size_l(l, n),
    decreases n,
{ if k < n - 1 { lemma_size(l, (n - 1) as nat, k); } }

/// what a condition is, whatever its variables are
pub open spec fn const_value(t: Tree) -> Option<bool>
    decreases t,
{
    if t.kind == RSyntaxKind::TRUE_KW || t.kind == RSyntaxKind::R_TRUE_EXPRESSION { Some(true) }
    else if t.kind == RSyntaxKind::FALSE_KW || t.kind == RSyntaxKind::R_FALSE_EXPRESSION { Some(false) }
    else if t.kind == RSyntaxKind::R_PARENTHESIZED_EXPRESSION && t.kids.len() == 1 { const_value(t.kids[0]) }
    else if t.kind == RSyntaxKind::R_BINARY_EXPRESSION && t.kids.len() == 2 {
        let a = const_value(t.kids[0]);
        let b = const_value(t.kids[1]);
        if is_or(t.op) { if a == Some(true) || b == Some(true) { Some(true) } else if a == Some(false) && b == Some(false) { Some(false) } else { None } }
        else if is_and(t.op) { if a == Some(false) || b == Some(false) { Some(false) } else if a == Some(true) && b == Some(true) { Some(true) } else { None } }
        else { None }
    } else { None }
}
/// the function, or the pass through the loop, ends here
pub open spec fn ends_here(t: Tree, stops: ISet<Seq<char>>, inl: bool) -> bool {
    ||| inl && (t.kind == RSyntaxKind::R_BREAK_EXPRESSION || t.kind == RSyntaxKind::R_NEXT_EXPRESSION)
    ||| t.kind == RSyntaxKind::R_CALL && (called(t.head) == "return"@ || inl && (called(t.head) == "break"@ || called(t.head) == "next"@)
        || stops.contains(called(t.head)) && called(t.head) != "break"@ && called(t.head) != "next"@)
}
/// what comes next can run if this can
pub open spec fn on_one(t: Tree, stops: ISet<Seq<char>>, inl: bool) -> bool
    decreases t, 0nat,
{
    if is_if(t) && 2 <= t.kids.len() <= 3 {
        const_value(t.kids[0]) != Some(false) && on_body(t.kids[1], stops, inl) || const_value(t.kids[0]) != Some(true) && (t.kids.len() == 2 || on_body(t.kids[2], stops, inl))
    } else { is_loop(t) || !ends_here(t, stops, inl) }
}
pub open spec fn on_body(t: Tree, stops: ISet<Seq<char>>, inl: bool) -> bool
    decreases t, 1nat,
{ if t.kind == RSyntaxKind::R_BRACED_EXPRESSIONS { on_list(t.kids, t.kids.len(), stops, inl) } else { on_one(t, stops, inl) } }
pub open spec fn on_list(l: Seq<Tree>, n: nat, stops: ISet<Seq<char>>, inl: bool) -> bool
    decreases l, n,
{ n == 0 || n > l.len() || (on_list(l, (n - 1) as nat, stops, inl) && on_one(l[n - 1], stops, inl)) }
pub open spec fn bytes(r: TextRange) -> ISet<int> { ISet::new(|p: int| has_byte(r, p)) }
pub open spec fn span(s: u32, e: u32) -> ISet<int> { ISet::new(|p: int| s <= p < e) }
/// the bytes that no way through leads to, where this can run
pub open spec fn dead_one(t: Tree, stops: ISet<Seq<char>>, inl: bool) -> ISet<int>
    decreases t, 0nat,
{
    if is_if(t) && 2 <= t.kids.len() <= 3 {
        let v = const_value(t.kids[0]);
        let a = if v == Some(false) { bytes(t.kids[1].range) } else { dead_body(t.kids[1], stops, inl) };
        let b = if t.kids.len() == 2 { ISet::empty() } else if v == Some(true) { bytes(t.kids[2].range) } else { dead_body(t.kids[2], stops, inl) };
        a.union(b)
    } else if is_loop(t) && t.kids.len() == 1 { dead_body(t.kids[0], stops, true) }
    else { ISet::empty() }
}
pub open spec fn dead_body(t: Tree, stops: ISet<Seq<char>>, inl: bool) -> ISet<int>
    decreases t, 1nat,
{ if t.kind == RSyntaxKind::R_BRACED_EXPRESSIONS { dead_list(t.kids, t.kids.len(), stops, inl) } else { dead_one(t, stops, inl) } }
/// what does not run in a statement, and everything from the first statement after one that nothing comes after
pub open spec fn dead_list(l: Seq<Tree>, n: nat, stops: ISet<Seq<char>>, inl: bool) -> ISet<int>
    decreases l, n,
{
    if n == 0 || n > l.len() { ISet::empty() } else {
        let d = dead_list(l, (n - 1) as nat, stops, inl).union(dead_one(l[n - 1], stops, inl));
        if on_list(l, (n - 1) as nat, stops, inl) { d } else { d.union(span(l[first_off(l, (n - 1) as nat, stops, inl) as int].range.s, l[n - 1].range.e)) }
    }
}
/// the first of the statements that comes after one nothing comes after, or n
pub open spec fn first_off(l: Seq<Tree>, n: nat, stops: ISet<Seq<char>>, inl: bool) -> nat
    decreases n,
{ if n == 0 { 0 } else if !on_list(l, (n - 1) as nat, stops, inl) { first_off(l, (n - 1) as nat, stops, inl) } else { n } }
/// the bytes of the plain statements (neither if nor loop, and not one that leaves) that no way through leads to; `off`: none leads to this one
pub open spec fn sure_one(t: Tree, stops: ISet<Seq<char>>, inl: bool, off: bool) -> ISet<int>
    decreases t, 0nat,
{
    if is_if(t) && 2 <= t.kids.len() <= 3 {
        let v = const_value(t.kids[0]);
        let a = sure_body(t.kids[1], stops, inl, off || v == Some(false));
        let b = if t.kids.len() == 2 { ISet::empty() } else { sure_body(t.kids[2], stops, inl, off || v == Some(true)) };
        a.union(b)
    } else if is_loop(t) && t.kids.len() == 1 { sure_body(t.kids[0], stops, true, off) }
    else if off && plain(t, stops) { bytes(t.range) } else { ISet::empty() }
}
pub open spec fn sure_body(t: Tree, stops: ISet<Seq<char>>, inl: bool, off: bool) -> ISet<int>
    decreases t, 1nat,
{ if t.kind == RSyntaxKind::R_BRACED_EXPRESSIONS { sure_list(t.kids, t.kids.len(), stops, inl, off) } else { sure_one(t, stops, inl, off) } }
pub open spec fn sure_list(l: Seq<Tree>, n: nat, stops: ISet<Seq<char>>, inl: bool, off: bool) -> ISet<int>
    decreases l, n,
{ if n == 0 || n > l.len() { ISet::empty() } else { sure_list(l, (n - 1) as nat, stops, inl, off).union(sure_one(l[n - 1], stops, inl, off || !on_list(l, (n - 1) as nat, stops, inl))) } }
pub open spec fn plain(t: Tree, stops: ISet<Seq<char>>) -> bool {
    &&& !is_if(t) && !is_loop(t) && t.kind != RSyntaxKind::R_BREAK_EXPRESSION && t.kind != RSyntaxKind::R_NEXT_EXPRESSION
    &&& t.kind == RSyntaxKind::R_CALL ==> called(t.head) != "return"@ && called(t.head) != "break"@ && called(t.head) != "next"@ && !stops.contains(called(t.head))
}
pub proof fn lemma_sure_one(t: Tree, stops: ISet<Seq<char>>, inl: bool, off: bool)
    requires in_place(t),
    ensures sure_one(t, stops, inl, off).subset_of(bytes(t.range)),
    decreases t, 0nat,
{
    if is_if(t) {
        let v = const_value(t.kids[0]);
        lemma_kid(t.kids, t.kids.len(), 1);
        lemma_sure_body(t.kids[1], stops, inl, off || v == Some(false));
        if t.kids.len() == 3 { lemma_kid(t.kids, t.kids.len(), 2); lemma_sure_body(t.kids[2], stops, inl, off || v == Some(true)); }
    } else if is_loop(t) { lemma_kid(t.kids, t.kids.len(), 0); lemma_sure_body(t.kids[0], stops, true, off); }
}
pub proof fn lemma_sure_body(t: Tree, stops: ISet<Seq<char>>, inl: bool, off: bool)
    requires in_place(t),
    ensures sure_body(t, stops, inl, off).subset_of(bytes(t.range)),
    decreases t, 1nat,
{
    if t.kind == RSyntaxKind::R_BRACED_EXPRESSIONS { lemma_sure_list(t.kids, t.kids.len(), stops, inl, off, t.range); } else { lemma_sure_one(t, stops, inl, off); }
}
pub proof fn lemma_sure_list(l: Seq<Tree>, n: nat, stops: ISet<Seq<char>>, inl: bool, off: bool, r: TextRange)
    requires n <= l.len(), kids_in_place(l, n), forall|k: int| 0 <= k < n ==> r.s <= (#[trigger] l[k]).range.s && l[k].range.e <= r.e,
    ensures sure_list(l, n, stops, inl, off).subset_of(bytes(r)),
    decreases l, n,
{
    if n > 0 { lemma_sure_list(l, (n - 1) as nat, stops, inl, off, r); lemma_sure_one(l[n - 1], stops, inl, off || !on_list(l, (n - 1) as nat, stops, inl)); assert(r.s <= l[n - 1].range.s && l[n - 1].range.e <= r.e); }
}
pub proof fn lemma_first_off(l: Seq<Tree>, n: nat, stops: ISet<Seq<char>>, inl: bool)
    requires n <= l.len(),
    ensures first_off(l, n, stops, inl) <= n, forall|j: nat| j <= n && !#[trigger] on_list(l, j, stops, inl) ==> first_off(l, n, stops, inl) <= j,
        !on_list(l, n, stops, inl) ==> !on_list(l, first_off(l, n, stops, inl), stops, inl),
    decreases n,
{ if n > 0 { lemma_first_off(l, (n - 1) as nat, stops, inl); } }

// ---- what building a part of the graph does ----
pub open spec fn fresh(o: ControlFlowGraph, n: ControlFlowGraph, b: BlockId) -> bool { !inb(o, b) && inb(n, b) }
pub open spec fn leaving(g: ControlFlowGraph, b: BlockId) -> bool { inb(g, b) && (at(g, b).terminator is Return || at(g, b).terminator is Break || at(g, b).terminator is Next || at(g, b).terminator is Stop) }
/// some edge leads to it, or it is where everything starts
pub open spec fn hin(g: ControlFlowGraph, b: BlockId) -> bool { b == g.entry || exists|a: BlockId| #[trigger] edge(g, a, b) }
/// the statements are in order
pub open spec fn in_order(v: Seq<RSyntaxNode>) -> bool {
    &&& forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).tree().range.s <= v[k].tree().range.e
    &&& forall|j: int, k: int| 0 <= j < k < v.len() ==> (#[trigger] v[j]).tree().range.e <= (#[trigger] v[k]).tree().range.s
}
pub open spec fn nice(b: BasicBlock) -> bool { in_order(b.statements@) && (b.statements@.len() == 0 ==> b.range is None) }
pub open spec fn sane(g: ControlFlowGraph) -> bool {
    &&& wf(g)
    &&& forall|a: BlockId, b: BlockId| #[trigger] edge(g, a, b) ==> inb(g, b) && at(g, b).predecessors@.contains(a)
    &&& forall|b: BlockId| inb(g, b) ==> nice(#[trigger] at(g, b))
}
/// the statements from a on are within lo and hi
pub open spec fn from_within(v: Seq<RSyntaxNode>, a: int, lo: u32, hi: u32) -> bool { forall|k: int| a <= k < v.len() ==> lo <= (#[trigger] v[k]).tree().range.s && v[k].tree().range.e <= hi }
pub open spec fn in_part(g: ControlFlowGraph, b: BlockId, p: int) -> bool { inb(g, b) && part_of_block(at(g, b)) is Some && has_byte(part_of_block(at(g, b))->0, p) }
/// only block c and blocks that are not there yet are written to
pub open spec fn frame(o: ControlFlowGraph, n: ControlFlowGraph, c: BlockId) -> bool {
    &&& n.entry == o.entry && n.exit == o.exit && o.blocks@.len() <= n.blocks@.len() && inb(o, c)
    &&& forall|b: BlockId| #![trigger at(o, b)] #![trigger at(n, b)] inb(o, b) && b != c ==> same_content(at(o, b), at(n, b))
    &&& forall|a: BlockId, b: BlockId| inb(o, a) && a != c ==> #[trigger] edge(n, a, b) == edge(o, a, b)
    &&& forall|b: BlockId| #[trigger] edge(o, c, b) ==> edge(n, c, b)
    &&& at(o, c).statements@.len() <= at(n, c).statements@.len() && at(o, c).statements@ == at(n, c).statements@.subrange(0, at(o, c).statements@.len() as int)
}
/// a fresh block outside s has the byte
pub open spec fn off_has(o: ControlFlowGraph, n: ControlFlowGraph, s: ISet<BlockId>, p: int) -> bool { exists|b: BlockId| #[trigger] in_part(n, b, p) && fresh(o, n, b) && !s.contains(b) }
/// c or a fresh block has the byte
pub open spec fn new_has(o: ControlFlowGraph, n: ControlFlowGraph, c: BlockId, p: int) -> bool { exists|b: BlockId| #[trigger] in_part(n, b, p) && (b == c || fresh(o, n, b)) }
/// o has grown into n from block c. s: c and the fresh blocks c leads to; tg: where break and next go; statements within lo and hi are added;
/// fresh blocks outside s hold only bytes of dead; the bytes of sure are in fresh blocks outside s; those of all are in c or a fresh block
#[verifier::opaque]
pub open spec fn grown(o: ControlFlowGraph, n: ControlFlowGraph, c: BlockId, tg: ISet<BlockId>, lo: u32, hi: u32, dead: ISet<int>, sure: ISet<int>, all: ISet<int>, s: ISet<BlockId>) -> bool {
    &&& frame(o, n, c) && sane(o) && sane(n) && s.contains(c)
    &&& forall|b: BlockId| #[trigger] s.contains(b) ==> (b == c || fresh(o, n, b)) && leads(n, c, b)
    &&& forall|x: BlockId, y: BlockId| #[trigger] edge(n, x, y) && s.contains(x) ==> s.contains(y) || edge(o, x, y) || tg.contains(y)
    &&& forall|b: BlockId| fresh(o, n, b) ==> from_within((#[trigger] at(n, b)).statements@, 0, lo, hi)
    &&& from_within(at(n, c).statements@, at(o, c).statements@.len() as int, lo, hi)
    &&& forall|b: BlockId, p: int| #[trigger] in_part(n, b, p) && fresh(o, n, b) && !s.contains(b) ==> dead.contains(p)
    &&& forall|p: int| #[trigger] sure.contains(p) ==> off_has(o, n, s, p)
    &&& forall|p: int| #[trigger] all.contains(p) ==> new_has(o, n, c, p)
}
/// a longer chain of edges is one in a graph with more edges
pub proof fn lemma_leads_more(o: ControlFlowGraph, n: ControlFlowGraph, a: BlockId, b: BlockId)
    requires leads(o, a, b), forall|x: BlockId, y: BlockId| #[trigger] edge(o, x, y) ==> edge(n, x, y),
    ensures leads(n, a, b),
{
    reveal(leads);
    let p = choose|p: Seq<BlockId>| #[trigger] chain(o, p) && from_to(p, a, b);
    assert forall|k: int| 0 <= k < p.len() - 1 implies edge(n, #[trigger] p[k], p[k + 1]) by { assert(edge(o, p[k], p[k + 1])); }
    assert(chain(n, p) && from_to(p, a, b));
}
pub proof fn lemma_frame(o: ControlFlowGraph, n: ControlFlowGraph, c: BlockId)
    requires frame(o, n, c), inb(o, c),
    ensures forall|x: BlockId, y: BlockId| #[trigger] edge(o, x, y) ==> edge(n, x, y), forall|b: BlockId| #[trigger] leads(o, c, b) ==> leads(n, c, b), forall|b: BlockId| #[trigger] hin(o, b) ==> hin(n, b),
{
    assert forall|x: BlockId, y: BlockId| #[trigger] edge(o, x, y) implies edge(n, x, y) by { if x != c { assert(edge(n, x, y) == edge(o, x, y)); } }
    assert forall|b: BlockId| #[trigger] leads(o, c, b) implies leads(n, c, b) by { lemma_leads_more(o, n, c, b); }
    assert forall|b: BlockId| #[trigger] hin(o, b) implies hin(n, b) by { if b != o.entry { let a = choose|a: BlockId| #[trigger] edge(o, a, b); assert(edge(n, a, b)); } }
}
/// what a block stands for only grows
pub proof fn lemma_part_grows(o: BasicBlock, n: BasicBlock, p: int)
    requires nice(o), nice(n), o.statements@.len() <= n.statements@.len(), o.statements@ == n.statements@.subrange(0, o.statements@.len() as int),
        part_of_block(o) is Some, has_byte(part_of_block(o)->0, p),
    ensures part_of_block(n) is Some, has_byte(part_of_block(n)->0, p),
{
    let k = o.statements@.len() as int;
    assert(k > 0);
    assert(o.statements@[0] == n.statements@[0] && o.statements@[k - 1] == n.statements@[k - 1]);
    let l = n.statements@.len() as int;
    if k < l { assert(n.statements@[k - 1].tree().range.e <= n.statements@[l - 1].tree().range.s); assert(n.statements@[l - 1].tree().range.s <= n.statements@[l - 1].tree().range.e); }
}
/// n grows out of m, which has grown out of o, from a block b among those that have been added, or c
pub proof fn lemma_nest(o: ControlFlowGraph, m: ControlFlowGraph, n: ControlFlowGraph, c: BlockId, b: BlockId,
    tg: ISet<BlockId>, lo: u32, hi: u32, dead: ISet<int>, sure: ISet<int>, all: ISet<int>, s: ISet<BlockId>,
    tg2: ISet<BlockId>, lo2: u32, hi2: u32, dead2: ISet<int>, sure2: ISet<int>, all2: ISet<int>, s2: ISet<BlockId>,
    d: ISet<int>, u: ISet<int>, a: ISet<int>) -> (r: ISet<BlockId>)
    requires
        grown(o, m, c, tg, lo, hi, dead, sure, all, s), grown(m, n, b, tg2, lo2, hi2, dead2, sure2, all2, s2), b == c || fresh(o, m, b),
        lo <= lo2, hi2 <= hi, dead.subset_of(d), u.subset_of(sure.union(if s.contains(b) { sure2 } else { all2 })), a.subset_of(all.union(all2)),
        s.contains(b) ==> dead2.subset_of(d) && tg2.subset_of(s.union(tg)),
        !s.contains(b) ==> span(lo2, hi2).subset_of(d) && (forall|p: int| in_part(n, b, p) ==> d.contains(p)),
    ensures
        r == (if s.contains(b) { s.union(s2) } else { s }), grown(o, n, c, tg, lo, hi, d, u, a, r),
{
    reveal(grown);
    let r = if s.contains(b) { s.union(s2) } else { s };
    lemma_frame(m, n, b);
    assert(inb(m, c));
    lemma_frame(o, m, c);
    assert(frame(o, n, c)) by {
        assert forall|x: BlockId| #![trigger at(o, x)] #![trigger at(n, x)] inb(o, x) && x != c implies same_content(at(o, x), at(n, x)) by { assert(same_content(at(o, x), at(m, x))); if x != b { assert(same_content(at(m, x), at(n, x))); } }
        assert forall|x: BlockId, y: BlockId| inb(o, x) && x != c implies #[trigger] edge(n, x, y) == edge(o, x, y) by { assert(edge(m, x, y) == edge(o, x, y)); }
        if b == c { let k = at(o, c).statements@.len() as int; assert(at(m, c).statements@.subrange(0, k) =~= at(n, c).statements@.subrange(0, k)); } else { assert(same_content(at(m, c), at(n, c))); }
    }
    assert forall|x: BlockId| #[trigger] r.contains(x) implies (x == c || fresh(o, n, x)) && leads(n, c, x) by {
        if s.contains(x) { if x != c { assert(fresh(o, m, x)); } lemma_leads_more(m, n, c, x); } else { lemma_leads_more(m, n, c, b); lemma_leads_trans(n, c, b, x); }
    }
    assert forall|x: BlockId, y: BlockId| #[trigger] edge(n, x, y) && r.contains(x) implies r.contains(y) || edge(o, x, y) || tg.contains(y) by {
        if s.contains(b) && s2.contains(x) { if x != b { assert(fresh(m, n, x)); if edge(m, x, y) { assert(inb(m, x)); } } }
        else { assert(s.contains(x)); assert(x == c || fresh(o, m, x)); assert(x != b); assert(inb(m, x)); assert(edge(m, x, y)); }
    }
    assert forall|x: BlockId| fresh(o, n, x) implies from_within((#[trigger] at(n, x)).statements@, 0, lo, hi) by {
        if inb(m, x) {
            assert(fresh(o, m, x)); assert(from_within(at(m, x).statements@, 0, lo, hi));
            if x == b {
                let v = at(n, b).statements@; let w = at(m, b).statements@;
                assert forall|k: int| 0 <= k < v.len() implies lo <= (#[trigger] v[k]).tree().range.s && v[k].tree().range.e <= hi by { if k < w.len() { assert(w[k] == v[k]); } else { } }
            } else { assert(same_content(at(m, x), at(n, x))); }
        } else { assert(fresh(m, n, x)); assert(from_within(at(n, x).statements@, 0, lo2, hi2)); }
    }
    assert(from_within(at(n, c).statements@, at(o, c).statements@.len() as int, lo, hi)) by {
        let v = at(n, c).statements@; let w = at(m, c).statements@;
        if c != b { assert(same_content(at(m, c), at(n, c))); }
        assert forall|k: int| at(o, c).statements@.len() <= k < v.len() implies lo <= (#[trigger] v[k]).tree().range.s && v[k].tree().range.e <= hi by { if k < w.len() { assert(w[k] == v[k]); } else { } }
    }
    assert forall|x: BlockId, p: int| #[trigger] in_part(n, x, p) && fresh(o, n, x) && !r.contains(x) implies d.contains(p) by {
        if inb(m, x) {
            assert(fresh(o, m, x));
            if x != b { assert(same_content(at(m, x), at(n, x))); assert(in_part(m, x, p)); }
        } else {
            assert(fresh(m, n, x));
            if s.contains(b) { } else {
                let v = at(n, x).statements@;
                assert(from_within(v, 0, lo2, hi2)); assert(nice(at(n, x)));
                assert(v.len() > 0);
                assert(lo2 <= v[0].tree().range.s && v[0].tree().range.e <= hi2 && lo2 <= v[v.len() - 1].tree().range.s && v[v.len() - 1].tree().range.e <= hi2);
                assert(span(lo2, hi2).contains(p));
            }
        }
    }
    assert forall|x: BlockId, p: int| inb(m, x) && #[trigger] in_part(m, x, p) implies in_part(n, x, p) by { if x == b { lemma_part_grows(at(m, x), at(n, x), p); } else { assert(same_content(at(m, x), at(n, x))); } }
    assert forall|p: int| #[trigger] u.contains(p) implies off_has(o, n, r, p) by {
        if sure.contains(p) {
            let x = choose|x: BlockId| #[trigger] in_part(m, x, p) && fresh(o, m, x) && !s.contains(x);
            assert(in_part(n, x, p) && fresh(o, n, x)); assert(!r.contains(x)) by { if s.contains(b) && s2.contains(x) { assert(x == b || fresh(m, n, x)); } }
        } else if s.contains(b) {
            let x = choose|x: BlockId| #[trigger] in_part(n, x, p) && fresh(m, n, x) && !s2.contains(x);
            assert(fresh(o, n, x)); assert(!s.contains(x)) by { if s.contains(x) { assert(x == c || fresh(o, m, x)); } }
        } else {
            let x = choose|x: BlockId| #[trigger] in_part(n, x, p) && (x == b || fresh(m, n, x));
            assert(b != c); assert(fresh(o, n, x)); assert(!s.contains(x)) by { if s.contains(x) { assert(x == c || fresh(o, m, x)); } }
        }
    }
    assert forall|p: int| #[trigger] a.contains(p) implies new_has(o, n, c, p) by {
        if all.contains(p) { let x = choose|x: BlockId| #[trigger] in_part(m, x, p) && (x == c || fresh(o, m, x)); assert(in_part(n, x, p)); }
        else { let x = choose|x: BlockId| #[trigger] in_part(n, x, p) && (x == b || fresh(m, n, x)); assert(x == c || fresh(o, n, x)); }
    }
    r
}
pub proof fn lemma_refl(o: ControlFlowGraph, c: BlockId, tg: ISet<BlockId>, lo: u32, hi: u32)
    requires sane(o), inb(o, c),
    ensures grown(o, o, c, tg, lo, hi, ISet::empty(), ISet::empty(), ISet::empty(), ISet::<BlockId>::empty().insert(c)),
{
    reveal(grown);
    lemma_leads_refl(o, c);
    assert(at(o, c).statements@ =~= at(o, c).statements@.subrange(0, at(o, c).statements@.len() as int));
}
/// less is claimed
pub proof fn lemma_weaken(o: ControlFlowGraph, n: ControlFlowGraph, c: BlockId, tg: ISet<BlockId>, lo: u32, hi: u32, dead: ISet<int>, sure: ISet<int>, all: ISet<int>, s: ISet<BlockId>,
    lo2: u32, hi2: u32, d: ISet<int>, u: ISet<int>, a: ISet<int>)
    requires grown(o, n, c, tg, lo, hi, dead, sure, all, s), lo2 <= lo, hi <= hi2, dead.subset_of(d), u.subset_of(sure), a.subset_of(all),
    ensures grown(o, n, c, tg, lo2, hi2, d, u, a, s),
{ reveal(grown); }
/// block b, but for who comes before it and how it ends
pub open spec fn retouched(m: ControlFlowGraph, n: ControlFlowGraph, b: BlockId) -> bool {
    &&& inb(m, b) && n.entry == m.entry && n.exit == m.exit && n.blocks@ == m.blocks@.update(b.0 as int, at(n, b))
    &&& at(n, b).id == at(m, b).id && at(n, b).statements == at(m, b).statements && at(n, b).range == at(m, b).range && at(n, b).successors@ == at(m, b).successors@
    &&& forall|a: BlockId| #[trigger] at(m, b).predecessors@.contains(a) ==> at(n, b).predecessors@.contains(a)
}
pub proof fn lemma_retouched(m: ControlFlowGraph, n: ControlFlowGraph, b: BlockId)
    requires retouched(m, n, b), sane(m),
    ensures sane(n), forall|x: BlockId, y: BlockId| #[trigger] edge(n, x, y) == edge(m, x, y), forall|x: BlockId| inb(n, x) == inb(m, x), forall|x: BlockId| hin(n, x) == hin(m, x),
        forall|x: BlockId| inb(m, x) ==> (#[trigger] at(n, x)).statements@ == at(m, x).statements@ && (x != b ==> at(n, x) == at(m, x)),
{
    assert forall|x: BlockId| inb(m, x) implies (#[trigger] at(n, x)).statements@ == at(m, x).statements@ && (x != b ==> at(n, x) == at(m, x)) by { }
    assert forall|x: BlockId, y: BlockId| #[trigger] edge(n, x, y) == edge(m, x, y) by { }
    assert forall|x: BlockId| hin(n, x) == hin(m, x) by { if hin(m, x) && x != m.entry { let a = choose|a: BlockId| #[trigger] edge(m, a, x); assert(edge(n, a, x)); } if hin(n, x) && x != m.entry { let a = choose|a: BlockId| #[trigger] edge(n, a, x); assert(edge(m, a, x)); } }
    assert(wf(n)) by {
        assert forall|i: int, k: int| 0 <= i < n.blocks@.len() && 0 <= k < n.blocks@[i].successors@.len() implies inb(n, #[trigger] n.blocks@[i].successors@[k]) by { assert(n.blocks@[i].successors@ == m.blocks@[i].successors@); assert(inb(m, m.blocks@[i].successors@[k])); }
    }
    assert forall|x: BlockId, y: BlockId| #[trigger] edge(n, x, y) implies inb(n, y) && at(n, y).predecessors@.contains(x) by { assert(edge(m, x, y)); }
    assert forall|x: BlockId| inb(n, x) implies nice(#[trigger] at(n, x)) by { assert(nice(at(m, x))); }
}
pub proof fn lemma_touch(o: ControlFlowGraph, m: ControlFlowGraph, n: ControlFlowGraph, c: BlockId, b: BlockId, tg: ISet<BlockId>, lo: u32, hi: u32, dead: ISet<int>, sure: ISet<int>, all: ISet<int>, s: ISet<BlockId>)
    requires grown(o, m, c, tg, lo, hi, dead, sure, all, s), retouched(m, n, b), b == c || fresh(o, m, b),
    ensures grown(o, n, c, tg, lo, hi, dead, sure, all, s),
{
    reveal(grown);
    lemma_retouched(m, n, b);
    lemma_same_shape(o, m, n, c, b, tg, lo, hi, dead, sure, all, s);
}
/// the same statements, at least the same edges from c and fresh blocks, nothing else
pub proof fn lemma_same_shape(o: ControlFlowGraph, m: ControlFlowGraph, n: ControlFlowGraph, c: BlockId, b: BlockId, tg: ISet<BlockId>, lo: u32, hi: u32, dead: ISet<int>, sure: ISet<int>, all: ISet<int>, s: ISet<BlockId>)
    requires grown(o, m, c, tg, lo, hi, dead, sure, all, s), sane(n), n.entry == m.entry, n.exit == m.exit, n.blocks@.len() == m.blocks@.len(),
        forall|x: BlockId| inb(m, x) ==> (#[trigger] at(n, x)).statements@ == at(m, x).statements@ && at(n, x).range == at(m, x).range,
        forall|x: BlockId| inb(o, x) && x != c ==> same_content(at(m, x), #[trigger] at(n, x)),
        forall|x: BlockId, y: BlockId| #[trigger] edge(m, x, y) ==> edge(n, x, y),
        forall|x: BlockId, y: BlockId| #[trigger] edge(n, x, y) ==> edge(m, x, y) || (x == c || fresh(o, m, x)) && (s.contains(x) ==> s.contains(y) || tg.contains(y)),
    ensures grown(o, n, c, tg, lo, hi, dead, sure, all, s),
{
    reveal(grown);
    assert(frame(o, n, c)) by {
        assert forall|x: BlockId| #![trigger at(o, x)] #![trigger at(n, x)] inb(o, x) && x != c implies same_content(at(o, x), at(n, x)) by { assert(same_content(at(o, x), at(m, x))); assert(same_content(at(m, x), at(n, x))); }
        assert forall|x: BlockId, y: BlockId| inb(o, x) && x != c implies #[trigger] edge(n, x, y) == edge(o, x, y) by { assert(edge(m, x, y) == edge(o, x, y)); if edge(n, x, y) && !edge(m, x, y) { assert(fresh(o, m, x)); } }
        assert(at(n, c).statements@ == at(m, c).statements@);
    }
    assert forall|x: BlockId| #[trigger] s.contains(x) implies (x == c || fresh(o, n, x)) && leads(n, c, x) by { lemma_leads_more(m, n, c, x); if x != c { assert(fresh(o, m, x)); } }
    assert forall|x: BlockId, p: int| #[trigger] in_part(n, x, p) == in_part(m, x, p) by { if inb(m, x) { assert(at(n, x).statements@ == at(m, x).statements@); } }
    assert forall|x: BlockId| fresh(o, n, x) implies from_within((#[trigger] at(n, x)).statements@, 0, lo, hi) by { assert(fresh(o, m, x)); assert(from_within(at(m, x).statements@, 0, lo, hi)); }
    assert(from_within(at(n, c).statements@, at(o, c).statements@.len() as int, lo, hi)) by { assert(at(n, c).statements@ == at(m, c).statements@); }
    assert forall|x: BlockId, p: int| #[trigger] in_part(n, x, p) && fresh(o, n, x) && !s.contains(x) implies dead.contains(p) by { assert(in_part(m, x, p) && fresh(o, m, x)); }
    assert forall|p: int| #[trigger] sure.contains(p) implies off_has(o, n, s, p) by { let x = choose|x: BlockId| #[trigger] in_part(m, x, p) && fresh(o, m, x) && !s.contains(x); assert(in_part(n, x, p) && fresh(o, n, x)); }
    assert forall|p: int| #[trigger] all.contains(p) implies new_has(o, n, c, p) by { let x = choose|x: BlockId| #[trigger] in_part(m, x, p) && (x == c || fresh(o, m, x)); assert(in_part(n, x, p) && (x == c || fresh(o, n, x))); }
}
pub proof fn lemma_with_edge(m: ControlFlowGraph, n: ControlFlowGraph, a: BlockId, b: BlockId)
    requires with_edge(m, n, a, b), sane(m), inb(m, a), inb(m, b),
    ensures sane(n), forall|x: BlockId, y: BlockId| #[trigger] edge(n, x, y) == (edge(m, x, y) || x == a && y == b), forall|x: BlockId| #[trigger] hin(n, x) == (hin(m, x) || x == b),
        forall|x: BlockId| inb(m, x) ==> same_content(at(m, x), #[trigger] at(n, x)),
{
    assert forall|x: BlockId| inb(m, x) implies same_content(at(m, x), #[trigger] at(n, x)) by { assert(same_content(m.blocks@[x.0 as int], n.blocks@[x.0 as int])); }
    assert forall|x: BlockId, y: BlockId| #[trigger] edge(n, x, y) == (edge(m, x, y) || x == a && y == b) by {
        if inb(m, x) {
            let v = at(m, x).successors@; let w = n.blocks@[x.0 as int].successors@;
            if x == a && !v.contains(b) {
                assert(w == v.push(b)); assert(w[v.len() as int] == b);
                if v.contains(y) { let k = choose|k: int| 0 <= k < v.len() && v[k] == y; assert(w[k] == y); }
                if w.contains(y) { let k = choose|k: int| 0 <= k < w.len() && w[k] == y; if k < v.len() { assert(v[k] == y); } }
            } else { assert(w == v); }
        }
    }
    assert forall|x: BlockId| #[trigger] hin(n, x) == (hin(m, x) || x == b) by {
        assert(edge(n, a, b));
        if hin(m, x) && x != m.entry { let k = choose|k: BlockId| #[trigger] edge(m, k, x); assert(edge(n, k, x)); }
        if hin(n, x) && x != m.entry { let k = choose|k: BlockId| #[trigger] edge(n, k, x); if k != a || x != b { assert(edge(m, k, x)); } }
    }
    assert(wf(n)) by {
        assert forall|i: int| 0 <= i < n.blocks@.len() implies (#[trigger] n.blocks@[i]).id.0 == i && (n.blocks@[i].range is Some ==> (n.blocks@[i].range->0).s <= (n.blocks@[i].range->0).e) by { assert(same_content(m.blocks@[i], n.blocks@[i])); }
        assert forall|i: int, k: int| 0 <= i < n.blocks@.len() && 0 <= k < n.blocks@[i].successors@.len() implies inb(n, #[trigger] n.blocks@[i].successors@[k]) by {
            lemma_len(&n.blocks);
            let x = BlockId(i as usize); let y = n.blocks@[i].successors@[k];
            assert(at(n, x).successors@.contains(y)); assert(edge(n, x, y)); if edge(m, x, y) { assert(inb(m, y)); }
        }
    }
    assert forall|x: BlockId, y: BlockId| #[trigger] edge(n, x, y) implies inb(n, y) && at(n, y).predecessors@.contains(x) by {
        let v = m.blocks@[y.0 as int].predecessors@; let w = n.blocks@[y.0 as int].predecessors@;
        if edge(m, x, y) { assert(v.contains(x)); let k = choose|k: int| 0 <= k < v.len() && v[k] == x; if w != v { assert(w[k] == x); } }
        else { if w != v { assert(w[v.len() as int] == a); } }
    }
    assert forall|x: BlockId| inb(n, x) implies nice(#[trigger] at(n, x)) by { assert(nice(at(m, x))); assert(same_content(at(m, x), at(n, x))); }
}
/// an edge from a, one of the blocks that are built, to b: a target, one of those that are built and c leads to, or a block without statements and edges
pub proof fn lemma_edge(o: ControlFlowGraph, m: ControlFlowGraph, n: ControlFlowGraph, c: BlockId, a: BlockId, b: BlockId, tg: ISet<BlockId>, lo: u32, hi: u32, dead: ISet<int>, sure: ISet<int>, all: ISet<int>, s: ISet<BlockId>) -> (r: ISet<BlockId>)
    requires grown(o, m, c, tg, lo, hi, dead, sure, all, s), with_edge(m, n, a, b), a == c || fresh(o, m, a), inb(m, b),
        s.contains(a) ==> s.contains(b) || tg.contains(b) || fresh(o, m, b) && at(m, b).statements@.len() == 0 && at(m, b).successors@.len() == 0,
    ensures r == (if s.contains(a) && fresh(o, m, b) && !tg.contains(b) { s.insert(b) } else { s }), grown(o, n, c, tg, lo, hi, dead, sure, all, r),
{
    let r = if s.contains(a) && fresh(o, m, b) && !tg.contains(b) { s.insert(b) } else { s };
    assert(sane(m) && inb(m, a) && o.blocks@.len() <= m.blocks@.len()) by { reveal(grown); }
    lemma_with_edge(m, n, a, b);
    if s.contains(b) { assert(r =~= s); }
    if r == s { lemma_same_shape(o, m, n, c, a, tg, lo, hi, dead, sure, all, s); }
    else {
        // first b joins those that may be led to, as a target; then it is one that c leads to
        let t2 = tg.insert(b);
        assert(grown(o, m, c, t2, lo, hi, dead, sure, all, s)) by { reveal(grown); }
        lemma_same_shape(o, m, n, c, a, t2, lo, hi, dead, sure, all, s);
        assert(grown(o, n, c, tg, lo, hi, dead, sure, all, r)) by {
            reveal(grown);
            assert(edge(n, a, b)); lemma_leads_step(n, c, a, b);
            assert(nice(at(m, b)));
            assert(same_content(at(m, b), at(n, b)));
            assert(at(n, b).statements@.len() == 0 && at(n, b).range is None);
            assert forall|p: int| !(#[trigger] in_part(n, b, p)) by { }
            assert forall|x: BlockId, y: BlockId| #[trigger] edge(n, x, y) && r.contains(x) implies r.contains(y) || edge(o, x, y) || tg.contains(y) by { if x == b { assert(edge(m, b, y) || x == a); if edge(m, b, y) { assert(at(m, b).successors@.contains(y)); } } }
            assert forall|p: int| #[trigger] sure.contains(p) implies off_has(o, n, r, p) by { let x = choose|x: BlockId| #[trigger] in_part(n, x, p) && fresh(o, n, x) && !s.contains(x); assert(x != b); assert(in_part(n, x, p)); }
        }
    }
    r
}
/// one more block, with nothing in it
pub open spec fn one_more(m: ControlFlowGraph, n: ControlFlowGraph, b: BlockId) -> bool { n.entry == m.entry && n.exit == m.exit && b.0 == m.blocks@.len() && n.blocks@.len() == m.blocks@.len() + 1 && n.blocks@.drop_last() == m.blocks@ && empty_block(n.blocks@.last(), b) }
pub proof fn lemma_one_more(m: ControlFlowGraph, n: ControlFlowGraph, b: BlockId)
    requires one_more(m, n, b), sane(m),
    ensures sane(n), forall|x: BlockId| inb(m, x) ==> #[trigger] at(n, x) == at(m, x), forall|x: BlockId, y: BlockId| #[trigger] edge(n, x, y) == edge(m, x, y), forall|x: BlockId| inb(m, x) ==> #[trigger] hin(n, x) == hin(m, x), inb(n, b), at(n, b).statements@.len() == 0, !hin(n, b), forall|x: BlockId| #[trigger] inb(n, x) == (inb(m, x) || x == b),
{
    assert forall|x: BlockId| inb(m, x) implies #[trigger] at(n, x) == at(m, x) by { assert(n.blocks@.drop_last()[x.0 as int] == n.blocks@[x.0 as int]); }
    assert forall|x: BlockId, y: BlockId| #[trigger] edge(n, x, y) == edge(m, x, y) by { if inb(m, x) { } else if inb(n, x) { assert(x == b); } }
    assert forall|x: BlockId| inb(m, x) implies #[trigger] hin(n, x) == hin(m, x) by {
        if hin(m, x) && x != m.entry { let k = choose|k: BlockId| #[trigger] edge(m, k, x); assert(edge(n, k, x)); }
        if hin(n, x) && x != m.entry { let k = choose|k: BlockId| #[trigger] edge(n, k, x); assert(edge(m, k, x)); }
    }
    assert(!hin(n, b)) by { if hin(n, b) { let k = choose|k: BlockId| #[trigger] edge(n, k, b); assert(edge(m, k, b)); assert(inb(m, b)); } }
    assert(wf(n)) by {
        assert forall|i: int| 0 <= i < n.blocks@.len() implies (#[trigger] n.blocks@[i]).id.0 == i && (n.blocks@[i].range is Some ==> (n.blocks@[i].range->0).s <= (n.blocks@[i].range->0).e) by { if i < m.blocks@.len() { assert(n.blocks@.drop_last()[i] == m.blocks@[i]); } else { assert(n.blocks@[i] == n.blocks@.last()); } }
        assert forall|i: int, k: int| 0 <= i < n.blocks@.len() && 0 <= k < n.blocks@[i].successors@.len() implies inb(n, #[trigger] n.blocks@[i].successors@[k]) by { if i < m.blocks@.len() { assert(n.blocks@.drop_last()[i] == m.blocks@[i]); assert(inb(m, m.blocks@[i].successors@[k])); } else { assert(n.blocks@[i] == n.blocks@.last()); } }
    }
    assert forall|x: BlockId, y: BlockId| #[trigger] edge(n, x, y) implies inb(n, y) && at(n, y).predecessors@.contains(x) by { assert(edge(m, x, y)); }
    assert forall|x: BlockId| inb(n, x) implies nice(#[trigger] at(n, x)) by { if inb(m, x) { assert(nice(at(m, x))); } else { assert(at(n, x) == n.blocks@.last()); } }
}
pub proof fn lemma_more(o: ControlFlowGraph, m: ControlFlowGraph, n: ControlFlowGraph, c: BlockId, b: BlockId, tg: ISet<BlockId>, lo: u32, hi: u32, dead: ISet<int>, sure: ISet<int>, all: ISet<int>, s: ISet<BlockId>)
    requires grown(o, m, c, tg, lo, hi, dead, sure, all, s), one_more(m, n, b),
    ensures grown(o, n, c, tg, lo, hi, dead, sure, all, s), fresh(o, n, b), fresh(m, n, b), at(n, b).statements@.len() == 0, at(n, b).successors@.len() == 0, !hin(n, b), !s.contains(b), !leaving(n, b),
{
    reveal(grown);
    lemma_one_more(m, n, b);
    assert(at(n, b) == n.blocks@.last());
    assert(!s.contains(b)) by { if s.contains(b) { assert(b == c || fresh(o, m, b)); } }
    assert(frame(o, n, c)) by {
        assert forall|x: BlockId| #![trigger at(o, x)] #![trigger at(n, x)] inb(o, x) && x != c implies same_content(at(o, x), at(n, x)) by { assert(same_content(at(o, x), at(m, x))); assert(at(n, x) == at(m, x)); }
        assert forall|x: BlockId, y: BlockId| inb(o, x) && x != c implies #[trigger] edge(n, x, y) == edge(o, x, y) by { assert(edge(m, x, y) == edge(o, x, y)); }
        assert(at(n, c) == at(m, c));
    }
    assert forall|x: BlockId| #[trigger] s.contains(x) implies (x == c || fresh(o, n, x)) && leads(n, c, x) by { lemma_leads_more(m, n, c, x); if x != c { assert(fresh(o, m, x)); } }
    assert forall|x: BlockId, p: int| #[trigger] in_part(n, x, p) == in_part(m, x, p) by { if inb(m, x) { assert(at(n, x) == at(m, x)); } else if inb(n, x) { assert(x == b); } }
    assert forall|x: BlockId| fresh(o, n, x) implies from_within((#[trigger] at(n, x)).statements@, 0, lo, hi) by { if inb(m, x) { assert(fresh(o, m, x)); assert(at(n, x) == at(m, x)); assert(from_within(at(m, x).statements@, 0, lo, hi)); } else { assert(x == b); } }
    assert forall|x: BlockId, p: int| #[trigger] in_part(n, x, p) && fresh(o, n, x) && !s.contains(x) implies dead.contains(p) by { assert(in_part(m, x, p) && fresh(o, m, x)); }
    assert forall|p: int| #[trigger] sure.contains(p) implies off_has(o, n, s, p) by { let x = choose|x: BlockId| #[trigger] in_part(m, x, p) && fresh(o, m, x) && !s.contains(x); assert(in_part(n, x, p) && fresh(o, n, x)); }
    assert forall|p: int| #[trigger] all.contains(p) implies new_has(o, n, c, p) by { let x = choose|x: BlockId| #[trigger] in_part(m, x, p) && (x == c || fresh(o, m, x)); assert(in_part(n, x, p) && (x == c || fresh(o, n, x))); }
}
/// a statement is put at the end of block b
pub open spec fn put(m: ControlFlowGraph, n: ControlFlowGraph, b: BlockId, t: RSyntaxNode) -> bool {
    &&& inb(m, b) && n.entry == m.entry && n.exit == m.exit && n.blocks@ == m.blocks@.update(b.0 as int, at(n, b))
    &&& at(n, b).id == at(m, b).id && at(n, b).statements@ == at(m, b).statements@.push(t) && at(n, b).successors@ == at(m, b).successors@ && at(n, b).predecessors@ == at(m, b).predecessors@ && at(n, b).terminator == at(m, b).terminator
    &&& at(n, b).range is Some ==> (at(n, b).range->0).s <= (at(n, b).range->0).e
}
pub open spec fn ends_by(b: BasicBlock, lo: u32) -> bool { forall|k: int| 0 <= k < b.statements@.len() ==> (#[trigger] b.statements@[k]).tree().range.e <= lo }
pub open spec fn only(b: BlockId) -> ISet<BlockId> { ISet::<BlockId>::empty().insert(b) }
pub proof fn lemma_put(m: ControlFlowGraph, n: ControlFlowGraph, b: BlockId, t: RSyntaxNode, tg: ISet<BlockId>)
    requires sane(m), put(m, n, b, t), ends_by(at(m, b), t.tree().range.s), t.tree().range.s <= t.tree().range.e,
    ensures grown(m, n, b, tg, t.tree().range.s, t.tree().range.e, ISet::empty(), ISet::empty(), bytes(t.tree().range), only(b)),
        forall|x: BlockId| #[trigger] hin(n, x) == hin(m, x), leaving(n, b) == leaving(m, b), in_part_all(n, b, t.tree().range),
{
    reveal(grown);
    let v = at(m, b).statements@;
    let w = at(n, b).statements@;
    assert(w[v.len() as int] == t);
    assert forall|x: BlockId, y: BlockId| #[trigger] edge(n, x, y) == edge(m, x, y) by { }
    assert forall|x: BlockId| #[trigger] hin(n, x) == hin(m, x) by { if hin(m, x) && x != m.entry { let a = choose|a: BlockId| #[trigger] edge(m, a, x); assert(edge(n, a, x)); } if hin(n, x) && x != m.entry { let a = choose|a: BlockId| #[trigger] edge(n, a, x); assert(edge(m, a, x)); } }
    assert(nice(at(n, b))) by {
        assert(nice(at(m, b)));
        assert forall|k: int| 0 <= k < w.len() implies (#[trigger] w[k]).tree().range.s <= w[k].tree().range.e by { if k < v.len() { assert(w[k] == v[k]); } }
        assert forall|j: int, k: int| 0 <= j < k < w.len() implies (#[trigger] w[j]).tree().range.e <= (#[trigger] w[k]).tree().range.s by { assert(w[j] == v[j]); if k < v.len() { assert(w[k] == v[k]); } }
    }
    assert(sane(n)) by {
        assert(wf(n)) by { assert forall|i: int, k: int| 0 <= i < n.blocks@.len() && 0 <= k < n.blocks@[i].successors@.len() implies inb(n, #[trigger] n.blocks@[i].successors@[k]) by { assert(n.blocks@[i].successors@ == m.blocks@[i].successors@); assert(inb(m, m.blocks@[i].successors@[k])); } }
        assert forall|x: BlockId, y: BlockId| #[trigger] edge(n, x, y) implies inb(n, y) && at(n, y).predecessors@.contains(x) by { assert(edge(m, x, y)); }
        assert forall|x: BlockId| inb(n, x) implies nice(#[trigger] at(n, x)) by { if x != b { assert(nice(at(m, x))); } }
    }
    assert(frame(m, n, b)) by { assert(v =~= w.subrange(0, v.len() as int)); }
    lemma_leads_refl(n, b);
    assert(in_part_all(n, b, t.tree().range)) by {
        let q = part_of_block(at(n, b))->0;
        if v.len() > 0 { assert(w[0] == v[0]); assert(w[w.len() - 1] == t); assert(v[0].tree().range.e <= t.tree().range.s); assert(v[0].tree().range.s <= v[0].tree().range.e) by { assert(nice(at(m, b))); } }
        assert(q.s <= t.tree().range.s && t.tree().range.e <= q.e);
        assert forall|p: int| bytes(t.tree().range).contains(p) implies #[trigger] in_part(n, b, p) by { }
    }
    assert forall|p: int| #[trigger] bytes(t.tree().range).contains(p) implies new_has(m, n, b, p) by { assert(in_part(n, b, p)); }
}
pub open spec fn in_part_all(g: ControlFlowGraph, b: BlockId, r: TextRange) -> bool { forall|p: int| bytes(r).contains(p) ==> #[trigger] in_part(g, b, p) }
// ---- nodes (TRUSTED stubs) ----
/// what stands after the last "::", or all of it
pub open spec fn called(h: Seq<char>) -> Seq<char> { after_colons(h, h.len()) }
pub open spec fn after_colons(h: Seq<char>, n: nat) -> Seq<char>
    decreases n,
{ if n < 2 || n > h.len() { h } else if h[n - 1] == ':' && h[n - 2] == ':' { h.skip(n as int) } else { after_colons(h, (n - 1) as nat) } }
#[verifier::external_body]
pub fn vx_called(h: &String) -> (r: &str) ensures r@ == called(h@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_same(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[derive(Clone, Copy)]
pub struct SyntaxError { e: () }
#[verifier::external_body]
pub struct AnyRExpression { e: () }
impl AnyRExpression {
    pub uninterp spec fn tree(&self) -> Tree;
    #[verifier::external_body]
    pub fn syntax(&self) -> (r: &RSyntaxNode) ensures r.tree() == self.tree() { unimplemented!() }
}
#[verifier::external_body]
pub struct SyntaxToken { e: () }
impl SyntaxToken {
    pub uninterp spec fn k(&self) -> RSyntaxKind;
    #[verifier::external_body]
    pub fn kind(&self) -> (r: RSyntaxKind) ensures r == self.k() { unimplemented!() }
}
#[verifier::external_body]
pub struct RParenthesizedExpression { e: () }
impl RParenthesizedExpression {
    pub uninterp spec fn tree(&self) -> Tree;
    #[verifier::external_body]
    pub fn cast_ref(n: &RSyntaxNode) -> (r: Option<RParenthesizedExpression>) ensures r is Some == (n.tree().kind == RSyntaxKind::R_PARENTHESIZED_EXPRESSION), r is Some ==> r->0.tree() == n.tree() { unimplemented!() }
    #[verifier::external_body]
    pub fn body(&self) -> (r: core::result::Result<AnyRExpression, SyntaxError>) ensures r is Ok && self.tree().kids.len() == 1 && r->Ok_0.tree() == self.tree().kids[0] { unimplemented!() }
}
#[verifier::external_body]
pub struct RBinaryExpression { e: () }
impl RBinaryExpression {
    pub uninterp spec fn tree(&self) -> Tree;
    #[verifier::external_body]
    pub fn cast_ref(n: &RSyntaxNode) -> (r: Option<RBinaryExpression>) ensures r is Some == (n.tree().kind == RSyntaxKind::R_BINARY_EXPRESSION), r is Some ==> r->0.tree() == n.tree() { unimplemented!() }
    #[verifier::external_body]
    pub fn operator(&self) -> (r: core::result::Result<SyntaxToken, SyntaxError>) ensures r is Ok && r->Ok_0.k() == self.tree().op { unimplemented!() }
    #[verifier::external_body]
    pub fn left(&self) -> (r: core::result::Result<AnyRExpression, SyntaxError>) ensures r is Ok && self.tree().kids.len() == 2 && r->Ok_0.tree() == self.tree().kids[0] { unimplemented!() }
    #[verifier::external_body]
    pub fn right(&self) -> (r: core::result::Result<AnyRExpression, SyntaxError>) ensures r is Ok && self.tree().kids.len() == 2 && r->Ok_0.tree() == self.tree().kids[1] { unimplemented!() }
}
#[verifier::external_body]
pub struct RExpressionList { e: () }
impl RExpressionList { pub uninterp spec fn trees(&self) -> Seq<Tree>; }
pub open spec fn trees(v: Seq<RSyntaxNode>) -> Seq<Tree> { Seq::new(v.len(), |i: int| v[i].tree()) }
/// into_iter, map, collect: the syntax of each
#[verifier::external_body]
pub fn vx_nodes(l: RExpressionList) -> (r: Vec<RSyntaxNode>) ensures trees(r@) == l.trees() { unimplemented!() }
pub struct RBracedExpressionsFields { pub expressions: RExpressionList }
#[verifier::external_body]
pub struct RBracedExpressions { e: () }
impl RBracedExpressions {
    pub uninterp spec fn tree(&self) -> Tree;
    #[verifier::external_body]
    pub fn cast_ref(n: &RSyntaxNode) -> (r: Option<RBracedExpressions>) ensures r is Some == (n.tree().kind == RSyntaxKind::R_BRACED_EXPRESSIONS), r is Some ==> r->0.tree() == n.tree() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_fields(&self) -> (r: RBracedExpressionsFields) ensures r.expressions.trees() == self.tree().kids { unimplemented!() }
}
#[verifier::external_body]
pub struct RElseClause { e: () }
pub struct RElseClauseFields { pub alternative: core::result::Result<AnyRExpression, SyntaxError> }
impl RElseClause {
    pub uninterp spec fn alt(&self) -> Tree;
    #[verifier::external_body]
    pub fn as_fields(&self) -> (r: RElseClauseFields) ensures r.alternative is Ok && r.alternative->Ok_0.tree() == self.alt() { unimplemented!() }
}
pub struct RIfStatementFields { pub condition: core::result::Result<AnyRExpression, SyntaxError>, pub consequence: core::result::Result<AnyRExpression, SyntaxError>, pub else_clause: Option<RElseClause> }
#[verifier::external_body]
pub struct RIfStatement { e: () }
impl RIfStatement {
    pub uninterp spec fn tree(&self) -> Tree;
    #[verifier::external_body]
    pub fn cast_ref(n: &RSyntaxNode) -> (r: Option<RIfStatement>) ensures r is Some == is_if(n.tree()), r is Some ==> r->0.tree() == n.tree() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_fields(&self) -> (r: RIfStatementFields)
        ensures
            is_if(self.tree()) && in_place(self.tree()),
            r.condition is Ok && r.condition->Ok_0.tree() == self.tree().kids[0], r.consequence is Ok && r.consequence->Ok_0.tree() == self.tree().kids[1],
            r.else_clause is Some == (self.tree().kids.len() == 3), r.else_clause is Some ==> r.else_clause->0.alt() == self.tree().kids[2],
    { unimplemented!() }
}
pub struct LoopFields { pub body: core::result::Result<AnyRExpression, SyntaxError> }
#[verifier::external_body]
pub struct RForStatement { e: () }
impl RForStatement {
    pub uninterp spec fn tree(&self) -> Tree;
    #[verifier::external_body]
    pub fn cast_ref(n: &RSyntaxNode) -> (r: Option<RForStatement>) ensures r is Some == (n.tree().kind == RSyntaxKind::R_FOR_STATEMENT), r is Some ==> r->0.tree() == n.tree() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_fields(&self) -> (r: LoopFields) ensures is_loop(self.tree()) && in_place(self.tree()), r.body is Ok && r.body->Ok_0.tree() == self.tree().kids[0] { unimplemented!() }
}
#[verifier::external_body]
pub struct RWhileStatement { e: () }
impl RWhileStatement {
    pub uninterp spec fn tree(&self) -> Tree;
    #[verifier::external_body]
    pub fn cast_ref(n: &RSyntaxNode) -> (r: Option<RWhileStatement>) ensures r is Some == (n.tree().kind == RSyntaxKind::R_WHILE_STATEMENT), r is Some ==> r->0.tree() == n.tree() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_fields(&self) -> (r: LoopFields) ensures is_loop(self.tree()) && in_place(self.tree()), r.body is Ok && r.body->Ok_0.tree() == self.tree().kids[0] { unimplemented!() }
}
#[verifier::external_body]
pub struct RRepeatStatement { e: () }
impl RRepeatStatement {
    pub uninterp spec fn tree(&self) -> Tree;
    #[verifier::external_body]
    pub fn cast_ref(n: &RSyntaxNode) -> (r: Option<RRepeatStatement>) ensures r is Some == (n.tree().kind == RSyntaxKind::R_REPEAT_STATEMENT), r is Some ==> r->0.tree() == n.tree() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_fields(&self) -> (r: LoopFields) ensures is_loop(self.tree()) && in_place(self.tree()), r.body is Ok && r.body->Ok_0.tree() == self.tree().kids[0] { unimplemented!() }
}
#[verifier::external_body]
pub struct RFunctionDefinition { e: () }
impl RFunctionDefinition {
    /// the body of the function
    pub uninterp spec fn inside(&self) -> Tree;
    #[verifier::external_body]
    pub fn as_fields(&self) -> (r: LoopFields) ensures r.body is Ok && r.body->Ok_0.tree() == self.inside() { unimplemented!() }
}

// ---- the builder ----
//@item crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs struct LoopContext
//@item crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs struct CfgBuilder
pub fn vx_node(x: core::result::Result<AnyRExpression, SyntaxError>) -> (r: Option<RSyntaxNode>)
    ensures match x { Ok(e) => r is Some && r->0.tree() == e.tree(), Err(_) => r is None },
{ match x { Ok(e) => Some(e.syntax().clone()), Err(_) => None } }
//@methods
//@fn crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs evaluate_constant_condition
//@subst `binary_expr .left() .ok() .and_then(|e| evaluate_constant_condition(e.syntax()))` => `match binary_expr.left() { Ok(e) => evaluate_constant_condition(e.syntax()), Err(_) => None }`
//@subst `binary_expr .right() .ok() .and_then(|e| evaluate_constant_condition(e.syntax()))` => `match binary_expr.right() { Ok(e) => evaluate_constant_condition(e.syntax()), Err(_) => None }`
//@ret r
//@contract
    ensures r == const_value(node.tree()),
    decreases node.tree(),
//@end
pub fn vx_const(c: &Option<RSyntaxNode>) -> (r: Option<bool>)
    ensures r == (match c { Some(x) => const_value(x.tree()), None => None }),
{ match c { Some(x) => evaluate_constant_condition(x), None => None } }
pub open spec fn tgs(v: Seq<LoopContext>) -> ISet<BlockId> { if v.len() == 0 { ISet::empty() } else { ISet::empty().insert(v.last().continue_target).insert(v.last().break_target) } }
pub open spec fn stack_ok(g: ControlFlowGraph, v: Seq<LoopContext>) -> bool { forall|k: int| 0 <= k < v.len() ==> inb(g, (#[trigger] v[k]).continue_target) && inb(g, v[k].break_target) }
pub open spec fn same_rest(o: CfgBuilder, n: CfgBuilder) -> bool { n.loop_stack@ == o.loop_stack@ && n.stopping_functions == o.stopping_functions }
pub open spec fn stops(b: CfgBuilder) -> ISet<Seq<char>> { b.stopping_functions.texts() }
pub open spec fn inl(b: CfgBuilder) -> bool { b.loop_stack@.len() > 0 }
/// block c ends with t, which leaves
pub open spec fn ended(m: ControlFlowGraph, n: ControlFlowGraph, c: BlockId) -> bool { retouched(m, n, c) && leaving(n, c) }
impl<'a> CfgBuilder<'a> {
//@fn crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs CfgBuilder::new as=new_builder
//@subst `ControlFlowGraph::new()` => `ControlFlowGraph::new_graph()`
//@ret r
//@contract
    ensures wf(r.cfg), r.cfg.blocks@.len() == 2, r.cfg.entry != r.cfg.exit, empty_block(r.cfg.blocks@[0], BlockId(0)), empty_block(r.cfg.blocks@[1], BlockId(1)), r.loop_stack@.len() == 0, r.stopping_functions == stopping_functions,
//@end
//@methods contains
//@fn crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs CfgBuilder::has_incoming_edges
//@subst `for &pred_id in &block.predecessors {` => `for vx_pred in &block.predecessors { let pred_id = *vx_pred;`
//@ret r
//@contract
    requires sane(self.cfg),
    ensures r == hin(self.cfg, block_id),
//@loop 0 it
    invariant
        sane(self.cfg), inb(self.cfg, block_id), *block == at(self.cfg, block_id), block_id != self.cfg.entry, it.seq().len() == block.predecessors@.len(),
        forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == block.predecessors@[k],
        forall|k: int| 0 <= k < it.index() ==> !edge(self.cfg, #[trigger] block.predecessors@[k], block_id),
//@at loop 0 start
    let ghost k = it.index() as int;
    proof { assert(block.predecessors@[k] == *vx_pred); }
//@at before #1 `return true`
    proof { assert(edge(self.cfg, pred_id, block_id)); }
//@at after loop 0
    proof {
        if hin(self.cfg, block_id) {
            let a = choose|a: BlockId| #[trigger] edge(self.cfg, a, block_id);
            assert(at(self.cfg, block_id).predecessors@.contains(a));
            let k = choose|k: int| 0 <= k < block.predecessors@.len() && block.predecessors@[k] == a;
            assert(!edge(self.cfg, block.predecessors@[k], block_id));
        }
    }
//@end
//@methods
//@fn crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs CfgBuilder::build_return
//@contract
    requires inb(old(self).cfg, current),
    ensures same_rest(*old(self), *final(self)), ended(old(self).cfg, final(self).cfg, current),
//@end
//@fn crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs CfgBuilder::build_stop
//@contract
    requires inb(old(self).cfg, current),
    ensures same_rest(*old(self), *final(self)), ended(old(self).cfg, final(self).cfg, current),
//@end
//@fn crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs CfgBuilder::build_break
//@contract
    requires inb(old(self).cfg, current),
    ensures same_rest(*old(self), *final(self)), inl(*old(self)) ==> jumped(old(self).cfg, final(self).cfg, current, tgs(old(self).loop_stack@)), !inl(*old(self)) ==> final(self).cfg == old(self).cfg,
//@at before `self.cfg.add_edge`
    let ghost x = self.cfg;
//@at after `self.cfg.add_edge(current, target);`
    proof { assert(ended(old(self).cfg, x, current) && with_edge(x, self.cfg, current, target)); assert(tgs(old(self).loop_stack@).contains(target)); assert(jumped_to(old(self).cfg, self.cfg, current, target)); }
//@end
//@fn crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs CfgBuilder::build_next
//@contract
    requires inb(old(self).cfg, current),
    ensures same_rest(*old(self), *final(self)), inl(*old(self)) ==> jumped(old(self).cfg, final(self).cfg, current, tgs(old(self).loop_stack@)), !inl(*old(self)) ==> final(self).cfg == old(self).cfg,
//@at before `self.cfg.add_edge`
    let ghost x = self.cfg;
//@at after `self.cfg.add_edge(current, target);`
    proof { assert(ended(old(self).cfg, x, current) && with_edge(x, self.cfg, current, target)); assert(tgs(old(self).loop_stack@).contains(target)); assert(jumped_to(old(self).cfg, self.cfg, current, target)); }
//@end
//@fn crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs CfgBuilder::add_statement
//@contract
    requires inb(old(self).cfg, block_id), sane(old(self).cfg),
    ensures same_rest(*old(self), *final(self)), exists|t: RSyntaxNode| t.tree() == stmt.tree() && #[trigger] put(old(self).cfg, final(self).cfg, block_id, t),
//@at end
    proof { let t = at(self.cfg, block_id).statements@.last(); assert(at(self.cfg, block_id).statements@ == at(old(self).cfg, block_id).statements@.push(t)); assert(put(old(self).cfg, self.cfg, block_id, t)); }
//@end
}
pub open spec fn jumped_to(m: ControlFlowGraph, n: ControlFlowGraph, c: BlockId, t: BlockId) -> bool { exists|x: ControlFlowGraph| #[trigger] ended(m, x, c) && with_edge(x, n, c, t) }
/// block c ends, with an edge to one of the targets
pub open spec fn jumped(m: ControlFlowGraph, n: ControlFlowGraph, c: BlockId, tg: ISet<BlockId>) -> bool { exists|t: BlockId| tg.contains(t) && #[trigger] jumped_to(m, n, c, t) }
pub open spec fn follows(g: ControlFlowGraph, r: BlockId, s: ISet<BlockId>, on: bool) -> bool { inb(g, r) && (on ==> s.contains(r) && !leaving(g, r)) && (!on ==> !s.contains(r) || leaving(g, r)) }
pub open spec fn built(o: CfgBuilder, n: CfgBuilder, c: BlockId, r: BlockId, lo: u32, hi: u32, dead: ISet<int>, sure: ISet<int>, all: ISet<int>, on: bool) -> bool {
    exists|s: ISet<BlockId>| #[trigger] grown(o.cfg, n.cfg, c, tgs(o.loop_stack@), lo, hi, dead, sure, all, s) && follows(n.cfg, r, s, on)
}
/// block c of the graph that is built can go on with what starts at lo
pub open spec fn ready(b: CfgBuilder, c: BlockId, lo: u32) -> bool { sane(b.cfg) && inb(b.cfg, c) && stack_ok(b.cfg, b.loop_stack@) && ends_by(at(b.cfg, c), lo) && (hin(b.cfg, c) ==> !leaving(b.cfg, c)) }
pub open spec fn built_one(o: CfgBuilder, n: CfgBuilder, c: BlockId, r: BlockId, t: Tree) -> bool {
    &&& same_rest(o, n)
    &&& r == c || fresh(o.cfg, n.cfg, r) && at(n.cfg, r).statements@.len() == 0
    &&& hin(o.cfg, c) ==> built(o, n, c, r, t.range.s, t.range.e, dead_one(t, stops(o), inl(o)), sure_one(t, stops(o), inl(o), false), sure_one(t, stops(o), inl(o), true), on_one(t, stops(o), inl(o)))
    &&& !hin(o.cfg, c) ==> r == c && grown(o.cfg, n.cfg, c, tgs(o.loop_stack@), t.range.s, t.range.e, ISet::empty(), ISet::empty(), bytes(t.range), only(c))
}
pub open spec fn built_body(o: CfgBuilder, n: CfgBuilder, c: BlockId, r: BlockId, t: Tree) -> bool {
    &&& same_rest(o, n) && (r == c || fresh(o.cfg, n.cfg, r))
    &&& built(o, n, c, r, t.range.s, t.range.e, dead_body(t, stops(o), inl(o)), sure_body(t, stops(o), inl(o), false), sure_body(t, stops(o), inl(o), true), on_body(t, stops(o), inl(o)))
}
pub open spec fn list_lo(l: Seq<Tree>) -> u32 { if l.len() == 0 { u32::MAX } else { l[0].range.s } }
pub open spec fn list_hi(l: Seq<Tree>) -> u32 { if l.len() == 0 { 0 } else { l.last().range.e } }
pub open spec fn built_list(o: CfgBuilder, n: CfgBuilder, c: BlockId, r: BlockId, l: Seq<Tree>) -> bool {
    &&& same_rest(o, n) && (r == c || fresh(o.cfg, n.cfg, r))
    &&& built(o, n, c, r, list_lo(l), list_hi(l), dead_list(l, l.len(), stops(o), inl(o)), sure_list(l, l.len(), stops(o), inl(o), false), sure_list(l, l.len(), stops(o), inl(o), true), on_list(l, l.len(), stops(o), inl(o)))
}
pub proof fn lemma_grown(o: ControlFlowGraph, n: ControlFlowGraph, c: BlockId, tg: ISet<BlockId>, lo: u32, hi: u32, dead: ISet<int>, sure: ISet<int>, all: ISet<int>, s: ISet<BlockId>)
    requires grown(o, n, c, tg, lo, hi, dead, sure, all, s),
    ensures sane(n), sane(o), inb(o, c), inb(n, c), s.contains(c), n.entry == o.entry, o.blocks@.len() <= n.blocks@.len(), forall|b: BlockId| #[trigger] hin(o, b) ==> hin(n, b), forall|b: BlockId| #[trigger] s.contains(b) ==> b == c || fresh(o, n, b), forall|b: BlockId| #[trigger] s.contains(b) && hin(n, c) ==> hin(n, b), from_within(at(n, c).statements@, at(o, c).statements@.len() as int, lo, hi), frame(o, n, c),
        forall|b: BlockId| inb(o, b) && b != c ==> same_content(at(o, b), #[trigger] at(n, b)),
{
    reveal(grown);
    lemma_frame(o, n, c);
    assert forall|b: BlockId| #[trigger] s.contains(b) && hin(n, c) implies hin(n, b) by { lemma_led_hin(n, c, b); }
}
pub proof fn lemma_led_hin(g: ControlFlowGraph, c: BlockId, b: BlockId)
    requires leads(g, c, b), hin(g, c),
    ensures hin(g, b),
{
    reveal(leads);
    let p = choose|p: Seq<BlockId>| #[trigger] chain(g, p) && from_to(p, c, b);
    if p.len() > 1 { assert(edge(g, p[p.len() - 2], p[p.len() - 2 + 1])); }
}
/// a statement that is none of those with other statements in them
pub proof fn lemma_leaf(o: CfgBuilder, n: CfgBuilder, c: BlockId, t: Tree)
    requires
        ready(o, c, t.range.s), hin(o.cfg, c), same_rest(o, n), in_place(t), !is_if(t), !is_loop(t),
        ({ ||| !ends_here(t, stops(o), inl(o)) && (exists|x: RSyntaxNode| x.tree() == t && #[trigger] put(o.cfg, n.cfg, c, x))
           ||| ends_here(t, stops(o), inl(o)) && (ended(o.cfg, n.cfg, c) || jumped(o.cfg, n.cfg, c, tgs(o.loop_stack@)))
           ||| !ends_here(t, stops(o), inl(o)) && !plain(t, stops(o)) && n.cfg == o.cfg }),
    ensures built_one(o, n, c, c, t),
{
    let tg = tgs(o.loop_stack@);
    let (lo, hi) = (t.range.s, t.range.e);
    let no = ISet::<int>::empty();
    let d = dead_one(t, stops(o), inl(o));
    let u = sure_one(t, stops(o), inl(o), false);
    let a = sure_one(t, stops(o), inl(o), true);
    lemma_refl(o.cfg, c, tg, lo, hi);
    assert(ISet::<BlockId>::empty().insert(c) == only(c));
    assert(u.subset_of(no));
    if ends_here(t, stops(o), inl(o)) {
        assert(a.subset_of(no));
        if ended(o.cfg, n.cfg, c) { lemma_touch(o.cfg, o.cfg, n.cfg, c, c, tg, lo, hi, no, no, no, only(c)); }
        else {
            let b = choose|b: BlockId| tg.contains(b) && #[trigger] jumped_to(o.cfg, n.cfg, c, b);
            let x = choose|x: ControlFlowGraph| #[trigger] ended(o.cfg, x, c) && with_edge(x, n.cfg, c, b);
            lemma_touch(o.cfg, o.cfg, x, c, c, tg, lo, hi, no, no, no, only(c));
            let top = o.loop_stack@[o.loop_stack@.len() - 1];
            assert(inb(o.cfg, b)) by { assert(inb(o.cfg, top.continue_target) && inb(o.cfg, top.break_target)); }
            let r = lemma_edge(o.cfg, x, n.cfg, c, c, b, tg, lo, hi, no, no, no, only(c));
            assert(same_content(x.blocks@[c.0 as int], n.cfg.blocks@[c.0 as int]));
        }
        lemma_weaken(o.cfg, n.cfg, c, tg, lo, hi, no, no, no, only(c), lo, hi, d, u, a);
    } else if n.cfg == o.cfg && !plain(t, stops(o)) {
        assert(a.subset_of(no));
        lemma_weaken(o.cfg, n.cfg, c, tg, lo, hi, no, no, no, only(c), lo, hi, d, u, a);
    } else {
        let x = choose|x: RSyntaxNode| x.tree() == t && #[trigger] put(o.cfg, n.cfg, c, x);
        lemma_put(o.cfg, n.cfg, c, x, tg);
        lemma_weaken(o.cfg, n.cfg, c, tg, lo, hi, no, no, bytes(t.range), only(c), lo, hi, d, u, a);
    }
    assert(follows(n.cfg, c, only(c), on_one(t, stops(o), inl(o))));
    assert(built(o, n, c, c, lo, hi, d, u, a, on_one(t, stops(o), inl(o))));
}
/// no statement of b starts before that of l that comes after one nothing comes after
pub open spec fn starts_from(b: BasicBlock, l: Seq<Tree>, fo: nat) -> bool { forall|k: int| 0 <= k < b.statements@.len() ==> fo < l.len() && l[fo as int].range.s <= (#[trigger] b.statements@[k]).tree().range.s }
/// the statements of l up to k have been built
pub open spec fn built_upto(o: CfgBuilder, m: CfgBuilder, c: BlockId, cur: BlockId, l: Seq<Tree>, k: nat, s: ISet<BlockId>) -> bool {
    &&& same_rest(o, m) && k <= l.len() && kids_in_place(l, l.len()) && hin(o.cfg, c)
    &&& grown(o.cfg, m.cfg, c, tgs(o.loop_stack@), list_lo(l), list_hi(l), dead_list(l, k, stops(o), inl(o)), sure_list(l, k, stops(o), inl(o), false), sure_list(l, k, stops(o), inl(o), true), s)
    &&& follows(m.cfg, cur, s, on_list(l, k, stops(o), inl(o))) && (cur == c || fresh(o.cfg, m.cfg, cur))
    &&& k < l.len() ==> ends_by(at(m.cfg, cur), l[k as int].range.s)
    &&& !on_list(l, k, stops(o), inl(o)) && !s.contains(cur) ==> starts_from(at(m.cfg, cur), l, first_off(l, k, stops(o), inl(o)))
}
pub proof fn lemma_ends(m: ControlFlowGraph, n: ControlFlowGraph, cur: BlockId, t: TextRange)
    requires frame(m, n, cur), ends_by(at(m, cur), t.s), t.s <= t.e, from_within(at(n, cur).statements@, at(m, cur).statements@.len() as int, t.s, t.e),
    ensures ends_by(at(n, cur), t.e),
{
    let v = at(n, cur).statements@;
    let w = at(m, cur).statements@;
    assert forall|j: int| 0 <= j < v.len() implies (#[trigger] v[j]).tree().range.e <= t.e by { if j < w.len() { assert(v.subrange(0, w.len() as int)[j] == v[j]); assert(w[j].tree().range.e <= t.s); } }
}
/// a block nothing leads to that has got statement k of l
pub proof fn lemma_off_part(m: ControlFlowGraph, n: ControlFlowGraph, cur: BlockId, l: Seq<Tree>, k: nat, st: ISet<Seq<char>>, i: bool)
    requires
        frame(m, n, cur), sane(n), inb(n, cur), k < l.len(), kids_in_place(l, l.len()), !on_list(l, k, st, i), ends_by(at(n, cur), l[k as int].range.e),
        from_within(at(n, cur).statements@, at(m, cur).statements@.len() as int, l[k as int].range.s, l[k as int].range.e), starts_from(at(m, cur), l, first_off(l, k, st, i)),
    ensures
        span(l[k as int].range.s, l[k as int].range.e).subset_of(dead_list(l, k + 1, st, i)), forall|p: int| in_part(n, cur, p) ==> dead_list(l, k + 1, st, i).contains(p),
        starts_from(at(n, cur), l, first_off(l, k, st, i)), first_off(l, k + 1, st, i) == first_off(l, k, st, i), first_off(l, k, st, i) <= k,
{
    let fo = first_off(l, k, st, i);
    let t = l[k as int];
    let d = dead_list(l, k + 1, st, i);
    let v = at(n, cur).statements@;
    let w = at(m, cur).statements@;
    lemma_first_off(l, k, st, i);
    assert(l[fo as int].range.s <= t.range.s) by { if fo < k { lemma_kids_order(l, fo as int, k as int); lemma_kid(l, l.len(), fo as int); } }
    assert(span(l[fo as int].range.s, t.range.e).subset_of(d));
    assert forall|j: int| 0 <= j < v.len() implies l[fo as int].range.s <= (#[trigger] v[j]).tree().range.s by { if j < w.len() { assert(v.subrange(0, w.len() as int)[j] == v[j]); assert(l[fo as int].range.s <= w[j].tree().range.s); } }
    assert forall|p: int| in_part(n, cur, p) implies d.contains(p) by {
        assert(nice(at(n, cur)));
        assert(v.len() > 0);
        assert(l[fo as int].range.s <= v[0].tree().range.s && v[v.len() - 1].tree().range.e <= t.range.e);
        assert(v[0].tree().range.e <= t.range.e && l[fo as int].range.s <= v[v.len() - 1].tree().range.s);
        assert(span(l[fo as int].range.s, t.range.e).contains(p));
    }
}
pub proof fn lemma_step(o: CfgBuilder, m: CfgBuilder, n: CfgBuilder, c: BlockId, cur: BlockId, r: BlockId, l: Seq<Tree>, k: nat, s: ISet<BlockId>) -> (z: ISet<BlockId>)
    requires built_upto(o, m, c, cur, l, k, s), k < l.len(), built_one(m, n, cur, r, l[k as int]), hin(m.cfg, cur) ==> !leaving(m.cfg, cur),
    ensures built_upto(o, n, c, r, l, k + 1, z),
{
    let t = l[k as int];
    let tg = tgs(o.loop_stack@);
    let st = stops(o);
    let i = inl(o);
    let on = on_list(l, k, st, i);
    let fo = first_off(l, k, st, i);
    let (lo, hi) = (list_lo(l), list_hi(l));
    let d = dead_list(l, k + 1, st, i);
    let u = sure_list(l, k + 1, st, i, false);
    let a = sure_list(l, k + 1, st, i, true);
    lemma_grown(o.cfg, m.cfg, c, tg, lo, hi, dead_list(l, k, st, i), sure_list(l, k, st, i, false), sure_list(l, k, st, i, true), s);
    lemma_kid(l, l.len(), k as int);
    lemma_first_off(l, k, st, i);
    lemma_sure_one(t, st, i, true);
    assert(lo <= t.range.s) by { if k > 0 { lemma_kids_order(l, 0, k as int); lemma_kid(l, l.len(), 0); } }
    assert(t.range.e <= hi) by { if k < l.len() - 1 { lemma_kids_order(l, k as int, l.len() - 1); lemma_kid(l, l.len(), l.len() - 1); } }
    let h = hin(m.cfg, cur);
    let no = ISet::<int>::empty();
    let d2 = if h { dead_one(t, st, i) } else { no };
    let u2 = if h { sure_one(t, st, i, false) } else { no };
    let a2 = if h { sure_one(t, st, i, true) } else { bytes(t.range) };
    let s2 = if h { choose|s2: ISet<BlockId>| #[trigger] grown(m.cfg, n.cfg, cur, tg, t.range.s, t.range.e, d2, u2, a2, s2) && follows(n.cfg, r, s2, on_one(t, st, i)) } else { only(cur) };
    assert(grown(m.cfg, n.cfg, cur, tg, t.range.s, t.range.e, d2, u2, a2, s2));
    lemma_grown(m.cfg, n.cfg, cur, tg, t.range.s, t.range.e, d2, u2, a2, s2);
    assert(on ==> h);
    assert(s.contains(cur) == on);
    lemma_ends(m.cfg, n.cfg, cur, t.range);
    if !on { lemma_off_part(m.cfg, n.cfg, cur, l, k, st, i); }
    let z = lemma_nest(o.cfg, m.cfg, n.cfg, c, cur, tg, lo, hi, dead_list(l, k, st, i), sure_list(l, k, st, i, false), sure_list(l, k, st, i, true), s, tg, t.range.s, t.range.e, d2, u2, a2, s2, d, u, a);
    lemma_grown(o.cfg, n.cfg, c, tg, lo, hi, d, u, a, z);
    assert(on_list(l, k + 1, st, i) == (on && on_one(t, st, i)));
    assert(follows(n.cfg, r, z, on_list(l, k + 1, st, i))) by { if on { } else { assert(z == s); if r != cur { assert(fresh(m.cfg, n.cfg, r)); } assert(!s.contains(r)); } }
    assert(ends_by(at(n.cfg, r), t.range.e)) by { if r != cur { } }
    if k + 1 < l.len() { lemma_kid(l, l.len(), k as int + 1); }
    if !on_list(l, k + 1, st, i) && !z.contains(r) {
        if r == cur { assert(!on); assert(first_off(l, k + 1, st, i) == fo); }
    }
    z
}
pub proof fn lemma_done(o: CfgBuilder, n: CfgBuilder, c: BlockId, r: BlockId, l: Seq<Tree>, s: ISet<BlockId>)
    requires built_upto(o, n, c, r, l, l.len(), s),
    ensures built_list(o, n, c, r, l),
{
    let on = on_list(l, l.len(), stops(o), inl(o));
    assert(grown(o.cfg, n.cfg, c, tgs(o.loop_stack@), list_lo(l), list_hi(l), dead_list(l, l.len(), stops(o), inl(o)), sure_list(l, l.len(), stops(o), inl(o), false), sure_list(l, l.len(), stops(o), inl(o), true), s) && follows(n.cfg, r, s, on));
}
/// a block that has just been made: nothing in it, no edge out of it
pub open spec fn idle(o: ControlFlowGraph, g: ControlFlowGraph, b: BlockId) -> bool { fresh(o, g, b) && at(g, b).statements@.len() == 0 && at(g, b).range is None && at(g, b).successors@.len() == 0 && !leaving(g, b) }
pub proof fn lemma_idle_frame(o: ControlFlowGraph, m: ControlFlowGraph, n: ControlFlowGraph, c: BlockId)
    requires frame(m, n, c), inb(m, c),
    ensures forall|x: BlockId| #[trigger] idle(o, m, x) && x != c ==> idle(o, n, x),
{
    assert forall|x: BlockId| #[trigger] idle(o, m, x) && x != c implies idle(o, n, x) by {
        assert(same_content(at(m, x), at(n, x)));
        if at(n, x).successors@.len() > 0 { let y = at(n, x).successors@[0]; assert(edge(n, x, y)); assert(edge(m, x, y)); }
    }
}
pub proof fn lemma_idle_touch(o: ControlFlowGraph, m: ControlFlowGraph, n: ControlFlowGraph, c: BlockId)
    requires retouched(m, n, c),
    ensures forall|x: BlockId| #[trigger] idle(o, m, x) && (x != c || !leaving(n, c)) ==> idle(o, n, x),
{ }
pub proof fn lemma_idle_edge(o: ControlFlowGraph, m: ControlFlowGraph, n: ControlFlowGraph, a: BlockId, b: BlockId)
    requires with_edge(m, n, a, b),
    ensures forall|x: BlockId| #[trigger] idle(o, m, x) && x != a ==> idle(o, n, x), forall|x: BlockId| inb(m, x) ==> leaving(n, x) == #[trigger] leaving(m, x),
{
    assert forall|x: BlockId| #[trigger] idle(o, m, x) && x != a implies idle(o, n, x) by { assert(same_content(m.blocks@[x.0 as int], n.blocks@[x.0 as int])); }
    assert forall|x: BlockId| inb(m, x) implies leaving(n, x) == #[trigger] leaving(m, x) by { assert(same_content(m.blocks@[x.0 as int], n.blocks@[x.0 as int])); }
}
pub proof fn lemma_idle_more(o: ControlFlowGraph, m: ControlFlowGraph, n: ControlFlowGraph, b: BlockId)
    requires one_more(m, n, b), sane(m), o.blocks@.len() <= m.blocks@.len(),
    ensures forall|x: BlockId| #[trigger] idle(o, m, x) ==> idle(o, n, x), idle(o, n, b),
{
    lemma_one_more(m, n, b);
    assert(at(n, b) == n.blocks@.last());
    assert forall|x: BlockId| #[trigger] idle(o, m, x) implies idle(o, n, x) by { assert(at(n, x) == at(m, x)); }
}
/// what is built so far of a statement t from block c: at most dead is off, s is what c leads to
pub open spec fn so_far(o: CfgBuilder, g: ControlFlowGraph, c: BlockId, t: Tree, u: ISet<int>, a: ISet<int>, s: ISet<BlockId>) -> bool {
    grown(o.cfg, g, c, tgs(o.loop_stack@), t.range.s, t.range.e, dead_one(t, stops(o), inl(o)), u, a, s)
}
pub proof fn lemma_start(o: CfgBuilder, c: BlockId, t: Tree)
    requires sane(o.cfg), inb(o.cfg, c),
    ensures so_far(o, o.cfg, c, t, ISet::empty(), ISet::empty(), only(c)),
{
    lemma_refl(o.cfg, c, tgs(o.loop_stack@), t.range.s, t.range.e);
    lemma_weaken(o.cfg, o.cfg, c, tgs(o.loop_stack@), t.range.s, t.range.e, ISet::empty(), ISet::empty(), ISet::empty(), only(c), t.range.s, t.range.e, dead_one(t, stops(o), inl(o)), ISet::empty(), ISet::empty());
}
pub proof fn lemma_sf_more(o: CfgBuilder, m: ControlFlowGraph, n: ControlFlowGraph, c: BlockId, t: Tree, u: ISet<int>, a: ISet<int>, s: ISet<BlockId>, b: BlockId)
    requires so_far(o, m, c, t, u, a, s), one_more(m, n, b),
    ensures so_far(o, n, c, t, u, a, s), !s.contains(b), !hin(n, b), idle(o.cfg, n, b), b != c, inb(n, c), o.cfg.blocks@.len() <= n.blocks@.len(), forall|x: BlockId| #[trigger] fresh(o.cfg, m, x) ==> fresh(o.cfg, n, x), sane(n), forall|x: BlockId| #[trigger] idle(o.cfg, m, x) ==> idle(o.cfg, n, x) && x != b, forall|x: BlockId| inb(m, x) ==> #[trigger] hin(n, x) == hin(m, x),
{
    lemma_grown(o.cfg, m, c, tgs(o.loop_stack@), t.range.s, t.range.e, dead_one(t, stops(o), inl(o)), u, a, s);
    lemma_more(o.cfg, m, n, c, b, tgs(o.loop_stack@), t.range.s, t.range.e, dead_one(t, stops(o), inl(o)), u, a, s);
    lemma_idle_more(o.cfg, m, n, b); lemma_one_more(m, n, b);
}
pub proof fn lemma_sf_touch(o: CfgBuilder, m: ControlFlowGraph, n: ControlFlowGraph, c: BlockId, t: Tree, u: ISet<int>, a: ISet<int>, s: ISet<BlockId>, b: BlockId)
    requires so_far(o, m, c, t, u, a, s), retouched(m, n, b), b == c || fresh(o.cfg, m, b),
    ensures so_far(o, n, c, t, u, a, s), inb(n, c), o.cfg.blocks@.len() <= n.blocks@.len(), forall|x: BlockId| #[trigger] fresh(o.cfg, m, x) ==> fresh(o.cfg, n, x), sane(n), forall|x: BlockId| #[trigger] idle(o.cfg, m, x) && (x != b || !leaving(n, b)) ==> idle(o.cfg, n, x), forall|x: BlockId| #[trigger] hin(n, x) == hin(m, x),
{
    lemma_grown(o.cfg, m, c, tgs(o.loop_stack@), t.range.s, t.range.e, dead_one(t, stops(o), inl(o)), u, a, s);
    lemma_touch(o.cfg, m, n, c, b, tgs(o.loop_stack@), t.range.s, t.range.e, dead_one(t, stops(o), inl(o)), u, a, s);
    lemma_idle_touch(o.cfg, m, n, b); lemma_retouched(m, n, b);
}
pub proof fn lemma_sf_edge(o: CfgBuilder, m: ControlFlowGraph, n: ControlFlowGraph, c: BlockId, t: Tree, u: ISet<int>, a: ISet<int>, s: ISet<BlockId>, x: BlockId, y: BlockId) -> (z: ISet<BlockId>)
    requires so_far(o, m, c, t, u, a, s), with_edge(m, n, x, y), x == c || fresh(o.cfg, m, x), fresh(o.cfg, m, y), s.contains(x) ==> s.contains(y) || idle(o.cfg, m, y), stack_ok(o.cfg, o.loop_stack@),
    ensures so_far(o, n, c, t, u, a, z), z == (if s.contains(x) { s.insert(y) } else { s }), inb(n, c), o.cfg.blocks@.len() <= n.blocks@.len(), forall|x: BlockId| #[trigger] fresh(o.cfg, m, x) ==> fresh(o.cfg, n, x), sane(n), forall|w: BlockId| #[trigger] idle(o.cfg, m, w) && w != x ==> idle(o.cfg, n, w), hin(n, y), forall|w: BlockId| #[trigger] hin(n, w) == (hin(m, w) || w == y),
        forall|w: BlockId| inb(m, w) ==> leaving(n, w) == #[trigger] leaving(m, w),
{
    let tg = tgs(o.loop_stack@);
    lemma_grown(o.cfg, m, c, tg, t.range.s, t.range.e, dead_one(t, stops(o), inl(o)), u, a, s);
    assert(!tg.contains(y)) by { if tg.contains(y) { let top = o.loop_stack@[o.loop_stack@.len() - 1]; assert(inb(o.cfg, top.continue_target) && inb(o.cfg, top.break_target)); } }
    let z = lemma_edge(o.cfg, m, n, c, x, y, tg, t.range.s, t.range.e, dead_one(t, stops(o), inl(o)), u, a, s);
    lemma_idle_edge(o.cfg, m, n, x, y); lemma_with_edge(m, n, x, y);
    z
}
/// a part k of t has been built from block b
pub proof fn lemma_sf_body(o: CfgBuilder, m: CfgBuilder, n: CfgBuilder, c: BlockId, t: Tree, u: ISet<int>, a: ISet<int>, s: ISet<BlockId>, b: BlockId, e: BlockId, k: Tree) -> (z: ISet<BlockId>)
    requires so_far(o, m.cfg, c, t, u, a, s), s.contains(b), fresh(o.cfg, m.cfg, b), built_body(m, n, b, e, k), stops(m) == stops(o), tgs(m.loop_stack@).subset_of(s.union(tgs(o.loop_stack@))),
        t.range.s <= k.range.s, k.range.e <= t.range.e, dead_body(k, stops(o), inl(m)).subset_of(dead_one(t, stops(o), inl(o))), hin(m.cfg, b),
    ensures so_far(o, n.cfg, c, t, u.union(sure_body(k, stops(o), inl(m), false)), a.union(sure_body(k, stops(o), inl(m), true)), z), follows(n.cfg, e, z, on_body(k, stops(o), inl(m))), fresh(o.cfg, n.cfg, e), inb(n.cfg, c), o.cfg.blocks@.len() <= n.cfg.blocks@.len(), sane(n.cfg),
        forall|x: BlockId| #[trigger] idle(o.cfg, m.cfg, x) && x != b ==> idle(o.cfg, n.cfg, x) && x != e, forall|x: BlockId| inb(m.cfg, x) ==> #[trigger] z.contains(x) == s.contains(x), forall|x: BlockId| #[trigger] hin(m.cfg, x) ==> hin(n.cfg, x),
        on_body(k, stops(o), inl(m)) ==> hin(n.cfg, e), same_rest(m, n),
{
    let i = inl(m);
    let st = stops(o);
    let on = on_body(k, st, i);
    let s2 = choose|s2: ISet<BlockId>| #[trigger] grown(m.cfg, n.cfg, b, tgs(m.loop_stack@), k.range.s, k.range.e, dead_body(k, st, i), sure_body(k, st, i, false), sure_body(k, st, i, true), s2) && follows(n.cfg, e, s2, on);
    let tg = tgs(o.loop_stack@);
    let d = dead_one(t, st, inl(o));
    lemma_grown(o.cfg, m.cfg, c, tg, t.range.s, t.range.e, d, u, a, s);
    lemma_grown(m.cfg, n.cfg, b, tgs(m.loop_stack@), k.range.s, k.range.e, dead_body(k, st, i), sure_body(k, st, i, false), sure_body(k, st, i, true), s2);
    let z = lemma_nest(o.cfg, m.cfg, n.cfg, c, b, tg, t.range.s, t.range.e, d, u, a, s, tgs(m.loop_stack@), k.range.s, k.range.e, dead_body(k, st, i), sure_body(k, st, i, false), sure_body(k, st, i, true), s2, d, u.union(sure_body(k, st, i, false)), a.union(sure_body(k, st, i, true)));
    lemma_idle_frame(o.cfg, m.cfg, n.cfg, b);
    assert forall|x: BlockId| #[trigger] idle(o.cfg, m.cfg, x) && x != b implies idle(o.cfg, n.cfg, x) && x != e by { }
    if !z.contains(e) { } else if !s2.contains(e) { assert(fresh(m.cfg, n.cfg, e)); assert(!s.contains(e)); }
    z
}
/// a part k of t that a constant rules out, as one statement
pub proof fn lemma_sf_put(o: CfgBuilder, m: ControlFlowGraph, n: ControlFlowGraph, c: BlockId, t: Tree, u: ISet<int>, a: ISet<int>, s: ISet<BlockId>, b: BlockId, k: RSyntaxNode, i: bool)
    requires so_far(o, m, c, t, u, a, s), !s.contains(b), idle(o.cfg, m, b), put(m, n, b, k), in_place(k.tree()), t.range.s <= k.tree().range.s, k.tree().range.e <= t.range.e, bytes(k.tree().range).subset_of(dead_one(t, stops(o), inl(o))),
    ensures so_far(o, n, c, t, u.union(sure_body(k.tree(), stops(o), i, true)), a.union(sure_body(k.tree(), stops(o), i, true)), s), inb(n, c), o.cfg.blocks@.len() <= n.blocks@.len(), forall|x: BlockId| #[trigger] fresh(o.cfg, m, x) ==> fresh(o.cfg, n, x), sane(n), forall|x: BlockId| #[trigger] idle(o.cfg, m, x) && x != b ==> idle(o.cfg, n, x), forall|x: BlockId| #[trigger] hin(n, x) == hin(m, x),
{
    let r = k.tree().range;
    let tg = tgs(o.loop_stack@);
    let no = ISet::<int>::empty();
    let d = dead_one(t, stops(o), inl(o));
    lemma_grown(o.cfg, m, c, tg, t.range.s, t.range.e, d, u, a, s);
    lemma_put(m, n, b, k, tg);
    lemma_grown(m, n, b, tg, r.s, r.e, no, no, bytes(r), only(b));
    lemma_sure_body(k.tree(), stops(o), i, true);
    assert(span(r.s, r.e) =~= bytes(r));
    assert(at(n, b).statements@[0] == k);
    assert forall|p: int| in_part(n, b, p) implies d.contains(p) by { assert(bytes(r).contains(p)); }
    let z = lemma_nest(o.cfg, m, n, c, b, tg, t.range.s, t.range.e, d, u, a, s, tg, r.s, r.e, no, no, bytes(r), only(b), d, u.union(sure_body(k.tree(), stops(o), i, true)), a.union(sure_body(k.tree(), stops(o), i, true)));
    lemma_idle_frame(o.cfg, m, n, b);
}
/// all of t has been built
pub proof fn lemma_sf_done(o: CfgBuilder, n: CfgBuilder, c: BlockId, r: BlockId, t: Tree, u: ISet<int>, a: ISet<int>, s: ISet<BlockId>)
    requires so_far(o, n.cfg, c, t, u, a, s), hin(o.cfg, c), same_rest(o, n), idle(o.cfg, n.cfg, r), s.contains(r) == on_one(t, stops(o), inl(o)), sure_one(t, stops(o), inl(o), false).subset_of(u), sure_one(t, stops(o), inl(o), true).subset_of(a),
    ensures built_one(o, n, c, r, t),
{
    lemma_weaken(o.cfg, n.cfg, c, tgs(o.loop_stack@), t.range.s, t.range.e, dead_one(t, stops(o), inl(o)), u, a, s, t.range.s, t.range.e, dead_one(t, stops(o), inl(o)), sure_one(t, stops(o), inl(o), false), sure_one(t, stops(o), inl(o), true));
    assert(follows(n.cfg, r, s, on_one(t, stops(o), inl(o))));
    assert(built(o, n, c, r, t.range.s, t.range.e, dead_one(t, stops(o), inl(o)), sure_one(t, stops(o), inl(o), false), sure_one(t, stops(o), inl(o), true), on_one(t, stops(o), inl(o))));
}
pub proof fn lemma_pushed(v: Seq<BlockId>, x: BlockId)
    ensures forall|a: BlockId| #[trigger] v.contains(a) ==> v.push(x).contains(a),
{ assert forall|a: BlockId| #[trigger] v.contains(a) implies v.push(x).contains(a) by { let k = choose|k: int| 0 <= k < v.len() && v[k] == a; assert(v.push(x)[k] == a); } }
pub proof fn lemma_idle(o: ControlFlowGraph, g: ControlFlowGraph, b: BlockId)
    requires idle(o, g, b),
    ensures fresh(o, g, b), inb(g, b), !leaving(g, b), at(g, b).statements@.len() == 0, at(g, b).range is None, at(g, b).successors@.len() == 0, forall|lo: u32| #[trigger] ends_by(at(g, b), lo),
{ }
pub proof fn lemma_idles(o: ControlFlowGraph, g: ControlFlowGraph)
    ensures forall|b: BlockId| #[trigger] idle(o, g, b) ==> fresh(o, g, b) && inb(g, b) && !leaving(g, b) && at(g, b).statements@.len() == 0,
{ }
pub open spec fn covers(t: Tree, st: ISet<Seq<char>>, i: bool, off: bool, u: ISet<int>) -> bool { sure_one(t, st, i, off).subset_of(u) }
/// what is to be shown of an if is that of its branches
pub open spec fn of_branches(t: Tree, st: ISet<Seq<char>>, i: bool, off: bool) -> ISet<int> {
    let v = const_value(t.kids[0]);
    let k = ISet::<int>::empty().union(sure_body(t.kids[1], st, i, off || v == Some(false)));
    if t.kids.len() == 2 { k } else { k.union(sure_body(t.kids[2], st, i, off || v == Some(true))) }
}
pub proof fn lemma_covers(t: Tree, st: ISet<Seq<char>>, i: bool)
    requires is_if(t), in_place(t),
    ensures forall|off: bool| #[trigger] covers(t, st, i, off, of_branches(t, st, i, off)),
{ }
/// the parts of an if
pub proof fn lemma_if(t: Tree, st: ISet<Seq<char>>, i: bool)
    requires is_if(t), in_place(t),
    ensures
        2 <= t.kids.len() <= 3, t.range.s <= t.kids[1].range.s, t.kids[1].range.e <= t.range.e, in_place(t.kids[1]), size(t.kids[1]) < size(t), t.kids[0].range.e <= t.kids[1].range.s, t.range.s <= t.kids[0].range.s, t.kids[0].range.s <= t.kids[0].range.e, t.kids[1].range.s <= t.kids[1].range.e,
        const_value(t.kids[0]) != Some(false) ==> dead_body(t.kids[1], st, i).subset_of(dead_one(t, st, i)), const_value(t.kids[0]) == Some(false) ==> bytes(t.kids[1].range).subset_of(dead_one(t, st, i)),
        t.kids.len() == 3 ==> t.range.s <= t.kids[2].range.s && t.kids[2].range.e <= t.range.e && in_place(t.kids[2]) && size(t.kids[2]) < size(t) && t.kids[2].range.s <= t.kids[2].range.e
            && (const_value(t.kids[0]) != Some(true) ==> dead_body(t.kids[2], st, i).subset_of(dead_one(t, st, i))) && (const_value(t.kids[0]) == Some(true) ==> bytes(t.kids[2].range).subset_of(dead_one(t, st, i))),
        on_one(t, st, i) == (const_value(t.kids[0]) != Some(false) && on_body(t.kids[1], st, i) || const_value(t.kids[0]) != Some(true) && (t.kids.len() == 2 || on_body(t.kids[2], st, i))),
{
    lemma_kid(t.kids, t.kids.len(), 0); lemma_kid(t.kids, t.kids.len(), 1); lemma_size(t.kids, t.kids.len(), 1);
    if t.kids.len() == 3 { lemma_kid(t.kids, t.kids.len(), 2); lemma_size(t.kids, t.kids.len(), 2); }
}
pub proof fn lemma_stack(o: CfgBuilder, g: ControlFlowGraph)
    requires stack_ok(o.cfg, o.loop_stack@), o.cfg.blocks@.len() <= g.blocks@.len(),
    ensures stack_ok(g, o.loop_stack@),
{ }
// ---- the same, for two blocks v and w ----
pub proof fn lemma_v_more(o: CfgBuilder, m: ControlFlowGraph, n: ControlFlowGraph, c: BlockId, t: Tree, u: ISet<int>, a: ISet<int>, s: ISet<BlockId>, b: BlockId, v: BlockId, w: BlockId)
    requires so_far(o, m, c, t, u, a, s), one_more(m, n, b), idle(o.cfg, m, v), idle(o.cfg, m, w),
    ensures so_far(o, n, c, t, u, a, s), sane(n), inb(n, c), o.cfg.blocks@.len() <= n.blocks@.len(), !s.contains(b), !hin(n, b), idle(o.cfg, n, b), b != c, idle(o.cfg, n, v), v != b, idle(o.cfg, n, w), w != b,
{ lemma_sf_more(o, m, n, c, t, u, a, s, b); }
pub proof fn lemma_v_touch(o: CfgBuilder, m: ControlFlowGraph, n: ControlFlowGraph, c: BlockId, t: Tree, u: ISet<int>, a: ISet<int>, s: ISet<BlockId>, b: BlockId, v: BlockId, w: BlockId)
    requires so_far(o, m, c, t, u, a, s), retouched(m, n, b), b == c || fresh(o.cfg, m, b),
    ensures so_far(o, n, c, t, u, a, s), sane(n), inb(n, c), o.cfg.blocks@.len() <= n.blocks@.len(), b == c || fresh(o.cfg, n, b), idle(o.cfg, m, v) && (v != b || leaving(m, b) == leaving(n, b)) ==> idle(o.cfg, n, v), idle(o.cfg, m, w) && (w != b || leaving(m, b) == leaving(n, b)) ==> idle(o.cfg, n, w), hin(n, v) == hin(m, v), hin(n, w) == hin(m, w),
{ lemma_sf_touch(o, m, n, c, t, u, a, s, b); }
pub proof fn lemma_v_edge(o: CfgBuilder, m: ControlFlowGraph, n: ControlFlowGraph, c: BlockId, t: Tree, u: ISet<int>, a: ISet<int>, s: ISet<BlockId>, x: BlockId, y: BlockId, v: BlockId, w: BlockId) -> (z: ISet<BlockId>)
    requires so_far(o, m, c, t, u, a, s), with_edge(m, n, x, y), x == c || fresh(o.cfg, m, x), idle(o.cfg, m, y), stack_ok(o.cfg, o.loop_stack@),
    ensures so_far(o, n, c, t, u, a, z), z == (if s.contains(x) { s.insert(y) } else { s }), sane(n), inb(n, c), o.cfg.blocks@.len() <= n.blocks@.len(), idle(o.cfg, m, v) && v != x ==> idle(o.cfg, n, v), idle(o.cfg, m, w) && w != x ==> idle(o.cfg, n, w), hin(n, y), hin(n, v) == (hin(m, v) || v == y), hin(n, w) == (hin(m, w) || w == y),
{ let z = lemma_sf_edge(o, m, n, c, t, u, a, s, x, y); z }
pub proof fn lemma_v_body(o: CfgBuilder, m: CfgBuilder, n: CfgBuilder, c: BlockId, t: Tree, u: ISet<int>, a: ISet<int>, s: ISet<BlockId>, b: BlockId, e: BlockId, k: Tree, v: BlockId, w: BlockId) -> (z: ISet<BlockId>)
    requires so_far(o, m.cfg, c, t, u, a, s), s.contains(b), idle(o.cfg, m.cfg, b), built_body(m, n, b, e, k), same_rest(o, m),
        t.range.s <= k.range.s, k.range.e <= t.range.e, dead_body(k, stops(o), inl(o)).subset_of(dead_one(t, stops(o), inl(o))), hin(m.cfg, b),
    ensures so_far(o, n.cfg, c, t, u.union(sure_body(k, stops(o), inl(o), false)), a.union(sure_body(k, stops(o), inl(o), true)), z), sane(n.cfg), inb(n.cfg, c), o.cfg.blocks@.len() <= n.cfg.blocks@.len(), follows(n.cfg, e, z, on_body(k, stops(o), inl(o))), fresh(o.cfg, n.cfg, e), same_rest(o, n),
        idle(o.cfg, m.cfg, v) && v != b ==> idle(o.cfg, n.cfg, v) && v != e && z.contains(v) == s.contains(v), idle(o.cfg, m.cfg, w) && w != b ==> idle(o.cfg, n.cfg, w) && w != e && z.contains(w) == s.contains(w), hin(m.cfg, v) ==> hin(n.cfg, v), hin(m.cfg, w) ==> hin(n.cfg, w),
        on_body(k, stops(o), inl(o)) ==> hin(n.cfg, e),
{ assert(tgs(m.loop_stack@).subset_of(s.union(tgs(o.loop_stack@)))); let z = lemma_sf_body(o, m, n, c, t, u, a, s, b, e, k); z }
pub proof fn lemma_v_put(o: CfgBuilder, m: ControlFlowGraph, n: ControlFlowGraph, c: BlockId, t: Tree, u: ISet<int>, a: ISet<int>, s: ISet<BlockId>, b: BlockId, k: RSyntaxNode, v: BlockId, w: BlockId)
    requires so_far(o, m, c, t, u, a, s), !s.contains(b), idle(o.cfg, m, b), put(m, n, b, k), in_place(k.tree()), t.range.s <= k.tree().range.s, k.tree().range.e <= t.range.e, bytes(k.tree().range).subset_of(dead_one(t, stops(o), inl(o))),
    ensures so_far(o, n, c, t, u.union(sure_body(k.tree(), stops(o), inl(o), true)), a.union(sure_body(k.tree(), stops(o), inl(o), true)), s), sane(n), inb(n, c), o.cfg.blocks@.len() <= n.blocks@.len(), idle(o.cfg, m, v) && v != b ==> idle(o.cfg, n, v), idle(o.cfg, m, w) && w != b ==> idle(o.cfg, n, w), hin(n, v) == hin(m, v), hin(n, w) == hin(m, w),
{ lemma_sf_put(o, m, n, c, t, u, a, s, b, k, inl(o)); }
pub proof fn lemma_v_done(o: CfgBuilder, m: CfgBuilder, n: CfgBuilder, c: BlockId, r: BlockId, t: Tree, u: ISet<int>, a: ISet<int>, s: ISet<BlockId>)
    requires so_far(o, m.cfg, c, t, u, a, s), hin(o.cfg, c), same_rest(o, m), same_rest(m, n), idle(o.cfg, m.cfg, r), s.contains(r) == on_one(t, stops(o), inl(o)), covers(t, stops(o), inl(o), false, u), covers(t, stops(o), inl(o), true, a),
        n.cfg == m.cfg || retouched(m.cfg, n.cfg, r) && leaving(n.cfg, r) == leaving(m.cfg, r),
    ensures built_one(o, n, c, r, t),
{
    if n.cfg != m.cfg { lemma_v_touch(o, m.cfg, n.cfg, c, t, u, a, s, r, r, r); }
    lemma_sf_done(o, n, c, r, t, u, a, s);
}
/// both branches of an if have their blocks
pub open spec fn forked(o: CfgBuilder, n: CfgBuilder, c: BlockId, t: Tree, u: ISet<int>, a: ISet<int>, s: ISet<BlockId>, x: BlockId, y: BlockId, z: BlockId, v: Option<bool>) -> bool {
    &&& so_far(o, n.cfg, c, t, u, a, s) && same_rest(o, n) && sane(n.cfg) && stack_ok(n.cfg, n.loop_stack@)
    &&& idle(o.cfg, n.cfg, x) && idle(o.cfg, n.cfg, y) && idle(o.cfg, n.cfg, z) && x != y && y != z && x != z
    &&& s.contains(x) == (v != Some(false)) && s.contains(y) == (v != Some(true)) && !s.contains(z)
    &&& (v != Some(false) ==> hin(n.cfg, x)) && (v != Some(true) ==> hin(n.cfg, y))
}
/// the first branch has been built
pub open spec fn half(o: CfgBuilder, n: CfgBuilder, c: BlockId, t: Tree, u: ISet<int>, a: ISet<int>, s: ISet<BlockId>, y: BlockId, z: BlockId, v: Option<bool>, on: bool) -> bool {
    &&& so_far(o, n.cfg, c, t, u, a, s) && same_rest(o, n) && sane(n.cfg) && stack_ok(n.cfg, n.loop_stack@)
    &&& idle(o.cfg, n.cfg, y) && idle(o.cfg, n.cfg, z) && y != z
    &&& s.contains(y) == (v != Some(true)) && s.contains(z) == on && (v != Some(true) ==> hin(n.cfg, y))
}
impl<'a> CfgBuilder<'a> {
//@fn crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs CfgBuilder::build_expression
//@ret r
//@contract
    requires ready(*old(self), current, expr.tree().range.s), hin(old(self).cfg, current),
    ensures built_body(*old(self), *final(self), current, r, expr.tree()),
    decreases size(expr.tree()), 4nat,
//@at start
    proof { axiom_in_place(expr); }
//@end
//@fn crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs CfgBuilder::build_braced_expressions
//@subst `let items: Vec<_> = expressions .into_iter() .map(|e| e.syntax().clone()) .collect();` => `let items = vx_nodes(expressions);`
//@subst `self.build_statements(&items, current, exit)` => `let vx_r = self.build_statements(&items, current, exit);`
//@ret r
//@contract
    requires ready(*old(self), current, braced.tree().range.s), hin(old(self).cfg, current), in_place(braced.tree()), braced.tree().kind == RSyntaxKind::R_BRACED_EXPRESSIONS,
    ensures built_body(*old(self), *final(self), current, r, braced.tree()),
    decreases size(braced.tree()), 3nat,
//@at after let items
    let ghost t = braced.tree();
    let ghost l = trees(items@);
    proof {
        if l.len() > 0 { assert(t.range.s <= l[0].range.s); assert(l[l.len() - 1].range.e <= t.range.e); }
        assert(ends_by(at(self.cfg, current), list_lo(l)));
    }
//@at end
    proof {
        let b = *old(self);
        let s = choose|s: ISet<BlockId>| #[trigger] grown(b.cfg, self.cfg, current, tgs(b.loop_stack@), list_lo(l), list_hi(l), dead_list(l, l.len(), stops(b), inl(b)), sure_list(l, l.len(), stops(b), inl(b), false), sure_list(l, l.len(), stops(b), inl(b), true), s) && follows(self.cfg, vx_r, s, on_list(l, l.len(), stops(b), inl(b)));
        lemma_weaken(b.cfg, self.cfg, current, tgs(b.loop_stack@), list_lo(l), list_hi(l), dead_list(l, l.len(), stops(b), inl(b)), sure_list(l, l.len(), stops(b), inl(b), false), sure_list(l, l.len(), stops(b), inl(b), true), s,
            t.range.s, t.range.e, dead_body(t, stops(b), inl(b)), sure_body(t, stops(b), inl(b), false), sure_body(t, stops(b), inl(b), true));
    }
    vx_r
//@end
//@fn crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs CfgBuilder::build_statements attr=#[verifier::loop_isolation(false)]
//@subst `for (idx, stmt) in statements.iter().enumerate() {` => `let mut vx_i: usize = 0; while vx_i < statements.len() { let idx = vx_i; vx_i = vx_i + 1; let stmt = &statements[idx];`
//@subst `for remaining_stmt in &statements[idx + 1..] {` => `let mut vx_j: usize = idx + 1; while vx_j < statements.len() { let remaining_stmt = &statements[vx_j]; vx_j = vx_j + 1;`
//@ret r
//@contract
    requires ready(*old(self), current, list_lo(trees(statements@))), hin(old(self).cfg, current), kids_in_place(trees(statements@), statements@.len()),
    ensures built_list(*old(self), *final(self), current, r, trees(statements@)),
    decreases size_l(trees(statements@), statements@.len()), 4nat,
//@at start
    let ghost c0 = current;
    let ghost b0 = *self;
    let ghost l = trees(statements@);
    let ghost mut s = only(current);
    proof {
        lemma_refl(self.cfg, current, tgs(self.loop_stack@), list_lo(l), list_hi(l));
        lemma_weaken(self.cfg, self.cfg, current, tgs(self.loop_stack@), list_lo(l), list_hi(l), ISet::empty(), ISet::empty(), ISet::empty(), s, list_lo(l), list_hi(l), dead_list(l, 0, stops(b0), inl(b0)), sure_list(l, 0, stops(b0), inl(b0), false), sure_list(l, 0, stops(b0), inl(b0), true));
    }
//@loop 0 -
    invariant
        b0 == *old(self), l == trees(statements@), l.len() == statements@.len(), vx_i <= statements@.len(), stack_ok(b0.cfg, b0.loop_stack@),
        built_upto(b0, *self, c0, current, l, vx_i as nat, s), vx_i < l.len() ==> (hin(self.cfg, current) ==> !leaving(self.cfg, current)),
    decreases statements@.len() - vx_i,
//@at loop 0 start
    let ghost k = vx_i as nat;
    let ghost m = *self;
    let ghost cur = current;
    proof {
        lemma_grown(b0.cfg, self.cfg, c0, tgs(b0.loop_stack@), list_lo(l), list_hi(l), dead_list(l, k, stops(b0), inl(b0)), sure_list(l, k, stops(b0), inl(b0), false), sure_list(l, k, stops(b0), inl(b0), true), s);
        lemma_kid(l, l.len(), k as int); lemma_size(l, l.len(), k as int);
        assert(l[k as int] == statements@[k as int].tree());
    }
//@at before `if let Some(block) = self.cfg.block(current)`
    proof { s = lemma_step(b0, m, *self, c0, cur, current, l, k, s); }
//@at before `return unreachable`
    proof { lemma_done(b0, *self, c0, u, l, s); }
//@at before let unreachable
    let ghost g1 = self.cfg;
    proof { assert(!on_list(l, k + 1, stops(b0), inl(b0))); }
//@at after let unreachable
    let ghost g2 = self.cfg;
    let ghost u = unreachable;
    proof { lemma_more(b0.cfg, g1, g2, c0, u, tgs(b0.loop_stack@), list_lo(l), list_hi(l), dead_list(l, k + 1, stops(b0), inl(b0)), sure_list(l, k + 1, stops(b0), inl(b0), false), sure_list(l, k + 1, stops(b0), inl(b0), true), s); }
//@at before loop 1
    proof {
        lemma_grown(b0.cfg, g2, c0, tgs(b0.loop_stack@), list_lo(l), list_hi(l), dead_list(l, k + 1, stops(b0), inl(b0)), sure_list(l, k + 1, stops(b0), inl(b0), false), sure_list(l, k + 1, stops(b0), inl(b0), true), s);
        assert(retouched(g2, self.cfg, u)) by { assert(at(g2, u).predecessors@.len() == 0); }
        lemma_touch(b0.cfg, g2, self.cfg, c0, u, tgs(b0.loop_stack@), list_lo(l), list_hi(l), dead_list(l, k + 1, stops(b0), inl(b0)), sure_list(l, k + 1, stops(b0), inl(b0), false), sure_list(l, k + 1, stops(b0), inl(b0), true), s);
        lemma_retouched(g2, self.cfg, u);
    }
//@at after loop 0
    proof { lemma_done(b0, *self, c0, current, l, s); }
//@loop 1 -
    invariant
        b0 == *old(self), l == trees(statements@), l.len() == statements@.len(), 1 <= vx_j <= statements@.len(), u == unreachable,
        built_upto(b0, *self, c0, u, l, vx_j as nat, s), !hin(self.cfg, u), !on_list(l, vx_j as nat, stops(b0), inl(b0)),
    decreases statements@.len() - vx_j,
//@at loop 1 start
    let ghost j = vx_j as nat;
    let ghost m1 = *self;
    proof {
        lemma_grown(b0.cfg, self.cfg, c0, tgs(b0.loop_stack@), list_lo(l), list_hi(l), dead_list(l, j, stops(b0), inl(b0)), sure_list(l, j, stops(b0), inl(b0), false), sure_list(l, j, stops(b0), inl(b0), true), s);
        lemma_kid(l, l.len(), j as int);
        assert(l[j as int] == statements@[j as int].tree());
    }
//@at loop 1 end
    proof {
        let t = l[j as int];
        let x = choose|x: RSyntaxNode| x.tree() == t && #[trigger] put(m1.cfg, self.cfg, u, x);
        lemma_put(m1.cfg, self.cfg, u, x, tgs(b0.loop_stack@));
        assert(built_one(m1, *self, u, u, t));
        s = lemma_step(b0, m1, *self, c0, u, u, l, j, s);
    }
//@end
//@methods contains
//@fn crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs CfgBuilder::build_statement
//@subst `match stmt.kind() {` => `let vx_r = match stmt.kind() {`
//@subst `_ => { self.add_statement(current, stmt.clone()); current } }` => `_ => { self.add_statement(current, stmt.clone()); current } };`
//@subst `stmt.first_child().unwrap().text_trimmed().to_string()` => `stmt.vx_head()`
//@subst `full_name .rsplit_once("::") .map_or(full_name.as_str(), |(_, name)| name)` => `vx_called(&full_name)`
//@subst `fun_name == "return"` => `vx_same(fun_name, "return")`
//@subst `fun_name == "break"` => `vx_same(fun_name, "break")`
//@subst `fun_name == "next"` => `vx_same(fun_name, "next")`
//@ret r
//@contract
    requires ready(*old(self), current, stmt.tree().range.s),
    ensures built_one(*old(self), *final(self), current, r, stmt.tree()),
    decreases size(stmt.tree()), 2nat,
//@at start
    let ghost t = stmt.tree();
    proof { axiom_in_place(stmt); }
//@at before `return current`
    proof { let x = choose|x: RSyntaxNode| x.tree() == t && #[trigger] put(old(self).cfg, self.cfg, current, x); lemma_put(old(self).cfg, self.cfg, current, x, tgs(old(self).loop_stack@)); }
//@at end
    proof { if !is_if(t) && !is_loop(t) { lemma_leaf(*old(self), *self, current, t); } }
    vx_r
//@end
//@methods
//@fn crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs CfgBuilder::build_for_statement
//@ret r
//@contract
    requires ready(*old(self), current, for_stmt.tree().range.s), hin(old(self).cfg, current),
    ensures built_one(*old(self), *final(self), current, r, for_stmt.tree()),
    decreases size(for_stmt.tree()), 1nat,
//@at start
    let ghost o = *self;
    let ghost t = for_stmt.tree();
    let ghost mut s = only(current);
    let ghost no = ISet::<int>::empty();
    let ghost mut u = no;
    let ghost mut a = no;
    proof { lemma_start(o, current, t); }
//@at before let loop_header
    let ghost k = t.kids[0];
    proof { lemma_kid(t.kids, t.kids.len(), 0); lemma_size(t.kids, t.kids.len(), 0); assert(t.range.s <= t.kids[0].range.s && t.kids[0].range.e <= t.range.e); }
//@at after let loop_header
    let ghost g1 = self.cfg;
    proof { lemma_sf_more(o, o.cfg, g1, current, t, no, no, s, loop_header); }
//@at after let loop_body
    let ghost g2 = self.cfg;
    proof { lemma_sf_more(o, g1, g2, current, t, no, no, s, loop_body); }
//@at after let after_loop
    let ghost g3 = self.cfg;
    proof { lemma_sf_more(o, g2, g3, current, t, no, no, s, after_loop); }
//@at before `self.cfg.add_edge(current, loop_header)`
    let ghost g4 = self.cfg;
    proof { assert(retouched(g3, g4, current)); lemma_sf_touch(o, g3, g4, current, t, no, no, s, current); }
//@at after `self.cfg.add_edge(current, loop_header);`
    let ghost g5 = self.cfg;
    proof { s = lemma_sf_edge(o, g4, g5, current, t, no, no, s, current, loop_header); }
//@at before `self.cfg.add_edge(loop_header, loop_body)`
    let ghost g6 = self.cfg;
    proof { assert(retouched(g5, g6, loop_header)); lemma_sf_touch(o, g5, g6, current, t, no, no, s, loop_header); }
//@at after `self.cfg.add_edge(loop_header, loop_body);`
    let ghost g7 = self.cfg;
    proof { s = lemma_sf_edge(o, g6, g7, current, t, no, no, s, loop_header, loop_body); }
//@at after `self.cfg.add_edge(loop_header, after_loop);`
    let ghost g8 = self.cfg;
    proof { s = lemma_sf_edge(o, g7, g8, current, t, no, no, s, loop_header, after_loop); }
//@at before let body_end
    let ghost m = *self;
    proof {
        assert(s.contains(self.loop_stack@.last().continue_target) && s.contains(self.loop_stack@.last().break_target));
        assert(stack_ok(self.cfg, self.loop_stack@)) by { assert forall|j: int| 0 <= j < self.loop_stack@.len() implies inb(self.cfg, (#[trigger] self.loop_stack@[j]).continue_target) && inb(self.cfg, self.loop_stack@[j].break_target) by { if j < o.loop_stack@.len() { assert(self.loop_stack@[j] == o.loop_stack@[j]); lemma_grown(o.cfg, g8, current, tgs(o.loop_stack@), t.range.s, t.range.e, dead_one(t, stops(o), inl(o)), no, no, s); } } }
        assert(tgs(self.loop_stack@).subset_of(s));
    }
//@at after let body_end
    let ghost n = *self;
    proof {
        s = lemma_sf_body(o, m, n, current, t, no, no, s, loop_body, body_end, k);
        u = no.union(sure_body(k, stops(o), true, false));
        a = no.union(sure_body(k, stops(o), true, true));
    }
//@at before `self.cfg.add_edge(body_end, loop_header)`
    let ghost g9 = self.cfg;
    proof { assert(retouched(n.cfg, g9, body_end)); lemma_sf_touch(o, n.cfg, g9, current, t, u, a, s, body_end); }
//@at after `self.cfg.add_edge(body_end, loop_header);`
    let ghost g10 = self.cfg;
    proof { s = lemma_sf_edge(o, g9, g10, current, t, u, a, s, body_end, loop_header); }
//@at after `self.loop_stack.pop();`
    proof { assert(self.loop_stack@ =~= o.loop_stack@); lemma_sf_done(o, *self, current, after_loop, t, u, a, s); }
//@end
//@fn crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs CfgBuilder::build_while_statement
//@ret r
//@contract
    requires ready(*old(self), current, while_stmt.tree().range.s), hin(old(self).cfg, current),
    ensures built_one(*old(self), *final(self), current, r, while_stmt.tree()),
    decreases size(while_stmt.tree()), 1nat,
//@at start
    let ghost o = *self;
    let ghost t = while_stmt.tree();
    let ghost mut s = only(current);
    let ghost no = ISet::<int>::empty();
    let ghost mut u = no;
    let ghost mut a = no;
    proof { lemma_start(o, current, t); }
//@at before let loop_header
    let ghost k = t.kids[0];
    proof { lemma_kid(t.kids, t.kids.len(), 0); lemma_size(t.kids, t.kids.len(), 0); assert(t.range.s <= t.kids[0].range.s && t.kids[0].range.e <= t.range.e); }
//@at after let loop_header
    let ghost g1 = self.cfg;
    proof { lemma_sf_more(o, o.cfg, g1, current, t, no, no, s, loop_header); }
//@at after let loop_body
    let ghost g2 = self.cfg;
    proof { lemma_sf_more(o, g1, g2, current, t, no, no, s, loop_body); }
//@at after let after_loop
    let ghost g3 = self.cfg;
    proof { lemma_sf_more(o, g2, g3, current, t, no, no, s, after_loop); }
//@at before `self.cfg.add_edge(current, loop_header)`
    let ghost g4 = self.cfg;
    proof { assert(retouched(g3, g4, current)); lemma_sf_touch(o, g3, g4, current, t, no, no, s, current); }
//@at after `self.cfg.add_edge(current, loop_header);`
    let ghost g5 = self.cfg;
    proof { s = lemma_sf_edge(o, g4, g5, current, t, no, no, s, current, loop_header); }
//@at before `self.cfg.add_edge(loop_header, loop_body)`
    let ghost g6 = self.cfg;
    proof { assert(retouched(g5, g6, loop_header)); lemma_sf_touch(o, g5, g6, current, t, no, no, s, loop_header); }
//@at after `self.cfg.add_edge(loop_header, loop_body);`
    let ghost g7 = self.cfg;
    proof { s = lemma_sf_edge(o, g6, g7, current, t, no, no, s, loop_header, loop_body); }
//@at after `self.cfg.add_edge(loop_header, after_loop);`
    let ghost g8 = self.cfg;
    proof { s = lemma_sf_edge(o, g7, g8, current, t, no, no, s, loop_header, after_loop); }
//@at before let body_end
    let ghost m = *self;
    proof {
        assert(s.contains(self.loop_stack@.last().continue_target) && s.contains(self.loop_stack@.last().break_target));
        assert(stack_ok(self.cfg, self.loop_stack@)) by { assert forall|j: int| 0 <= j < self.loop_stack@.len() implies inb(self.cfg, (#[trigger] self.loop_stack@[j]).continue_target) && inb(self.cfg, self.loop_stack@[j].break_target) by { if j < o.loop_stack@.len() { assert(self.loop_stack@[j] == o.loop_stack@[j]); lemma_grown(o.cfg, g8, current, tgs(o.loop_stack@), t.range.s, t.range.e, dead_one(t, stops(o), inl(o)), no, no, s); } } }
        assert(tgs(self.loop_stack@).subset_of(s));
    }
//@at after let body_end
    let ghost n = *self;
    proof {
        s = lemma_sf_body(o, m, n, current, t, no, no, s, loop_body, body_end, k);
        u = no.union(sure_body(k, stops(o), true, false));
        a = no.union(sure_body(k, stops(o), true, true));
    }
//@at before `self.cfg.add_edge(body_end, loop_header)`
    let ghost g9 = self.cfg;
    proof { assert(retouched(n.cfg, g9, body_end)); lemma_sf_touch(o, n.cfg, g9, current, t, u, a, s, body_end); }
//@at after `self.cfg.add_edge(body_end, loop_header);`
    let ghost g10 = self.cfg;
    proof { s = lemma_sf_edge(o, g9, g10, current, t, u, a, s, body_end, loop_header); }
//@at after `self.loop_stack.pop();`
    proof { assert(self.loop_stack@ =~= o.loop_stack@); lemma_sf_done(o, *self, current, after_loop, t, u, a, s); }
//@end
//@fn crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs CfgBuilder::build_repeat_statement
//@ret r
//@contract
    requires ready(*old(self), current, repeat_stmt.tree().range.s), hin(old(self).cfg, current),
    ensures built_one(*old(self), *final(self), current, r, repeat_stmt.tree()),
    decreases size(repeat_stmt.tree()), 1nat,
//@at start
    let ghost o = *self;
    let ghost t = repeat_stmt.tree();
    let ghost mut s = only(current);
    let ghost no = ISet::<int>::empty();
    let ghost mut u = no;
    let ghost mut a = no;
    proof { lemma_start(o, current, t); }
//@at before let loop_body
    let ghost k = t.kids[0];
    proof { lemma_kid(t.kids, t.kids.len(), 0); lemma_size(t.kids, t.kids.len(), 0); assert(t.range.s <= t.kids[0].range.s && t.kids[0].range.e <= t.range.e); }
//@at after let loop_body
    let ghost g2 = self.cfg;
    proof { lemma_sf_more(o, o.cfg, g2, current, t, no, no, s, loop_body); }
//@at after let after_loop
    let ghost g3 = self.cfg;
    proof { lemma_sf_more(o, g2, g3, current, t, no, no, s, after_loop); }
//@at before `self.cfg.add_edge(current, loop_body)`
    let ghost g4 = self.cfg;
    proof { assert(retouched(g3, g4, current)); lemma_sf_touch(o, g3, g4, current, t, no, no, s, current); }
//@at after `self.cfg.add_edge(current, loop_body);`
    let ghost g5 = self.cfg;
    proof { s = lemma_sf_edge(o, g4, g5, current, t, no, no, s, current, loop_body); }
//@at after `self.cfg.add_edge(loop_body, after_loop);`
    let ghost g8 = self.cfg;
    proof { s = lemma_sf_edge(o, g5, g8, current, t, no, no, s, loop_body, after_loop); assert(same_content(g5.blocks@[loop_body.0 as int], g8.blocks@[loop_body.0 as int])); }
//@at before let body_end
    let ghost m = *self;
    proof {
        assert(s.contains(self.loop_stack@.last().continue_target) && s.contains(self.loop_stack@.last().break_target));
        assert(stack_ok(self.cfg, self.loop_stack@)) by { assert forall|j: int| 0 <= j < self.loop_stack@.len() implies inb(self.cfg, (#[trigger] self.loop_stack@[j]).continue_target) && inb(self.cfg, self.loop_stack@[j].break_target) by { if j < o.loop_stack@.len() { assert(self.loop_stack@[j] == o.loop_stack@[j]); lemma_grown(o.cfg, g8, current, tgs(o.loop_stack@), t.range.s, t.range.e, dead_one(t, stops(o), inl(o)), no, no, s); } } }
        assert(tgs(self.loop_stack@).subset_of(s));
    }
//@at after let body_end
    let ghost n = *self;
    proof {
        s = lemma_sf_body(o, m, n, current, t, no, no, s, loop_body, body_end, k);
        u = no.union(sure_body(k, stops(o), true, false));
        a = no.union(sure_body(k, stops(o), true, true));
    }
//@at before `self.cfg.add_edge(body_end, loop_body)`
    let ghost g9 = self.cfg;
    proof { assert(retouched(n.cfg, g9, body_end)); lemma_sf_touch(o, n.cfg, g9, current, t, u, a, s, body_end); }
//@at after `self.cfg.add_edge(body_end, loop_body);`
    let ghost g10 = self.cfg;
    proof { s = lemma_sf_edge(o, g9, g10, current, t, u, a, s, body_end, loop_body); }
//@at after `self.loop_stack.pop();`
    proof { assert(self.loop_stack@ =~= o.loop_stack@); lemma_sf_done(o, *self, current, after_loop, t, u, a, s); }
//@end
//@fn crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs CfgBuilder::build_if_statement attr=#[verifier::rlimit(40)]
//@subst `fields.condition.ok().map(|c| c.syntax().clone())` => `vx_node(fields.condition)`
//@subst `condition.as_ref().and_then(evaluate_constant_condition)` => `vx_const(&condition)`
//@subst `after_block.predecessors.push(current); } after_if` => `after_block.predecessors.push(current); } let vx_r = after_if;`
//@ret r
//@contract
    requires ready(*old(self), current, if_stmt.tree().range.s), hin(old(self).cfg, current),
    ensures built_one(*old(self), *final(self), current, r, if_stmt.tree()),
    decreases size(if_stmt.tree()), 1nat,
//@at start
    hide(sure_one); hide(dead_one); hide(on_one); hide(sure_body); hide(dead_body); hide(on_body); hide(in_place); hide(kids_in_place); hide(size); hide(const_value); hide(so_far); hide(idle); hide(built); hide(built_body); hide(hin); hide(one_more); hide(retouched); hide(with_edge); hide(sane); hide(put); hide(built_one); hide(covers); hide(stack_ok); hide(of_branches);
    let ghost o = *self;
    let ghost t = if_stmt.tree();
    let ghost mut s = only(current);
    let ghost no = ISet::<int>::empty();
    let ghost mut u = no;
    let ghost mut a = no;
    let ghost st = stops(o);
    let ghost il = inl(o);
    proof { lemma_start(o, current, t); }
//@at before let then_block
    let ghost k = t.kids[1];
    let ghost z = t.kids[t.kids.len() - 1];
    let ghost v = const_value(t.kids[0]);
    proof { lemma_if(t, st, il); }
//@at after let then_block
    let ghost g1 = self.cfg;
    proof { lemma_sf_more(o, o.cfg, g1, current, t, no, no, s, then_block); }
//@at after let else_block
    let ghost g2 = self.cfg;
    proof { lemma_v_more(o, g1, g2, current, t, no, no, s, else_block, then_block, then_block); }
//@at after let after_if
    let ghost g3 = self.cfg;
    proof { lemma_v_more(o, g2, g3, current, t, no, no, s, after_if, then_block, else_block); }
//@at before `match constant_value`
    let ghost g4 = self.cfg;
    proof {
        assert(retouched(g3, g4, current)) by { reveal(retouched); }
        lemma_v_touch(o, g3, g4, current, t, no, no, s, current, then_block, else_block);
        lemma_v_touch(o, g3, g4, current, t, no, no, s, current, after_if, after_if);
    }
//@at after `self.cfg.add_edge(current, then_block);`
    let ghost g5 = self.cfg;
    proof {
        lemma_v_edge(o, g4, g5, current, t, no, no, s, current, then_block, after_if, after_if);
        s = lemma_v_edge(o, g4, g5, current, t, no, no, s, current, then_block, then_block, else_block);
    }
//@at after `else_b.predecessors.push(current); }`
    proof {
        lemma_idle(o.cfg, g5, else_block);
        assert(retouched(g5, self.cfg, else_block)) by { reveal(retouched); lemma_pushed(at(g5, else_block).predecessors@, current); }
        lemma_v_touch(o, g5, self.cfg, current, t, no, no, s, else_block, then_block, else_block);
        lemma_v_touch(o, g5, self.cfg, current, t, no, no, s, else_block, after_if, after_if);
    }
//@at after `self.cfg.add_edge(current, else_block);`
    let ghost g5 = self.cfg;
    proof {
        lemma_v_edge(o, g4, g5, current, t, no, no, s, current, else_block, after_if, after_if);
        s = lemma_v_edge(o, g4, g5, current, t, no, no, s, current, else_block, then_block, else_block);
    }
//@at after `then_b.predecessors.push(current); }`
    proof {
        lemma_idle(o.cfg, g5, then_block);
        assert(retouched(g5, self.cfg, then_block)) by { reveal(retouched); lemma_pushed(at(g5, then_block).predecessors@, current); }
        lemma_v_touch(o, g5, self.cfg, current, t, no, no, s, then_block, then_block, else_block);
        lemma_v_touch(o, g5, self.cfg, current, t, no, no, s, then_block, after_if, after_if);
    }
//@at after #1 `self.cfg.add_edge(current, then_block);`
    let ghost g5 = self.cfg;
    proof {
        lemma_v_edge(o, g4, g5, current, t, no, no, s, current, then_block, after_if, after_if);
        s = lemma_v_edge(o, g4, g5, current, t, no, no, s, current, then_block, then_block, else_block);
    }
//@at after #1 `self.cfg.add_edge(current, else_block);`
    let ghost g6 = self.cfg;
    proof {
        lemma_v_edge(o, g5, g6, current, t, no, no, s, current, else_block, after_if, after_if);
        s = lemma_v_edge(o, g5, g6, current, t, no, no, s, current, else_block, then_block, else_block);
    }
//@at before `if let Ok(consequence) = fields.consequence`
    let ghost p1 = *self;
    proof {
        lemma_stack(o, p1.cfg);
        assert(forked(o, p1, current, t, no, no, s, then_block, else_block, after_if, v));
        lemma_idle(o.cfg, p1.cfg, then_block);
    }
//@at after `block.statements.push(consequence.syntax().clone()); }`
    proof {
        let x = at(self.cfg, then_block).statements@.last();
        assert(at(self.cfg, then_block).statements@ == at(p1.cfg, then_block).statements@.push(x));
        assert(put(p1.cfg, self.cfg, then_block, x)) by { reveal(put); }
        lemma_v_put(o, p1.cfg, self.cfg, current, t, no, no, s, then_block, x, else_block, after_if);
    }
//@at after let then_end
    let ghost n1 = *self;
    proof { s = lemma_v_body(o, p1, n1, current, t, no, no, s, then_block, then_end, k, else_block, after_if); }
//@at before `self.cfg.add_edge(then_end, after_if)`
    let ghost g9 = self.cfg;
    proof {
        assert(retouched(n1.cfg, g9, then_end)) by { reveal(retouched); }
        lemma_v_touch(o, n1.cfg, g9, current, t, no.union(sure_body(k, st, il, false)), no.union(sure_body(k, st, il, true)), s, then_end, else_block, after_if);
    }
//@at after `self.cfg.add_edge(then_end, after_if);`
    let ghost g10 = self.cfg;
    proof { s = lemma_v_edge(o, g9, g10, current, t, no.union(sure_body(k, st, il, false)), no.union(sure_body(k, st, il, true)), s, then_end, after_if, else_block, after_if); }
//@at before `if let Some(else_clause) = fields.else_clause`
    let ghost p2 = *self;
    proof {
        u = no.union(sure_body(k, st, il, v == Some(false)));
        a = no.union(sure_body(k, st, il, true));
        lemma_stack(o, p2.cfg);
        assert(half(o, p2, current, t, u, a, s, else_block, after_if, v, v != Some(false) && on_body(k, st, il)));
        lemma_idle(o.cfg, p2.cfg, else_block);
    }
//@at after `block.statements.push(alt_body.syntax().clone()); }`
    proof {
        let x = at(self.cfg, else_block).statements@.last();
        assert(at(self.cfg, else_block).statements@ == at(p2.cfg, else_block).statements@.push(x));
        assert(put(p2.cfg, self.cfg, else_block, x)) by { reveal(put); }
        lemma_v_put(o, p2.cfg, self.cfg, current, t, u, a, s, else_block, x, after_if, after_if);
        u = u.union(sure_body(z, st, il, true));
        a = a.union(sure_body(z, st, il, true));
    }
//@at after let else_end
    let ghost n2 = *self;
    proof {
        s = lemma_v_body(o, p2, n2, current, t, u, a, s, else_block, else_end, z, after_if, after_if);
        u = u.union(sure_body(z, st, il, false));
        a = a.union(sure_body(z, st, il, true));
    }
//@at before `self.cfg.add_edge(else_end, after_if)`
    let ghost g11 = self.cfg;
    proof {
        assert(retouched(n2.cfg, g11, else_end)) by { reveal(retouched); }
        lemma_v_touch(o, n2.cfg, g11, current, t, u, a, s, else_end, after_if, after_if);
    }
//@at after `self.cfg.add_edge(else_end, after_if);`
    let ghost g12 = self.cfg;
    proof { s = lemma_v_edge(o, g11, g12, current, t, u, a, s, else_end, after_if, after_if, after_if); }
//@at before `self.cfg.add_edge(else_block, after_if)`
    let ghost g13 = self.cfg;
    proof {
        assert(retouched(p2.cfg, g13, else_block)) by { reveal(retouched); }
        lemma_v_touch(o, p2.cfg, g13, current, t, u, a, s, else_block, after_if, after_if);
    }
//@at after `self.cfg.add_edge(else_block, after_if);`
    let ghost g14 = self.cfg;
    proof { s = lemma_v_edge(o, g13, g14, current, t, u, a, s, else_block, after_if, after_if, after_if); }
//@at before `if !self.has_incoming_edges(after_if)`
    let ghost p3 = *self;
    proof {
        assert(so_far(o, p3.cfg, current, t, u, a, s));
        assert(idle(o.cfg, p3.cfg, after_if));
        assert(sane(p3.cfg));
        assert(s.contains(after_if) == on_one(t, st, il));
        assert(u == of_branches(t, st, il, false) && a == of_branches(t, st, il, true)) by { reveal(of_branches); }
        lemma_covers(t, st, il);
        lemma_idle(o.cfg, p3.cfg, after_if);
    }
//@at before let vx_r
    let ghost p4 = *self;
    proof {
        lemma_pushed(at(p3.cfg, after_if).predecessors@, current);
        if p4.cfg == p3.cfg { }
        else { assert(retouched(p3.cfg, p4.cfg, after_if) && leaving(p4.cfg, after_if) == leaving(p3.cfg, after_if)) by { reveal(retouched); } }
        lemma_v_done(o, p3, p4, current, after_if, t, u, a, s);
    }
//@at end
    vx_r
//@end
}
// ---- the whole graph, and what is reported ----
pub open spec fn at_start(b: CfgBuilder) -> bool {
    wf(b.cfg) && b.cfg.blocks@.len() == 2 && b.cfg.entry != b.cfg.exit && empty_block(b.cfg.blocks@[0], BlockId(0)) && empty_block(b.cfg.blocks@[1], BlockId(1)) && b.loop_stack@.len() == 0
}
/// what no chain of edges leads to is within dead, and all of sure is such
pub open spec fn exact(g: ControlFlowGraph, dead: ISet<int>, sure: ISet<int>) -> bool {
    &&& wf(g)
    &&& forall|p: int| #[trigger] some_off(g, g.blocks@.len() as int, p) ==> dead.contains(p)
    &&& forall|p: int| #[trigger] sure.contains(p) ==> some_off(g, g.blocks@.len() as int, p)
}
pub proof fn lemma_at_start(b: CfgBuilder, lo: u32)
    requires at_start(b),
    ensures ready(b, b.cfg.entry, lo), hin(b.cfg, b.cfg.entry), forall|x: BlockId, y: BlockId| !#[trigger] edge(b.cfg, x, y),
{
    let g = b.cfg;
    assert forall|x: BlockId, y: BlockId| !#[trigger] edge(g, x, y) by { if inb(g, x) { assert(x.0 == 0 || x.0 == 1); assert(at(g, x).successors@.len() == 0); } }
    assert forall|x: BlockId| inb(g, x) implies nice(#[trigger] at(g, x)) by { assert(x.0 == 0 || x.0 == 1); }
    assert(g.entry.0 == 0 || g.entry.0 == 1);
    assert(sane(g));
}
pub proof fn lemma_exact(o: CfgBuilder, n: CfgBuilder, r: BlockId, lo: u32, hi: u32, dead: ISet<int>, sure: ISet<int>, all: ISet<int>, on: bool)
    requires at_start(o), built(o, n, o.cfg.entry, r, lo, hi, dead, sure, all, on),
    ensures exact(n.cfg, dead, sure),
{
    let g = n.cfg;
    let c = o.cfg.entry;
    let tg = tgs(o.loop_stack@);
    let s = choose|s: ISet<BlockId>| #[trigger] grown(o.cfg, g, c, tg, lo, hi, dead, sure, all, s) && follows(g, r, s, on);
    lemma_at_start(o, lo);
    lemma_grown(o.cfg, g, c, tg, lo, hi, dead, sure, all, s);
    reveal(grown);
    assert forall|x: BlockId, y: BlockId| #[trigger] edge(g, x, y) && s.contains(x) implies s.contains(y) by { assert(!edge(o.cfg, x, y)); assert(!tg.contains(y)); }
    assert forall|b: BlockId| leads(g, c, b) == #[trigger] s.contains(b) by { if leads(g, c, b) { lemma_closed(g, c, b, s); } }
    assert forall|p: int| #[trigger] some_off(g, g.blocks@.len() as int, p) implies dead.contains(p) by {
        let i = choose|i: int| 0 <= i < g.blocks@.len() && #[trigger] off(g, i, p);
        let b = BlockId(i as usize);
        lemma_ids(g, i);
        assert(!s.contains(b));
        assert(fresh(o.cfg, g, b)) by { assert(o.cfg.entry.0 < 2 && o.cfg.exit.0 < 2); assert(o.cfg.exit == g.exit); }
        assert(in_part(g, b, p));
    }
    assert forall|p: int| #[trigger] sure.contains(p) implies some_off(g, g.blocks@.len() as int, p) by {
        assert(off_has(o.cfg, g, s, p));
        let b = choose|b: BlockId| #[trigger] in_part(g, b, p) && fresh(o.cfg, g, b) && !s.contains(b);
        lemma_ids(g, b.0 as int);
        assert(BlockId(b.0 as int as usize) == b);
        assert(off(g, b.0 as int, p));
    }
}
/// the blocks can be counted with a usize
pub proof fn lemma_ids(g: ControlFlowGraph, i: int)
    requires wf(g), 0 <= i < g.blocks@.len(),
    ensures BlockId(i as usize).0 == i,
{ assert(g.blocks@[i].id.0 == i); }
impl<'a> CfgBuilder<'a> {
//@methods
//@fn crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs CfgBuilder::build
//@subst `} self.cfg` => `} let vx_r = self.cfg;`
//@ret r
//@contract
    requires at_start(self),
    ensures exact(r, dead_body(func.inside(), stops(self), false), sure_body(func.inside(), stops(self), false, false)),
//@at start
    let ghost o = self;
    proof { lemma_at_start(self, func.inside().range.s); }
//@at before let vx_r
    proof {
        let t = func.inside();
        let c = o.cfg.entry;
        let rr = choose|rr: BlockId| #[trigger] built_body(o, vx_self, c, rr, t);
        lemma_exact(o, vx_self, rr, t.range.s, t.range.e, dead_body(t, stops(o), inl(o)), sure_body(t, stops(o), inl(o), false), sure_body(t, stops(o), inl(o), true), on_body(t, stops(o), inl(o)));
    }
//@at end
    vx_r
//@end
}
//@fn crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs build_cfg
//@subst `CfgBuilder::new(` => `CfgBuilder::new_builder(`
//@ret r
//@contract
    ensures exact(r, dead_body(func.inside(), stopping_functions.texts(), false), sure_body(func.inside(), stopping_functions.texts(), false, false)),
//@end
//@fn crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs build_cfg_top_level
//@subst `CfgBuilder::new(` => `CfgBuilder::new_builder(`
//@subst `builder.build_statements(expressions, entry, exit);` => `let vx_end = builder.build_statements(expressions, entry, exit);`
//@ret r
//@contract
    requires kids_in_place(trees(expressions@), expressions@.len()),
    ensures exact(r, dead_list(trees(expressions@), expressions@.len(), stopping_functions.texts(), false), sure_list(trees(expressions@), expressions@.len(), stopping_functions.texts(), false, false)),
//@at before let entry
    let ghost o = builder;
    let ghost l = trees(expressions@);
    proof { lemma_at_start(o, list_lo(l)); }
//@at after let vx_end
    proof { lemma_exact(o, builder, vx_end, list_lo(l), list_hi(l), dead_list(l, l.len(), stops(o), inl(o)), sure_list(l, l.len(), stops(o), inl(o), false), sure_list(l, l.len(), stops(o), inl(o), true), on_list(l, l.len(), stops(o), inl(o))); }
//@end
// ---- the diagnostics ----
impl UnreachableReason {
//@fn crates/jarl-core/src/lints/base/unreachable_code/cfg/reachability.rs UnreachableReason::message
//@end
}
#[verifier::external_body]
pub struct ViolationData { e: () }
impl ViolationData { #[verifier::external_body] pub fn new(name: String, body: String, suggestion: Option<String>) -> (r: ViolationData) { unimplemented!() } }
#[verifier::external_body]
pub struct Fix { e: () }
impl Fix { #[verifier::external_body] pub fn empty() -> (r: Fix) { unimplemented!() } }
pub struct Diagnostic { pub range: TextRange }
impl Diagnostic { #[verifier::external_body] pub fn new(message: ViolationData, range: TextRange, fix: Fix) -> (r: Diagnostic) ensures r.range == range { unimplemented!() } }
pub struct UnreachableOptions { pub stopping_functions: HashSet<String> }
pub struct RuleOptions { pub unreachable_code: UnreachableOptions }
pub struct Checker { pub rule_options: RuleOptions }
pub open spec fn st_of(c: Checker) -> ISet<Seq<char>> { c.rule_options.unreachable_code.stopping_functions.texts() }
pub open spec fn in_found(v: Seq<Diagnostic>, p: int) -> bool { exists|i: int| 0 <= i < v.len() && has_byte((#[trigger] v[i]).range, p) }
/// reported: at most dead; and all of sure but what is left out because of its reason
pub open spec fn told(v: Seq<Diagnostic>, dead: ISet<int>, sure: ISet<int>) -> bool {
    &&& forall|p: int| #[trigger] in_found(v, p) ==> dead.contains(p)
    &&& forall|p: int| #[trigger] sure.contains(p) ==> in_found(v, p)
}
pub open spec fn in_first(v: Seq<UnreachableCodeInfo>, n: int, p: int) -> bool { exists|i: int| 0 <= i < n && has_byte((#[trigger] v[i]).range, p) }
pub proof fn lemma_first_one(v: Seq<UnreachableCodeInfo>, n: int)
    requires 0 <= n < v.len(),
    ensures forall|p: int| #[trigger] in_first(v, n + 1, p) == (in_first(v, n, p) || has_byte(v[n].range, p)),
{
    assert forall|p: int| #[trigger] in_first(v, n + 1, p) == (in_first(v, n, p) || has_byte(v[n].range, p)) by {
        if in_first(v, n, p) { let i = choose|i: int| 0 <= i < n && has_byte((#[trigger] v[i]).range, p); assert(has_byte(v[i].range, p)); }
    }
}
pub proof fn lemma_found_push(v: Seq<Diagnostic>, x: Diagnostic)
    ensures forall|p: int| #[trigger] in_found(v.push(x), p) == (in_found(v, p) || has_byte(x.range, p)),
{
    let w = v.push(x);
    assert forall|p: int| #[trigger] in_found(w, p) == (in_found(v, p) || has_byte(x.range, p)) by {
        if in_found(v, p) { let i = choose|i: int| 0 <= i < v.len() && has_byte((#[trigger] v[i]).range, p); assert(has_byte(w[i].range, p)); }
        if has_byte(x.range, p) { assert(has_byte(w[v.len() as int].range, p)); }
        if in_found(w, p) { let i = choose|i: int| 0 <= i < w.len() && has_byte((#[trigger] w[i]).range, p); if i < v.len() { assert(has_byte(v[i].range, p)); } }
    }
}
//@fn crates/jarl-core/src/lints/base/unreachable_code/unreachable_code.rs unreachable_code
//@subst `anyhow::Result<Vec<Diagnostic>>` => `core::result::Result<Vec<Diagnostic>, SyntaxError>`
//@ret r
//@contract
    ensures r is Ok, told(r->Ok_0@, dead_body(ast.inside(), st_of(*checker), false), sure_body(ast.inside(), st_of(*checker), false, false)),
//@loop 0 it hoist=vx_infos
    invariant it.seq() == infos, forall|p: int| #[trigger] in_found(diagnostics@, p) == in_first(infos, it.index() as int, p),
//@at before loop 0
    let ghost infos = vx_infos@;
//@at loop 0 start
    let ghost d0 = diagnostics@;
    proof { lemma_first_one(infos, it.index() as int); }
//@at loop 0 end
    proof { lemma_found_push(d0, diagnostics@.last()); assert(diagnostics@ == d0.push(diagnostics@.last())); }
//@at after loop 0
    proof { assert forall|p: int| #[trigger] in_found(diagnostics@, p) == some_off(cfg, cfg.blocks@.len() as int, p) by { assert(in_infos(infos, p) == some_off(cfg, cfg.blocks@.len() as int, p)); assert(in_first(infos, infos.len() as int, p) == in_infos(infos, p)); } }
//@end
//@fn crates/jarl-core/src/lints/base/unreachable_code/unreachable_code.rs unreachable_code_top_level
//@subst `anyhow::Result<Vec<Diagnostic>>` => `core::result::Result<Vec<Diagnostic>, SyntaxError>`
//@ret r
//@contract
    requires kids_in_place(trees(expressions@), expressions@.len()),
    ensures r is Ok, forall|p: int| #[trigger] in_found(r->Ok_0@, p) ==> dead_list(trees(expressions@), expressions@.len(), st_of(*checker), false).contains(p),
//@loop 0 it hoist=vx_infos
    invariant it.seq() == infos, forall|p: int| #[trigger] in_found(diagnostics@, p) ==> in_first(infos, it.index() as int, p),
//@at before loop 0
    let ghost infos = vx_infos@;
//@at loop 0 start
    let ghost d0 = diagnostics@;
    proof { lemma_first_one(infos, it.index() as int); }
//@at loop 0 end
    proof { if diagnostics@.len() > d0.len() { lemma_found_push(d0, diagnostics@.last()); assert(diagnostics@ == d0.push(diagnostics@.last())); } }
//@at after loop 0
    proof { assert forall|p: int| #[trigger] in_found(diagnostics@, p) implies some_off(cfg, cfg.blocks@.len() as int, p) by { assert(in_infos(infos, p) == some_off(cfg, cfg.blocks@.len() as int, p)); assert(in_first(infos, infos.len() as int, p) == in_infos(infos, p)); } }
//@end
}
fn main() {}
