// P10: exactly the suppressed diagnostics are hidden
use vstd::prelude::*;
verus! {
mod vx {
use vstd::prelude::*;
//@include vlib.rs
//@include vlib_str.rs
//@include vlib_iter.rs
//@include vlib_text.rs
}
use vx::*;
use vstd::string::*;
broadcast use vx_axioms;
//@methods iter map

// ---- std::collections::HashSet of ranges (TRUSTED stub: a set) ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { e: core::marker::PhantomData<T> }
impl<T> HashSet<T> {
    pub uninterp spec fn all(&self) -> ISet<T>;
    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> (r: bool) ensures final(self).all() == old(self).all().insert(x), r == !old(self).all().contains(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, x: &T) -> (r: bool) ensures r == self.all().contains(*x) { unimplemented!() }
}

// ---- rules: P20 says what Rule::from_name is; here only that a name stands for at most one rule ----
//@item expand:crates/jarl-core/src/rule_set.rs enum Rule derive=Clone,Copy,PartialEq,Eq,Structural
pub uninterp spec fn rule_named(n: Seq<char>) -> Option<Rule>;
impl Rule {
    #[verifier::external_body]
    pub fn from_name(n: &str) -> (r: Option<Rule>) ensures r == rule_named(n@) { unimplemented!() }
}
pub struct PathBuf { pub x: u8 }
pub struct Location { pub x: u8 }
//@item crates/jarl-core/src/diagnostic.rs struct ViolationData
//@item crates/jarl-core/src/diagnostic.rs struct Fix
//@item crates/jarl-core/src/diagnostic.rs struct Diagnostic
//@item crates/jarl-core/src/suppression.rs struct SkipRegion
//@item crates/jarl-core/src/suppression.rs struct NodeSuppression
//@item crates/jarl-core/src/suppression.rs struct FileSuppression
//@item crates/jarl-core/src/suppression.rs struct ChunkSuppression
pub struct RLanguage { pub x: u8 }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Comments<T> { e: core::marker::PhantomData<T> }
//@item crates/jarl-core/src/suppression.rs struct SuppressionManager

// ---- what the property says ----
pub open spec fn within(a: TextRange, d: TextRange) -> bool { a.s <= d.s && d.e <= a.e }
/// the ways a suppression comment can cover a diagnostic of rule r at range d, in the order file, chunk, region, node
pub open spec fn file_hit(m: &SuppressionManager, i: int, r: Rule) -> bool { 0 <= i < m.file_suppressions@.len() && m.file_suppressions@[i].rule == r }
pub open spec fn chunk_hit(m: &SuppressionManager, i: int, r: Rule) -> bool { 0 <= i < m.chunk_suppressions@.len() && m.chunk_suppressions@[i].rule == r }
pub open spec fn region_hit(m: &SuppressionManager, i: int, r: Rule, d: TextRange) -> bool { 0 <= i < m.skip_regions@.len() && m.skip_regions@[i].rule == r && within(m.skip_regions@[i].range, d) }
pub open spec fn node_hit(m: &SuppressionManager, i: int, r: Rule, d: TextRange) -> bool { 0 <= i < m.node_suppressions@.len() && m.node_suppressions@[i].rule == r && within(m.node_suppressions@[i].node_range, d) }
pub open spec fn covered(m: &SuppressionManager, d: Diagnostic) -> bool {
    match rule_named(d.message.name@) {
        None => false,
        Some(r) => {
            ||| exists|i: int| file_hit(m, i, r)
            ||| exists|i: int| chunk_hit(m, i, r)
            ||| exists|i: int| region_hit(m, i, r, d.range)
            ||| exists|i: int| node_hit(m, i, r, d.range)
        },
    }
}
/// a comment at range c covers the diagnostic
pub open spec fn covers(m: &SuppressionManager, c: TextRange, d: Diagnostic) -> bool {
    match rule_named(d.message.name@) {
        None => false,
        Some(r) => {
            ||| exists|i: int| #[trigger] file_hit(m, i, r) && m.file_suppressions@[i].comment_range == c
            ||| exists|i: int| #[trigger] chunk_hit(m, i, r) && m.chunk_suppressions@[i].comment_range == c
            ||| exists|i: int| #[trigger] region_hit(m, i, r, d.range) && m.skip_regions@[i].comment_range == c
            ||| exists|i: int| #[trigger] node_hit(m, i, r, d.range) && m.node_suppressions@[i].comment_range == c
        },
    }
}
/// everything but the record of the used suppressions
pub open spec fn same_but_used(a: &SuppressionManager, b: &SuppressionManager) -> bool {
    &&& a.file_suppressions == b.file_suppressions && a.chunk_suppressions == b.chunk_suppressions
    &&& a.skip_regions == b.skip_regions && a.node_suppressions == b.node_suppressions
    &&& a.has_any_suppressions == b.has_any_suppressions
}
/// from_node: the flag says whether there is anything at all
pub open spec fn flag_ok(m: &SuppressionManager) -> bool {
    m.file_suppressions@.len() + m.chunk_suppressions@.len() + m.skip_regions@.len() + m.node_suppressions@.len() > 0 ==> m.has_any_suppressions
}
/// the visible diagnostics of ds
pub open spec fn shown(m: &SuppressionManager, ds: Seq<Diagnostic>) -> Seq<Diagnostic> { ds.filter(|d: Diagnostic| !covered(m, d)) }
/// what the hidden ones mark as used: each marks exactly one comment, and one that covers it
pub open spec fn marked(m: &SuppressionManager, before: ISet<TextRange>, after: ISet<TextRange>, ds: Seq<Diagnostic>) -> bool {
    &&& forall|c: TextRange| #[trigger] before.contains(c) ==> after.contains(c)
    &&& forall|c: TextRange| #[trigger] after.contains(c) ==> before.contains(c) || exists|k: int| 0 <= k < ds.len() && #[trigger] covers(m, c, ds[k])
    &&& forall|k: int| 0 <= k < ds.len() && #[trigger] covered(m, ds[k]) ==> exists|c: TextRange| #[trigger] after.contains(c) && covers(m, c, ds[k])
}

pub open spec fn has(v: Seq<TextRange>, c: TextRange) -> bool { exists|i: int| 0 <= i < v.len() && #[trigger] v[i] == c }
/// there is a suppression comment at c, among the first few of each kind
pub open spec fn recorded_in(m: &SuppressionManager, f: int, k: int, r: int, n: int, c: TextRange) -> bool {
    ||| exists|i: int| 0 <= i < f && i < m.file_suppressions@.len() && (#[trigger] m.file_suppressions@[i]).comment_range == c
    ||| exists|i: int| 0 <= i < k && i < m.chunk_suppressions@.len() && (#[trigger] m.chunk_suppressions@[i]).comment_range == c
    ||| exists|i: int| 0 <= i < r && i < m.skip_regions@.len() && (#[trigger] m.skip_regions@[i]).comment_range == c
    ||| exists|i: int| 0 <= i < n && i < m.node_suppressions@.len() && (#[trigger] m.node_suppressions@[i]).comment_range == c
}
pub open spec fn recorded(m: &SuppressionManager, c: TextRange) -> bool {
    recorded_in(m, m.file_suppressions@.len() as int, m.chunk_suppressions@.len() as int, m.skip_regions@.len() as int, m.node_suppressions@.len() as int, c)
}
pub open spec fn unused_in(m: &SuppressionManager, f: int, k: int, r: int, n: int, v: Seq<TextRange>) -> bool {
    forall|c: TextRange| #[trigger] has(v, c) == (recorded_in(m, f, k, r, n, c) && !m.used_suppressions.all().contains(c))
}
proof fn lemma_has_push(v: Seq<TextRange>, x: TextRange)
    ensures forall|c: TextRange| #[trigger] has(v.push(x), c) == (has(v, c) || c == x),
{
    assert forall|c: TextRange| #[trigger] has(v.push(x), c) == (has(v, c) || c == x) by {
        if has(v, c) { let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i] == c; assert(v.push(x)[i] == c); }
        if c == x { assert(v.push(x)[v.len() as int] == c); }
    }
}
proof fn lemma_filter_all<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    requires forall|k: int| 0 <= k < s.len() ==> p(#[trigger] s[k]),
    ensures s.filter(p) == s,
    decreases s.len(),
{
    reveal_with_fuel(Seq::filter, 2);
    if s.len() > 0 { lemma_filter_all(s.drop_last(), p); assert(p(s[s.len() - 1])); }
    assert(s.filter(p) =~= s);
}
proof fn lemma_filter_step<T>(s: Seq<T>, p: spec_fn(T) -> bool, n: int)
    requires 0 <= n < s.len(),
    ensures s.take(n + 1).filter(p) == (if p(s[n]) { s.take(n).filter(p).push(s[n]) } else { s.take(n).filter(p) }), s.take(n + 1) == s.take(n).push(s[n]),
{
    reveal_with_fuel(Seq::filter, 2);
    assert(s.take(n + 1).drop_last() =~= s.take(n));
    assert(s.take(n + 1) =~= s.take(n).push(s[n]));
}
/// the recorded suppressions decide, not which were used
proof fn lemma_same(a: &SuppressionManager, b: &SuppressionManager)
    requires same_but_used(a, b),
    ensures forall|d: Diagnostic| #[trigger] covered(b, d) == covered(a, d), forall|c: TextRange, d: Diagnostic| #[trigger] covers(b, c, d) == covers(a, c, d),
{
    assert forall|d: Diagnostic| #[trigger] covered(b, d) == covered(a, d) by { lemma_same_one(a, b, d); }
    assert forall|c: TextRange, d: Diagnostic| #[trigger] covers(b, c, d) == covers(a, c, d) by { lemma_same_one(a, b, d); }
}
proof fn lemma_same_one(a: &SuppressionManager, b: &SuppressionManager, d: Diagnostic)
    requires same_but_used(a, b),
    ensures covered(b, d) == covered(a, d), forall|c: TextRange| #[trigger] covers(b, c, d) == covers(a, c, d),
{
    assert forall|i: int, r: Rule| #[trigger] file_hit(b, i, r) == file_hit(a, i, r) by { }
    assert forall|i: int, r: Rule| #[trigger] file_hit(a, i, r) == file_hit(b, i, r) by { }
    assert forall|i: int, r: Rule| #[trigger] chunk_hit(b, i, r) == chunk_hit(a, i, r) by { }
    assert forall|i: int, r: Rule| #[trigger] chunk_hit(a, i, r) == chunk_hit(b, i, r) by { }
    assert forall|i: int, r: Rule| #[trigger] region_hit(b, i, r, d.range) == region_hit(a, i, r, d.range) by { }
    assert forall|i: int, r: Rule| #[trigger] region_hit(a, i, r, d.range) == region_hit(b, i, r, d.range) by { }
    assert forall|i: int, r: Rule| #[trigger] node_hit(b, i, r, d.range) == node_hit(a, i, r, d.range) by { }
    assert forall|i: int, r: Rule| #[trigger] node_hit(a, i, r, d.range) == node_hit(b, i, r, d.range) by { }
}
proof fn lemma_marked(m: &SuppressionManager, b0: ISet<TextRange>, b: ISet<TextRange>, a: ISet<TextRange>, ds: Seq<Diagnostic>, n: int)
    requires
        0 <= n < ds.len(), marked(m, b0, b, ds.take(n)),
        covered(m, ds[n]) ==> exists|c: TextRange| covers(m, c, ds[n]) && a == #[trigger] b.insert(c),
        !covered(m, ds[n]) ==> a == b,
    ensures marked(m, b0, a, ds.take(n + 1)),
{
    let t = ds.take(n); let u = ds.take(n + 1);
    assert(u[n] == ds[n]);
    assert forall|k: int| 0 <= k < n implies #[trigger] u[k] == t[k] by { }
    assert forall|c: TextRange| #[trigger] a.contains(c) implies b0.contains(c) || exists|k: int| 0 <= k < u.len() && #[trigger] covers(m, c, u[k]) by {
        if b.contains(c) { if !b0.contains(c) { let k = choose|k: int| 0 <= k < t.len() && #[trigger] covers(m, c, t[k]); assert(covers(m, c, u[k])); } }
        else { assert(covers(m, c, u[n])); }
    }
    assert forall|k: int| 0 <= k < u.len() && #[trigger] covered(m, u[k]) implies exists|c: TextRange| #[trigger] a.contains(c) && covers(m, c, u[k]) by {
        if k < n { assert(covered(m, t[k])); let c = choose|c: TextRange| #[trigger] b.contains(c) && covers(m, c, t[k]); assert(a.contains(c)); }
        else { let c = choose|c: TextRange| covers(m, c, ds[n]) && a == #[trigger] b.insert(c); assert(a.contains(c)); }
    }
}
impl SuppressionManager {
//@fn crates/jarl-core/src/suppression.rs SuppressionManager::is_diagnostic_suppressed
//@ret r
//@contract
    ensures
        same_but_used(old(self), final(self)), r == covered(old(self), *diag),
        r ==> exists|c: TextRange| covers(old(self), c, *diag) && final(self).used_suppressions.all() == #[trigger] old(self).used_suppressions.all().insert(c),
        !r ==> final(self).used_suppressions.all() == old(self).used_suppressions.all(),
//@loop 0 it
    invariant
        same_but_used(old(self), self), self.used_suppressions.all() == old(self).used_suppressions.all(), rule_named(diag.message.name@) == Some(rule), it.seq().len() == self.file_suppressions@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.file_suppressions@[i],
        forall|i: int| i < it.index() ==> !#[trigger] file_hit(self, i, rule),
//@at loop 0 start
    proof { let i = it.index() as int; if file_hit(old(self), i, rule) { assert(covers(old(self), self.file_suppressions@[i].comment_range, *diag)); } }
//@loop 1 it
    invariant
        same_but_used(old(self), self), self.used_suppressions.all() == old(self).used_suppressions.all(), rule_named(diag.message.name@) == Some(rule), it.seq().len() == self.chunk_suppressions@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.chunk_suppressions@[i],
        forall|i: int| !#[trigger] file_hit(self, i, rule),
        forall|i: int| i < it.index() ==> !#[trigger] chunk_hit(self, i, rule),
//@at loop 1 start
    proof { let i = it.index() as int; if chunk_hit(old(self), i, rule) { assert(covers(old(self), self.chunk_suppressions@[i].comment_range, *diag)); } }
//@loop 2 it
    invariant
        same_but_used(old(self), self), self.used_suppressions.all() == old(self).used_suppressions.all(), rule_named(diag.message.name@) == Some(rule), it.seq().len() == self.skip_regions@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.skip_regions@[i],
        forall|i: int| !#[trigger] file_hit(self, i, rule),
        forall|i: int| !#[trigger] chunk_hit(self, i, rule),
        forall|i: int| i < it.index() ==> !#[trigger] region_hit(self, i, rule, diag.range),
//@at loop 2 start
    proof { let i = it.index() as int; if region_hit(old(self), i, rule, diag.range) { assert(covers(old(self), self.skip_regions@[i].comment_range, *diag)); } }
//@loop 3 it
    invariant
        same_but_used(old(self), self), self.used_suppressions.all() == old(self).used_suppressions.all(), rule_named(diag.message.name@) == Some(rule), it.seq().len() == self.node_suppressions@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.node_suppressions@[i],
        forall|i: int| !#[trigger] file_hit(self, i, rule),
        forall|i: int| !#[trigger] chunk_hit(self, i, rule),
        forall|i: int| !#[trigger] region_hit(self, i, rule, diag.range),
        forall|i: int| i < it.index() ==> !#[trigger] node_hit(self, i, rule, diag.range),
//@at loop 3 start
    proof { let i = it.index() as int; if node_hit(old(self), i, rule, diag.range) { assert(covers(old(self), self.node_suppressions@[i].comment_range, *diag)); } }
//@at after loop 3
    proof {
        assert forall|i: int| !#[trigger] file_hit(old(self), i, rule) by { assert(!file_hit(self, i, rule)); }
        assert forall|i: int| !#[trigger] chunk_hit(old(self), i, rule) by { assert(!chunk_hit(self, i, rule)); }
        assert forall|i: int| !#[trigger] region_hit(old(self), i, rule, diag.range) by { assert(!region_hit(self, i, rule, diag.range)); }
        assert forall|i: int| !#[trigger] node_hit(old(self), i, rule, diag.range) by { assert(!node_hit(self, i, rule, diag.range)); }
    }
//@end
//@fn crates/jarl-core/src/suppression.rs SuppressionManager::filter_diagnostics
//@subst `diagnostics.into_iter().filter(|diag| !self.is_diagnostic_suppressed(diag)).collect()` => `{ let mut vx_out = Vec::new(); for diag in diagnostics { if !self.is_diagnostic_suppressed(&diag) { vx_out.push(diag); } } vx_out }`
//@ret r
//@contract
    requires flag_ok(old(self)),
    ensures
        same_but_used(old(self), final(self)),
        // exactly the covered ones are hidden; the others are kept as they are, in order
        r@ == shown(old(self), diagnostics@),
        // and only comments that cover one of them are marked as used
        marked(old(self), old(self).used_suppressions.all(), final(self).used_suppressions.all(), diagnostics@),
//@at start
    let ghost ds = diagnostics@;
    proof { if !self.has_any_suppressions { assert forall|k: int| 0 <= k < ds.len() implies !#[trigger] covered(self, ds[k]) by { } lemma_filter_all(ds, |d: Diagnostic| !covered(old(self), d)); } }
//@loop 0 it
    invariant
        same_but_used(old(self), self), it.seq() == ds, ds == diagnostics@,
        vx_out@ == shown(old(self), ds.take(it.index() as int)),
        marked(old(self), old(self).used_suppressions.all(), self.used_suppressions.all(), ds.take(it.index() as int)),
//@at loop 0 start
    let ghost before = self.used_suppressions.all();
    let ghost n = it.index() as int;
    proof { lemma_same(old(self), self); lemma_filter_step(ds, |d: Diagnostic| !covered(old(self), d), n); }
//@at loop 0 end
    proof { lemma_marked(old(self), old(self).used_suppressions.all(), before, self.used_suppressions.all(), ds, n); }
//@at after loop 0
    proof { assert(ds.take(ds.len() as int) =~= ds); }
//@end
//@fn crates/jarl-core/src/suppression.rs SuppressionManager::get_unused_suppressions
//@ret r
//@contract
    ensures forall|c: TextRange| #[trigger] has(r@, c) == (recorded(self, c) && !self.used_suppressions.all().contains(c)),
//@loop 0 it
    invariant
        it.seq().len() == self.file_suppressions@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.file_suppressions@[i],
        unused_in(self, it.index() as int, 0, 0, 0, unused@),
//@at loop 0 start
    let ghost vx_b = unused@;
    let ghost vx_i = it.index() as int;
    proof { lemma_has_push(vx_b, self.file_suppressions@[vx_i].comment_range); assert forall|c: TextRange| recorded_in(self, vx_i + 1, 0, 0, 0, c) == (recorded_in(self, vx_i, 0, 0, 0, c) || c == self.file_suppressions@[vx_i].comment_range) by { } }
//@loop 1 it
    invariant
        it.seq().len() == self.chunk_suppressions@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.chunk_suppressions@[i],
        unused_in(self, self.file_suppressions@.len() as int, it.index() as int, 0, 0, unused@),
//@at loop 1 start
    let ghost vx_b = unused@;
    let ghost vx_i = it.index() as int;
    proof { lemma_has_push(vx_b, self.chunk_suppressions@[vx_i].comment_range); assert forall|c: TextRange| recorded_in(self, self.file_suppressions@.len() as int, vx_i + 1, 0, 0, c) == (recorded_in(self, self.file_suppressions@.len() as int, vx_i, 0, 0, c) || c == self.chunk_suppressions@[vx_i].comment_range) by { } }
//@loop 2 it
    invariant
        it.seq().len() == self.skip_regions@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.skip_regions@[i],
        unused_in(self, self.file_suppressions@.len() as int, self.chunk_suppressions@.len() as int, it.index() as int, 0, unused@),
//@at loop 2 start
    let ghost vx_b = unused@;
    let ghost vx_i = it.index() as int;
    proof { lemma_has_push(vx_b, self.skip_regions@[vx_i].comment_range); assert forall|c: TextRange| recorded_in(self, self.file_suppressions@.len() as int, self.chunk_suppressions@.len() as int, vx_i + 1, 0, c) == (recorded_in(self, self.file_suppressions@.len() as int, self.chunk_suppressions@.len() as int, vx_i, 0, c) || c == self.skip_regions@[vx_i].comment_range) by { } }
//@loop 3 it
    invariant
        it.seq().len() == self.node_suppressions@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.node_suppressions@[i],
        unused_in(self, self.file_suppressions@.len() as int, self.chunk_suppressions@.len() as int, self.skip_regions@.len() as int, it.index() as int, unused@),
//@at loop 3 start
    let ghost vx_b = unused@;
    let ghost vx_i = it.index() as int;
    proof { lemma_has_push(vx_b, self.node_suppressions@[vx_i].comment_range); assert forall|c: TextRange| recorded_in(self, self.file_suppressions@.len() as int, self.chunk_suppressions@.len() as int, self.skip_regions@.len() as int, vx_i + 1, c) == (recorded_in(self, self.file_suppressions@.len() as int, self.chunk_suppressions@.len() as int, self.skip_regions@.len() as int, vx_i, c) || c == self.node_suppressions@[vx_i].comment_range) by { } }
//@end
}

// ---- what check_document does with them: filter everything found, then add the unused suppressions ----
#[verifier::external_body]
pub struct RuleSet { e: () }
impl RuleSet {
    pub uninterp spec fn on(&self, r: Rule) -> bool;
    #[verifier::external_body]
    pub fn contains(&self, r: &Rule) -> (b: bool) ensures b == self.on(*r) { unimplemented!() }
}
pub struct ResolvedRuleOptions { pub x: u8 }
//@item crates/jarl-core/src/checker.rs struct Checker
impl Checker {
//@fn crates/jarl-core/src/checker.rs Checker::is_rule_enabled
//@ret r
//@contract
    ensures r == old(self).rule_set.on(rule), *final(self) == *old(self),
//@end
//@fn crates/jarl-core/src/checker.rs Checker::report_diagnostic
//@contract
    ensures
        final(self).diagnostics@ == (match diagnostic { Some(d) => old(self).diagnostics@.push(d), None => old(self).diagnostics@ }),
        final(self).suppression == old(self).suppression, final(self).rule_set == old(self).rule_set,
//@end
}
pub open spec fn is_outdated(d: Diagnostic, c: TextRange) -> bool { d.range == c && d.message.name@ == "outdated_suppression"@ && d.fix.content@.len() == 0 && d.fix.start == 0 && d.fix.end == 0 }
impl Fix {
//@fn crates/jarl-core/src/diagnostic.rs Fix::empty
//@ret r
//@contract
    ensures r.content@.len() == 0, r.start == 0, r.end == 0,
//@at start
    proof { reveal_strlit(""); }
//@end
}
impl ViolationData {
//@fn crates/jarl-core/src/diagnostic.rs ViolationData::new
//@ret r
//@contract
    ensures r.name == name, r.body == body, r.suggestion == suggestion,
//@end
}
impl Diagnostic {
    /// Diagnostic::new with a ViolationData (`message.into()` is the identity there)
    #[verifier::external_body]
    pub fn new(message: ViolationData, range: TextRange, fix: Fix) -> (r: Diagnostic) ensures r.message == message, r.range == range, r.fix == fix { unimplemented!() }
}
//@require crates/jarl-core/src/diagnostic.rs `message: message.into(), range, location: None, fix, filename: "".into(),`
//@fn crates/jarl-core/src/lints/comments/outdated_suppression/outdated_suppression.rs create_diagnostic
//@ret r
//@contract
    ensures is_outdated(r, range),
//@end
//@fn crates/jarl-core/src/lints/comments/outdated_suppression/outdated_suppression.rs outdated_suppression
//@subst `.collect()` => ``
//@ret r
//@contract
    ensures r@.len() == ranges@.len(), forall|i: int| 0 <= i < r@.len() ==> is_outdated(#[trigger] r@[i], ranges@[i]),
//@closure 0 (range: &TextRange) -> d: Diagnostic
    ensures is_outdated(d, *range),
//@end
#[verifier::external_body]
pub fn vx_take(v: &mut Vec<Diagnostic>) -> (r: Vec<Diagnostic>) ensures r@ == old(v)@, final(v)@ == Seq::<Diagnostic>::empty() { unimplemented!() }
/// a list of one outdated_suppression for each of the comments
pub open spec fn outdated_for(v: Seq<Diagnostic>, u: Seq<TextRange>) -> bool { v.len() == u.len() && forall|i: int| 0 <= i < v.len() ==> is_outdated(#[trigger] v[i], u[i]) }
pub open spec fn all_unused(m: &SuppressionManager, u: Seq<TextRange>) -> bool { forall|c: TextRange| #[trigger] has(u, c) == (recorded(m, c) && !m.used_suppressions.all().contains(c)) }
//@fn crates/jarl-core/src/analyze/document.rs check_document
//@sig fn p10_document(checker: &mut Checker) -> Result<()>
//@from `checker.diagnostics = checker.suppression.filter_diagnostics`
//@subst `std::mem::take(` => `vx_take(`
//@ret r
//@contract
    requires flag_ok(&old(checker).suppression),
    ensures
        r is Ok,
        same_but_used(&old(checker).suppression, &final(checker).suppression),
        marked(&old(checker).suppression, old(checker).suppression.used_suppressions.all(), final(checker).suppression.used_suppressions.all(), old(checker).diagnostics@),
        !old(checker).rule_set.on(Rule::OutdatedSuppression) ==> final(checker).diagnostics@ == shown(&old(checker).suppression, old(checker).diagnostics@),
        old(checker).rule_set.on(Rule::OutdatedSuppression) ==> exists|u: Seq<TextRange>, o: Seq<Diagnostic>| #[trigger] outdated_for(o, u) && all_unused(&final(checker).suppression, u)
            && final(checker).diagnostics@ == shown(&old(checker).suppression, old(checker).diagnostics@) + o,
//@loop 0 it
    invariant
        it.seq() == vx_o, outdated_for(vx_o, unused@), all_unused(&checker.suppression, unused@),
        same_but_used(&old(checker).suppression, &checker.suppression),
        marked(&old(checker).suppression, old(checker).suppression.used_suppressions.all(), checker.suppression.used_suppressions.all(), old(checker).diagnostics@),
        checker.diagnostics@ == vx_shown + vx_o.take(it.index() as int),
//@at before loop 0
    let ghost vx_o = outdated_diagnostics@;
    let ghost vx_shown = checker.diagnostics@;
//@at loop 0 end
    proof { assert(vx_o.take(it.index() + 1) =~= vx_o.take(it.index() as int).push(vx_o[it.index() as int])); }
//@at after loop 0
    proof { assert(vx_o.take(vx_o.len() as int) =~= vx_o); }
//@end
} // verus!
fn main() {}
