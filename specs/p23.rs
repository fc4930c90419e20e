// P23: duplicated and unused definitions
use vstd::prelude::*;
verus! {
mod vx {
use vstd::prelude::*;
//@include vlib.rs
//@include vlib_iter.rs
//@include vlib_text.rs
//@include vlib_set.rs
//@include vlib_str.rs
//@include vlib_pat.rs
}
use vx::*;
broadcast use vx::vx_axioms;
use vstd::utf8::*;
use vstd::string::*;

// ---- std (TRUSTED stubs) ----
#[verifier::external_body]
pub struct Path { e: () }
#[verifier::external_body]
pub struct PathBuf { e: () }
impl PathBuf {
    pub uninterp spec fn id(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn cmp(&self, o: &PathBuf) -> (r: core::cmp::Ordering) ensures (r == core::cmp::Ordering::Less) == path_lt(self.id(), o.id()), (r == core::cmp::Ordering::Greater) == path_lt(o.id(), self.id()) { unimplemented!() }
}
impl Clone for PathBuf {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl VxText for PathBuf { open spec fn t(&self) -> Seq<char> { self.id() } }
/// the order of paths
pub uninterp spec fn path_lt(a: Seq<char>, b: Seq<char>) -> bool;
#[verifier::external_body]
pub proof fn axiom_path_lt(a: Seq<char>, b: Seq<char>)
    ensures a == b || path_lt(a, b) || path_lt(b, a), !(path_lt(a, b) && path_lt(b, a)), !path_lt(a, a),
{ }
/// std::collections::HashMap, by the texts of its keys
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { e: core::marker::PhantomData<(K, V)> }
impl<K: VxText, V> HashMap<K, V> {
    pub uninterp spec fn m(&self) -> IMap<Seq<char>, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m() == IMap::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self).m() == old(self).m().insert(k.t(), v) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: VxText + ?Sized>(&self, k: &Q) -> (r: Option<&V>) ensures match r { Some(v) => self.m().dom().contains(k.t()) && *v == self.m()[k.t()], None => !self.m().dom().contains(k.t()) } { unimplemented!() }
    /// the entries, in some order
    #[verifier::external_body]
    pub fn vx_entries(self) -> (r: Vec<(K, V)>) ensures entries(self.m(), r@) { unimplemented!() }
}
pub open spec fn entries<K: VxText, V>(m: IMap<Seq<char>, V>, r: Seq<(K, V)>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> m.dom().contains((#[trigger] r[i]).0.t()) && m[r[i].0.t()] == r[i].1
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0.t() != (#[trigger] r[j]).0.t()
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0.t() == k
}
/// m.entry(k).or_default().push(x)
#[verifier::external_body]
pub fn vx_push_at<'a, K: VxText, T>(m: &mut HashMap<&'a K, Vec<T>>, k: &'a K, x: T)
    ensures pushed_at(old(m).m(), final(m).m(), k.t(), x),
{ unimplemented!() }
pub open spec fn pushed_at<T>(o: IMap<Seq<char>, Vec<T>>, n: IMap<Seq<char>, Vec<T>>, k: Seq<char>, x: T) -> bool {
    &&& n.dom() == o.dom().insert(k)
    &&& n[k]@ == (if o.dom().contains(k) { o[k]@ } else { Seq::<T>::empty() }).push(x)
    &&& forall|j: Seq<char>| #[trigger] o.dom().contains(j) && j != k ==> n[j] == o[j]
}
/// Vec::sort_by: the same items, none before one it must come after
#[verifier::external_body]
pub fn vx_sort<T, F: FnMut(&T, &T) -> core::cmp::Ordering>(v: &mut Vec<T>, f: F)
    requires forall|a: &T, b: &T| call_requires(f, (a, b)),
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> in_this_order(f, #[trigger] final(v)@[i], #[trigger] final(v)@[j]),
{ unimplemented!() }
pub open spec fn in_this_order<T, F: FnMut(&T, &T) -> core::cmp::Ordering>(f: F, a: T, b: T) -> bool { exists|o: core::cmp::Ordering| call_ensures(f, (&a, &b), o) && o != core::cmp::Ordering::Greater }
//@item crates/jarl-core/src/package.rs enum FileScope derive=Clone,Copy,PartialEq,Eq,Structural
//@item crates/jarl-core/src/package.rs struct SharedFileData

// ---- packages ----
pub type Defs = Seq<(String, TextRange, u32, u32)>;
pub type Items = Seq<(Seq<char>, TextRange)>;
/// one of the first n definitions has the name x
pub open spec fn names(l: Defs, n: int, x: Seq<char>) -> bool { exists|j: int| 0 <= j < n && (#[trigger] l[j]).0@ == x }
pub open spec fn all_names(f: SharedFileData, x: Seq<char>) -> bool { names(f.assignments@, f.assignments@.len() as int, x) }
pub open spec fn is_r(f: SharedFileData) -> bool { f.scope == FileScope::R }
pub open spec fn in_pkg(k: Seq<char>) -> spec_fn(SharedFileData) -> bool { |f: SharedFileData| f.root_key@ == k }
/// each file is there once
pub open spec fn distinct(d: Seq<SharedFileData>) -> bool { forall|i: int, j: int| 0 <= i < j < d.len() ==> (#[trigger] d[i]).rel_path.id() != (#[trigger] d[j]).rel_path.id() }
/// the definitions for which p holds, of the first n
pub open spec fn picked(a: Defs, p: spec_fn(int) -> bool, n: int) -> Items
    decreases n,
{ if n <= 0 { Seq::empty() } else if p(n - 1) { picked(a, p, n - 1).push((a[n - 1].0@, a[n - 1].1)) } else { picked(a, p, n - 1) } }
pub proof fn lemma_picked_ext(a: Defs, p: spec_fn(int) -> bool, q: spec_fn(int) -> bool, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] p(i) == q(i),
    ensures picked(a, p, n) == picked(a, q, n),
    decreases n,
{ if n > 0 { lemma_picked_ext(a, p, q, n - 1); assert(p(n - 1) == q(n - 1)); } }
pub open spec fn items(l: Seq<(String, TextRange, String)>) -> Items { l.map_values(|x: (String, TextRange, String)| (x.0@, x.1)) }
pub proof fn lemma_items_push(l: Seq<(String, TextRange, String)>, x: (String, TextRange, String))
    ensures items(l.push(x)) == items(l).push((x.0@, x.1)),
{ assert(items(l.push(x)) =~= items(l).push((x.0@, x.1))); }
pub type Found = IMap<Seq<char>, Vec<(String, TextRange, String)>>;
/// exactly these are reported for the file at the path
pub open spec fn reported(m: Found, path: Seq<char>, l: Items) -> bool {
    m.dom().contains(path) == (l.len() > 0) && (l.len() > 0 ==> items(m[path]@) == l)
}

// ---- duplicated ----
/// the name of definition i of file f is defined before: above it, or in an R/ file of the package that comes first in the order of paths
pub open spec fn earlier(d: Seq<SharedFileData>, f: SharedFileData, i: int) -> bool {
    names(f.assignments@, i, f.assignments@[i].0@)
    || exists|g: SharedFileData| #[trigger] d.contains(g) && is_r(g) && g.root_key@ == f.root_key@ && path_lt(g.rel_path.id(), f.rel_path.id()) && all_names(g, f.assignments@[i].0@)
}
pub open spec fn earlier_p(d: Seq<SharedFileData>, f: SharedFileData) -> spec_fn(int) -> bool { |i: int| earlier(d, f, i) }
pub open spec fn duplicates(d: Seq<SharedFileData>, f: SharedFileData) -> Items {
    if is_r(f) { picked(f.assignments@, earlier_p(d, f), f.assignments@.len() as int) } else { Seq::empty() }
}
// ---- groups ----
pub open spec fn groups(m: IMap<Seq<char>, Vec<&SharedFileData>>, d: Seq<SharedFileData>) -> bool {
    forall|k: Seq<char>| #![trigger m.dom().contains(k)] #![trigger m[k]] m.dom().contains(k) == (d.filter(in_pkg(k)).len() > 0) && (m.dom().contains(k) ==> dr(m[k]@) == d.filter(in_pkg(k)))
}
pub proof fn lemma_groups_empty(m: IMap<Seq<char>, Vec<&SharedFileData>>, d: Seq<SharedFileData>)
    requires m == IMap::<Seq<char>, Vec<&SharedFileData>>::empty(),
    ensures groups(m, d.take(0)),
{ assert forall|k: Seq<char>| d.take(0).filter(in_pkg(k)).len() == 0 by { reveal_with_fuel(Seq::filter, 1); } }
pub proof fn lemma_groups(o: IMap<Seq<char>, Vec<&SharedFileData>>, n: IMap<Seq<char>, Vec<&SharedFileData>>, d: Seq<SharedFileData>, j: int, x: &SharedFileData)
    requires 0 <= j < d.len(), *x == d[j], groups(o, d.take(j)), pushed_at(o, n, x.root_key@, x),
    ensures groups(n, d.take(j + 1)),
{
    assert(d.take(j + 1) =~= d.take(j).push(d[j]));
    assert forall|k: Seq<char>| n.dom().contains(k) == (d.take(j + 1).filter(in_pkg(k)).len() > 0) && (n.dom().contains(k) ==> dr(n[k]@) == d.take(j + 1).filter(in_pkg(k))) by {
        let e = d.take(j);
        assert(e.push(d[j]).drop_last() =~= e);
        assert(e.push(d[j]).filter(in_pkg(k)) == (if in_pkg(k)(d[j]) { e.filter(in_pkg(k)).push(d[j]) } else { e.filter(in_pkg(k)) })) by { reveal_with_fuel(Seq::filter, 2); }
        assert(o.dom().contains(k) == (e.filter(in_pkg(k)).len() > 0));
        if k == x.root_key@ {
            if o.dom().contains(k) { assert(dr(o[k]@.push(x)) =~= dr(o[k]@).push(*x)); } else { assert(dr(n[k]@) =~= e.filter(in_pkg(k)).push(d[j])); }
        }
    }
}
pub open spec fn sorted(s: Seq<SharedFileData>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> path_lt((#[trigger] s[i]).rel_path.id(), (#[trigger] s[j]).rel_path.id()) }
pub open spec fn same_items<T>(a: Seq<T>, b: Seq<T>) -> bool { forall|x: T| #[trigger] a.contains(x) == b.contains(x) }
pub proof fn lemma_filter_in(d: Seq<SharedFileData>, p: spec_fn(SharedFileData) -> bool)
    ensures forall|x: SharedFileData| #[trigger] d.filter(p).contains(x) == (d.contains(x) && p(x)), distinct(d) ==> distinct(d.filter(p)),
    decreases d.len(),
{
    reveal_with_fuel(Seq::filter, 2);
    if d.len() > 0 {
        let e = d.drop_last();
        lemma_filter_in(e, p);
        assert(d =~= e.push(d.last()));
        assert forall|x: SharedFileData| #[trigger] d.filter(p).contains(x) == (d.contains(x) && p(x)) by {
            let f = e.filter(p);
            if d.contains(x) { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; if i < e.len() { assert(e[i] == x); assert(e.contains(x)); } }
            if e.contains(x) { let i = choose|i: int| 0 <= i < e.len() && e[i] == x; assert(d[i] == x); }
            if p(d.last()) {
                assert(d.filter(p) =~= f.push(d.last()));
                if f.contains(x) { let i = choose|i: int| 0 <= i < f.len() && f[i] == x; assert(f.push(d.last())[i] == x); }
                if x == d.last() { assert(f.push(d.last()).last() == x); }
                if f.push(d.last()).contains(x) { let i = choose|i: int| 0 <= i < f.len() + 1 && f.push(d.last())[i] == x; if i < f.len() { assert(f[i] == x); } }
            }
        }
        if distinct(d) {
            assert(distinct(e)) by { assert forall|i: int, j: int| 0 <= i < j < e.len() implies (#[trigger] e[i]).rel_path.id() != (#[trigger] e[j]).rel_path.id() by { assert(d[i].rel_path.id() != d[j].rel_path.id()); } }
            if p(d.last()) {
                let f = e.filter(p);
                assert(d.filter(p) =~= f.push(d.last()));
                let h = f.push(d.last());
                assert forall|i: int, j: int| 0 <= i < j < h.len() implies (#[trigger] h[i]).rel_path.id() != (#[trigger] h[j]).rel_path.id() by {
                    if j < f.len() { assert(f[i].rel_path.id() != f[j].rel_path.id()); } else { assert(f.contains(f[i])); assert(e.contains(f[i])); let m = choose|m: int| 0 <= m < e.len() && e[m] == f[i]; assert(d[m] == e[m]); assert(d[m].rel_path.id() != d[d.len() - 1].rel_path.id()); }
                }
            }
        }
    }
}
/// what sorting by path gives
pub proof fn lemma_sorted(a: Seq<&SharedFileData>, b: Seq<&SharedFileData>)
    requires distinct(dr(a)), a.to_multiset() == b.to_multiset(), forall|i: int, j: int| 0 <= i < j < b.len() ==> !path_lt((#[trigger] b[j]).rel_path.id(), (#[trigger] b[i]).rel_path.id()),
    ensures sorted(dr(b)), same_items(dr(a), dr(b)), b.len() == a.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    a.to_multiset_ensures(); b.to_multiset_ensures();
    assert(b.len() == a.len());
    assert(forall|x: &SharedFileData| a.contains(x) == b.contains(x)) by { assert forall|x: &SharedFileData| a.contains(x) == b.contains(x) by { assert(a.contains(x) == (a.to_multiset().count(x) > 0)); assert(b.contains(x) == (b.to_multiset().count(x) > 0)); } }
    assert(a.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies a[i] != a[j] by { let (p, q) = if i < j { (i, j) } else { (j, i) }; assert(dr(a)[p].rel_path.id() != dr(a)[q].rel_path.id()); } }
    a.lemma_multiset_has_no_duplicates();
    assert(b.no_duplicates()) by { b.lemma_multiset_has_no_duplicates_conv(); }
    assert forall|i: int, j: int| 0 <= i < j < dr(b).len() implies path_lt((#[trigger] dr(b)[i]).rel_path.id(), (#[trigger] dr(b)[j]).rel_path.id()) by {
        assert(b[i] != b[j]);
        assert(!path_lt(b[j].rel_path.id(), b[i].rel_path.id()));
        assert(b.contains(b[i]) && b.contains(b[j]));
        assert(a.contains(b[i]) && a.contains(b[j]));
        let p = choose|p: int| 0 <= p < a.len() && a[p] == b[i];
        let q = choose|q: int| 0 <= q < a.len() && a[q] == b[j];
        if p < q { assert(dr(a)[p].rel_path.id() != dr(a)[q].rel_path.id()); } else { assert(dr(a)[q].rel_path.id() != dr(a)[p].rel_path.id()); }
        axiom_path_lt(b[i].rel_path.id(), b[j].rel_path.id());
    }
    assert forall|x: SharedFileData| #[trigger] dr(a).contains(x) == dr(b).contains(x) by {
        if dr(a).contains(x) { let p = choose|p: int| 0 <= p < dr(a).len() && dr(a)[p] == x; assert(a.contains(a[p])); assert(b.contains(a[p])); let q = choose|q: int| 0 <= q < b.len() && b[q] == a[p]; assert(dr(b)[q] == x); }
        if dr(b).contains(x) { let p = choose|p: int| 0 <= p < dr(b).len() && dr(b)[p] == x; assert(b.contains(b[p])); assert(a.contains(b[p])); let q = choose|q: int| 0 <= q < a.len() && a[q] == b[p]; assert(dr(a)[q] == x); }
    }
}
pub open spec fn before_in(s: Seq<SharedFileData>, k: int, x: Seq<char>) -> bool { exists|m: int| 0 <= m < k && all_names(#[trigger] s[m], x) }
pub proof fn lemma_earlier(d: Seq<SharedFileData>, s: Seq<SharedFileData>, key: Seq<char>, k: int, i: int)
    requires sorted(s), 0 <= k < s.len(), forall|x: SharedFileData| #[trigger] s.contains(x) == (d.contains(x) && is_r(x) && x.root_key@ == key),
    ensures earlier(d, s[k], i) == (names(s[k].assignments@, i, s[k].assignments@[i].0@) || before_in(s, k, s[k].assignments@[i].0@)),
{
    let f = s[k];
    let x = f.assignments@[i].0@;
    assert(s.contains(f));
    if before_in(s, k, x) { let m = choose|m: int| 0 <= m < k && all_names(#[trigger] s[m], x); assert(s.contains(s[m])); assert(path_lt(s[m].rel_path.id(), s[k].rel_path.id())); }
    if exists|g: SharedFileData| #[trigger] d.contains(g) && is_r(g) && g.root_key@ == f.root_key@ && path_lt(g.rel_path.id(), f.rel_path.id()) && all_names(g, x) {
        let g = choose|g: SharedFileData| #[trigger] d.contains(g) && is_r(g) && g.root_key@ == f.root_key@ && path_lt(g.rel_path.id(), f.rel_path.id()) && all_names(g, x);
        assert(s.contains(g));
        let m = choose|m: int| 0 <= m < s.len() && s[m] == g;
        axiom_path_lt(g.rel_path.id(), f.rel_path.id());
        if m > k { assert(path_lt(s[k].rel_path.id(), s[m].rel_path.id())); }
        assert(all_names(s[m], x));
    }
}
pub proof fn lemma_names_step(l: Defs, n: int)
    requires 0 <= n < l.len(),
    ensures forall|x: Seq<char>| #[trigger] names(l, n + 1, x) == (names(l, n, x) || l[n].0@ == x),
{ assert forall|x: Seq<char>| #[trigger] names(l, n + 1, x) == (names(l, n, x) || l[n].0@ == x) by { if names(l, n, x) { let j = choose|j: int| 0 <= j < n && (#[trigger] l[j]).0@ == x; assert(l[j].0@ == x); } if l[n].0@ == x { assert(l[n].0@ == x); } } }
pub proof fn lemma_before_step(s: Seq<SharedFileData>, k: int)
    requires 0 <= k < s.len(),
    ensures forall|x: Seq<char>| #[trigger] before_in(s, k + 1, x) == (before_in(s, k, x) || all_names(s[k], x)),
{ assert forall|x: Seq<char>| #[trigger] before_in(s, k + 1, x) == (before_in(s, k, x) || all_names(s[k], x)) by { if before_in(s, k, x) { let m = choose|m: int| 0 <= m < k && all_names(#[trigger] s[m], x); assert(all_names(s[m], x)); } if all_names(s[k], x) { assert(all_names(s[k], x)); } } }
/// the packages looked at so far
pub open spec fn seen_pkg<V>(es: Seq<(&String, V)>, n: int, k: Seq<char>) -> bool { exists|e: int| 0 <= e < n && (#[trigger] es[e]).0@ == k }
pub open spec fn ok_pkg<V>(es: Seq<(&String, V)>, n: int) -> spec_fn(SharedFileData) -> bool { |f: SharedFileData| is_r(f) && seen_pkg(es, n, f.root_key@) }
pub open spec fn among(s: Seq<SharedFileData>, k: int, f: SharedFileData) -> bool { exists|m: int| 0 <= m < k && #[trigger] s[m] == f }
pub open spec fn ok_file<V>(es: Seq<(&String, V)>, n: int, s: Seq<SharedFileData>, k: int) -> spec_fn(SharedFileData) -> bool { |f: SharedFileData| is_r(f) && (seen_pkg(es, n, f.root_key@) || among(s, k, f)) }
pub open spec fn all_of() -> spec_fn(SharedFileData) -> bool { |f: SharedFileData| true }
pub open spec fn r_only() -> spec_fn(SharedFileData) -> bool { |f: SharedFileData| is_r(f) }
/// the R/ files of the package
pub open spec fn of_pkg(s: Seq<SharedFileData>, d: Seq<SharedFileData>, key: Seq<char>) -> bool { forall|x: SharedFileData| #[trigger] s.contains(x) == (d.contains(x) && is_r(x) && x.root_key@ == key) }
/// the same files looked at
pub proof fn lemma_done_same(m: Found, d: Seq<SharedFileData>, ok: spec_fn(SharedFileData) -> bool, ok2: spec_fn(SharedFileData) -> bool, want: spec_fn(SharedFileData) -> Items)
    requires done(m, d, ok, want), forall|f: SharedFileData| #[trigger] d.contains(f) ==> ok(f) == ok2(f) || want(f) == Seq::<(Seq<char>, TextRange)>::empty(),
    ensures done(m, d, ok2, want),
{ assert forall|f: SharedFileData| #[trigger] d.contains(f) implies reported(m, f.rel_path.id(), if ok2(f) { want(f) } else { Seq::empty() }) by { assert(reported(m, f.rel_path.id(), if ok(f) { want(f) } else { Seq::empty() })); } }
pub proof fn lemma_pkg_start<V>(es: Seq<(&String, V)>, n: int, s: Seq<SharedFileData>)
    ensures forall|f: SharedFileData| #[trigger] ok_file(es, n, s, 0)(f) == ok_pkg(es, n)(f),
{ }
pub proof fn lemma_pkg_end<V>(es: Seq<(&String, V)>, n: int, s: Seq<SharedFileData>, d: Seq<SharedFileData>)
    requires 0 <= n < es.len(), of_pkg(s, d, es[n].0@),
    ensures forall|f: SharedFileData| #[trigger] d.contains(f) ==> ok_file(es, n, s, s.len() as int)(f) == ok_pkg(es, n + 1)(f),
{
    assert forall|f: SharedFileData| #[trigger] d.contains(f) implies ok_file(es, n, s, s.len() as int)(f) == ok_pkg(es, n + 1)(f) by {
        if seen_pkg(es, n, f.root_key@) { let e = choose|e: int| 0 <= e < n && (#[trigger] es[e]).0@ == f.root_key@; assert(es[e].0@ == f.root_key@); }
        if is_r(f) && f.root_key@ == es[n].0@ { assert(s.contains(f)); let m = choose|m: int| 0 <= m < s.len() && s[m] == f; assert(s[m] == f); assert(among(s, s.len() as int, f)); }
        if among(s, s.len() as int, f) { let m = choose|m: int| 0 <= m < s.len() && #[trigger] s[m] == f; assert(s.contains(f)); assert(es[n].0@ == f.root_key@); }
    }
}
pub proof fn lemma_file_next<V>(es: Seq<(&String, V)>, n: int, s: Seq<SharedFileData>, d: Seq<SharedFileData>, k: int)
    requires 0 <= n < es.len(), of_pkg(s, d, es[n].0@), 0 <= k < s.len(), sorted(s), forall|i: int, j: int| 0 <= i < j < es.len() ==> (#[trigger] es[i]).0@ != (#[trigger] es[j]).0@,
    ensures !ok_file(es, n, s, k)(s[k]), forall|g: SharedFileData| #[trigger] ok_file(es, n, s, k + 1)(g) == (ok_file(es, n, s, k)(g) || g == s[k]),
{
    assert(s.contains(s[k]));
    if among(s, k, s[k]) { let m = choose|m: int| 0 <= m < k && #[trigger] s[m] == s[k]; assert(path_lt(s[m].rel_path.id(), s[k].rel_path.id())); axiom_path_lt(s[k].rel_path.id(), s[k].rel_path.id()); }
    assert forall|g: SharedFileData| #[trigger] ok_file(es, n, s, k + 1)(g) == (ok_file(es, n, s, k)(g) || g == s[k]) by {
        if among(s, k, g) { let m = choose|m: int| 0 <= m < k && #[trigger] s[m] == g; assert(s[m] == g); }
        if g == s[k] { assert(s[k] == g); assert(among(s, k + 1, g)); }
    }
}
/// exactly these files so far have what they should
pub open spec fn done(m: Found, d: Seq<SharedFileData>, ok: spec_fn(SharedFileData) -> bool, want: spec_fn(SharedFileData) -> Items) -> bool {
    &&& forall|f: SharedFileData| #[trigger] d.contains(f) ==> reported(m, f.rel_path.id(), if ok(f) { want(f) } else { Seq::empty() })
    &&& forall|p: Seq<char>| #[trigger] m.dom().contains(p) ==> exists|f: SharedFileData| #[trigger] d.contains(f) && f.rel_path.id() == p
}
pub open spec fn wanted_dups(d: Seq<SharedFileData>) -> spec_fn(SharedFileData) -> Items { |f: SharedFileData| duplicates(d, f) }
/// one more file
pub proof fn lemma_done_file(o: Found, n: Found, d: Seq<SharedFileData>, ok: spec_fn(SharedFileData) -> bool, ok2: spec_fn(SharedFileData) -> bool, want: spec_fn(SharedFileData) -> Items, f: SharedFileData, l: Seq<(String, TextRange, String)>)
    requires done(o, d, ok, want), distinct(d), d.contains(f), !ok(f), forall|g: SharedFileData| #[trigger] ok2(g) == (ok(g) || g == f), items(l) == want(f),
        if l.len() > 0 { n.dom() == o.dom().insert(f.rel_path.id()) && n[f.rel_path.id()]@ == l && forall|p: Seq<char>| p != f.rel_path.id() && #[trigger] o.dom().contains(p) ==> n[p] == o[p] } else { n == o },
    ensures done(n, d, ok2, want),
{
    assert forall|g: SharedFileData| #[trigger] d.contains(g) implies reported(n, g.rel_path.id(), if ok2(g) { want(g) } else { Seq::empty() }) by {
        assert(reported(o, g.rel_path.id(), if ok(g) { want(g) } else { Seq::empty() }));
        if g != f {
            let i = choose|i: int| 0 <= i < d.len() && d[i] == g; let j = choose|j: int| 0 <= j < d.len() && d[j] == f;
            if i < j { assert(d[i].rel_path.id() != d[j].rel_path.id()); } else { assert(d[j].rel_path.id() != d[i].rel_path.id()); }
        } else { assert(items(l).len() == l.len()); }
    }
}
/// what the comparison makes sure of
pub proof fn lemma_done_start<V>(m: Found, d: Seq<SharedFileData>, es: Seq<(&String, V)>, want: spec_fn(SharedFileData) -> Items)
    requires m == Found::empty(),
    ensures done(m, d, ok_pkg(es, 0), want),
{ }
pub proof fn lemma_done_end(m: Found, d: Seq<SharedFileData>, pm: IMap<Seq<char>, Vec<&SharedFileData>>, es: Seq<(&String, Vec<&SharedFileData>)>, rs: Seq<SharedFileData>)
    requires done(m, d, ok_pkg(es, es.len() as int), wanted_dups(d)), entries(pm, es), groups(pm, rs), forall|x: SharedFileData| #[trigger] rs.contains(x) == (d.contains(x) && is_r(x)),
    ensures done(m, d, all_of(), wanted_dups(d)),
{
    assert forall|f: SharedFileData| #[trigger] d.contains(f) implies ok_pkg(es, es.len() as int)(f) == all_of()(f) || wanted_dups(d)(f) == Seq::<(Seq<char>, TextRange)>::empty() by {
        if is_r(f) {
            assert(rs.contains(f));
            lemma_filter_in(rs, in_pkg(f.root_key@));
            assert(in_pkg(f.root_key@)(f));
            assert(rs.filter(in_pkg(f.root_key@)).contains(f));
            assert(pm.dom().contains(f.root_key@));
            let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0.t() == f.root_key@;
            assert(es[i].0@ == f.root_key@);
        }
    }
    lemma_done_same(m, d, ok_pkg(es, es.len() as int), all_of(), wanted_dups(d));
}
//@methods iter
//@fn crates/jarl-core/src/lints/base/duplicated_function_definition/duplicated_function_definition.rs compute_duplicates_from_shared
//@subst `.iter().filter(` => `.iter().vx_keep(`
//@subst `HashMap<&str, Vec<&SharedFileData>>` => `HashMap<&String, Vec<&SharedFileData>>`
//@subst `packages.entry(&fd.root_key).or_default().push(fd)` => `vx_push_at(&mut packages, &fd.root_key, fd)`
//@subst `for (_root_key, mut file_data) in packages {` => `for vx_p in packages.vx_entries() { let mut file_data = vx_p.1;`
//@subst `file_data.sort_by(` => `vx_sort(&mut file_data, `
//@subst `for (name, range, line, col) in &fd.assignments {` => `for vx_a in &fd.assignments { let (name, range, line, col) = vx_a;`
//@subst `match seen.entry(name.as_str()) {` => `match seen.get(name.as_str()) {`
//@subst `std::collections::hash_map::Entry::Occupied(e) => {` => `Some(e) => {`
//@subst `let (first_file, first_line, first_col) = e.get();` => ``
//@subst `std::collections::hash_map::Entry::Vacant(e) => { e.insert((&fd.rel_path, *line, *col)); }` => `None => { seen.insert(name.as_str(), (&fd.rel_path, *line, *col)); }`
//@ret r
//@contract
    requires distinct(shared_data@),
    ensures done(r.m(), shared_data@, all_of(), wanted_dups(shared_data@)),
//@closure 0 (fd: &&SharedFileData) -> b: bool
    ensures b == is_r(**fd)
//@closure 1 (a: &&SharedFileData, b: &&SharedFileData) -> o: core::cmp::Ordering
    ensures (o == core::cmp::Ordering::Greater) == path_lt(b.rel_path.id(), a.rel_path.id())
//@at start
    let ghost d = shared_data@;
    let ghost rs = d.filter(r_only());
    proof { lemma_filter_in(d, r_only()); }
//@loop 0 it hoist=vx_rs
    invariant
        dr(it.seq()) == rs, groups(packages.m(), rs.take(it.index() as int)),
//@at before loop 0
    proof {
        assert(dr(vx_rs@) == rs);
        lemma_groups_empty(packages.m(), rs);
    }
//@at loop 0 end
    proof { lemma_groups(vx_o, packages.m(), rs, it.index() as int, fd); }
//@at loop 0 start
    let ghost vx_o = packages.m();
//@at after loop 0
    let ghost pm = packages.m();
    proof { assert(rs.take(rs.len() as int) =~= rs); }
//@loop 1 it hoist=vx_es
    invariant
        d == shared_data@, it.seq() == vx_es@, entries(pm, vx_es@), groups(pm, rs), distinct(d), distinct(rs),
        forall|x: SharedFileData| #[trigger] rs.contains(x) == (d.contains(x) && is_r(x)),
        done(result.m(), d, ok_pkg(vx_es@, it.index() as int), wanted_dups(d)),
//@at before loop 1
    proof { lemma_done_start(result.m(), d, vx_es@, wanted_dups(d)); }
//@at loop 1 start
    let ghost e = it.index() as int;
    let ghost s0 = vx_p.1@;
    proof { assert(vx_p == vx_es@[e]); assert(pm.dom().contains(vx_es@[e].0.t())); lemma_filter_in(rs, in_pkg(vx_p.0@)); }
//@at before let seen
    let ghost s = dr(file_data@);
    proof {
        lemma_sorted(s0, file_data@);
        assert(of_pkg(s, d, vx_es@[e].0@)) by { assert forall|x: SharedFileData| #[trigger] s.contains(x) == (d.contains(x) && is_r(x) && x.root_key@ == vx_es@[e].0@) by { assert(s.contains(x) == dr(s0).contains(x)); assert(in_pkg(vx_p.0@)(x) == (x.root_key@ == vx_p.0@)); } }
        lemma_pkg_start(vx_es@, e, s);
        lemma_done_same(result.m(), d, ok_pkg(vx_es@, e), ok_file(vx_es@, e, s, 0), wanted_dups(d));
    }
//@loop 2 it
    invariant
        d == shared_data@, distinct(d), 0 <= e < vx_es@.len(), entries(pm, vx_es@), sorted(s), of_pkg(s, d, vx_es@[e].0@),
        it.seq().len() == s.len(), forall|i: int| 0 <= i < s.len() ==> **(#[trigger] it.seq()[i]) == s[i],
        forall|x: Seq<char>| #[trigger] seen.m().dom().contains(x) == before_in(s, it.index() as int, x),
        done(result.m(), d, ok_file(vx_es@, e, s, it.index() as int), wanted_dups(d)),
//@at loop 2 start
    let ghost k = it.index() as int;
    let ghost rm = result.m();
    proof { assert(**fd == s[k]); assert(s.contains(s[k])); }
//@loop 3 it
    invariant
        sorted(s), of_pkg(s, d, vx_es@[e].0@), 0 <= k < s.len(), **fd == s[k], it.seq().len() == s[k].assignments@.len(),
        forall|i: int| 0 <= i < s[k].assignments@.len() ==> *(#[trigger] it.seq()[i]) == s[k].assignments@[i],
        forall|x: Seq<char>| #[trigger] seen.m().dom().contains(x) == (before_in(s, k, x) || names(s[k].assignments@, it.index() as int, x)),
        items(file_duplicates@) == picked(s[k].assignments@, earlier_p(d, s[k]), it.index() as int),
//@at loop 3 start
    let ghost n = it.index() as int;
    let ghost fo = file_duplicates@;
    proof { lemma_earlier(d, s, vx_es@[e].0@, k, n); lemma_names_step(s[k].assignments@, n); assert(*vx_a == s[k].assignments@[n]); }
//@at loop 3 end
    proof { if file_duplicates@ != fo { lemma_items_push(fo, file_duplicates@.last()); assert(file_duplicates@ =~= fo.push(file_duplicates@.last())); } }
//@at loop 2 end
    proof {
        lemma_before_step(s, k);
        lemma_file_next(vx_es@, e, s, d, k);
        lemma_done_file(rm, result.m(), d, ok_file(vx_es@, e, s, k), ok_file(vx_es@, e, s, k + 1), wanted_dups(d), s[k], vx_fd);
    }
//@at after loop 3
    let ghost vx_fd = file_duplicates@;
//@at after loop 2
    proof { lemma_pkg_end(vx_es@, e, s, d); lemma_done_same(result.m(), d, ok_file(vx_es@, e, s, s.len() as int), ok_pkg(vx_es@, e + 1), wanted_dups(d)); }
//@at after loop 1
    proof { lemma_done_end(result.m(), d, pm, vx_es@, rs); }
//@end

// ---- unused ----
pub open spec fn cnt(m: IMap<Seq<char>, usize>, x: Seq<char>) -> int { if m.dom().contains(x) { m[x] as int } else { 0 } }
/// how often x occurs in the files
pub open spec fn uses(l: Seq<SharedFileData>, x: Seq<char>) -> int
    decreases l.len(),
{ if l.len() == 0 { 0 } else { uses(l.drop_last(), x) + cnt(l.last().symbol_counts.m(), x) } }
/// how many of the first n definitions are of x
pub open spec fn named(a: Defs, n: int, x: Seq<char>) -> int
    decreases n,
{ if n <= 0 { 0 } else { named(a, n - 1, x) + (if a[n - 1].0@ == x { 1int } else { 0 }) } }
/// how often x is defined in the files
pub open spec fn defs(l: Seq<SharedFileData>, x: Seq<char>) -> int
    decreases l.len(),
{ if l.len() == 0 { 0 } else { defs(l.drop_last(), x) + named(l.last().assignments@, l.last().assignments@.len() as int, x) } }
/// x occurs in one of the files
pub open spec fn mentioned(l: Seq<SharedFileData>, x: Seq<char>) -> bool { exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).symbol_counts.m().dom().contains(x) }
/// numbers that fit the machine: fewer than 2^64 words in the files of a project
pub open spec fn countable(d: Seq<SharedFileData>) -> bool { &&& forall|x: Seq<char>| #[trigger] uses(d, x) <= usize::MAX &&& forall|x: Seq<char>| #[trigger] defs(d, x) <= usize::MAX }
/// the names of the definitions of the files, in order
pub open spec fn def_names(l: Seq<SharedFileData>) -> Seq<Seq<char>>
    decreases l.len(),
{ if l.len() == 0 { Seq::empty() } else { def_names(l.drop_last()) + l.last().assignments@.map_values(|a: (String, TextRange, u32, u32)| a.0@) } }
/// the functions R itself calls
pub open spec fn hook(x: Seq<char>) -> bool { x == ".onLoad"@ || x == "on_load"@ || x == ".onAttach"@ || x == ".onDetach"@ || x == ".onUnload"@ || x == ".Last.lib"@ || x == ".First.lib"@ }
/// what is before one of its dots occurs in the files: it may be a method
pub open spec fn maybe_method(l: Seq<SharedFileData>, x: Seq<char>) -> bool { exists|i: int| 0 <= i < x.len() && #[trigger] x[i] == '.' && mentioned(l, x.take(i)) }
#[verifier::external_body]
pub struct Regex { e: () }
impl Regex {
    pub uninterp spec fn hits(&self, x: Seq<char>) -> bool;
    #[verifier::external_body]
    pub fn is_match(&self, x: &str) -> (r: bool) ensures r == self.hits(x@) { unimplemented!() }
}
//@item crates/jarl-core/src/rule_options/unused_function.rs struct ResolvedUnusedFunctionOptions
pub mod rule_options { pub mod unused_function { pub use crate::ResolvedUnusedFunctionOptions; } }
pub open spec fn skips(o: ResolvedUnusedFunctionOptions, x: Seq<char>) -> bool { exists|i: int| 0 <= i < o.skipped_functions@.len() && (#[trigger] o.skipped_functions@[i]).hits(x) }
impl ResolvedUnusedFunctionOptions {
//@methods iter any
//@fn crates/jarl-core/src/rule_options/unused_function.rs ResolvedUnusedFunctionOptions::is_skipped
//@ret r
//@contract
    ensures r == skips(*self, name@)
//@closure 0 (re: &Regex) -> b: bool
    ensures b == re.hits(name@)
//@end
}
pub open spec fn in_scope(s: FileScope) -> spec_fn(SharedFileData) -> bool { |f: SharedFileData| f.scope == s }
pub open spec fn not_r() -> spec_fn(SharedFileData) -> bool { |f: SharedFileData| f.scope != FileScope::R }
pub open spec fn pkg_of(d: Seq<SharedFileData>, f: SharedFileData) -> Seq<SharedFileData> { d.filter(in_pkg(f.root_key@)) }
/// definition i of a file in R/ of the package with files g is unused
pub open spec fn unused_in_r(g: Seq<SharedFileData>, ns: Seq<char>, o: ResolvedUnusedFunctionOptions, f: SharedFileData) -> spec_fn(int) -> bool {
    |i: int| r_unused(g.filter(in_scope(FileScope::R)), g.filter(not_r()), ns, o, f.assignments@[i].0@)
}
pub open spec fn r_unused(r: Seq<SharedFileData>, e: Seq<SharedFileData>, ns: Seq<char>, o: ResolvedUnusedFunctionOptions, x: Seq<char>) -> bool {
    !exported(ns, def_names(r)).contains(x) && !hook(x) && !skips(o, x) && !maybe_method(r, x) && uses(r, x) <= defs(r, x) && !mentioned(e, x)
}
pub open spec fn unused_among(l: Seq<SharedFileData>, o: ResolvedUnusedFunctionOptions, f: SharedFileData) -> spec_fn(int) -> bool {
    |i: int| !skips(o, f.assignments@[i].0@) && uses(l, f.assignments@[i].0@) <= defs(l, f.assignments@[i].0@)
}
/// the package has files in R/ and a NAMESPACE
pub open spec fn looked_at(g: Seq<SharedFileData>, ns: IMap<Seq<char>, String>) -> bool {
    g.filter(in_scope(FileScope::R)).len() > 0 && ns.dom().contains(g.filter(in_scope(FileScope::R))[0].package_root.id())
}
pub open spec fn unused_of(g: Seq<SharedFileData>, ns: IMap<Seq<char>, String>, o: ResolvedUnusedFunctionOptions, f: SharedFileData) -> Items {
    let n = f.assignments@.len() as int;
    if !looked_at(g, ns) { Seq::empty() } else {
        match f.scope {
            FileScope::R => picked(f.assignments@, unused_in_r(g, ns[g.filter(in_scope(FileScope::R))[0].package_root.id()]@, o, f), n),
            FileScope::Tests => picked(f.assignments@, unused_among(g.filter(in_scope(FileScope::Tests)), o, f), n),
            FileScope::Inst => picked(f.assignments@, unused_among(g.filter(in_scope(FileScope::Inst)), o, f), n),
            FileScope::Src => Seq::empty(),
        }
    }
}
pub open spec fn wanted_unused(d: Seq<SharedFileData>, ns: IMap<Seq<char>, String>, o: ResolvedUnusedFunctionOptions) -> spec_fn(SharedFileData) -> Items { |f: SharedFileData| unused_of(pkg_of(d, f), ns, o, f) }

// ---- counting ----
pub proof fn lemma_uses_filter(d: Seq<SharedFileData>, p: spec_fn(SharedFileData) -> bool)
    ensures forall|x: Seq<char>| 0 <= #[trigger] uses(d.filter(p), x) <= uses(d, x), forall|x: Seq<char>| 0 <= #[trigger] defs(d.filter(p), x) <= defs(d, x),
    decreases d.len(),
{
    reveal_with_fuel(Seq::filter, 2);
    if d.len() > 0 {
        let e = d.drop_last();
        lemma_uses_filter(e, p);
        lemma_named_pos(d.last().assignments@, d.last().assignments@.len() as int);
        if p(d.last()) { assert(d.filter(p).drop_last() =~= e.filter(p)); assert(d.filter(p).last() == d.last()); }
        assert forall|x: Seq<char>| 0 <= #[trigger] uses(d.filter(p), x) <= uses(d, x) by { assert(uses(d, x) == uses(e, x) + cnt(d.last().symbol_counts.m(), x)); assert(uses(e.filter(p), x) <= uses(e, x)); }
        assert forall|x: Seq<char>| 0 <= #[trigger] defs(d.filter(p), x) <= defs(d, x) by { assert(defs(d, x) == defs(e, x) + named(d.last().assignments@, d.last().assignments@.len() as int, x)); assert(defs(e.filter(p), x) <= defs(e, x)); }
    }
}
pub proof fn lemma_named_pos(a: Defs, n: int)
    ensures forall|x: Seq<char>| 0 <= #[trigger] named(a, n, x), forall|x: Seq<char>| n > 0 ==> #[trigger] named(a, n, x) == named(a, n - 1, x) + (if a[n - 1].0@ == x { 1int } else { 0 }),
    decreases n,
{
    if n > 0 {
        lemma_named_pos(a, n - 1);
        assert forall|x: Seq<char>| 0 <= #[trigger] named(a, n, x) && named(a, n, x) == named(a, n - 1, x) + (if a[n - 1].0@ == x { 1int } else { 0 }) by { assert(named(a, n - 1, x) >= 0); }
    }
}
pub proof fn lemma_named_mono(a: Defs, i: int, n: int)
    requires 0 <= i <= n,
    ensures forall|x: Seq<char>| #[trigger] named(a, i, x) <= named(a, n, x),
    decreases n,
{ if i < n { lemma_named_mono(a, i, n - 1); lemma_named_pos(a, n); assert forall|x: Seq<char>| #[trigger] named(a, i, x) <= named(a, n, x) by { assert(named(a, i, x) <= named(a, n - 1, x)); assert(named(a, n, x) == named(a, n - 1, x) + (if a[n - 1].0@ == x { 1int } else { 0 })); } } }
pub proof fn lemma_take(l: Seq<SharedFileData>, k: int)
    requires 0 <= k <= l.len(),
    ensures forall|x: Seq<char>| #[trigger] uses(l.take(k), x) <= uses(l, x), forall|x: Seq<char>| #[trigger] defs(l.take(k), x) <= defs(l, x),
    decreases l.len(),
{
    if k < l.len() {
        let e = l.drop_last();
        lemma_take(e, k);
        assert(e.take(k) =~= l.take(k));
        lemma_named_pos(l.last().assignments@, l.last().assignments@.len() as int);
        assert forall|x: Seq<char>| #[trigger] uses(l.take(k), x) <= uses(l, x) by { assert(uses(l, x) == uses(e, x) + cnt(l.last().symbol_counts.m(), x)); assert(uses(e.take(k), x) <= uses(e, x)); }
        assert forall|x: Seq<char>| #[trigger] defs(l.take(k), x) <= defs(l, x) by { assert(defs(l, x) == defs(e, x) + named(l.last().assignments@, l.last().assignments@.len() as int, x)); assert(defs(e.take(k), x) <= defs(e, x)); }
    } else { assert(l.take(k) =~= l); }
}
pub open spec fn has_key(ps: Seq<(&String, &usize)>, n: int, x: Seq<char>) -> bool { exists|i: int| 0 <= i < n && (#[trigger] ps[i]).0@ == x }
pub open spec fn pairs_of(m: IMap<Seq<char>, usize>, r: Seq<(&String, &usize)>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> m.dom().contains((#[trigger] r[i]).0@) && m[r[i].0@] == *r[i].1
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0@ != (#[trigger] r[j]).0@
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0@ == k
}
impl HashMap<String, usize> {
    /// the entries, in some order
    #[verifier::external_body]
    pub fn vx_pairs(&self) -> (r: Vec<(&String, &usize)>) ensures pairs_of(self.m(), r@) { unimplemented!() }
}
/// *m.entry(k).or_insert(0) += n
#[verifier::external_body]
pub fn vx_add_at<'a>(m: &mut HashMap<&'a str, usize>, k: &'a str, n: usize)
    requires cnt(old(m).m(), k@) + n <= usize::MAX,
    ensures final(m).m() == old(m).m().insert(k@, (cnt(old(m).m(), k@) + n) as usize),
{ unimplemented!() }
/// m.get(k).copied().unwrap_or(0)
#[verifier::external_body]
pub fn vx_count<'a>(m: &HashMap<&'a str, usize>, k: &str) -> (r: usize) ensures r == cnt(m.m(), k@) { unimplemented!() }
/// the occurrences in the first k files and the first n words of the next one
pub open spec fn counting(m: IMap<Seq<char>, usize>, l: Seq<SharedFileData>, k: int, ps: Seq<(&String, &usize)>, n: int) -> bool {
    forall|x: Seq<char>| #![trigger m.dom().contains(x)] #![trigger cnt(m, x)]
        cnt(m, x) == uses(l.take(k), x) + (if has_key(ps, n, x) { cnt(l[k].symbol_counts.m(), x) } else { 0 })
        && m.dom().contains(x) == (mentioned(l.take(k), x) || has_key(ps, n, x))
}
pub open spec fn counted(m: IMap<Seq<char>, usize>, l: Seq<SharedFileData>, k: int) -> bool {
    forall|x: Seq<char>| #![trigger m.dom().contains(x)] #![trigger cnt(m, x)] cnt(m, x) == uses(l.take(k), x) && m.dom().contains(x) == mentioned(l.take(k), x)
}
pub proof fn lemma_counted_start(m: IMap<Seq<char>, usize>, l: Seq<SharedFileData>)
    requires m == IMap::<Seq<char>, usize>::empty(),
    ensures counted(m, l, 0),
{ }
pub proof fn lemma_counting_start(m: IMap<Seq<char>, usize>, l: Seq<SharedFileData>, k: int, ps: Seq<(&String, &usize)>)
    requires counted(m, l, k),
    ensures counting(m, l, k, ps, 0),
{ }
pub proof fn lemma_take_next(l: Seq<SharedFileData>, k: int)
    requires 0 <= k < l.len(),
    ensures forall|x: Seq<char>| #[trigger] uses(l.take(k + 1), x) == uses(l.take(k), x) + cnt(l[k].symbol_counts.m(), x),
        forall|x: Seq<char>| #[trigger] defs(l.take(k + 1), x) == defs(l.take(k), x) + named(l[k].assignments@, l[k].assignments@.len() as int, x),
        forall|x: Seq<char>| #[trigger] mentioned(l.take(k + 1), x) == (mentioned(l.take(k), x) || l[k].symbol_counts.m().dom().contains(x)),
{
    let t = l.take(k + 1);
    assert(t.drop_last() =~= l.take(k));
    assert(t.last() == l[k]);
    assert forall|x: Seq<char>| #[trigger] mentioned(t, x) == (mentioned(l.take(k), x) || l[k].symbol_counts.m().dom().contains(x)) by {
        if mentioned(l.take(k), x) { let i = choose|i: int| 0 <= i < k && (#[trigger] l.take(k)[i]).symbol_counts.m().dom().contains(x); assert(t[i] == l.take(k)[i]); }
        if l[k].symbol_counts.m().dom().contains(x) { assert(t[k].symbol_counts.m().dom().contains(x)); }
        if mentioned(t, x) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).symbol_counts.m().dom().contains(x); if i < k { assert(l.take(k)[i] == t[i]); } }
    }
}
pub proof fn lemma_fits(m: IMap<Seq<char>, usize>, l: Seq<SharedFileData>, k: int, ps: Seq<(&String, &usize)>, n: int)
    requires 0 <= k < l.len(), countable(l), counting(m, l, k, ps, n), pairs_of(l[k].symbol_counts.m(), ps), 0 <= n < ps.len(),
    ensures cnt(m, ps[n].0@) + *ps[n].1 <= usize::MAX,
{
    let x = ps[n].0@;
    lemma_take_next(l, k); lemma_take(l, k + 1);
    assert(uses(l.take(k + 1), x) <= uses(l, x) <= usize::MAX);
    assert(l[k].symbol_counts.m().dom().contains(ps[n].0@));
    if has_key(ps, n, x) { let i = choose|i: int| 0 <= i < n && (#[trigger] ps[i]).0@ == x; assert(ps[i].0@ != ps[n].0@); }
    assert(cnt(m, x) == uses(l.take(k), x));
}
pub proof fn lemma_counting(o: IMap<Seq<char>, usize>, m: IMap<Seq<char>, usize>, l: Seq<SharedFileData>, k: int, ps: Seq<(&String, &usize)>, n: int)
    requires 0 <= k < l.len(), countable(l), counting(o, l, k, ps, n), pairs_of(l[k].symbol_counts.m(), ps), 0 <= n < ps.len(), m == o.insert(ps[n].0@, (cnt(o, ps[n].0@) + *ps[n].1) as usize),
    ensures counting(m, l, k, ps, n + 1),
{
    lemma_fits(o, l, k, ps, n);
    let y = ps[n].0@;
    assert(!has_key(ps, n, y)) by { if has_key(ps, n, y) { let i = choose|i: int| 0 <= i < n && (#[trigger] ps[i]).0@ == y; assert(ps[i].0@ != ps[n].0@); } }
    assert(l[k].symbol_counts.m().dom().contains(ps[n].0@));
    assert forall|x: Seq<char>| #![trigger m.dom().contains(x)] #![trigger cnt(m, x)]
        cnt(m, x) == uses(l.take(k), x) + (if has_key(ps, n + 1, x) { cnt(l[k].symbol_counts.m(), x) } else { 0 })
        && m.dom().contains(x) == (mentioned(l.take(k), x) || has_key(ps, n + 1, x)) by {
        assert(cnt(o, x) == uses(l.take(k), x) + (if has_key(ps, n, x) { cnt(l[k].symbol_counts.m(), x) } else { 0 }));
        if has_key(ps, n, x) { let i = choose|i: int| 0 <= i < n && (#[trigger] ps[i]).0@ == x; assert(ps[i].0@ == x); }
        if x == y { assert(ps[n].0@ == x); assert(has_key(ps, n + 1, x)); } else {
            if has_key(ps, n + 1, x) { let i = choose|i: int| 0 <= i < n + 1 && (#[trigger] ps[i]).0@ == x; assert(ps[i].0@ == x); assert(i < n); }
            assert(o.dom().contains(x) == m.dom().contains(x));
        }
    }
}
pub proof fn lemma_counting_end(m: IMap<Seq<char>, usize>, l: Seq<SharedFileData>, k: int, ps: Seq<(&String, &usize)>)
    requires 0 <= k < l.len(), counting(m, l, k, ps, ps.len() as int), pairs_of(l[k].symbol_counts.m(), ps),
    ensures counted(m, l, k + 1),
{
    lemma_take_next(l, k);
    assert forall|x: Seq<char>| #![trigger m.dom().contains(x)] #![trigger cnt(m, x)] cnt(m, x) == uses(l.take(k + 1), x) && m.dom().contains(x) == mentioned(l.take(k + 1), x) by {
        let fm = l[k].symbol_counts.m();
        assert(cnt(m, x) == uses(l.take(k), x) + (if has_key(ps, ps.len() as int, x) { cnt(fm, x) } else { 0 }));
        assert(uses(l.take(k + 1), x) == uses(l.take(k), x) + cnt(fm, x));
        assert(mentioned(l.take(k + 1), x) == (mentioned(l.take(k), x) || fm.dom().contains(x)));
        if fm.dom().contains(x) { let i = choose|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).0@ == x; assert(ps[i].0@ == x); assert(has_key(ps, ps.len() as int, x)); }
        if has_key(ps, ps.len() as int, x) { let i = choose|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).0@ == x; assert(fm.dom().contains(ps[i].0@)); }
    }
}
/// the definitions in the first k files and the first n of the next one
pub open spec fn defining(m: IMap<Seq<char>, usize>, l: Seq<SharedFileData>, k: int, n: int) -> bool {
    forall|x: Seq<char>| #[trigger] cnt(m, x) == defs(l.take(k), x) + (if n > 0 { named(l[k].assignments@, n, x) } else { 0 })
}
pub proof fn lemma_def_fits(m: IMap<Seq<char>, usize>, l: Seq<SharedFileData>, k: int, n: int)
    requires 0 <= k < l.len(), countable(l), defining(m, l, k, n), 0 <= n < l[k].assignments@.len(),
    ensures cnt(m, l[k].assignments@[n].0@) + 1 <= usize::MAX,
{
    let a = l[k].assignments@; let x = a[n].0@;
    lemma_take_next(l, k); lemma_take(l, k + 1); lemma_named_mono(a, n + 1, a.len() as int); lemma_named_pos(a, n + 1); lemma_named_pos(a, n);
    assert(defs(l.take(k + 1), x) <= defs(l, x) <= usize::MAX);
    assert(named(a, n + 1, x) == named(a, n, x) + 1);
    assert(named(a, n + 1, x) <= named(a, a.len() as int, x));
    assert(cnt(m, x) == defs(l.take(k), x) + (if n > 0 { named(a, n, x) } else { 0 }));
}
pub proof fn lemma_defining(o: IMap<Seq<char>, usize>, m: IMap<Seq<char>, usize>, l: Seq<SharedFileData>, k: int, n: int)
    requires 0 <= k < l.len(), countable(l), defining(o, l, k, n), 0 <= n < l[k].assignments@.len(), m == o.insert(l[k].assignments@[n].0@, (cnt(o, l[k].assignments@[n].0@) + 1) as usize),
    ensures defining(m, l, k, n + 1),
{
    lemma_def_fits(o, l, k, n);
    let a = l[k].assignments@; let y = a[n].0@;
    lemma_named_pos(a, n + 1);
    assert forall|x: Seq<char>| #[trigger] cnt(m, x) == defs(l.take(k), x) + named(a, n + 1, x) by {
        assert(cnt(o, x) == defs(l.take(k), x) + (if n > 0 { named(a, n, x) } else { 0 }));
        assert(named(a, n + 1, x) == named(a, n, x) + (if a[n].0@ == x { 1int } else { 0 }));
        if x != y { assert(o.dom().contains(x) == m.dom().contains(x)); }
    }
}
pub proof fn lemma_defining_end(m: IMap<Seq<char>, usize>, l: Seq<SharedFileData>, k: int)
    requires 0 <= k < l.len(), defining(m, l, k, l[k].assignments@.len() as int),
    ensures defining(m, l, k + 1, 0),
{ lemma_take_next(l, k); assert forall|x: Seq<char>| #[trigger] cnt(m, x) == defs(l.take(k + 1), x) by { assert(cnt(m, x) == defs(l.take(k), x) + (if l[k].assignments@.len() > 0 { named(l[k].assignments@, l[k].assignments@.len() as int, x) } else { 0 })); assert(defs(l.take(k + 1), x) == defs(l.take(k), x) + named(l[k].assignments@, l[k].assignments@.len() as int, x)); } }
// ---- stubs for the ways of collecting ----
pub open spec fn dd(s: Seq<&&SharedFileData>) -> Seq<SharedFileData> { dr(dr(s)) }
/// l.iter().flat_map(|f| f.assignments.iter().map(|(name, ..)| name.clone())).collect()
#[verifier::external_body]
pub fn vx_all_defined(l: &Vec<&&SharedFileData>) -> (r: Vec<String>) ensures sviews(r@) == def_names(dd(l@)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_strs(l: &Vec<String>) -> (r: Vec<&str>) ensures r@.map_values(|s: &str| s@) == sviews(l@) { unimplemented!() }
/// l.iter().flat_map(|f| f.symbol_counts.keys().map(|s| s.as_str())).collect()
#[verifier::external_body]
pub fn vx_all_keys<'a>(l: &Vec<&'a &'a SharedFileData>) -> (r: HashSet<&'a str>) ensures forall|x: Seq<char>| #[trigger] r.texts().contains(x) == mentioned(dd(l@), x) { unimplemented!() }
/// m.keys().copied().collect()
#[verifier::external_body]
pub fn vx_keys<'a>(m: &HashMap<&'a str, usize>) -> (r: HashSet<&'a str>) ensures r.texts() == m.m().dom() { unimplemented!() }
/// HashSet::from(the seven names)
#[verifier::external_body]
pub fn vx_set_of(a: [&'static str; 7]) -> (r: HashSet<&'static str>) ensures forall|x: Seq<char>| #[trigger] r.texts().contains(x) == (exists|i: int| 0 <= i < 7 && (#[trigger] a@[i])@ == x) { unimplemented!() }
/// name.match_indices('.').any(|(pos, _)| s.contains(&name[..pos]))
#[verifier::external_body]
pub fn vx_some_start(name: &String, s: &HashSet<&str>) -> (r: bool) ensures r == (exists|i: int| 0 <= i < name@.len() && #[trigger] name@[i] == '.' && s.texts().contains(name@.take(i))) { unimplemented!() }
#[verifier::external_body]
pub fn vx_has_dot(name: &String) -> (r: bool) ensures r == name@.contains('.') { unimplemented!() }
/// m.entry(k).or_default().extend(l)
#[verifier::external_body]
pub fn vx_extend_at(m: &mut HashMap<PathBuf, Vec<(String, TextRange, String)>>, k: PathBuf, l: Vec<(String, TextRange, String)>)
    ensures final(m).m().dom() == old(m).m().dom().insert(k.id()), final(m).m()[k.id()]@ == (if old(m).m().dom().contains(k.id()) { old(m).m()[k.id()]@ } else { Seq::empty() }) + l@,
        forall|p: Seq<char>| p != k.id() && #[trigger] old(m).m().dom().contains(p) ==> final(m).m()[p] == old(m).m()[p],
{ unimplemented!() }
pub fn vx_two<'a, T>(a: &'a T, b: &'a T) -> (r: Vec<&'a T>) ensures r@ == seq![a, b] { let mut v = Vec::new(); v.push(a); v.push(b); assert(v@ =~= seq![a, b]); v }
pub trait VxFirst<T> { spec fn vx_f(&self) -> Seq<T>; fn vx_first(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.vx_f().len() > 0 && *x == self.vx_f()[0], None => self.vx_f().len() == 0 }; }
impl<T> VxFirst<T> for Vec<T> { open spec fn vx_f(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_first(&self) -> (r: Option<&T>) { self.first() } }
#[verifier::external_body]
pub fn scope_dir_from_path(p: &PathBuf) -> (r: String) { unimplemented!() }
// ---- progress ----
pub open spec fn distinct_in(s: Seq<SharedFileData>, d: Seq<SharedFileData>, key: Seq<char>) -> bool { distinct(s) && forall|x: SharedFileData| #[trigger] s.contains(x) ==> d.contains(x) && x.root_key@ == key }
pub open spec fn oku<V>(es: Seq<(&String, V)>, n: int) -> spec_fn(SharedFileData) -> bool { |f: SharedFileData| seen_pkg(es, n, f.root_key@) }
pub open spec fn oku_file<V>(es: Seq<(&String, V)>, n: int, s: Seq<SharedFileData>, k: int) -> spec_fn(SharedFileData) -> bool { |f: SharedFileData| seen_pkg(es, n, f.root_key@) || among(s, k, f) }
/// the files of a package with definitions to look at: R/, then tests/, then inst/
pub open spec fn in_turn(g: Seq<SharedFileData>) -> Seq<SharedFileData> { g.filter(in_scope(FileScope::R)) + g.filter(in_scope(FileScope::Tests)) + g.filter(in_scope(FileScope::Inst)) }
pub proof fn lemma_in_turn(g: Seq<SharedFileData>, d: Seq<SharedFileData>, key: Seq<char>)
    requires g == d.filter(in_pkg(key)), distinct(d),
    ensures distinct_in(in_turn(g), d, key), forall|f: SharedFileData| #[trigger] d.contains(f) && f.root_key@ == key && f.scope != FileScope::Src ==> in_turn(g).contains(f),
{
    let a = g.filter(in_scope(FileScope::R)); let b = g.filter(in_scope(FileScope::Tests)); let c = g.filter(in_scope(FileScope::Inst));
    let s = in_turn(g);
    lemma_filter_in(d, in_pkg(key));
    lemma_filter_in(g, in_scope(FileScope::R)); lemma_filter_in(g, in_scope(FileScope::Tests)); lemma_filter_in(g, in_scope(FileScope::Inst));
    assert forall|x: SharedFileData| #[trigger] s.contains(x) == (a.contains(x) || b.contains(x) || c.contains(x)) by {
        if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(s[i] == x); }
        if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(s[a.len() + i] == x); }
        if c.contains(x) { let i = choose|i: int| 0 <= i < c.len() && c[i] == x; assert(s[a.len() + b.len() + i] == x); }
        if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < a.len() { assert(a[i] == x); } else if i < a.len() + b.len() { assert(b[i - a.len()] == x); } else { assert(c[i - a.len() - b.len()] == x); } }
    }
    assert forall|x: SharedFileData| #[trigger] s.contains(x) implies d.contains(x) && x.root_key@ == key by { assert(g.contains(x)); assert(in_pkg(key)(x)); }
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).rel_path.id() != (#[trigger] s[j]).rel_path.id() by {
        lemma_part(a, b, c, i); lemma_part(a, b, c, j);
        let x = s[i]; let y = s[j];
        assert(s.contains(x) && s.contains(y));
        if x.scope == y.scope {
            if i < a.len() && j < a.len() { assert(a[i].rel_path.id() != a[j].rel_path.id()); }
            else if a.len() <= i && j < a.len() + b.len() { assert(b[i - a.len()].rel_path.id() != b[j - a.len()].rel_path.id()); }
            else if a.len() + b.len() <= i { assert(c[i - a.len() - b.len()].rel_path.id() != c[j - a.len() - b.len()].rel_path.id()); }
            else { assert(a.contains(x) || b.contains(x) || c.contains(x)); assert(in_scope(FileScope::R)(x) || !a.contains(x)); assert(false) by { assert(in_scope(FileScope::R)(x) == (x.scope == FileScope::R)); assert(in_scope(FileScope::Tests)(x) == (x.scope == FileScope::Tests)); assert(in_scope(FileScope::Inst)(x) == (x.scope == FileScope::Inst)); assert(in_scope(FileScope::R)(y) == (y.scope == FileScope::R)); assert(in_scope(FileScope::Tests)(y) == (y.scope == FileScope::Tests)); assert(in_scope(FileScope::Inst)(y) == (y.scope == FileScope::Inst)); } }
        } else {
            assert(d.contains(x) && d.contains(y));
            let p = choose|p: int| 0 <= p < d.len() && d[p] == x; let q = choose|q: int| 0 <= q < d.len() && d[q] == y;
            if p < q { assert(d[p].rel_path.id() != d[q].rel_path.id()); } else { assert(d[q].rel_path.id() != d[p].rel_path.id()); }
        }
    }
    assert forall|f: SharedFileData| #[trigger] d.contains(f) && f.root_key@ == key && f.scope != FileScope::Src implies s.contains(f) by { assert(in_pkg(key)(f)); assert(g.contains(f)); assert(in_scope(f.scope)(f)); }
}
pub proof fn lemma_part(a: Seq<SharedFileData>, b: Seq<SharedFileData>, c: Seq<SharedFileData>, i: int)
    requires 0 <= i < (a + b + c).len(),
    ensures i < a.len() ==> a.contains((a + b + c)[i]), a.len() <= i < a.len() + b.len() ==> b.contains((a + b + c)[i]), a.len() + b.len() <= i ==> c.contains((a + b + c)[i]),
{ if i < a.len() { assert(a[i] == (a + b + c)[i]); } else if i < a.len() + b.len() { assert(b[i - a.len()] == (a + b + c)[i]); } else { assert(c[i - a.len() - b.len()] == (a + b + c)[i]); } }
pub proof fn lemma_oku_start<V>(es: Seq<(&String, V)>, n: int, s: Seq<SharedFileData>)
    ensures forall|f: SharedFileData| #[trigger] oku_file(es, n, s, 0)(f) == oku(es, n)(f),
{ }
pub proof fn lemma_oku_next<V>(es: Seq<(&String, V)>, n: int, s: Seq<SharedFileData>, d: Seq<SharedFileData>, k: int)
    requires 0 <= n < es.len(), distinct_in(s, d, es[n].0@), 0 <= k < s.len(), forall|i: int, j: int| 0 <= i < j < es.len() ==> (#[trigger] es[i]).0@ != (#[trigger] es[j]).0@,
    ensures !oku_file(es, n, s, k)(s[k]), forall|g: SharedFileData| #[trigger] oku_file(es, n, s, k + 1)(g) == (oku_file(es, n, s, k)(g) || g == s[k]), d.contains(s[k]),
{
    assert(s.contains(s[k]));
    if among(s, k, s[k]) { let m = choose|m: int| 0 <= m < k && #[trigger] s[m] == s[k]; assert(s[m].rel_path.id() != s[k].rel_path.id()); }
    assert forall|g: SharedFileData| #[trigger] oku_file(es, n, s, k + 1)(g) == (oku_file(es, n, s, k)(g) || g == s[k]) by {
        if among(s, k, g) { let m = choose|m: int| 0 <= m < k && #[trigger] s[m] == g; assert(s[m] == g); }
        if g == s[k] { assert(s[k] == g); assert(among(s, k + 1, g)); }
    }
}
/// at the end of a package
pub proof fn lemma_oku_end<V>(m: Found, d: Seq<SharedFileData>, es: Seq<(&String, V)>, n: int, g: Seq<SharedFileData>, ns: IMap<Seq<char>, String>, o: ResolvedUnusedFunctionOptions, k: int)
    requires 0 <= n < es.len(), g == d.filter(in_pkg(es[n].0@)), distinct(d), k == in_turn(g).len() || (k == 0 && !looked_at(g, ns)), done(m, d, oku_file(es, n, in_turn(g), k), wanted_unused(d, ns, o)),
    ensures done(m, d, oku(es, n + 1), wanted_unused(d, ns, o)),
{
    let s = in_turn(g);
    lemma_in_turn(g, d, es[n].0@);
    assert forall|f: SharedFileData| #[trigger] d.contains(f) implies oku_file(es, n, s, k)(f) == oku(es, n + 1)(f) || wanted_unused(d, ns, o)(f) == Seq::<(Seq<char>, TextRange)>::empty() by {
        if seen_pkg(es, n, f.root_key@) { let e = choose|e: int| 0 <= e < n && (#[trigger] es[e]).0@ == f.root_key@; assert(es[e].0@ == f.root_key@); }
        if among(s, k, f) { let i = choose|i: int| 0 <= i < k && #[trigger] s[i] == f; assert(s.contains(f)); assert(es[n].0@ == f.root_key@); }
        if f.root_key@ == es[n].0@ {
            assert(pkg_of(d, f) == g);
            if looked_at(g, ns) && f.scope != FileScope::Src { assert(s.contains(f)); let i = choose|i: int| 0 <= i < s.len() && s[i] == f; assert(s[i] == f); assert(among(s, k, f)); }
        }
    }
    lemma_done_same(m, d, oku_file(es, n, s, k), oku(es, n + 1), wanted_unused(d, ns, o));
}
pub proof fn lemma_oku_done(m: Found, d: Seq<SharedFileData>, pm: IMap<Seq<char>, Vec<&SharedFileData>>, es: Seq<(&String, Vec<&SharedFileData>)>, want: spec_fn(SharedFileData) -> Items)
    requires done(m, d, oku(es, es.len() as int), want), entries(pm, es), groups(pm, d),
    ensures done(m, d, all_of(), want),
{
    assert forall|f: SharedFileData| #[trigger] d.contains(f) implies oku(es, es.len() as int)(f) == all_of()(f) by {
        lemma_filter_in(d, in_pkg(f.root_key@));
        assert(in_pkg(f.root_key@)(f));
        assert(d.filter(in_pkg(f.root_key@)).contains(f));
        assert(pm.dom().contains(f.root_key@));
        let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0.t() == f.root_key@;
        assert(es[i].0@ == f.root_key@);
    }
    lemma_done_same(m, d, oku(es, es.len() as int), all_of(), want);
}
pub open spec fn refp<'a>(p: spec_fn(SharedFileData) -> bool) -> spec_fn(&'a SharedFileData) -> bool { |x: &'a SharedFileData| p(*x) }
pub proof fn lemma_keep<'a>(s: Seq<&'a SharedFileData>, k: Seq<&&'a SharedFileData>, p: spec_fn(SharedFileData) -> bool)
    requires dr(k) == s.filter(refp(p)),
    ensures dd(k) == dr(s).filter(p), dd(k).len() == k.len(), forall|i: int| 0 <= i < k.len() ==> **(#[trigger] k[i]) == dd(k)[i],
{ lemma_dr_filter(s, p); assert(s.filter(refp(p)) == s.filter(|x: &SharedFileData| p(*x))) by { assert(refp(p) =~= |x: &SharedFileData| p(*x)); } }
pub proof fn lemma_countable(d: Seq<SharedFileData>, p: spec_fn(SharedFileData) -> bool)
    requires countable(d),
    ensures countable(d.filter(p)),
{
    lemma_uses_filter(d, p);
    assert forall|x: Seq<char>| #[trigger] uses(d.filter(p), x) <= usize::MAX by { assert(uses(d, x) <= usize::MAX); }
    assert forall|x: Seq<char>| #[trigger] defs(d.filter(p), x) <= usize::MAX by { assert(defs(d, x) <= usize::MAX); }
}
pub open spec fn total_uses(m: IMap<Seq<char>, usize>, l: Seq<SharedFileData>) -> bool { forall|x: Seq<char>| #[trigger] cnt(m, x) == uses(l, x) }
pub open spec fn total_defs(m: IMap<Seq<char>, usize>, l: Seq<SharedFileData>) -> bool { forall|x: Seq<char>| #[trigger] cnt(m, x) == defs(l, x) }
pub open spec fn all_mentioned(t: ISet<Seq<char>>, l: Seq<SharedFileData>) -> bool { forall|x: Seq<char>| #[trigger] t.contains(x) == mentioned(l, x) }
pub open spec fn all_hooks(t: ISet<Seq<char>>) -> bool { forall|x: Seq<char>| #[trigger] t.contains(x) == hook(x) }
pub proof fn lemma_counted_end(m: IMap<Seq<char>, usize>, l: Seq<SharedFileData>)
    requires counted(m, l, l.len() as int),
    ensures total_uses(m, l), all_mentioned(m.dom(), l),
{ assert(l.take(l.len() as int) =~= l); }
pub proof fn lemma_defining_total(m: IMap<Seq<char>, usize>, l: Seq<SharedFileData>)
    requires defining(m, l, l.len() as int, 0),
    ensures total_defs(m, l),
{ assert(l.take(l.len() as int) =~= l); }
/// how many files have been looked at before those of the j-th of tests/ and inst/
pub open spec fn base(rl: Seq<SharedFileData>, tl: Seq<SharedFileData>, il: Seq<SharedFileData>, j: int) -> int { if j <= 0 { rl.len() as int } else if j == 1 { (rl.len() + tl.len()) as int } else { (rl.len() + tl.len() + il.len()) as int } }
pub open spec fn files_are(v: Seq<&&SharedFileData>, l: Seq<SharedFileData>) -> bool { v.len() == l.len() && forall|i: int| 0 <= i < v.len() ==> **(#[trigger] v[i]) == l[i] }
/// everything about the package looked at
pub open spec fn in_pkg_now<V>(d: Seq<SharedFileData>, es: Seq<(&String, V)>, e: int, g: Seq<SharedFileData>, ns: IMap<Seq<char>, String>) -> bool {
    distinct(d) && 0 <= e < es.len() && g == d.filter(in_pkg(es[e].0@)) && looked_at(g, ns) && (forall|i: int, j: int| 0 <= i < j < es.len() ==> (#[trigger] es[i]).0@ != (#[trigger] es[j]).0@)
}
/// one more file of the package
pub proof fn lemma_file<V>(o: Found, n: Found, d: Seq<SharedFileData>, es: Seq<(&String, V)>, e: int, g: Seq<SharedFileData>, ns: IMap<Seq<char>, String>, op: ResolvedUnusedFunctionOptions, k: int, f: SharedFileData, l: Seq<(String, TextRange, String)>)
    requires in_pkg_now(d, es, e, g, ns), 0 <= k < in_turn(g).len(), f == in_turn(g)[k], done(o, d, oku_file(es, e, in_turn(g), k), wanted_unused(d, ns, op)), items(l) == unused_of(g, ns, op, f),
        if l.len() > 0 { n.dom() == o.dom().insert(f.rel_path.id()) && n[f.rel_path.id()]@ == l && forall|p: Seq<char>| p != f.rel_path.id() && #[trigger] o.dom().contains(p) ==> n[p] == o[p] } else { n == o },
    ensures done(n, d, oku_file(es, e, in_turn(g), k + 1), wanted_unused(d, ns, op)),
{
    lemma_in_turn(g, d, es[e].0@);
    assert(in_turn(g).contains(f));
    lemma_oku_next(es, e, in_turn(g), d, k);
    assert(pkg_of(d, f) == g);
    lemma_done_file(o, n, d, oku_file(es, e, in_turn(g), k), oku_file(es, e, in_turn(g), k + 1), wanted_unused(d, ns, op), f, l);
}
pub proof fn lemma_done_start2<V>(m: Found, d: Seq<SharedFileData>, es: Seq<(&String, V)>, want: spec_fn(SharedFileData) -> Items)
    requires m == Found::empty(),
    ensures done(m, d, oku(es, 0), want),
{ }
pub proof fn lemma_method(l: Seq<SharedFileData>, x: Seq<char>, t: ISet<Seq<char>>)
    requires all_mentioned(t, l),
    ensures maybe_method(l, x) == (exists|i: int| 0 <= i < x.len() && #[trigger] x[i] == '.' && t.contains(x.take(i))), maybe_method(l, x) ==> x.contains('.'),
{
    if maybe_method(l, x) { let i = choose|i: int| 0 <= i < x.len() && #[trigger] x[i] == '.' && mentioned(l, x.take(i)); assert(x[i] == '.' && t.contains(x.take(i))); }
    if exists|i: int| 0 <= i < x.len() && #[trigger] x[i] == '.' && t.contains(x.take(i)) { let i = choose|i: int| 0 <= i < x.len() && #[trigger] x[i] == '.' && t.contains(x.take(i)); assert(mentioned(l, x.take(i))); assert(x[i] == '.'); }
}
/// nothing is there yet for a file not looked at
pub proof fn lemma_not_yet<V>(o: Found, d: Seq<SharedFileData>, es: Seq<(&String, V)>, e: int, g: Seq<SharedFileData>, ns: IMap<Seq<char>, String>, op: ResolvedUnusedFunctionOptions, k: int)
    requires in_pkg_now(d, es, e, g, ns), 0 <= k < in_turn(g).len(), done(o, d, oku_file(es, e, in_turn(g), k), wanted_unused(d, ns, op)),
    ensures !o.dom().contains(in_turn(g)[k].rel_path.id()),
{ lemma_in_turn(g, d, es[e].0@); assert(in_turn(g).contains(in_turn(g)[k])); lemma_oku_next(es, e, in_turn(g), d, k); assert(reported(o, in_turn(g)[k].rel_path.id(), Seq::empty())); }
pub proof fn lemma_turn_at(g: Seq<SharedFileData>, k: int)
    ensures in_turn(g).len() == base(g.filter(in_scope(FileScope::R)), g.filter(in_scope(FileScope::Tests)), g.filter(in_scope(FileScope::Inst)), 2),
        forall|k: int| 0 <= k < g.filter(in_scope(FileScope::R)).len() ==> in_turn(g)[k] == #[trigger] g.filter(in_scope(FileScope::R))[k] && in_turn(g)[k].scope == FileScope::R,
        forall|k: int| 0 <= k < g.filter(in_scope(FileScope::Tests)).len() ==> in_turn(g)[g.filter(in_scope(FileScope::R)).len() + k] == #[trigger] g.filter(in_scope(FileScope::Tests))[k] && g.filter(in_scope(FileScope::Tests))[k].scope == FileScope::Tests,
        forall|k: int| 0 <= k < g.filter(in_scope(FileScope::Inst)).len() ==> in_turn(g)[g.filter(in_scope(FileScope::R)).len() + g.filter(in_scope(FileScope::Tests)).len() + k] == #[trigger] g.filter(in_scope(FileScope::Inst))[k] && g.filter(in_scope(FileScope::Inst))[k].scope == FileScope::Inst,
{
    let a = g.filter(in_scope(FileScope::R)); let b = g.filter(in_scope(FileScope::Tests)); let c = g.filter(in_scope(FileScope::Inst));
    lemma_filter_in(g, in_scope(FileScope::R)); lemma_filter_in(g, in_scope(FileScope::Tests)); lemma_filter_in(g, in_scope(FileScope::Inst));
    assert forall|k: int| 0 <= k < a.len() implies in_turn(g)[k] == #[trigger] a[k] && in_turn(g)[k].scope == FileScope::R by { assert(a.contains(a[k])); assert(in_scope(FileScope::R)(a[k])); }
    assert forall|k: int| 0 <= k < b.len() implies in_turn(g)[a.len() + k] == #[trigger] b[k] && b[k].scope == FileScope::Tests by { assert(b.contains(b[k])); assert(in_scope(FileScope::Tests)(b[k])); }
    assert forall|k: int| 0 <= k < c.len() implies in_turn(g)[a.len() + b.len() + k] == #[trigger] c[k] && c[k].scope == FileScope::Inst by { assert(c.contains(c[k])); assert(in_scope(FileScope::Inst)(c[k])); }
}
//@methods iter first
//@fn crates/jarl-core/src/lints/base/unused_function/unused_function.rs compute_unused_from_shared
//@subst `r_files.iter().flat_map(|f| f.assignments.iter().map(|(name, _, _, _)| name.clone())).collect()` => `vx_all_defined(&r_files)`
//@subst `all_defined_names.iter().map(|s| s.as_str()).collect()` => `vx_strs(&all_defined_names)`
//@subst `extra_files.iter().flat_map(|f| f.symbol_counts.keys().map(|s| s.as_str())).collect()` => `vx_all_keys(&extra_files)`
//@subst `total_occurrences.keys().copied().collect()` => `vx_keys(&total_occurrences)`
//@subst `let package_hooks: HashSet<&str> = HashSet::from([` => `let vx_hooks = [`
//@subst `".First.lib", ]);` => `".First.lib", ]; let package_hooks: HashSet<&str> = vx_set_of(vx_hooks);`
//@subst `.collect();` => `;`
//@subst `.iter().filter(` => `.iter().vx_keep(`
//@subst `HashMap<&str, Vec<&SharedFileData>>` => `HashMap<&String, Vec<&SharedFileData>>`
//@subst `packages.entry(&fd.root_key).or_default().push(fd)` => `vx_push_at(&mut packages, &fd.root_key, fd)`
//@subst `for (_root_key, file_data) in packages {` => `for vx_p in packages.vx_entries() { let file_data = vx_p.1;`
//@subst `parse_namespace_exports(ns_content, &all_defined_name_refs)` => `parse_namespace_exports(ns_content.as_str(), &all_defined_name_refs)`
//@subst `for (name, count) in &file.symbol_counts {` => `for vx_c in file.symbol_counts.vx_pairs() { let (name, count) = vx_c;`
//@subst `for (name, _, _, _) in &file.assignments {` => `for vx_a in &file.assignments { let (name, _, _, _) = vx_a;`
//@subst `for (name, range, line, col) in &file.assignments {` => `for vx_a in &file.assignments { let (name, range, line, col) = vx_a;`
//@subst `*total_occurrences.entry(name.as_str()).or_insert(0) += count;` => `vx_add_at(&mut total_occurrences, name.as_str(), *count);`
//@subst `*scope_occurrences.entry(name.as_str()).or_insert(0) += count;` => `vx_add_at(&mut scope_occurrences, name.as_str(), *count);`
//@subst `*total_definitions.entry(name.as_str()).or_insert(0) += 1;` => `vx_add_at(&mut total_definitions, name.as_str(), 1);`
//@subst `*scope_definitions.entry(name.as_str()).or_insert(0) += 1;` => `vx_add_at(&mut scope_definitions, name.as_str(), 1);`
//@subst `name.contains('.')` => `vx_has_dot(name)`
//@subst `name.match_indices('.').any(|(pos, _)| all_symbols.contains(&name[..pos]))` => `vx_some_start(name, &all_symbols)`
//@subst `if vx_has_dot(name) { let is_probable_s3 =` => `let vx_s3 = if vx_has_dot(name) { let is_probable_s3 =`
//@subst `if is_probable_s3 { continue; } }` => `is_probable_s3 } else { false }; if vx_s3 { continue; }`
//@subst `total_occurrences.get(name.as_str()).copied().unwrap_or(0)` => `vx_count(&total_occurrences, name.as_str())`
//@subst `total_definitions.get(name.as_str()).copied().unwrap_or(0)` => `vx_count(&total_definitions, name.as_str())`
//@subst `scope_occurrences.get(name.as_str()).copied().unwrap_or(0)` => `vx_count(&scope_occurrences, name.as_str())`
//@subst `scope_definitions.get(name.as_str()).copied().unwrap_or(0)` => `vx_count(&scope_definitions, name.as_str())`
//@subst `[&tests_files, &inst_files]` => `vx_two(&tests_files, &inst_files)`
//@subst `result.entry(file.rel_path.clone()).or_default().extend(unused);` => `vx_extend_at(&mut result, file.rel_path.clone(), unused);`
//@ret r
//@contract
    requires distinct(shared_data@), countable(shared_data@),
    ensures done(r.m(), shared_data@, all_of(), wanted_unused(shared_data@, namespace_contents.m(), *options)),
//@closure 0 (f: &&&SharedFileData) -> b: bool
    ensures b == in_scope(FileScope::R)(***f)
//@closure 1 (f: &&&SharedFileData) -> b: bool
    ensures b == not_r()(***f)
//@closure 2 (f: &&&SharedFileData) -> b: bool
    ensures b == in_scope(FileScope::Tests)(***f)
//@closure 3 (f: &&&SharedFileData) -> b: bool
    ensures b == in_scope(FileScope::Inst)(***f)
//@at start
    let ghost d = shared_data@;
    let ghost ns = namespace_contents.m();
    let ghost want = wanted_unused(d, ns, *options);
//@loop 0 it
    invariant
        d == shared_data@, it.seq().len() == d.len(), forall|i: int| 0 <= i < d.len() ==> *(#[trigger] it.seq()[i]) == d[i], groups(packages.m(), d.take(it.index() as int)),
//@at before loop 0
    proof { lemma_groups_empty(packages.m(), d); }
//@at loop 0 start
    let ghost vx_o = packages.m();
//@at loop 0 end
    proof { lemma_groups(vx_o, packages.m(), d, it.index() as int, fd); }
//@at after loop 0
    let ghost pm = packages.m();
    proof { assert(d.take(d.len() as int) =~= d); }
//@loop 1 it hoist=vx_es
    invariant
        d == shared_data@, distinct(d), countable(d), it.seq() == vx_es@, entries(pm, vx_es@), groups(pm, d), ns == namespace_contents.m(), want == wanted_unused(d, ns, *options),
        done(result.m(), d, oku(vx_es@, it.index() as int), want),
//@at before loop 1
    proof { lemma_done_start2(result.m(), d, vx_es@, want); }
//@at loop 1 start
    let ghost e = it.index() as int;
    let ghost key = vx_es@[e].0@;
    let ghost g = d.filter(in_pkg(key));
    let ghost rl = g.filter(in_scope(FileScope::R));
    let ghost el = g.filter(not_r());
    let ghost tl = g.filter(in_scope(FileScope::Tests));
    let ghost il = g.filter(in_scope(FileScope::Inst));
    let ghost s = in_turn(g);
    let ghost fd0 = vx_p.1@;
    let ghost op = *options;
    proof {
        assert(vx_p == vx_es@[e]); assert(pm.dom().contains(vx_es@[e].0.t()));
        lemma_countable(d, in_pkg(key)); lemma_countable(g, in_scope(FileScope::R)); lemma_countable(g, in_scope(FileScope::Tests)); lemma_countable(g, in_scope(FileScope::Inst));
        lemma_oku_start(vx_es@, e, s);
        lemma_done_same(result.m(), d, oku(vx_es@, e), oku_file(vx_es@, e, s, 0), want);
        lemma_turn_at(g, 0);
    }
//@at before let all_defined_names
    proof {
        let q1 = file_data@.filter(refp(in_scope(FileScope::R))); let q2 = file_data@.filter(refp(not_r())); let q3 = file_data@.filter(refp(in_scope(FileScope::Tests))); let q4 = file_data@.filter(refp(in_scope(FileScope::Inst)));
        lemma_keep(file_data@, r_files@, in_scope(FileScope::R)); lemma_keep(file_data@, extra_files@, not_r()); lemma_keep(file_data@, tests_files@, in_scope(FileScope::Tests)); lemma_keep(file_data@, inst_files@, in_scope(FileScope::Inst));
    }
//@at before let total_occurrences
    let ghost nst = ns_content@;
    proof { assert(first == r_files@[0]); assert(rl[0] == **r_files@[0]); }
//@loop 2 it
    invariant
        countable(rl), it.seq().len() == rl.len(), forall|i: int| 0 <= i < rl.len() ==> ***(#[trigger] it.seq()[i]) == rl[i],
        counted(total_occurrences.m(), rl, it.index() as int),
//@at before loop 2
    proof { lemma_counted_start(total_occurrences.m(), rl); }
//@at loop 2 start
    let ghost k = it.index() as int;
    proof { assert(***file == rl[k]); }
//@loop 3 it hoist=vx_ps
    invariant
        countable(rl), 0 <= k < rl.len(), it.seq() == vx_ps@, pairs_of(rl[k].symbol_counts.m(), vx_ps@), counting(total_occurrences.m(), rl, k, vx_ps@, it.index() as int),
//@at before loop 3
    proof { lemma_counting_start(total_occurrences.m(), rl, k, vx_ps@); }
//@at loop 3 start
    let ghost vx_o = total_occurrences.m();
    proof { lemma_fits(vx_o, rl, k, vx_ps@, it.index() as int); }
//@at loop 3 end
    proof { lemma_counting(vx_o, total_occurrences.m(), rl, k, vx_ps@, it.index() as int); }
//@at after loop 3
    proof { lemma_counting_end(total_occurrences.m(), rl, k, vx_ps@); }
//@at after loop 2
    proof { lemma_counted_end(total_occurrences.m(), rl); }
//@loop 4 it
    invariant
        countable(rl), it.seq().len() == rl.len(), forall|i: int| 0 <= i < rl.len() ==> ***(#[trigger] it.seq()[i]) == rl[i],
        defining(total_definitions.m(), rl, it.index() as int, 0),
//@at loop 4 start
    let ghost k = it.index() as int;
    proof { assert(***file == rl[k]); }
//@loop 5 it
    invariant
        countable(rl), 0 <= k < rl.len(), it.seq().len() == rl[k].assignments@.len(), forall|i: int| 0 <= i < rl[k].assignments@.len() ==> *(#[trigger] it.seq()[i]) == rl[k].assignments@[i],
        defining(total_definitions.m(), rl, k, it.index() as int),
//@at loop 5 start
    let ghost vx_o = total_definitions.m();
    proof { lemma_def_fits(vx_o, rl, k, it.index() as int); }
//@at loop 5 end
    proof { lemma_defining(vx_o, total_definitions.m(), rl, k, it.index() as int); }
//@at after loop 5
    proof { lemma_defining_end(total_definitions.m(), rl, k); }
//@at after loop 4
    proof { lemma_defining_total(total_definitions.m(), rl); }
//@at after let package_hooks
    proof {
        assert forall|x: Seq<char>| #[trigger] package_hooks.texts().contains(x) == hook(x) by {
            let a = vx_hooks@;
            assert(a[0]@ == ".onLoad"@ && a[1]@ == "on_load"@ && a[2]@ == ".onAttach"@ && a[3]@ == ".onDetach"@ && a[4]@ == ".onUnload"@ && a[5]@ == ".Last.lib"@ && a[6]@ == ".First.lib"@);
        }
    }
//@loop 6 it
    invariant
        in_pkg_now(d, vx_es@, e, g, ns), rl == g.filter(in_scope(FileScope::R)), el == g.filter(not_r()), s == in_turn(g), want == wanted_unused(d, ns, op), op == *options,
        it.seq().len() == rl.len(), forall|i: int| 0 <= i < rl.len() ==> ***(#[trigger] it.seq()[i]) == rl[i],
        nst == ns[rl[0].package_root.id()]@, namespace_exports.texts() == exported(nst, def_names(rl)), total_uses(total_occurrences.m(), rl), total_defs(total_definitions.m(), rl),
        all_mentioned(all_symbols.texts(), rl), all_mentioned(extra_symbol_set.texts(), el), all_hooks(package_hooks.texts()),
        done(result.m(), d, oku_file(vx_es@, e, s, it.index() as int), want),
//@at loop 6 start
    let ghost k = it.index() as int;
    let ghost rm = result.m();
    proof { lemma_turn_at(g, 0); assert(***file == rl[k]); assert(rl[k] == s[k]); }
//@loop 7 it
    invariant
        op == *options, rl == g.filter(in_scope(FileScope::R)), el == g.filter(not_r()), 0 <= k < rl.len(), it.seq().len() == rl[k].assignments@.len(), forall|i: int| 0 <= i < rl[k].assignments@.len() ==> *(#[trigger] it.seq()[i]) == rl[k].assignments@[i],
        namespace_exports.texts() == exported(nst, def_names(rl)), total_uses(total_occurrences.m(), rl), total_defs(total_definitions.m(), rl),
        all_mentioned(all_symbols.texts(), rl), all_mentioned(extra_symbol_set.texts(), el), all_hooks(package_hooks.texts()),
        items(unused@) == picked(rl[k].assignments@, unused_in_r(g, nst, op, rl[k]), it.index() as int),
//@at loop 7 start
    let ghost n = it.index() as int;
    let ghost fo = unused@;
    let ghost x = rl[k].assignments@[n].0@;
    proof { assert(*vx_a == rl[k].assignments@[n]); assert(unused_in_r(g, nst, op, rl[k])(n) == r_unused(rl, el, nst, op, x)); assert(cnt(total_occurrences.m(), x) == uses(rl, x)); assert(cnt(total_definitions.m(), x) == defs(rl, x)); lemma_method(rl, x, all_symbols.texts()); }
//@at loop 7 end
    proof { if unused@ != fo { lemma_items_push(fo, unused@.last()); assert(unused@ =~= fo.push(unused@.last())); } }
//@at after loop 7
    let ghost vx_fd = unused@;
//@at loop 6 end
    proof { lemma_file(rm, result.m(), d, vx_es@, e, g, ns, op, k, s[k], vx_fd); }
//@loop 8 it hoist=vx_both
    invariant
        in_pkg_now(d, vx_es@, e, g, ns), rl == g.filter(in_scope(FileScope::R)), tl == g.filter(in_scope(FileScope::Tests)), il == g.filter(in_scope(FileScope::Inst)), s == in_turn(g), want == wanted_unused(d, ns, op), op == *options, countable(tl), countable(il),
        it.seq() == vx_both@, vx_both@.len() == 2, files_are(vx_both@[0]@, tl), files_are(vx_both@[1]@, il),
        done(result.m(), d, oku_file(vx_es@, e, s, base(rl, tl, il, it.index() as int)), want),
//@at loop 8 start
    let ghost j = it.index() as int;
    let ghost l = if j == 0 { tl } else { il };
    let ghost b = base(rl, tl, il, j);
    proof { lemma_turn_at(g, 0); assert(files_are(scope_files@, l)); assert(base(rl, tl, il, j + 1) == b + l.len()); }
//@loop 9 it
    invariant
        countable(l), it.seq().len() == l.len(), forall|i: int| 0 <= i < l.len() ==> ***(#[trigger] it.seq()[i]) == l[i],
        counted(scope_occurrences.m(), l, it.index() as int),
//@at before loop 9
    proof { lemma_counted_start(scope_occurrences.m(), l); }
//@at loop 9 start
    let ghost k = it.index() as int;
    proof { assert(***file == l[k]); }
//@loop 10 it hoist=vx_ps
    invariant
        countable(l), 0 <= k < l.len(), it.seq() == vx_ps@, pairs_of(l[k].symbol_counts.m(), vx_ps@), counting(scope_occurrences.m(), l, k, vx_ps@, it.index() as int),
//@at before loop 10
    proof { lemma_counting_start(scope_occurrences.m(), l, k, vx_ps@); }
//@at loop 10 start
    let ghost vx_o = scope_occurrences.m();
    proof { lemma_fits(vx_o, l, k, vx_ps@, it.index() as int); }
//@at loop 10 end
    proof { lemma_counting(vx_o, scope_occurrences.m(), l, k, vx_ps@, it.index() as int); }
//@at after loop 10
    proof { lemma_counting_end(scope_occurrences.m(), l, k, vx_ps@); }
//@at after loop 9
    proof { lemma_counted_end(scope_occurrences.m(), l); }
//@loop 11 it
    invariant
        countable(l), it.seq().len() == l.len(), forall|i: int| 0 <= i < l.len() ==> ***(#[trigger] it.seq()[i]) == l[i],
        defining(scope_definitions.m(), l, it.index() as int, 0),
//@at loop 11 start
    let ghost k = it.index() as int;
    proof { assert(***file == l[k]); }
//@loop 12 it
    invariant
        countable(l), 0 <= k < l.len(), it.seq().len() == l[k].assignments@.len(), forall|i: int| 0 <= i < l[k].assignments@.len() ==> *(#[trigger] it.seq()[i]) == l[k].assignments@[i],
        defining(scope_definitions.m(), l, k, it.index() as int),
//@at loop 12 start
    let ghost vx_o = scope_definitions.m();
    proof { lemma_def_fits(vx_o, l, k, it.index() as int); }
//@at loop 12 end
    proof { lemma_defining(vx_o, scope_definitions.m(), l, k, it.index() as int); }
//@at after loop 12
    proof { lemma_defining_end(scope_definitions.m(), l, k); }
//@at after loop 11
    proof { lemma_defining_total(scope_definitions.m(), l); }
//@loop 13 it
    invariant
        in_pkg_now(d, vx_es@, e, g, ns), rl == g.filter(in_scope(FileScope::R)), tl == g.filter(in_scope(FileScope::Tests)), il == g.filter(in_scope(FileScope::Inst)), s == in_turn(g), want == wanted_unused(d, ns, op), op == *options,
        j == 0 || j == 1, l == (if j == 0 { tl } else { il }), b == base(rl, tl, il, j),
        it.seq().len() == l.len(), forall|i: int| 0 <= i < l.len() ==> ***(#[trigger] it.seq()[i]) == l[i],
        total_uses(scope_occurrences.m(), l), total_defs(scope_definitions.m(), l),
        done(result.m(), d, oku_file(vx_es@, e, s, b + it.index() as int), want),
//@at loop 13 start
    let ghost k = it.index() as int;
    let ghost rm = result.m();
    proof { lemma_turn_at(g, 0); assert(***file == l[k]); assert(l[k] == s[b + k]); lemma_not_yet(rm, d, vx_es@, e, g, ns, op, b + k); }
//@loop 14 it
    invariant
        op == *options, 0 <= k < l.len(), it.seq().len() == l[k].assignments@.len(), forall|i: int| 0 <= i < l[k].assignments@.len() ==> *(#[trigger] it.seq()[i]) == l[k].assignments@[i],
        total_uses(scope_occurrences.m(), l), total_defs(scope_definitions.m(), l),
        items(unused@) == picked(l[k].assignments@, unused_among(l, op, l[k]), it.index() as int),
//@at loop 14 start
    let ghost n = it.index() as int;
    let ghost fo = unused@;
    let ghost x = l[k].assignments@[n].0@;
    proof { assert(*vx_a == l[k].assignments@[n]); assert(cnt(scope_occurrences.m(), x) == uses(l, x)); assert(cnt(scope_definitions.m(), x) == defs(l, x)); }
//@at loop 14 end
    proof { if unused@ != fo { lemma_items_push(fo, unused@.last()); assert(unused@ =~= fo.push(unused@.last())); } }
//@at after loop 14
    let ghost vx_fd = unused@;
//@at loop 13 end
    proof { if vx_fd.len() > 0 { assert(Seq::<(String, TextRange, String)>::empty() + vx_fd =~= vx_fd); } lemma_file(rm, result.m(), d, vx_es@, e, g, ns, op, b + k, s[b + k], vx_fd); }
//@at loop 1 end
    proof { lemma_oku_end(result.m(), d, vx_es@, e, g, ns, op, if looked_at(g, ns) { s.len() as int } else { 0 }); }
//@at after loop 1
    proof { lemma_oku_done(result.m(), d, pm, vx_es@, want); }
//@end

//@include scan.rs
//@include pkg.rs
//@include ns.rs
//@include pkg2.rs
//@include rep.rs
}
fn main() {}
