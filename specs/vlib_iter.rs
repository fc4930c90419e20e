// Iterator chains, evaluated eagerly on vectors (TRUSTED: same items in the same order as the lazy std adaptors,
// which for the side-effect-free closures Verus accepts is indistinguishable).
/// the values present, in order
pub open spec fn somes<T>(o: Seq<Option<T>>) -> Seq<T>
    decreases o.len(),
{ if o.len() == 0 { Seq::empty() } else if o.last() is Some { somes(o.drop_last()).push(o.last()->0) } else { somes(o.drop_last()) } }
pub broadcast proof fn lemma_somes_ext<T>(a: Seq<Option<T>>, b: Seq<Option<T>>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> a[i] == b[i],
    ensures #[trigger] somes(a) == #[trigger] somes(b),
{ assert(a =~= b); }
pub proof fn lemma_somes_push<T>(a: Seq<Option<T>>, x: Option<T>)
    ensures somes(a.push(x)) == (if x is Some { somes(a).push(x->0) } else { somes(a) }),
{ assert(a.push(x).drop_last() =~= a); }
/// mapping the values present
pub proof fn lemma_somes_map<T, U>(a: Seq<Option<T>>, b: Seq<Option<U>>, f: spec_fn(T) -> U)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> b[i] == (match #[trigger] a[i] { Some(x) => Some(f(x)), None => None }),
    ensures somes(b) == somes(a).map_values(f),
    decreases a.len(),
{
    if a.len() > 0 {
        lemma_somes_map(a.drop_last(), b.drop_last(), f);
        assert(b.last() == (match a[a.len() - 1] { Some(x) => Some(f(x)), None => None }));
        if a.last() is Some { assert(somes(b) =~= somes(a).map_values(f)); }
    } else { assert(somes(b) =~= somes(a).map_values(f)); }
}
pub proof fn lemma_somes_from<T>(a: Seq<Option<T>>, x: T)
    ensures somes(a).contains(x) == a.contains(Some(x)),
    decreases a.len(),
{
    if a.len() > 0 {
        let b = a.drop_last();
        lemma_somes_from(b, x);
        assert(a =~= b.push(a.last()));
        if somes(a).contains(x) {
            let i = choose|i: int| 0 <= i < somes(a).len() && somes(a)[i] == x;
            if a.last() is Some && i == somes(b).len() { assert(a[a.len() - 1] == Some(x)); } else {
                assert(somes(b)[i] == x); let j = choose|j: int| 0 <= j < b.len() && b[j] == Some(x); assert(a[j] == Some(x)); }
        }
        if a.contains(Some(x)) {
            let j = choose|j: int| 0 <= j < a.len() && a[j] == Some(x);
            if j < b.len() { assert(b[j] == Some(x)); let i = choose|i: int| 0 <= i < somes(b).len() && somes(b)[i] == x; assert(somes(a)[i] == x); }
            else { assert(somes(a).last() == x); }
        }
    }
}
pub open spec fn kept<T>(x: T, b: bool) -> Option<T> { if b { Some(x) } else { None } }

pub trait VxSeqIter<T>: Sized {
    spec fn vx_s(&self) -> Seq<T>;
    fn vx_map<U, F: FnMut(T) -> U>(self, f: F) -> (r: Vec<U>)
        requires forall|i: int| 0 <= i < self.vx_s().len() ==> call_requires(f, (#[trigger] self.vx_s()[i],)),
        ensures r@.len() == self.vx_s().len(), forall|i: int| 0 <= i < r@.len() ==> call_ensures(f, (self.vx_s()[i],), #[trigger] r@[i]);
    fn vx_filter<F: FnMut(&T) -> bool>(self, f: F) -> (r: Vec<T>)
        requires forall|i: int| 0 <= i < self.vx_s().len() ==> call_requires(f, (&#[trigger] self.vx_s()[i],)),
        ensures exists|o: Seq<Option<T>>| r@ == #[trigger] somes(o) && o.len() == self.vx_s().len()
            && forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i] == kept(self.vx_s()[i], o[i] is Some) && call_ensures(f, (&self.vx_s()[i],), o[i] is Some));
    fn vx_filter_map<U, F: FnMut(T) -> Option<U>>(self, f: F) -> (r: Vec<U>)
        requires forall|i: int| 0 <= i < self.vx_s().len() ==> call_requires(f, (#[trigger] self.vx_s()[i],)),
        ensures exists|o: Seq<Option<U>>| r@ == #[trigger] somes(o) && o.len() == self.vx_s().len()
            && forall|i: int| 0 <= i < o.len() ==> call_ensures(f, (self.vx_s()[i],), #[trigger] o[i]);
    fn vx_any<F: FnMut(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.vx_s().len() ==> call_requires(f, (#[trigger] self.vx_s()[i],)),
        ensures at_hand(self.vx_s()), r ==> exists|i: int| 0 <= i < self.vx_s().len() && call_ensures(f, (#[trigger] self.vx_s()[i],), true),
            !r ==> forall|i: int| 0 <= i < self.vx_s().len() ==> call_ensures(f, (#[trigger] self.vx_s()[i],), false);
    fn vx_all<F: FnMut(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.vx_s().len() ==> call_requires(f, (#[trigger] self.vx_s()[i],)),
        ensures at_hand(self.vx_s()), !r ==> exists|i: int| 0 <= i < self.vx_s().len() && call_ensures(f, (#[trigger] self.vx_s()[i],), false),
            r ==> forall|i: int| 0 <= i < self.vx_s().len() ==> call_ensures(f, (#[trigger] self.vx_s()[i],), true);
    fn vx_collect<C>(self) -> (r: Vec<T>)
        ensures r@ == self.vx_s();
}
impl<T> VxSeqIter<T> for Vec<T> {
    open spec fn vx_s(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_map<U, F: FnMut(T) -> U>(self, f: F) -> (r: Vec<U>) { self.into_iter().map(f).collect() }
    #[verifier::external_body]
    fn vx_filter<F: FnMut(&T) -> bool>(self, f: F) -> (r: Vec<T>) { self.into_iter().filter(f).collect() }
    #[verifier::external_body]
    fn vx_filter_map<U, F: FnMut(T) -> Option<U>>(self, f: F) -> (r: Vec<U>) { self.into_iter().filter_map(f).collect() }
    #[verifier::external_body]
    fn vx_any<F: FnMut(T) -> bool>(self, f: F) -> (r: bool) { self.into_iter().any(f) }
    #[verifier::external_body]
    fn vx_all<F: FnMut(T) -> bool>(self, f: F) -> (r: bool) { self.into_iter().all(f) }
    fn vx_collect<C>(self) -> (r: Vec<T>) { self }
}
pub trait VxSlice<T> {
    spec fn vx_e(&self) -> Seq<T>;
    /// the items by reference
    fn vx_iter(&self) -> (r: Vec<&T>)
        ensures r@.len() == self.vx_e().len(), forall|i: int| #![trigger r@[i]] #![trigger self.vx_e()[i]] 0 <= i < r@.len() ==> *(r@[i]) == self.vx_e()[i], dr(r@) == self.vx_e();
    /// (types whose == is structural equality)
    fn vx_contains(&self, x: &T) -> (r: bool)
        where T: Structural + PartialEq
        ensures r == self.vx_e().contains(*x);
    fn vx_to_vec(&self) -> (r: Vec<T>)
        where T: Copy
        ensures r@ == self.vx_e();
}
impl<T> VxSlice<T> for [T] {
    open spec fn vx_e(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: Vec<&T>) { self.iter().collect() }
    #[verifier::external_body]
    fn vx_contains(&self, x: &T) -> (r: bool) where T: Structural + PartialEq { self.contains(x) }
    #[verifier::external_body]
    fn vx_to_vec(&self) -> (r: Vec<T>) where T: Copy { self.to_vec() }
}
impl<T> VxSlice<T> for Vec<T> {
    open spec fn vx_e(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: Vec<&T>) { self.iter().collect() }
    #[verifier::external_body]
    fn vx_contains(&self, x: &T) -> (r: bool) where T: Structural + PartialEq { self.contains(x) }
    #[verifier::external_body]
    fn vx_to_vec(&self) -> (r: Vec<T>) where T: Copy { self.to_vec() }
}

pub trait VxCopied<T>: Sized {
    spec fn vx_c(&self) -> Seq<T>;
    fn vx_copied(self) -> (r: Vec<T>) ensures r@ == self.vx_c();
}
impl<T: Copy> VxCopied<T> for Vec<&T> {
    open spec fn vx_c(&self) -> Seq<T> { self@.map_values(|x: &T| *x) }
    #[verifier::external_body]
    fn vx_copied(self) -> (r: Vec<T>) { self.into_iter().copied().collect() }
}
/// the items satisfying p, in order
pub proof fn lemma_somes_filter<T>(a: Seq<T>, o: Seq<Option<T>>, p: spec_fn(T) -> bool)
    requires o.len() == a.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] o[i] == kept(a[i], o[i] is Some) && (o[i] is Some) == p(a[i])),
    ensures somes(o) == a.filter(p),
    decreases a.len(),
{
    reveal_with_fuel(Seq::filter, 2);
    if a.len() > 0 {
        lemma_somes_filter(a.drop_last(), o.drop_last(), p);
        assert(o[o.len() - 1] == kept(a.last(), o.last() is Some));
        assert(somes(o) =~= a.filter(p));
    } else { assert(somes(o) =~= a.filter(p)); }
}
pub open spec fn dr<T>(s: Seq<&T>) -> Seq<T> { s.map_values(|x: &T| *x) }
pub proof fn lemma_dr_filter<T>(s: Seq<&T>, p: spec_fn(T) -> bool)
    ensures dr(s.filter(|x: &T| p(*x))) == dr(s).filter(p),
    decreases s.len(),
{
    reveal_with_fuel(Seq::filter, 2);
    if s.len() > 0 {
        lemma_dr_filter(s.drop_last(), p);
        assert(dr(s).drop_last() =~= dr(s.drop_last()));
        assert(dr(s).last() == *s.last());
        assert(dr(s.filter(|x: &T| p(*x))) =~= dr(s).filter(p));
    } else { assert(dr(s.filter(|x: &T| p(*x))) =~= dr(s).filter(p)); }
}
/// filtering by a closure that decides p keeps exactly the items satisfying p (proved)
pub fn vx_filter_by<'a, T, F: FnMut(&&'a T) -> bool>(v: Vec<&'a T>, p: Ghost<spec_fn(T) -> bool>, f: F) -> (r: Vec<&'a T>)
    requires
        forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (&#[trigger] v@[i],)),
        forall|i: int, b: bool| 0 <= i < v@.len() && #[trigger] call_ensures(f, (&v@[i],), b) ==> b == p@(*v@[i]),
    ensures dr(r@) == dr(v@).filter(p@),
{
    let ghost s = v@;
    let r = v.vx_filter(f);
    proof {
        let q = |x: &'a T| p@(*x);
        let o = choose|o: Seq<Option<&'a T>>| r@ == #[trigger] somes(o) && o.len() == s.len() && forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i] == kept(s[i], o[i] is Some) && call_ensures(f, (&s[i],), o[i] is Some));
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] o[i] == kept(s[i], o[i] is Some) && (o[i] is Some) == q(s[i])) by { assert(call_ensures(f, (&s[i],), o[i] is Some)); }
        lemma_somes_filter(s, o, q);
        lemma_dr_filter(s, p@);
    }
    r
}
/// the values of a list by reference
pub proof fn lemma_dr<T>(r: Seq<&T>, e: Seq<T>)
    requires r.len() == e.len(), forall|i: int| 0 <= i < r.len() ==> *(#[trigger] r[i]) == e[i],
    ensures dr(r) == e,
{ assert(dr(r) =~= e); }
pub open spec fn any_of<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> bool { exists|i: int| 0 <= i < s.len() && p(#[trigger] s[i]) }
/// any, by a closure that decides p (proved)
pub fn vx_any_by<'a, T, F: FnMut(&'a T) -> bool>(v: Vec<&'a T>, p: Ghost<spec_fn(T) -> bool>, f: F) -> (r: bool)
    requires
        forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (#[trigger] v@[i],)),
        forall|i: int, b: bool| 0 <= i < v@.len() && #[trigger] call_ensures(f, (v@[i],), b) ==> b == p@(*v@[i]),
    ensures r == any_of(dr(v@), p@),
{
    let ghost s = v.vx_s();
    let r = v.vx_any(f);
    proof {
        if r { let i = choose|i: int| 0 <= i < s.len() && call_ensures(f, (#[trigger] s[i],), true); assert(p@(dr(s)[i])); }
        else { assert forall|i: int| 0 <= i < dr(s).len() implies !p@(#[trigger] dr(s)[i]) by { assert(call_ensures(f, (s[i],), false)); } }
    }
    r
}
/// filter by a closure that decides p, for every such p (proved)
pub open spec fn decides<'a, T, F: FnMut(&&'a T) -> bool>(f: F, s: Seq<&'a T>, p: spec_fn(T) -> bool) -> bool {
    forall|i: int, b: bool| 0 <= i < s.len() && #[trigger] call_ensures(f, (&s[i],), b) ==> b == p(*s[i])
}
/// (names a term, so that what is known of it can be used)
pub open spec fn at_hand<A>(x: A) -> bool { true }
pub trait VxKeep<'a, T: 'a>: Sized {
    spec fn vx_k(&self) -> Seq<&'a T>;
    fn vx_keep<F: FnMut(&&'a T) -> bool>(self, f: F) -> (r: Vec<&'a T>)
        requires forall|i: int| 0 <= i < self.vx_k().len() ==> call_requires(f, (&#[trigger] self.vx_k()[i],)),
        ensures at_hand(self.vx_k()), forall|p: spec_fn(T) -> bool| decides(f, self.vx_k(), p) ==> dr(r@) == #[trigger] dr(self.vx_k()).filter(p);
}
impl<'a, T> VxKeep<'a, T> for Vec<&'a T> {
    open spec fn vx_k(&self) -> Seq<&'a T> { self@ }
    fn vx_keep<F: FnMut(&&'a T) -> bool>(self, f: F) -> (r: Vec<&'a T>)
    {
        let ghost s = self.vx_s();
        let r = self.vx_filter(f);
        proof {
            let o = choose|o: Seq<Option<&'a T>>| r@ == #[trigger] somes(o) && o.len() == s.len() && forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i] == kept(s[i], o[i] is Some) && call_ensures(f, (&s[i],), o[i] is Some));
            assert forall|p: spec_fn(T) -> bool| decides(f, s, p) implies dr(r@) == #[trigger] dr(s).filter(p) by {
                let q = |x: &'a T| p(*x);
                assert forall|i: int| 0 <= i < s.len() implies (#[trigger] o[i] == kept(s[i], o[i] is Some) && (o[i] is Some) == q(s[i])) by { assert(call_ensures(f, (&s[i],), o[i] is Some)); }
                lemma_somes_filter(s, o, q);
                lemma_dr_filter(s, p);
            }
        }
        r
    }
}
pub trait VxIdent<T> { spec fn vx_i(&self) -> Seq<T>; fn vx_into_iter(self) -> (r: Vec<T>) ensures r@ == self.vx_i(); }
impl<T> VxIdent<T> for Vec<T> { open spec fn vx_i(&self) -> Seq<T> { self@ } fn vx_into_iter(self) -> (r: Vec<T>) { self } }
