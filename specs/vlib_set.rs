// std::collections::HashSet of texts (TRUSTED stub: a set of texts; iteration in some order)
pub trait VxText { spec fn t(&self) -> Seq<char>; }
impl VxText for String { open spec fn t(&self) -> Seq<char> { self@ } }
impl VxText for str { open spec fn t(&self) -> Seq<char> { self@ } }
impl<'a, T: VxText + ?Sized> VxText for &'a T { open spec fn t(&self) -> Seq<char> { (*self).t() } }
/// the texts in a list
pub open spec fn texts_of<T: VxText>(v: Seq<T>) -> ISet<Seq<char>> { ISet::new(|x: Seq<char>| exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).t() == x) }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { e: core::marker::PhantomData<T> }
impl<T: VxText> HashSet<T> {
    pub uninterp spec fn texts(&self) -> ISet<Seq<char>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.texts() == ISet::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_iter(v: Vec<T>) -> (r: Self) ensures r.texts() == texts_of(v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains<Q: VxText + ?Sized>(&self, x: &Q) -> (r: bool) ensures r == self.texts().contains(x.t()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_contains<Q: VxText + ?Sized>(&self, x: &Q) -> (r: bool) ensures r == self.texts().contains(x.t()) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> (r: bool) ensures final(self).texts() == old(self).texts().insert(x.t()), r == !old(self).texts().contains(x.t()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.texts() =~= ISet::<Seq<char>>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, v: Vec<T>) ensures final(self).texts() == old(self).texts().union(texts_of(v@)) { unimplemented!() }
    /// `.union(o).cloned().collect()`
    #[verifier::external_body]
    pub fn vx_union(&self, o: &HashSet<T>) -> (r: Self) ensures r.texts() == self.texts().union(o.texts()) { unimplemented!() }
    /// `.difference(o).cloned().collect()`
    #[verifier::external_body]
    pub fn vx_difference(&self, o: &HashSet<T>) -> (r: Self) ensures r.texts() == self.texts().difference(o.texts()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter(&self) -> (r: Vec<&T>) ensures texts_of(r@) == self.texts(), texts_of(dr(r@)) == self.texts() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r.texts() == self.texts() { unimplemented!() }
}
pub trait VxClonedT<T: VxText>: Sized {
    spec fn vx_ct(&self) -> Seq<&T>;
    fn vx_cloned(self) -> (r: Vec<T>)
        ensures r@.len() == self.vx_ct().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).t() == self.vx_ct()[i].t();
}
impl<'a, T: VxText> VxClonedT<T> for Vec<&'a T> {
    open spec fn vx_ct(&self) -> Seq<&T> { self@ }
    #[verifier::external_body]
    fn vx_cloned(self) -> (r: Vec<T>) { unimplemented!() }
}
/// lists with the same texts
pub proof fn lemma_same_texts<A: VxText, B: VxText>(a: Seq<A>, b: Seq<B>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).t() == b[i].t(),
    ensures texts_of(a) =~= texts_of(b),
{
    assert forall|x: Seq<char>| texts_of(a).contains(x) == texts_of(b).contains(x) by {
        if texts_of(a).contains(x) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).t() == x; assert(b[i].t() == x); }
        if texts_of(b).contains(x) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).t() == x; assert(a[i].t() == x); }
    }
}
