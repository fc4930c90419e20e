// patterns of str::strip_prefix / starts_with: a text or a character
pub trait VxPat: Sized { spec fn pat(&self) -> Seq<char>; }
impl VxPat for &str { open spec fn pat(&self) -> Seq<char> { self@ } }
impl VxPat for char { open spec fn pat(&self) -> Seq<char> { seq![*self] } }
pub trait VxStr3 {
    spec fn vx_c3(&self) -> Seq<char>;
    fn vx_pstrip_prefix<P: VxPat>(&self, p: P) -> (r: Option<&str>)
        ensures match r { Some(t) => has_prefix(self.vx_c3(), p.pat()) && t@ == self.vx_c3().skip(p.pat().len() as int), None => !has_prefix(self.vx_c3(), p.pat()) };
    fn vx_pstarts_with<P: VxPat>(&self, p: P) -> (r: bool)
        ensures r == has_prefix(self.vx_c3(), p.pat());
}
impl VxStr3 for str {
    open spec fn vx_c3(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_pstrip_prefix<P: VxPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_pstarts_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
}
