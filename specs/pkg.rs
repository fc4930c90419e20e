// ---- the files of a package ----
/// a path, its parent, the parent of that, up to the root (TRUSTED stubs of std::path, std::fs)
pub uninterp spec fn anc(p: Seq<char>) -> Seq<Seq<char>>;
#[verifier::external_body]
pub proof fn axiom_anc(p: Seq<char>)
    ensures anc(p).len() > 0, anc(p)[0] == p, forall|i: int| 0 <= i < anc(p).len() ==> anc(#[trigger] anc(p)[i]) == anc(p).subrange(i, anc(p).len() as int) { }
pub uninterp spec fn join(d: Seq<char>, name: Seq<char>) -> Seq<char>;
pub uninterp spec fn there(p: Seq<char>) -> bool;
/// the last component (as text), all components
pub uninterp spec fn last_name(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn comps(p: Seq<char>) -> Seq<Seq<char>>;
/// the path relative to the working directory
pub uninterp spec fn rel(p: Seq<char>) -> Seq<char>;
/// the extension (as text); it says C or C++, or R
pub uninterp spec fn ext(p: Seq<char>) -> Option<Seq<char>>;
pub open spec fn cpp(p: Seq<char>) -> bool { ext(p) is Some && is_cpp(ext(p)->0) }
pub open spec fn is_cpp(e: Seq<char>) -> bool { (e == "c"@ || e == "cc"@ || e == "cpp"@ || e == "cxx"@ || e == "h"@ || e == "hh"@ || e == "hpp"@ || e == "hxx"@) }
pub open spec fn r_ext(p: Seq<char>) -> bool { ext(p) is Some && (ext(p)->0 == "r"@ || ext(p)->0 == "R"@) }
/// the bytes as text, what is no UTF-8 replaced; the text of a file
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;
pub uninterp spec fn file_text(p: Seq<char>) -> Option<Seq<char>>;
pub trait VxOptMap<T>: Sized {
    spec fn vx_om(&self) -> Option<T>;
    fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>)
        requires self.vx_om() is Some ==> call_requires(f, (self.vx_om()->0,)),
        ensures match self.vx_om() { Some(x) => r is Some && call_ensures(f, (x,), r->0), None => r is None };
    fn vx_and_then<U, F: FnOnce(T) -> Option<U>>(self, f: F) -> (r: Option<U>)
        requires self.vx_om() is Some ==> call_requires(f, (self.vx_om()->0,)),
        ensures match self.vx_om() { Some(x) => call_ensures(f, (x,), r), None => r is None };
    fn vx_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool)
        requires self.vx_om() is Some ==> call_requires(f, (self.vx_om()->0,)),
        ensures match self.vx_om() { Some(x) => call_ensures(f, (x,), r), None => !r };
}
impl<T> VxOptMap<T> for Option<T> {
    open spec fn vx_om(&self) -> Option<T> { *self }
    fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>) { match self { Some(x) => Some(f(x)), None => None } }
    fn vx_and_then<U, F: FnOnce(T) -> Option<U>>(self, f: F) -> (r: Option<U>) { match self { Some(x) => f(x), None => None } }
    fn vx_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) { match self { Some(x) => f(x), None => false } }
}
impl Path {
    pub uninterp spec fn id(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&Path>) ensures match r { Some(d) => anc(self.id()).len() > 1 && d.id() == anc(self.id())[1], None => anc(self.id()).len() <= 1 } { unimplemented!() }
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: PathBuf) ensures r.id() == self.id() { unimplemented!() }
    #[verifier::external_body]
    pub fn join(&self, n: &str) -> (r: PathBuf) ensures r.id() == join(self.id(), n@) { unimplemented!() }
    /// file_name()?.to_str()?
    #[verifier::external_body]
    pub fn vx_name(&self) -> (r: Option<&str>) ensures match r { Some(x) => last_name(self.id()) == Some(x@), None => last_name(self.id()) is None } { unimplemented!() }
    /// components().map(|c| c.as_os_str().to_string_lossy().to_string()).collect()
    #[verifier::external_body]
    pub fn vx_components(&self) -> (r: Vec<String>) ensures sviews(r@) == comps(self.id()) { unimplemented!() }
}
impl PathBuf {
    #[verifier::external_body]
    pub fn exists(&self) -> (r: bool) ensures r == there(self.id()) { unimplemented!() }
    #[verifier::external_body]
    pub fn join(&self, n: &str) -> (r: PathBuf) ensures r.id() == join(self.id(), n@) { unimplemented!() }
    #[verifier::external_body]
    pub fn from(s: String) -> (r: PathBuf) ensures r.id() == s@ { unimplemented!() }
}
impl VxText for Path { open spec fn t(&self) -> Seq<char> { self.id() } }
#[verifier::external_body]
pub fn vx_relativize<Q: VxText + ?Sized>(p: &Q) -> (r: String) ensures r@ == rel(p.t()) { unimplemented!() }
impl Path {
    /// extension()?.to_str()
    #[verifier::external_body]
    pub fn vx_ext(&self) -> (r: Option<&str>) ensures match r { Some(x) => ext(self.id()) == Some(x@), None => ext(self.id()) is None } { unimplemented!() }
}
//@methods
//@fn crates/jarl-core/src/lints/base/unused_function/unused_function.rs has_cpp_extension
//@subst `matches!( path.extension().and_then(|e| e.to_str()), Some(` => `path.vx_ext().vx_is_some_and(|vx_e| matches!(vx_e, `
//@ret r
//@contract
    ensures r == cpp(path.id()),
//@closure 0 (vx_e: &str) -> b: bool
    ensures b == is_cpp(vx_e@)
//@end
//@methods is_some_and
//@fn crates/jarl-core/src/fs.rs is_r_extension
//@ret r
//@contract
    ensures r == (extension@ == "r"@ || extension@ == "R"@),
//@end
//@fn crates/jarl-core/src/fs.rs has_r_extension
//@subst `path.extension().and_then(OsStr::to_str)` => `path.vx_ext()`
//@subst `.is_some_and(is_r_extension)` => `.is_some_and(|vx_e| is_r_extension(vx_e))`
//@ret r
//@contract
    ensures r == r_ext(path.id()),
//@closure 0 (vx_e: &str) -> b: bool
    ensures b == (vx_e@ == "r"@ || vx_e@ == "R"@)
//@end
#[verifier::external_body]
pub fn vx_read(p: &Path) -> (r: Option<Vec<u8>>) ensures match r { Some(b) => file_text(p.id()) == Some(lossy(b@)), None => file_text(p.id()) is None } { unimplemented!() }
#[verifier::external_body]
pub fn vx_lossy(b: &Vec<u8>) -> (r: String) ensures r@ == lossy(b@) { unimplemented!() }

/// whether a file lies in the folder R of a package; unknown if it has no such parents
pub open spec fn in_r(p: Seq<char>) -> Option<bool> {
    let a = anc(p);
    if a.len() <= 1 || last_name(a[1]) is None { None } else if last_name(a[1])->0 != "R"@ { Some(false) } else if a.len() <= 2 { None } else { Some(there(join(a[2], "DESCRIPTION"@))) }
}
//@methods
//@fn crates/jarl-core/src/lints/base/duplicated_function_definition/duplicated_function_definition.rs is_in_r_package
//@subst `parent.file_name()?.to_str()?` => `parent.vx_name()?`
//@ret r
//@contract
    ensures r == in_r(file.id()),
//@at start
    proof { axiom_anc(file.id()); }
//@end
pub trait VxEnum<T>: Sized {
    spec fn vx_en(&self) -> Seq<T>;
    fn vx_enumerate(self) -> (r: Vec<(usize, T)>)
        ensures r@.len() == self.vx_en().len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (i as usize, self.vx_en()[i]);
}
impl<T> VxEnum<T> for Vec<T> {
    open spec fn vx_en(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_enumerate(self) -> (r: Vec<(usize, T)>) { self.into_iter().enumerate().collect() }
}
/// what the components from i on say about a file outside of R/
pub open spec fn scope_from(c: Seq<Seq<char>>, i: int) -> FileScope
    decreases c.len() - i,
{
    if i < 0 || i >= c.len() { FileScope::Tests }
    else if c[i] == "tests"@ { FileScope::Tests }
    else if c[i] == "inst"@ && i + 1 < c.len() && (c[i + 1] == "tinytest"@ || c[i + 1] == "tests"@) { FileScope::Inst }
    else if c[i] == "src"@ { FileScope::Src }
    else { scope_from(c, i + 1) }
}
//@methods iter enumerate
//@fn crates/jarl-core/src/package.rs file_scope_from_path
//@subst `path.components().map(|c| c.as_os_str().to_string_lossy().to_string()).collect()` => `path.vx_components()`
//@subst `next == "tinytest" || next == "tests"` => `next.as_str() == "tinytest" || next.as_str() == "tests"`
//@ret r
//@contract
    ensures r == scope_from(comps(path.id()), 0),
//@loop 0 it hoist=vx_cs
    invariant
        it.seq() == vx_cs@, vx_cs@.len() == components@.len(), forall|j: int| 0 <= j < vx_cs@.len() ==> (#[trigger] vx_cs@[j]).0 == j && *vx_cs@[j].1 == components@[j],
        sviews(components@) == comps(path.id()), scope_from(comps(path.id()), 0) == scope_from(comps(path.id()), it.index() as int),
//@at loop 0 start
    proof { reveal_strlit("tests"); reveal_strlit("inst"); reveal_strlit("src"); assert(comps(path.id())[it.index() as int] == components@[it.index() as int]@); if it.index() + 1 < components@.len() { assert(comps(path.id())[it.index() + 1] == components@[it.index() + 1]@); } }
//@end
/// the closest directory in a[i..] that has a DESCRIPTION
pub open spec fn root_from(a: Seq<Seq<char>>, i: int) -> Option<Seq<char>>
    decreases a.len() - i,
{ if i < 0 || i >= a.len() { None } else if there(join(a[i], "DESCRIPTION"@)) { Some(a[i]) } else { root_from(a, i + 1) } }
//@methods
//@fn crates/jarl-core/src/package.rs find_package_root
//@ret r
//@noexit
//@contract
    ensures match r { Some(d) => root_from(anc(path.id()), 1) == Some(d.id()), None => root_from(anc(path.id()), 1) is None },
//@at start
    let ghost a = anc(path.id());
    let ghost mut i: int = 1;
    proof { axiom_anc(path.id()); }
//@loop 0 -
    invariant a == anc(path.id()), 1 <= i < a.len(), a[i] == dir.id(), anc(dir.id()) == a.subrange(i, a.len() as int), root_from(a, 1) == root_from(a, i),
    decreases a.len() - i,
//@at loop 0 start
    proof { axiom_anc(path.id()); axiom_anc(dir.id()); reveal_with_fuel(root_from, 3); }
//@at loop 0 end
    proof { i = i + 1; }
//@end
/// what is known about one file
pub open spec fn scanned(p: Seq<char>, scope: FileScope, check_unused: bool, d: SharedFileData) -> bool {
    let t = file_text(p)->0;
    &&& file_text(p) is Some && d.scope == scope && d.rel_path.id() == rel(p)
    &&& if scope == FileScope::Src { d.assignments@.len() == 0 } else { all_found(t, defs_of(d.assignments@)) }
    &&& if !check_unused { d.symbol_counts.m() == IMap::<Seq<char>, usize>::empty() } else if cpp(p) { counts_text(d.symbol_counts.m(), t) } else { counts_code(d.symbol_counts.m(), t) }
    &&& if scope == FileScope::R { anc(p).len() > 2 && d.package_root.id() == anc(p)[2] && d.root_key@ == rel(anc(p)[1]) }
        else { root_from(anc(p), 1) == Some(d.package_root.id()) && d.root_key@ == rel(join(d.package_root.id(), "R"@)) }
}
/// a file that can be read and lies in a package
pub open spec fn scannable(p: Seq<char>, scope: FileScope) -> bool { file_text(p) is Some && if scope == FileScope::R { anc(p).len() > 2 } else { root_from(anc(p), 1) is Some } }
//@fn crates/jarl-core/src/package.rs compute_package_analysis as=vx_scan_file
//@sig fn vx_scan_file(path: &Path, scope: &FileScope, check_unused: bool) -> Option<SharedFileData>
//@from `let bytes =` nested
//@subst `std::fs::read(path).ok()?` => `vx_read(path)?`
//@subst `String::from_utf8_lossy(&bytes)` => `vx_lossy(&bytes)`
//@subst `(&content)` => `(content.as_str())`
//@subst `crate::fs::relativize_path(path)` => `vx_relativize(path)`
//@subst `crate::fs::relativize_path(r_dir)` => `vx_relativize(r_dir)`
//@subst `crate::fs::relativize_path(&r_dir)` => `vx_relativize(&r_dir)`
//@ret r
//@contract
    requires file_text(path.id()) is Some ==> encode_utf8(file_text(path.id())->0).len() < u32::MAX,
    ensures match r { Some(d) => scanned(path.id(), *scope, check_unused, d), None => !scannable(path.id(), *scope) },
//@at start
    proof { axiom_anc(path.id()); }
//@end
