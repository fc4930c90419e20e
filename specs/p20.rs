// P20: file kinds and displayed paths
use vstd::prelude::*;
verus! {
mod vx {
use vstd::prelude::*;
//@include vlib.rs
//@include vlib_str.rs
}
use vx::*;
use vstd::string::*;

// ---- paths (TRUSTED: std::path, path_dedot) ----
#[verifier::external_body]
pub struct OsStr { e: () }
impl OsStr {
    /// the text, if it is valid Unicode
    pub uninterp spec fn text(&self) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>)
        ensures match r { Some(s) => self.text() == Some(s@), None => self.text() is None } { unimplemented!() }
}
#[verifier::external_body]
pub struct Path { e: () }
#[verifier::external_body]
pub struct StripPrefixError { e: () }
impl Path {
    /// what follows the last dot of the file name (std::path::Path::extension)
    pub uninterp spec fn ext(&self) -> Option<OsStr>;
    /// the path relative to a directory it lies in; join(dir, rel) is the path
    pub uninterp spec fn below(&self, dir: &Path) -> Option<Path>;
    pub uninterp spec fn join(&self, rel: &Path) -> Path;
    pub uninterp spec fn shown(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn extension(&self) -> (r: Option<&OsStr>)
        ensures match r { Some(e) => self.ext() == Some(*e), None => self.ext() is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn strip_prefix(&self, dir: &Path) -> (r: core::result::Result<&Path, StripPrefixError>)
        ensures match r { Ok(p) => self.below(dir) == Some(*p), Err(_) => self.below(dir) is None } { unimplemented!() }
    #[verifier::external_body]
    pub proof fn axiom_below(&self, dir: &Path)
        ensures self.below(dir) is Some ==> dir.join(&self.below(dir)->0) == *self { }
    pub fn as_ref(&self) -> (r: &Path) ensures r == self { self }
}
pub uninterp spec fn cwd() -> Path;
#[verifier::external_body]
pub fn vx_cwd() -> (r: &'static Path) ensures *r == cwd() { unimplemented!() }
/// `format!("{}", p.display())`
#[verifier::external_body]
pub fn vx_show(p: &Path) -> (r: String) ensures r@ == p.shown() { unimplemented!() }

// ---- what the property says ----
pub open spec fn ext_text(p: &Path) -> Option<Seq<char>> { match p.ext() { Some(e) => e.text(), None => None } }
pub open spec fn r_ext(t: Seq<char>) -> bool { t == "r"@ || t == "R"@ }
pub open spec fn rmd_ext(t: Seq<char>) -> bool { t == "rmd"@ || t == "Rmd"@ || t == "qmd"@ || t == "Qmd"@ }
pub open spec fn is_r(p: &Path) -> bool { ext_text(p) is Some && r_ext(ext_text(p)->0) }
pub open spec fn is_rmd(p: &Path) -> bool { ext_text(p) is Some && rmd_ext(ext_text(p)->0) }
pub proof fn p20_never_both(p: &Path)
    ensures !(is_r(p) && is_rmd(p)),
{
    reveal_strlit("r"); reveal_strlit("R"); reveal_strlit("rmd"); reveal_strlit("Rmd"); reveal_strlit("qmd"); reveal_strlit("Qmd");
    assert("r"@.len() == 1 && "R"@.len() == 1 && "rmd"@.len() == 3 && "Rmd"@.len() == 3 && "qmd"@.len() == 3 && "Qmd"@.len() == 3);
}
/// the text shown denotes the path: relative to the working directory if it lies there, otherwise as it is
pub open spec fn denotes(s: Seq<char>, p: &Path) -> bool {
    (s == p.shown() && p.below(&cwd()) is None) || exists|q: Path| s == #[trigger] q.shown() && cwd().join(&q) == *p
}

//@fn crates/jarl-core/src/fs.rs is_r_extension
//@ret r
//@contract
    ensures r == r_ext(extension@),
//@end
//@fn crates/jarl-core/src/fs.rs is_rmd_extension
//@ret r
//@contract
    ensures r == rmd_ext(ext@),
//@end
//@fn crates/jarl-core/src/fs.rs has_r_extension
//@subst `path.extension().and_then(OsStr::to_str).is_some_and(is_r_extension)` => `match (match path.extension() { Some(e) => OsStr::to_str(e), None => None }) { Some(x) => is_r_extension(x), None => false }`
//@ret r
//@contract
    ensures r == is_r(path),
//@end
//@fn crates/jarl-core/src/fs.rs has_rmd_extension
//@subst `path.extension().and_then(OsStr::to_str).is_some_and(is_rmd_extension)` => `match (match path.extension() { Some(e) => OsStr::to_str(e), None => None }) { Some(x) => is_rmd_extension(x), None => false }`
//@ret r
//@contract
    ensures r == is_rmd(path),
//@end
//@fn crates/jarl-core/src/fs.rs relativize_path
//@subst `<P: AsRef<Path>>(path: P)` => `(path: &Path)`
//@subst `path_absolutize::path_dedot::CWD.as_path()` => `vx_cwd()`
//@subst `return format!("{}", path.display());` => `return vx_show(path);`
//@subst `format!("{}", path.display())` => `vx_show(path)`
//@ret r
//@contract
    ensures denotes(r@, path),
//@at start
    proof { path.axiom_below(&cwd()); }
//@end
}
fn main() {}
