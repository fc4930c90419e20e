// P03: the version-control guard before fixes
use vstd::prelude::*;
verus! {
mod vx {
use vstd::prelude::*;
//@include vlib.rs
//@include vlib_str.rs
//@include vlib_iter.rs
//@include vlib_set.rs
}
use vx::*;
use vstd::string::*;
broadcast use {vx_axioms, lemma_view_bytes};

// ---- what is known of Git (TRUSTED) ----
/// the repository a path lies in
pub uninterp spec fn repo_of(path: Seq<char>) -> Option<int>;
/// has a file of the repository's working directory, ignored files aside, a status other than clean
pub uninterp spec fn dirty(repo: int) -> bool;
pub uninterp spec fn workdir_of(repo: int) -> Option<Seq<char>>;
pub uninterp spec fn gitdir_of(repo: int) -> Seq<char>;
/// a repository is found from its own working directory
#[verifier::external_body]
pub broadcast proof fn axiom_workdir(repo: int) ensures (#[trigger] workdir_of(repo)) is Some ==> repo_of(workdir_of(repo)->0) == Some(repo) { }
/// nothing is found from the empty path
#[verifier::external_body]
pub broadcast proof fn axiom_no_path(p: Seq<char>) ensures p.len() == 0 ==> (#[trigger] repo_of(p)) is None { }
#[verifier::external_body]
pub struct Path { e: () }
impl Path {
    pub uninterp spec fn p(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new<T: VxText + ?Sized>(x: &T) -> (r: &Path) ensures r.p() == x.t() { unimplemented!() }
    /// None if it is not UTF-8
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some ==> r->0@ == self.p() { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&Path>) { unimplemented!() }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum VxStatus { CURRENT, Other(u32) }
pub mod git2 {
    use super::*;
    #[verifier::external_body]
    pub struct Repository { e: () }
    impl Repository {
        pub uninterp spec fn id(&self) -> int;
        #[verifier::external_body]
        pub fn discover(p: &Path) -> (r: Result<Repository>) ensures match r { Ok(x) => repo_of(p.p()) == Some(x.id()), Err(_) => repo_of(p.p()) is None } { unimplemented!() }
        #[verifier::external_body]
        pub fn workdir(&self) -> (r: Option<&Path>) ensures match r { Some(p) => workdir_of(self.id()) == Some(p.p()), None => workdir_of(self.id()) is None } { unimplemented!() }
        #[verifier::external_body]
        pub fn path(&self) -> (r: &Path) ensures r.p() == gitdir_of(self.id()) { unimplemented!() }
        /// the entries: those of a dirty repository have one that is not CURRENT, if untracked files are included
        #[verifier::external_body]
        pub fn statuses(&self, o: Option<&StatusOptions>) -> (r: Result<Statuses>)
            ensures match r {
                Ok(s) => (o is Some && o->0.untracked() && dirty(self.id()) ==> exists|i: int| 0 <= i < s.e().len() && (#[trigger] s.e()[i]).st() != Status::CURRENT)
                    && (o is Some && !o->0.ignored() && !dirty(self.id()) ==> forall|i: int| 0 <= i < s.e().len() ==> (#[trigger] s.e()[i]).st() == Status::CURRENT),
                Err(_) => true,
            }
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct StatusOptions { e: () }
    impl StatusOptions {
        pub uninterp spec fn untracked(&self) -> bool;
        pub uninterp spec fn ignored(&self) -> bool;
        #[verifier::external_body]
        pub fn new() -> (r: StatusOptions) { unimplemented!() }
        #[verifier::external_body]
        pub fn include_ignored(&mut self, b: bool) ensures final(self).ignored() == b, final(self).untracked() == old(self).untracked() { unimplemented!() }
        #[verifier::external_body]
        pub fn include_untracked(&mut self, b: bool) ensures final(self).untracked() == b, final(self).ignored() == old(self).ignored() { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Statuses { e: () }
    impl Statuses {
        pub uninterp spec fn e(&self) -> Seq<StatusEntry>;
        #[verifier::external_body]
        pub fn vx_iter(&self) -> (r: Vec<&StatusEntry>) ensures r@.len() == self.e().len(), forall|i: int| #![trigger r@[i]] #![trigger self.e()[i]] 0 <= i < r@.len() ==> *r@[i] == self.e()[i] { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct StatusEntry { e: () }
    impl StatusEntry {
        pub uninterp spec fn st(&self) -> Status;
        #[verifier::external_body]
        pub fn status(&self) -> (r: Status) ensures r == self.st() { unimplemented!() }
        #[verifier::external_body]
        pub fn path_bytes(&self) -> (r: &[u8]) { unimplemented!() }
        /// None if it is not UTF-8
        #[verifier::external_body]
        pub fn path(&self) -> (r: Option<&str>) { unimplemented!() }
    }
    pub use super::VxStatus as Status;
}
#[verifier::external_body]
pub fn vx_lossy(b: &[u8]) -> (r: String) { unimplemented!() }
/// the map from repository roots to paths (TRUSTED stub: which keys it has)
#[verifier::external_body]
pub struct HashMap { e: () }
impl HashMap {
    pub uninterp spec fn keys(&self) -> ISet<Seq<char>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.keys() == ISet::<Seq<char>>::empty() { unimplemented!() }
    /// `.entry(k).or_default().push(v)`
    #[verifier::external_body]
    pub fn vx_group(&mut self, k: String, v: String) ensures final(self).keys() == old(self).keys().insert(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_items(self) -> (r: Vec<(String, Vec<String>)>) ensures forall|k: Seq<char>| self.keys().contains(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0@ == k,
        forall|i: int| 0 <= i < r@.len() ==> self.keys().contains((#[trigger] r@[i]).0@) { unimplemented!() }
}
pub struct Config { pub paths: Vec<PathBuf>, pub apply_fixes: bool, pub apply_unsafe_fixes: bool, pub allow_dirty: bool, pub allow_no_vcs: bool }
#[verifier::external_body]
pub struct PathBuf { e: () }
impl PathBuf {
    /// the path as the guard and the reports name it
    pub uninterp spec fn rel(&self) -> Seq<char>;
}

// ---- the property ----
pub open spec fn in_repo(ps: Seq<String>, k: int) -> bool { forall|i: int| 0 <= i < k ==> repo_of((#[trigger] ps[i])@) is Some }
pub open spec fn clean(ps: Seq<String>) -> bool { forall|i: int| 0 <= i < ps.len() && repo_of((#[trigger] ps[i])@) is Some ==> !dirty(repo_of(ps[i]@)->0) }
pub open spec fn consent(ps: Seq<String>, c: &Config) -> bool {
    c.allow_no_vcs || (in_repo(ps, ps.len() as int) && (c.allow_dirty || clean(ps)))
}
/// the repositories of the first k paths are looked up
pub open spec fn covered(ps: Seq<String>, k: int, keys: ISet<Seq<char>>) -> bool {
    forall|i: int| 0 <= i < k && repo_of((#[trigger] ps[i])@) is Some ==> exists|w: Seq<char>| #[trigger] keys.contains(w) && (repo_of(w) is None || repo_of(w) == repo_of(ps[i]@))
}
//@methods iter map
//@fn crates/jarl-core/src/vcs.rs check_version_control
//@subst `HashMap<String, Vec<String>>` => `HashMap`
//@subst `.entry(repo_path).or_default().push(path.clone())` => `.vx_group(repo_path, path.clone())`
//@subst `in repo_to_paths {` => `in vx_repos {`
//@subst `for status in repo.statuses(Some(&mut repo_opts))?.iter()` => `let vx_st = repo.statuses(Some(&repo_opts))?; for status in vx_st.iter()`
//@subst `String::from_utf8_lossy(` => `vx_lossy(`
//@subst `.workdir().and_then(|p| p.to_str())` => `.workdir().and_then(|p: &Path| p.to_str())`
//@ret r
//@contract
    ensures r is Ok ==> consent(paths@, config),
        config.allow_no_vcs || (in_repo(paths@, paths@.len() as int) && config.allow_dirty) ==> r is Ok,
//@at start
    broadcast use {axiom_workdir, axiom_no_path};
//@closure 0 (p: &Path) -> o: Option<&str>
    ensures o is Some ==> o->0@ == p.p()
//@loop 0 it
    invariant
        !config.allow_no_vcs, it.seq().len() == paths@.len(), forall|i: int| 0 <= i < paths@.len() ==> *(#[trigger] it.seq()[i]) == paths@[i],
        in_repo(paths@, it.index@) == (paths_without_repo@.len() == 0), covered(paths@, it.index@, repo_to_paths.keys()),
//@at loop 0 start
    let ghost keys0 = repo_to_paths.keys();
    proof { assert(*path == paths@[it.index@]); }
//@at loop 0 end
    proof {
        let ks = repo_to_paths.keys();
        assert forall|i: int| 0 <= i < it.index@ + 1 && repo_of((#[trigger] paths@[i])@) is Some implies exists|w: Seq<char>| #[trigger] ks.contains(w) && (repo_of(w) is None || repo_of(w) == repo_of(paths@[i]@)) by {
            if i < it.index@ {
                let w = choose|w: Seq<char>| #[trigger] keys0.contains(w) && (repo_of(w) is None || repo_of(w) == repo_of(paths@[i]@));
                assert(ks.contains(w));
            }
        }
        if in_repo(paths@, it.index@ + 1) { assert(in_repo(paths@, it.index@)); assert(repo_of(paths@[it.index@]@) is Some); }
        if paths_without_repo@.len() == 0 {
            assert forall|i: int| 0 <= i < it.index@ + 1 implies repo_of((#[trigger] paths@[i])@) is Some by { }
        }
    }
//@at before let repo_path
    let ghost vx_id = repo.id();
//@at after let repo_path
    proof { reveal_strlit(""); axiom_workdir(vx_id); axiom_no_path(repo_path@); assert(repo_of(repo_path@) is None || repo_of(repo_path@) == Some(vx_id)); assert(repo_to_paths.keys().insert(repo_path@).contains(repo_path@)); }
//@at before loop 1
    let ghost keys = repo_to_paths.keys();
    let vx_repos = repo_to_paths.vx_items();
    let ghost its = vx_repos@;
//@loop 1 it2
    invariant
        !config.allow_no_vcs, !config.allow_dirty, in_repo(paths@, paths@.len() as int), covered(paths@, paths@.len() as int, keys),
        it2.seq() == its,
        forall|k: Seq<char>| keys.contains(k) ==> exists|i: int| 0 <= i < its.len() && (#[trigger] its[i]).0@ == k,
        all_dirty_files@.len() == 0 ==> forall|j: int| 0 <= j < it2.index@ ==> repo_of((#[trigger] its[j]).0@) is Some && !dirty(repo_of(its[j].0@)->0),
        all_dirty_files@.len() > 0 ==> !config.allow_dirty,
//@at loop 1 start
    let ghost vx_n0 = all_dirty_files@.len();
//@loop 2 it3
    invariant
        it3.seq().len() == vx_st.e().len(), forall|j: int| 0 <= j < vx_st.e().len() ==> *(#[trigger] it3.seq()[j]) == vx_st.e()[j],
        all_dirty_files@.len() >= vx_n0,
        all_dirty_files@.len() == 0 ==> forall|j: int| 0 <= j < it3.index@ ==> (#[trigger] vx_st.e()[j]).st() == git2::Status::CURRENT,
//@loop 3 -
//@at after loop 1
    proof {
        if all_dirty_files@.len() == 0 {
            assert forall|i: int| 0 <= i < paths@.len() && repo_of((#[trigger] paths@[i])@) is Some implies !dirty(repo_of(paths@[i]@)->0) by {
                let w = choose|w: Seq<char>| #[trigger] keys.contains(w) && (repo_of(w) is None || repo_of(w) == repo_of(paths@[i]@));
                let q = choose|q: int| 0 <= q < its.len() && (#[trigger] its[q]).0@ == w;
                assert(repo_of(its[q].0@) is Some);
            }
        }
    }
//@end

// ---- nothing is written unless the guard has accepted the paths ----
#[verifier::external_body]
pub struct PackageAnalysis { e: () }
#[verifier::external_body]
pub struct Diagnostic { e: () }
pub type Checked = (String, Result<Vec<Diagnostic>>);
pub type Arc<T> = T;
pub fn vx_arc<T>(x: T) -> (r: Arc<T>) ensures r == x { x }
#[verifier::external_body]
pub fn vx_arc_clone<T>(x: &Arc<T>) -> (r: Arc<T>) ensures r == *x { unimplemented!() }
#[verifier::external_body]
pub fn relativize_path(p: &PathBuf) -> (r: String) ensures r@ == p.rel() { unimplemented!() }
#[verifier::external_body]
pub fn vx_pathbuf(p: &String) -> (r: PathBuf) { unimplemented!() }
#[verifier::external_body]
pub fn vx_has_rmd_extension(p: &PathBuf) -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn compute_package_analysis(paths: &Vec<PathBuf>, config: &Config) -> (r: PackageAnalysis) { unimplemented!() }
#[verifier::external_body]
pub fn get_checks(contents: &str, file: &PathBuf, config: &Config, pkg: &PackageAnalysis) -> (r: Result<Vec<Diagnostic>>) { unimplemented!() }
#[verifier::external_body]
pub fn apply_fixes(fixes: &Vec<Diagnostic>, contents: &str) -> (r: (bool, String)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_read(p: &String) -> (r: Result<String>) { unimplemented!() }
/// the user agreed to changes in the files of this run
pub open spec fn may(c: Config) -> bool {
    c.allow_no_vcs || ((forall|i: int| 0 <= i < c.paths@.len() ==> repo_of((#[trigger] c.paths@[i]).rel()) is Some)
        && (c.allow_dirty || forall|i: int| 0 <= i < c.paths@.len() ==> !dirty(repo_of((#[trigger] c.paths@[i]).rel())->0)))
}
/// fs::write, the only call that changes a file
#[verifier::external_body]
pub fn vx_write(p: &String, text: String, Ghost(config): Ghost<Config>) -> (r: Result<()>) requires may(config) { unimplemented!() }
//@count crates/jarl-core/src/check.rs `fs::write(` 1
//@fn crates/jarl-core/src/check.rs lint_only
//@subst `Result<Vec<Diagnostic>, anyhow::Error>` => `Result<Vec<Diagnostic>>`
//@subst `fs::read_to_string(Path::new(&path)).with_context(|| format!("Failed to read file: {path}"))` => `vx_read(&path)`
//@subst `&PathBuf::from(&path)` => `&vx_pathbuf(&path)`
//@subst `.with_context(|| format!("Failed to get checks for file: {path}"))` => ``
//@end
//@fn crates/jarl-core/src/check.rs lint_fix attr=#[verifier::exec_allows_no_decreases_clause]
//@subst `Result<Vec<Diagnostic>, anyhow::Error>` => `Result<Vec<Diagnostic>>`
//@subst `crate::fs::has_rmd_extension(path)` => `vx_has_rmd_extension(path)`
//@subst `fs::read_to_string(Path::new(&path)).with_context(|| format!("Failed to read file: {path}",))` => `vx_read(&vx_path)`
//@subst `&PathBuf::from(&path)` => `&vx_pathbuf(&vx_path)`
//@subst `.with_context(|| format!("Failed to get checks for file: {path}",))` => ``
//@subst `fs::write(&path, fixed_text).with_context(|| format!("Failed to write file: {path}",))` => `vx_write(&vx_path, fixed_text, Ghost(config))`
//@subst `let path =` => `let vx_path =`
//@contract
    requires may(config),
//@loop 0 -
    invariant may(config),
//@end
//@fn crates/jarl-core/src/check.rs check_path
//@subst `Result<Vec<Diagnostic>, anyhow::Error>` => `Result<Vec<Diagnostic>>`
//@contract
    requires config.apply_fixes || config.apply_unsafe_fixes ==> may(config),
//@end
//@fn crates/jarl-core/src/check.rs check
//@subst `Result<Vec<Diagnostic>, anyhow::Error>` => `Result<Vec<Diagnostic>>`
//@subst `config.paths.iter().map(relativize_path).collect()` => `config.paths.iter().map(|p: &PathBuf| relativize_path(p))`
//@subst `return vec![(first_path, Err(e))];` => `let mut vx_v = Vec::new(); vx_v.push((first_path, Err(e))); return vx_v;`
//@subst `Arc::new(` => `vx_arc(`
//@subst `Arc::clone(` => `vx_arc_clone(`
//@subst `.par_iter()` => `.iter()`
//@subst `.collect()` => ``
//@closure 0 (p: &PathBuf) -> o: String
    ensures o@ == p.rel()
//@closure 1 (file: &PathBuf) -> o: Checked
    ensures o.0@ == file.rel()
//@ret r
//@contract
    ensures
        (config.apply_fixes || config.apply_unsafe_fixes) && !may(config) ==> r@.len() == 1 && r@[0].1 is Err,
        !(config.apply_fixes || config.apply_unsafe_fixes) ==> r@.len() == config.paths@.len(),
//@at after let path_strings
    proof {
        assert forall|i: int| 0 <= i < config.paths@.len() implies (#[trigger] path_strings@[i])@ == config.paths@[i].rel() by { assert(at_hand(config.paths@[i])); }
        if consent(path_strings@, &config) {
            assert forall|i: int| 0 <= i < config.paths@.len() && !config.allow_no_vcs implies repo_of((#[trigger] config.paths@[i]).rel()) is Some by { assert(path_strings@[i]@ == config.paths@[i].rel()); }
            assert forall|i: int| 0 <= i < config.paths@.len() && !config.allow_no_vcs && !config.allow_dirty implies !dirty(repo_of((#[trigger] config.paths@[i]).rel())->0) by { assert(path_strings@[i]@ == config.paths@[i].rel()); }
            assert(may(config));
        } else if may(config) {
            assert forall|i: int| 0 <= i < path_strings@.len() && !config.allow_no_vcs implies repo_of((#[trigger] path_strings@[i])@) is Some by { assert(path_strings@[i]@ == config.paths@[i].rel()); }
            assert forall|i: int| 0 <= i < path_strings@.len() && !config.allow_no_vcs && !config.allow_dirty implies !dirty(repo_of((#[trigger] path_strings@[i])@)->0) by { assert(path_strings@[i]@ == config.paths@[i].rel()); }
            assert(false);
        }
    }
//@end
}
fn main() {}
