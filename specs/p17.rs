// P17: the nearest jarl.toml
use vstd::prelude::*;
verus! {
mod vx {
use vstd::prelude::*;
//@include vlib.rs
//@include vlib_str.rs
//@include vlib_iter.rs
//@include vlib_set.rs
}
use vx::*;
use vstd::string::*;
broadcast use vx_axioms;
//@methods iter map ancestors

// ---- paths and files (TRUSTED: std::path, path_absolutize, ignore, etcetera, serde/toml) ----
#[verifier::external_body]
pub struct Path { e: () }
#[verifier::external_body]
pub struct PathBuf { e: () }
impl Path { pub uninterp spec fn id(&self) -> Seq<char>; }
impl PathBuf { pub uninterp spec fn id(&self) -> Seq<char>; }
impl VxText for Path { open spec fn t(&self) -> Seq<char> { self.id() } }
impl VxText for PathBuf { open spec fn t(&self) -> Seq<char> { self.id() } }
pub trait VxAsPath { spec fn pid(&self) -> Seq<char>; fn as_ref(&self) -> (r: &Path) ensures r.id() == self.pid(); }
/// the path of a name in a directory
pub uninterp spec fn join(d: Seq<char>, name: Seq<char>) -> Seq<char>;
/// is there a file (or a directory) at this path
pub uninterp spec fn is_file(p: Seq<char>) -> bool;
pub uninterp spec fn is_dir(p: Seq<char>) -> bool;
/// the path, its parent, the parent of that, up to the root
pub uninterp spec fn anc(p: Seq<char>) -> Seq<Seq<char>>;
/// std::path::Path::ancestors
#[verifier::external_body]
pub proof fn axiom_anc(p: Seq<char>)
    ensures anc(p).len() > 0, anc(p)[0] == p, forall|i: int| 0 <= i < anc(p).len() ==> anc(#[trigger] anc(p)[i]) == anc(p).subrange(i, anc(p).len() as int) { }
impl Path {
    #[verifier::external_body]
    pub fn join(&self, n: &str) -> (r: PathBuf) ensures r.id() == join(self.id(), n@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_ancestors(&self) -> (r: Vec<&Path>) ensures r@.len() == anc(self.id()).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).id() == anc(self.id())[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: PathBuf) ensures r.id() == self.id() { unimplemented!() }
}
impl PathBuf {
    #[verifier::external_body]
    pub fn is_file(&self) -> (r: bool) ensures r == is_file(self.id()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) ensures r == is_dir(self.id()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_ancestors(&self) -> (r: Vec<&Path>) ensures r@.len() == anc(self.id()).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).id() == anc(self.id())[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn as_path(&self) -> (r: &Path) ensures r.id() == self.id() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: PathBuf) ensures r.id() == self.id() { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_same_path<A: VxText + ?Sized, B: VxText + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.t() == b.t()) { unimplemented!() }

// ---- what the property says ----
pub open spec fn plain_name() -> Seq<char> { "jarl.toml"@ }
pub open spec fn dot_name() -> Seq<char> { ".jarl.toml"@ }
/// the configuration file of a directory, the visible one first
pub open spec fn toml_in(d: Seq<char>) -> Option<Seq<char>> {
    if is_file(join(d, plain_name())) { Some(join(d, plain_name())) } else if is_file(join(d, dot_name())) { Some(join(d, dot_name())) } else { None }
}
/// the closest directory in a[i..] that has one, not looking further than `stop`
pub open spec fn nearest_from(a: Seq<Seq<char>>, stop: Option<Seq<char>>, i: int) -> Option<Seq<char>>
    decreases a.len() - i,
{
    if i < 0 || i >= a.len() { None } else if toml_in(a[i]) is Some { Some(a[i]) } else if stop == Some(a[i]) { None } else { nearest_from(a, stop, i + 1) }
}
pub open spec fn nearest(p: Seq<char>, stop: Option<Seq<char>>) -> Option<Seq<char>> { nearest_from(anc(p), stop, 0) }
/// no directory closer than the nearest one has a configuration file
pub proof fn p17_nearest_is_nearest(p: Seq<char>, i: int, stop: Option<Seq<char>>)
    requires 0 <= i < anc(p).len(), toml_in(anc(p)[i]) is Some, nearest(p, stop) is Some,
    ensures exists|j: int| 0 <= j <= i && anc(p)[j] == nearest(p, stop)->0 && toml_in(anc(p)[j]) is Some && forall|k: int| 0 <= k < j ==> toml_in(#[trigger] anc(p)[k]) is None,
{ lemma_nearest_first(anc(p), stop, 0, i); }
proof fn lemma_nearest_first(a: Seq<Seq<char>>, stop: Option<Seq<char>>, s: int, i: int)
    requires 0 <= s <= i < a.len(), toml_in(a[i]) is Some, nearest_from(a, stop, s) is Some,
    ensures exists|j: int| s <= j <= i && a[j] == nearest_from(a, stop, s)->0 && toml_in(a[j]) is Some && forall|k: int| s <= k < j ==> toml_in(#[trigger] a[k]) is None,
    decreases a.len() - s,
{
    if toml_in(a[s]) is Some { assert(a[s] == nearest_from(a, stop, s)->0); }
    else { lemma_nearest_first(a, stop, s + 1, i); }
}
proof fn lemma_sub(a: Seq<Seq<char>>, stop: Option<Seq<char>>, i: int, j: int)
    requires 0 <= i, 0 <= j, i + j <= a.len(),
    ensures nearest_from(a.subrange(i, a.len() as int), stop, j) == nearest_from(a, stop, i + j),
    decreases a.len() - i - j,
{ if i + j < a.len() { lemma_sub(a, stop, i, j + 1); } }
proof fn lemma_up(p: Seq<char>, stop: Option<Seq<char>>, i: int)
    requires 0 <= i < anc(p).len(),
    ensures nearest(anc(p)[i], stop) == nearest_from(anc(p), stop, i),
{ axiom_anc(p); lemma_sub(anc(p), stop, i, 0); }
/// before anything is found, looking from any of the first ancestors is looking from the k-th
proof fn lemma_same_nearest(p: Seq<char>, stop: Option<Seq<char>>, k: int, j: int)
    requires 0 <= j <= k <= anc(p).len(), j < anc(p).len(), forall|i: int| 0 <= i < k ==> toml_in(#[trigger] anc(p)[i]) is None && stop != Some(anc(p)[i]),
    ensures nearest(anc(p)[j], stop) == nearest_from(anc(p), stop, k),
    decreases k - j,
{
    lemma_up(p, stop, j);
    if j < k {
        assert(toml_in(anc(p)[j]) is None);
        if j + 1 < anc(p).len() { lemma_same_nearest(p, stop, k, j + 1); lemma_up(p, stop, j + 1); }
    }
}

// ---- one directory, and upwards from a path ----
//@fn crates/jarl-core/src/toml.rs find_jarl_toml_in_directory
//@subst `AsRef<Path>` => `VxAsPath`
//@ret r
//@contract
    ensures match r { Some(t) => toml_in(path.pid()) == Some(t.id()), None => toml_in(path.pid()) is None },
//@end
//@fn crates/jarl-core/src/toml.rs find_jarl_toml
//@subst `AsRef<Path>` => `VxAsPath`
//@ret r
//@contract
    ensures match nearest(path.pid(), None) { Some(d) => r is Some && toml_in(d) == Some(r->0.id()), None => r is None },
//@loop 0 it
    invariant
        it.seq().len() == anc(path.pid()).len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).id() == anc(path.pid())[i],
        nearest(path.pid(), None) == nearest_from(anc(path.pid()), None, it.index() as int),
//@end
impl<'a> VxAsPath for &'a Path { open spec fn pid(&self) -> Seq<char> { (*self).id() } #[verifier::external_body] fn as_ref(&self) -> (r: &Path) { unimplemented!() } }
impl VxAsPath for PathBuf { open spec fn pid(&self) -> Seq<char> { self.id() } #[verifier::external_body] fn as_ref(&self) -> (r: &Path) { unimplemented!() } }
impl<'a> VxAsPath for &'a PathBuf { open spec fn pid(&self) -> Seq<char> { (*self).id() } #[verifier::external_body] fn as_ref(&self) -> (r: &Path) { unimplemented!() } }

// ---- all the configuration files that matter for the given paths ----
pub struct Settings { pub x: u8 }
/// what the configuration file says (serde/toml; P18 for the options)
pub uninterp spec fn says(toml: Seq<char>, s: Settings) -> bool;
pub struct ParseTomlError { pub x: u8 }
pub struct TomlOptions { pub x: u8 }
pub uninterp spec fn read_as(toml: Seq<char>, o: TomlOptions) -> bool;
#[verifier::external_body]
pub fn parse_jarl_toml(p: &Path) -> (r: core::result::Result<TomlOptions, Error>) ensures r is Ok ==> read_as(p.id(), r->Ok_0) { unimplemented!() }
impl TomlOptions {
    #[verifier::external_body]
    pub fn vx_into_settings(self, root: &Path, toml: &Path) -> (r: Result<Settings>) requires read_as(toml.id(), self) ensures r is Ok ==> says(toml.id(), r->Ok_0) { unimplemented!() }
}
//@item crates/jarl-core/src/discovery.rs struct DiscoveredSettings
/// an entry is the configuration of its directory
pub open spec fn genuine(d: DiscoveredSettings) -> bool {
    d.config_path is Some && toml_in(d.directory.id()) == Some(d.config_path->0.id()) && says(d.config_path->0.id(), d.settings)
}
pub open spec fn all_genuine(v: Seq<DiscoveredSettings>) -> bool { forall|i: int| 0 <= i < v.len() ==> genuine(#[trigger] v[i]) }
pub open spec fn has_dir(v: Seq<DiscoveredSettings>, d: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).directory.id() == d }
pub open spec fn covers(v: Seq<DiscoveredSettings>, o: Option<Seq<char>>) -> bool { o is Some ==> has_dir(v, o->0) }
proof fn lemma_push(v: Seq<DiscoveredSettings>, d: DiscoveredSettings)
    ensures forall|x: Seq<char>| has_dir(v, x) ==> #[trigger] has_dir(v.push(d), x), has_dir(v.push(d), d.directory.id()),
        all_genuine(v) && genuine(d) ==> all_genuine(v.push(d)),
{
    assert(v.push(d)[v.len() as int] == d);
    assert forall|x: Seq<char>| has_dir(v, x) implies #[trigger] has_dir(v.push(d), x) by {
        let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).directory.id() == x; assert(v.push(d)[i] == v[i]);
    }
    assert forall|i: int| all_genuine(v) && genuine(d) && 0 <= i < v.push(d).len() implies genuine(#[trigger] v.push(d)[i]) by { if i < v.len() { assert(v.push(d)[i] == v[i]); } }
}
pub open spec fn more_dirs(a: Seq<DiscoveredSettings>, b: Seq<DiscoveredSettings>) -> bool { forall|x: Seq<char>| has_dir(a, x) ==> #[trigger] has_dir(b, x) }
/// the directories whose configuration is known
pub open spec fn known(s: ISet<Seq<char>>, v: Seq<DiscoveredSettings>) -> bool { forall|x: Seq<char>| s.contains(x) == has_dir(v, x) }

//@fn crates/jarl-core/src/discovery.rs parse_settings
//@subst `anyhow::Result<Settings>` => `Result<Settings>`
//@subst `.into_settings(root_directory)` => `.vx_into_settings(root_directory, toml)`
//@ret r
//@contract
    ensures r is Ok ==> says(toml.id(), r->Ok_0),
//@end
/// resolving a file to the configuration of the closest listed directory (air_workspace's PathResolver::resolve) gives the nearest one
pub open spec fn closest_listed(v: Seq<DiscoveredSettings>, a: Seq<Seq<char>>, i: int) -> Option<Seq<char>>
    decreases a.len() - i,
{ if i < 0 || i >= a.len() { None } else if has_dir(v, a[i]) { Some(a[i]) } else { closest_listed(v, a, i + 1) } }
proof fn lemma_closest(v: Seq<DiscoveredSettings>, a: Seq<Seq<char>>, k: int, i: int)
    requires 0 <= i, 0 <= k < a.len(), all_genuine(v),
        forall|j: int| 0 <= j < k && toml_in(#[trigger] a[j]) is Some ==> has_dir(v, a[j]),
        covers(v, nearest_from(a, None, k)),
        i > k ==> nearest_from(a, None, k) == nearest_from(a, None, i),
    ensures closest_listed(v, a, i) == nearest_from(a, None, i),
    decreases a.len() - i,
{
    if i < a.len() {
        if has_dir(v, a[i]) { let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j]).directory.id() == a[i]; assert(genuine(v[j])); }
        if toml_in(a[i]) is Some { assert(has_dir(v, a[i])); } else { lemma_closest(v, a, k, i + 1); }
    }
}
pub proof fn p17_file_gets_its_nearest(v: Seq<DiscoveredSettings>, f: Seq<char>, k: int)
    requires 0 <= k < anc(f).len(), all_genuine(v),
        // the given path is the k-th ancestor of the file; what lies between was walked
        forall|j: int| 0 <= j < k && toml_in(#[trigger] anc(f)[j]) is Some ==> has_dir(v, anc(f)[j]),
        covers(v, nearest(anc(f)[k], None)),
    ensures closest_listed(v, anc(f), 0) == nearest(f, None),
{ lemma_up(f, None, k); lemma_closest(v, anc(f), k, 0); }

/// the directory of the user's configuration (etcetera)
pub uninterp spec fn user_dir() -> Option<Seq<char>>;
#[verifier::external_body]
pub fn get_user_config_dir() -> (r: Option<PathBuf>) ensures match r { Some(d) => user_dir() == Some(d.id()), None => user_dir() is None } { unimplemented!() }
/// the path made absolute (path_absolutize)
pub uninterp spec fn absolute(p: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn vx_normalize_all<P: VxAsPath>(p: &[P]) -> (r: Vec<PathBuf>) ensures r@.len() == p@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).id() == absolute(p@[i].pid()) { unimplemented!() }
pub mod ignore {
use super::*;
pub struct WalkError { pub x: u8 }
#[verifier::external_body]
pub struct DirEntry { e: () }
#[verifier::external_body]
pub struct FileType { e: () }
impl FileType {
    pub uninterp spec fn dir(&self) -> bool;
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) ensures r == self.dir() { unimplemented!() }
}
impl DirEntry {
    pub uninterp spec fn id(&self) -> Seq<char>;
    pub uninterp spec fn ft(&self) -> Option<FileType>;
    pub open spec fn is_dir(&self) -> bool { self.ft() is Some && self.ft()->0.dir() }
    #[verifier::external_body]
    pub fn path(&self) -> (r: &Path) ensures r.id() == self.id() { unimplemented!() }
    #[verifier::external_body]
    pub fn file_type(&self) -> (r: Option<FileType>) ensures r == self.ft() { unimplemented!() }
}
pub struct Flags { pub hidden: bool, pub parents: bool, pub ignore: bool, pub git_ignore: bool, pub git_global: bool, pub git_exclude: bool }
#[verifier::external_body]
pub struct WalkBuilder { e: () }
/// what the walk meets
pub uninterp spec fn walk(root: Seq<char>, f: Flags) -> Seq<core::result::Result<DirEntry, WalkError>>;
impl WalkBuilder {
    pub uninterp spec fn root(&self) -> Seq<char>;
    pub uninterp spec fn flags(&self) -> Flags;
    #[verifier::external_body]
    pub fn new(p: &Path) -> (r: Self) ensures r.root() == p.id(), r.flags() == (Flags { hidden: true, parents: true, ignore: true, git_ignore: true, git_global: true, git_exclude: true }) { unimplemented!() }
    #[verifier::external_body]
    pub fn hidden(self, b: bool) -> (r: Self) ensures r.root() == self.root(), r.flags() == (Flags { hidden: b, ..self.flags() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn parents(self, b: bool) -> (r: Self) ensures r.root() == self.root(), r.flags() == (Flags { parents: b, ..self.flags() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn ignore(self, b: bool) -> (r: Self) ensures r.root() == self.root(), r.flags() == (Flags { ignore: b, ..self.flags() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn git_ignore(self, b: bool) -> (r: Self) ensures r.root() == self.root(), r.flags() == (Flags { git_ignore: b, ..self.flags() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn git_global(self, b: bool) -> (r: Self) ensures r.root() == self.root(), r.flags() == (Flags { git_global: b, ..self.flags() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn git_exclude(self, b: bool) -> (r: Self) ensures r.root() == self.root(), r.flags() == (Flags { git_exclude: b, ..self.flags() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn build(self) -> (r: Vec<core::result::Result<DirEntry, WalkError>>) ensures r@ == walk(self.root(), self.flags()) { unimplemented!() }
}
}
/// the walk that also finds the R files: everything but hidden and git-ignored entries
pub open spec fn met(root: Seq<char>) -> Seq<core::result::Result<ignore::DirEntry, ignore::WalkError>> {
    ignore::walk(root, ignore::Flags { hidden: true, parents: true, ignore: false, git_ignore: true, git_global: true, git_exclude: true })
}
pub open spec fn below_known(v: Seq<DiscoveredSettings>, root: Seq<char>, w: Seq<core::result::Result<ignore::DirEntry, ignore::WalkError>>, n: int) -> bool {
    forall|i: int| 0 <= i < n && (#[trigger] w[i]) is Ok && w[i]->Ok_0.is_dir() && w[i]->Ok_0.id() != root && toml_in(w[i]->Ok_0.id()) is Some ==> has_dir(v, w[i]->Ok_0.id())
}
pub trait VxIsNoneOr<T>: Sized {
    spec fn vx_o(&self) -> Option<T>;
    fn vx_is_none_or<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool)
        requires self.vx_o() is Some ==> call_requires(f, (self.vx_o()->0,)),
        ensures self.vx_o() is None ==> r, self.vx_o() is Some ==> call_ensures(f, (self.vx_o()->0,), r);
}
impl<T> VxIsNoneOr<T> for Option<T> {
    open spec fn vx_o(&self) -> Option<T> { *self }
    #[verifier::external_body]
    fn vx_is_none_or<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) { unimplemented!() }
}
//@methods iter map ancestors is_none_or

//@fn crates/jarl-core/src/discovery.rs discover_nested_settings
//@subst `anyhow::Result<()>` => `Result<()>`
//@subst `FxHashSet<PathBuf>` => `HashSet<PathBuf>`
//@subst `path == root` => `vx_same_path(path, root)`
//@subst `&toml` => `toml.as_path()`
//@closure 0 (ft: ignore::FileType) -> b: bool
    ensures b == !ft.dir()
//@ret r
//@contract
    requires known(old(already_found).texts(), old(discovered_settings)@), all_genuine(old(discovered_settings)@),
    ensures
        r is Ok ==> all_genuine(final(discovered_settings)@) && known(final(already_found).texts(), final(discovered_settings)@)
            && more_dirs(old(discovered_settings)@, final(discovered_settings)@)
            && below_known(final(discovered_settings)@, root.id(), met(root.id()), met(root.id()).len() as int),
//@loop 0 it
    invariant
        it.seq() == met(root.id()), all_genuine(discovered_settings@), known(already_found.texts(), discovered_settings@),
        more_dirs(old(discovered_settings)@, discovered_settings@),
        below_known(discovered_settings@, root.id(), met(root.id()), it.index() as int),
//@at loop 0 start
    let ghost v0 = discovered_settings@;
//@at loop 0 end
    proof { if discovered_settings@.len() > v0.len() { let d = discovered_settings@.last(); lemma_push(v0, d); assert(discovered_settings@ =~= v0.push(d)); } }
//@end
pub open spec fn settled(s: ISet<Seq<char>>, v: Seq<DiscoveredSettings>) -> bool { forall|x: Seq<char>| s.contains(x) ==> covers(v, #[trigger] nearest(x, user_dir())) }
/// the same, except for the ancestors just visited
pub open spec fn settled_but(s: ISet<Seq<char>>, v: Seq<DiscoveredSettings>, a: Seq<Seq<char>>, k: int) -> bool {
    forall|x: Seq<char>| s.contains(x) ==> covers(v, #[trigger] nearest(x, user_dir())) || exists|i: int| 0 <= i < k && a[i] == x
}
pub open spec fn nothing_in(a: Seq<Seq<char>>, k: int) -> bool { forall|i: int| 0 <= i < k ==> toml_in(#[trigger] a[i]) is None && user_dir() != Some(a[i]) }
/// visiting ends at ancestor k: everything seen is settled
proof fn lemma_settle(s: ISet<Seq<char>>, v: Seq<DiscoveredSettings>, p: Seq<char>, k: int)
    requires 0 <= k <= anc(p).len(), settled_but(s, v, anc(p), k), nothing_in(anc(p), k), covers(v, nearest_from(anc(p), user_dir(), k)),
    ensures settled(s, v), covers(v, nearest(p, user_dir())), nearest(p, user_dir()) == nearest_from(anc(p), user_dir(), k),
{
    axiom_anc(p);
    lemma_same_nearest(p, user_dir(), k, 0);
    assert forall|x: Seq<char>| s.contains(x) implies covers(v, #[trigger] nearest(x, user_dir())) by {
        if exists|i: int| 0 <= i < k && anc(p)[i] == x { let i = choose|i: int| 0 <= i < k && anc(p)[i] == x; lemma_same_nearest(p, user_dir(), k, i); }
    }
}
proof fn lemma_distinct(p: Seq<char>, i: int, j: int)
    requires 0 <= i < j < anc(p).len(),
    ensures anc(p)[i] != anc(p)[j],
{ axiom_anc(p); if anc(p)[i] == anc(p)[j] { assert(anc(anc(p)[i]).len() == anc(p).len() - i); assert(anc(anc(p)[j]).len() == anc(p).len() - j); } }
/// what the result owes to one of the given paths
pub open spec fn served(v: Seq<DiscoveredSettings>, p: Seq<char>) -> bool {
    covers(v, nearest(p, user_dir())) && (nearest(p, user_dir()) is None && user_dir() is Some && toml_in(user_dir()->0) is Some ==> has_dir(v, user_dir()->0))
}
pub open spec fn walked(v: Seq<DiscoveredSettings>, p: Seq<char>) -> bool { is_dir(p) ==> below_known(v, p, met(p), met(p).len() as int) }
//@fn crates/jarl-core/src/discovery.rs discover_settings
//@subst `AsRef<Path>` => `VxAsPath`
//@subst `anyhow::Result<Vec<DiscoveredSettings>>` => `Result<Vec<DiscoveredSettings>>`
//@subst `let paths: Vec<PathBuf> = paths.iter().map(fs::normalize_path).collect();` => `let vx_paths: Vec<PathBuf> = vx_normalize_all(paths);`
//@subst `&paths` => `&vx_paths`
//@subst `let mut seen = FxHashSet::default();` => `let mut seen: HashSet<&Path> = HashSet::new();`
//@subst `ancestor == config_dir` => `vx_same_path(ancestor, config_dir)`
//@subst `&toml` => `toml.as_path()`
//@subst `parse_settings(toml.as_path(), config_dir)` => `parse_settings(toml.as_path(), config_dir.as_path())`
//@subst `find_jarl_toml_in_directory(config_dir)` => `find_jarl_toml_in_directory(config_dir.as_path())`
//@subst `let mut already_found: FxHashSet<PathBuf> = discovered_settings.iter().map(|ds| ds.directory.clone()).collect();` => `let vx_dirs = discovered_settings.iter().map(|ds| ds.directory.clone()); let mut already_found: HashSet<PathBuf> = HashSet::from_iter(vx_dirs);`
//@subst `discover_nested_settings(path, ` => `discover_nested_settings(path.as_path(), `
//@closure 0 (ds: &DiscoveredSettings) -> b: PathBuf
    ensures b.id() == ds.directory.id()
//@ret r
//@contract
    ensures r is Ok ==> all_genuine(r->Ok_0@)
        && (forall|i: int| 0 <= i < paths@.len() ==> served(r->Ok_0@, absolute((#[trigger] paths@[i]).pid())))
        && (forall|i: int| 0 <= i < paths@.len() ==> walked(r->Ok_0@, absolute((#[trigger] paths@[i]).pid()))),
//@loop 0 it
    invariant
        it.seq().len() == vx_paths@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == vx_paths@[i],
        match user_config_dir { Some(d) => user_dir() == Some(d.id()), None => user_dir() is None },
        all_genuine(discovered_settings@), settled(seen.texts(), discovered_settings@),
        forall|i: int| 0 <= i < it.index() ==> served(discovered_settings@, (#[trigger] vx_paths@[i]).id()),
//@at loop 0 start
    let ghost v0 = discovered_settings@;
    let ghost p = path.id();
    let ghost s0 = seen.texts();
//@loop 1 up
    invariant_except_break
        !found_config, nothing_in(anc(p), up.index() as int), settled_but(seen.texts(), discovered_settings@, anc(p), up.index() as int), discovered_settings@ == v0,
        up.index() == anc(p).len() ==> settled(seen.texts(), v0) && covers(v0, nearest(p, user_dir())),
    invariant
        p == path.id(), up.seq().len() == anc(p).len(), forall|i: int| 0 <= i < up.seq().len() ==> (#[trigger] up.seq()[i]).id() == anc(p)[i],
        match user_config_dir { Some(d) => user_dir() == Some(d.id()), None => user_dir() is None },
        all_genuine(v0),
    ensures
        settled(seen.texts(), discovered_settings@), covers(discovered_settings@, nearest(p, user_dir())), all_genuine(discovered_settings@), more_dirs(v0, discovered_settings@),
        found_config ==> nearest(p, user_dir()) is Some,
//@at loop 1 start
    let ghost s1 = seen.texts();
    let ghost k = up.index() as int;
    assert(ancestor.id() == anc(p)[k]);
//@at before #0 `break;`
    proof {
        if exists|i: int| 0 <= i < k && anc(p)[i] == anc(p)[k] { let i = choose|i: int| 0 <= i < k && anc(p)[i] == anc(p)[k]; lemma_distinct(p, i, k); }
        lemma_up(p, user_dir(), k);
        assert(s1.contains(anc(p)[k]));
        assert(seen.texts() =~= s1);
        lemma_settle(seen.texts(), v0, p, k);
    }
//@at before #1 `break;`
    proof {
        let d = discovered_settings@.last();
        lemma_push(v0, d);
        assert(discovered_settings@ =~= v0.push(d));
        lemma_up(p, user_dir(), k);
        assert(nearest_from(anc(p), user_dir(), k) == Some(anc(p)[k]));
        assert forall|x: Seq<char>| seen.texts().contains(x) implies covers(discovered_settings@, #[trigger] nearest(x, user_dir())) || exists|i: int| 0 <= i < k && anc(p)[i] == x by {
            if x != anc(p)[k] { assert(s1.contains(x)); }
        }
        lemma_settle(seen.texts(), discovered_settings@, p, k);
    }
//@at before #2 `break;`
    proof {
        lemma_up(p, user_dir(), k);
        assert(nearest_from(anc(p), user_dir(), k) is None);
        assert forall|x: Seq<char>| seen.texts().contains(x) implies covers(v0, #[trigger] nearest(x, user_dir())) || exists|i: int| 0 <= i < k && anc(p)[i] == x by {
            if x != anc(p)[k] { assert(s1.contains(x)); }
        }
        lemma_settle(seen.texts(), v0, p, k);
    }
//@at loop 1 end
    proof {
        assert forall|x: Seq<char>| seen.texts().contains(x) implies covers(v0, #[trigger] nearest(x, user_dir())) || exists|i: int| 0 <= i < k + 1 && anc(p)[i] == x by {
            if x != anc(p)[k] { assert(s1.contains(x)); if !covers(v0, nearest(x, user_dir())) { let i = choose|i: int| 0 <= i < k && anc(p)[i] == x; assert(0 <= i < k + 1); } }
        }
        if k + 1 == anc(p).len() { lemma_settle(seen.texts(), v0, p, k + 1); }
    }
//@at before loop 1
    proof { axiom_anc(p); }
//@at after loop 1
    let ghost v1 = discovered_settings@;
    let ghost s2 = seen.texts();
//@at loop 0 end
    proof {
        if discovered_settings@.len() > v1.len() { let d = discovered_settings@.last(); lemma_push(v1, d); assert(discovered_settings@ =~= v1.push(d)); }
        else { assert(discovered_settings@ =~= v1); }
        if user_dir() is Some {
            let c = user_dir()->0;
            axiom_anc(c);
            assert(nearest(c, user_dir()) == (if toml_in(c) is Some { Some(c) } else { None }));
            assert forall|x: Seq<char>| seen.texts().contains(x) implies covers(discovered_settings@, #[trigger] nearest(x, user_dir())) by { if x != c { assert(s2.contains(x)); } }
        } else { assert(seen.texts() =~= s2); }
        assert(served(discovered_settings@, p));
    }
//@loop 2 it
    invariant
        it.seq().len() == vx_paths@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == vx_paths@[i],
        all_genuine(discovered_settings@), known(already_found.texts(), discovered_settings@),
        forall|i: int| 0 <= i < vx_paths@.len() ==> served(discovered_settings@, (#[trigger] vx_paths@[i]).id()),
        forall|i: int| 0 <= i < it.index() ==> walked(discovered_settings@, (#[trigger] vx_paths@[i]).id()),
//@at after loop 2
    proof {
        assert forall|i: int| 0 <= i < paths@.len() implies served(discovered_settings@, absolute((#[trigger] paths@[i]).pid())) && walked(discovered_settings@, absolute(paths@[i].pid())) by { assert(vx_paths@[i].id() == absolute(paths@[i].pid())); }
    }
//@at before loop 2
    proof {
        assert forall|x: Seq<char>| already_found.texts().contains(x) == has_dir(discovered_settings@, x) by {
            if texts_of(vx_dirs@).contains(x) { let i = choose|i: int| 0 <= i < vx_dirs@.len() && (#[trigger] vx_dirs@[i]).t() == x; assert(discovered_settings@[i].directory.id() == x); }
            if has_dir(discovered_settings@, x) { let i = choose|i: int| 0 <= i < discovered_settings@.len() && (#[trigger] discovered_settings@[i]).directory.id() == x; assert(vx_dirs@[i].t() == x); }
        }
    }
//@end
// ---- each file is checked with the configuration it resolves to ----
pub struct ArgsConfig { pub x: u8 }
pub struct Diagnostic { pub x: u8 }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct PathResolverItem<T> { e: core::marker::PhantomData<T> }
impl<T> PathResolverItem<T> {
    pub uninterp spec fn dir(&self) -> Seq<char>;
    pub uninterp spec fn val(&self) -> T;
    #[verifier::external_body]
    pub fn path(&self) -> (r: &Path) ensures r.id() == self.dir() { unimplemented!() }
    #[verifier::external_body]
    pub fn value(&self) -> (r: &T) ensures *r == self.val() { unimplemented!() }
}
/// air_workspace's PathResolver (TRUSTED): a list of items with different directories
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct PathResolver<T> { e: core::marker::PhantomData<T> }
impl<T> PathResolver<T> {
    pub uninterp spec fn its(&self) -> Seq<PathResolverItem<T>>;
    pub open spec fn wf(&self) -> bool {
        &&& forall|i: int, j: int| 0 <= i < j < self.its().len() ==> (#[trigger] self.its()[i]).dir() != (#[trigger] self.its()[j]).dir()
        &&& forall|f: Seq<char>| #[trigger] self.closest(f) is Some ==> self.its().contains(self.closest(f)->0)
    }
    /// the item of the closest directory
    pub uninterp spec fn closest(&self, f: Seq<char>) -> Option<PathResolverItem<T>>;
    #[verifier::external_body]
    pub fn resolve(&self, p: &PathBuf) -> (r: Option<&PathResolverItem<T>>)
        ensures match r { Some(i) => self.closest(p.id()) == Some(*i) && self.its().contains(*i), None => self.closest(p.id()) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn items(&self) -> (r: &Vec<PathResolverItem<T>>) ensures r@ == self.its() { unimplemented!() }
}
pub open spec fn settings_for(rs: PathResolver<Settings>, f: Seq<char>) -> Option<Settings> { match rs.closest(f) { Some(i) => Some(i.val()), None => None } }
/// HashMap<Option<PathBuf>, Vec<PathBuf>> (TRUSTED stub)
#[verifier::external_body]
pub struct VxGroups { e: () }
pub open spec fn key_of(k: Option<PathBuf>) -> Option<Seq<char>> { match k { Some(p) => Some(p.id()), None => None } }
impl VxGroups {
    pub uninterp spec fn m(&self) -> IMap<Option<Seq<char>>, Seq<PathBuf>>;
    pub open spec fn at(&self, k: Option<Seq<char>>) -> Seq<PathBuf> { if self.m().contains_key(k) { self.m()[k] } else { Seq::empty() } }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m() == IMap::<Option<Seq<char>>, Seq<PathBuf>>::empty() { unimplemented!() }
    /// entry(k).or_default().push(p)
    #[verifier::external_body]
    pub fn vx_push(&mut self, k: Option<PathBuf>, p: PathBuf) ensures final(self).m() == old(self).m().insert(key_of(k), old(self).at(key_of(k)).push(p)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_pairs(self) -> (r: Vec<(Option<PathBuf>, Vec<PathBuf>)>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self.m().contains_key(key_of((#[trigger] r@[i]).0)) && self.m()[key_of(r@[i].0)] == r@[i].1@,
            forall|k: Option<Seq<char>>| #[trigger] self.m().contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && key_of((#[trigger] r@[i]).0) == k { unimplemented!() }
}
#[verifier::external_body]
pub struct Config { e: () }
impl Config { pub uninterp spec fn of(&self) -> Option<Settings>; pub uninterp spec fn files(&self) -> Seq<PathBuf>; }
/// config.rs: build_config (P06 and others)
#[verifier::external_body]
pub fn build_config(c: &ArgsConfig, s: Option<&Settings>, p: Vec<PathBuf>) -> (r: Result<Config>)
    ensures r is Ok ==> r->Ok_0.files() == p@ && r->Ok_0.of() == (match s { Some(x) => Some(*x), None => None }) { unimplemented!() }
#[verifier::external_body]
pub struct VxChecked { e: () }
impl VxChecked { pub uninterp spec fn file(&self) -> Seq<char>; pub uninterp spec fn with(&self) -> Option<Settings>; }
/// check.rs: check, one result for each file, found with that configuration
#[verifier::external_body]
pub fn vx_check(c: Config) -> (r: Vec<VxChecked>)
    ensures forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).with() == c.of() && exists|j: int| 0 <= j < c.files().len() && (#[trigger] c.files()[j]).id() == r@[i].file(),
        forall|j: int| 0 <= j < c.files().len() ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).file() == (#[trigger] c.files()[j]).id() { unimplemented!() }
pub trait VxExtend<T> { fn vx_extend(&mut self, o: Vec<T>); }
impl<T> VxExtend<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_extend(&mut self, o: Vec<T>) ensures final(self)@ == old(self)@ + o@, final(self)@.subrange(old(self)@.len() as int, final(self)@.len() as int) == o@ { unimplemented!() }
}
pub trait VxOptMap<T>: Sized {
    spec fn vx_om(&self) -> Option<T>;
    fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>)
        requires self.vx_om() is Some ==> call_requires(f, (self.vx_om()->0,)),
        ensures match self.vx_om() { Some(x) => r is Some && call_ensures(f, (x,), r->0), None => r is None };
}
impl<T> VxOptMap<T> for Option<T> {
    open spec fn vx_om(&self) -> Option<T> { *self }
    fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>) { match self { Some(x) => Some(f(x)), None => None } }
}
pub trait VxFindItem<'a, T>: Sized {
    spec fn vx_f(&self) -> Seq<&'a T>;
    fn vx_find<F: Fn(&&'a T) -> bool>(self, f: F) -> (r: Option<&'a T>)
        requires forall|i: int| 0 <= i < self.vx_f().len() ==> call_requires(f, (&#[trigger] self.vx_f()[i],)),
        ensures self.vx_f().len() >= 0, match r {
            Some(x) => exists|i: int| 0 <= i < self.vx_f().len() && #[trigger] self.vx_f()[i] == x && call_ensures(f, (&self.vx_f()[i],), true) && forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] self.vx_f()[j],), false),
            None => forall|i: int| 0 <= i < self.vx_f().len() ==> call_ensures(f, (&#[trigger] self.vx_f()[i],), false),
        };
}
impl<'a, T> VxFindItem<'a, T> for Vec<&'a T> {
    open spec fn vx_f(&self) -> Seq<&'a T> { self@ }
    #[verifier::external_body]
    fn vx_find<F: Fn(&&'a T) -> bool>(self, f: F) -> (r: Option<&'a T>) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_as_deref(p: &Option<PathBuf>) -> (r: Option<&Path>) ensures match *p { Some(x) => r is Some && r->0.id() == x.id(), None => r is None } { unimplemented!() }
//@methods iter find extend

/// the configuration that the file resolves to (by the directory under which it was grouped)
pub open spec fn right_config(rs: PathResolver<Settings>, f: Seq<char>, s: Option<Settings>) -> bool { s == settings_for(rs, f) }
pub open spec fn dir_of(o: Option<PathResolverItem<Settings>>) -> Option<Seq<char>> { match o { Some(i) => Some(i.dir()), None => None } }
/// the first n files are grouped, each under its own directory
pub open spec fn grouped(rs: PathResolver<Settings>, g: VxGroups, p: Seq<PathBuf>, n: int) -> bool {
    &&& forall|k: Option<Seq<char>>, i: int| #[trigger] g.m().contains_key(k) && 0 <= i < g.m()[k].len() ==> dir_of(rs.closest((#[trigger] g.m()[k][i]).id())) == k
    &&& forall|k: Option<Seq<char>>| #[trigger] g.m().contains_key(k) && k is Some ==> exists|i: int| 0 <= i < rs.its().len() && (#[trigger] rs.its()[i]).dir() == k->0
    &&& forall|j: int| 0 <= j < n ==> in_group(rs, g, #[trigger] p[j])
    &&& forall|k: Option<Seq<char>>, i: int| #[trigger] g.m().contains_key(k) && 0 <= i < g.m()[k].len() ==> given(p, (#[trigger] g.m()[k][i]).id())
}
pub open spec fn given(p: Seq<PathBuf>, f: Seq<char>) -> bool { exists|j: int| 0 <= j < p.len() && (#[trigger] p[j]).id() == f }
pub open spec fn has_result(r: Seq<VxChecked>, f: Seq<char>) -> bool { exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).file() == f }
proof fn lemma_group(rs: PathResolver<Settings>, g: VxGroups, h: VxGroups, k: Option<Seq<char>>, f: PathBuf, p: Seq<PathBuf>, n: int)
    requires grouped(rs, g, p, n), 0 <= n < p.len(), p[n] == f, k == dir_of(rs.closest(f.id())), h.m() == g.m().insert(k, g.at(k).push(f)),
        k is Some ==> exists|i: int| 0 <= i < rs.its().len() && (#[trigger] rs.its()[i]).dir() == k->0,
    ensures grouped(rs, h, p, n + 1),
{
    assert(h.m()[k][g.at(k).len() as int].id() == f.id());
    assert(given(p, f.id()));
    assert(in_group(rs, h, f));
    assert forall|j: int| 0 <= j < n + 1 implies in_group(rs, h, #[trigger] p[j]) by {
        if j < n {
            let kj = dir_of(rs.closest(p[j].id()));
            assert(in_group(rs, g, p[j]));
            let i = choose|i: int| 0 <= i < g.m()[kj].len() && (#[trigger] g.m()[kj][i]).id() == p[j].id();
            assert(h.m()[kj][i].id() == p[j].id());
        }
    }
    assert forall|x: Option<Seq<char>>, i: int| #[trigger] h.m().contains_key(x) && 0 <= i < h.m()[x].len() implies dir_of(rs.closest((#[trigger] h.m()[x][i]).id())) == x && given(p, h.m()[x][i].id()) by {
        if x == k { if i < g.at(k).len() { assert(g.m().contains_key(k)); assert(h.m()[x][i] == g.m()[k][i]); } } else { assert(h.m()[x] == g.m()[x]); assert(g.m()[x][i] == h.m()[x][i]); }
    }
}
pub open spec fn in_group(rs: PathResolver<Settings>, g: VxGroups, f: PathBuf) -> bool {
    let k = dir_of(rs.closest(f.id()));
    g.m().contains_key(k) && exists|i: int| 0 <= i < g.m()[k].len() && (#[trigger] g.m()[k][i]).id() == f.id()
}
//@fn crates/jarl/src/commands/check.rs check
//@sig fn check(resolver: &PathResolver<Settings>, paths: Vec<PathBuf>, check_config: ArgsConfig) -> Result<Vec<VxChecked>>
//@from `let mut groups`
//@upto `let mut all_errors`
//@subst `HashMap<Option<PathBuf>, Vec<PathBuf>>` => `VxGroups`
//@subst `HashMap::new()` => `VxGroups::new()`
//@subst `groups.entry(key).or_default().push(path)` => `groups.vx_push(key, path)`
//@subst `in groups` => `in groups.vx_pairs()`
//@subst `dir_key.as_deref()` => `vx_as_deref(&dir_key)`
//@subst `item.path() == dir` => `vx_same_path(item.path(), dir)`
//@subst `let mut file_results = Vec::new();` => `let mut file_results: Vec<VxChecked> = Vec::new();`
//@subst `jarl_core::check::check(config)` => `vx_check(config)`
//@ret r
//@contract
    requires resolver.wf(),
    ensures r is Ok ==> (forall|i: int| 0 <= i < r->Ok_0@.len() ==> right_config(*resolver, (#[trigger] r->Ok_0@[i]).file(), r->Ok_0@[i].with())
            && given(paths@, r->Ok_0@[i].file()))
        && (forall|j: int| 0 <= j < paths@.len() ==> has_result(r->Ok_0@, (#[trigger] paths@[j]).id())),
//@closure 0 (item: &PathResolverItem<Settings>) -> b: PathBuf
    ensures b.id() == item.dir()
//@closure 1 (dir: &Path) -> b: Option<&PathResolverItem<Settings>>
    ensures match b { Some(i) => resolver.its().contains(*i) && i.dir() == dir.id(), None => forall|i: int| 0 <= i < resolver.its().len() ==> (#[trigger] resolver.its()[i]).dir() != dir.id() }
//@closure 2 (item: &&PathResolverItem<Settings>) -> b: bool
    ensures b == (item.dir() == dir.id())
//@closure 3 (item: &PathResolverItem<Settings>) -> b: &Settings
    ensures *b == item.val()
//@at start
    let ghost p0 = paths@;
//@loop 0 it
    invariant it.seq() == p0, grouped(*resolver, groups, p0, it.index() as int),
//@at loop 0 start
    let ghost g0 = groups;
    let ghost k = dir_of(resolver.closest(path.id()));
    let ghost f = path;
//@at loop 0 end
    proof { lemma_group(*resolver, g0, groups, k, f, p0, it.index() as int); }
//@at after loop 0
    let ghost g = groups;
//@loop 1 it
    invariant
        resolver.wf(), grouped(*resolver, g, p0, p0.len() as int),
        forall|i: int| 0 <= i < it.seq().len() ==> g.m().contains_key(key_of((#[trigger] it.seq()[i]).0)) && g.m()[key_of(it.seq()[i].0)] == it.seq()[i].1@,
        forall|k: Option<Seq<char>>| #[trigger] g.m().contains_key(k) ==> exists|i: int| 0 <= i < it.seq().len() && key_of((#[trigger] it.seq()[i]).0) == k,
        forall|i: int| 0 <= i < file_results@.len() ==> right_config(*resolver, (#[trigger] file_results@[i]).file(), file_results@[i].with()) && given(p0, file_results@[i].file()),
        forall|i: int, j: int| 0 <= i < it.index() && 0 <= j < (#[trigger] it.seq()[i]).1@.len() ==> has_result(file_results@, (#[trigger] it.seq()[i].1@[j]).id()),
//@at loop 1 start
    let ghost r0 = file_results@;
    let ghost at = it.index() as int;
    let ghost fs = group_paths@;
    let ghost dk = key_of(dir_key);
    assert(g.m().contains_key(dk) && g.m()[dk] == fs);
//@at after let settings
    let ghost st = match settings { Some(x) => Some(*x), None => None };
    proof { if dk is Some { assert(exists|i: int| 0 <= i < resolver.its().len() && (#[trigger] resolver.its()[i]).dir() == dk->0); } }
    assert forall|j: int| 0 <= j < fs.len() implies right_config(*resolver, (#[trigger] fs[j]).id(), st) && given(p0, fs[j].id()) by {
        assert(dir_of(resolver.closest(g.m()[dk][j].id())) == dk);
        assert(given(p0, g.m()[dk][j].id()));
        if dk is Some {
            let c = resolver.closest(fs[j].id())->0;
            let a = choose|a: int| 0 <= a < resolver.its().len() && resolver.its()[a] == c;
            let b = choose|b: int| 0 <= b < resolver.its().len() && (#[trigger] resolver.its()[b]).val() == st->0 && resolver.its()[b].dir() == dk->0;
            assert(a == b);
        }
    }
//@at loop 1 end
    proof {
        let r1 = file_results@.subrange(r0.len() as int, file_results@.len() as int);
        assert(file_results@ =~= r0 + r1);
        assert forall|i: int, j: int| 0 <= i < at + 1 && 0 <= j < (#[trigger] it.seq()[i]).1@.len() implies has_result(file_results@, (#[trigger] it.seq()[i].1@[j]).id()) by {
            let f = it.seq()[i].1@[j].id();
            if i < at { assert(has_result(r0, f)); let q = choose|q: int| 0 <= q < r0.len() && (#[trigger] r0[q]).file() == f; assert(file_results@[q] == r0[q]); }
            else { assert(fs[j].id() == f); let q = choose|q: int| 0 <= q < r1.len() && (#[trigger] r1[q]).file() == f; assert(file_results@[r0.len() + q] == r1[q]); }
        }
        assert forall|i: int| 0 <= i < file_results@.len() implies right_config(*resolver, (#[trigger] file_results@[i]).file(), file_results@[i].with()) && given(p0, file_results@[i].file()) by {
            if i < r0.len() { assert(r0[i] == file_results@[i]); } else { assert(r1[i - r0.len()] == file_results@[i]); }
        }
    }
//@at end
    ; proof {
        assert forall|j: int| 0 <= j < p0.len() implies has_result(file_results@, (#[trigger] p0[j]).id()) by {
            let k = dir_of(resolver.closest(p0[j].id()));
            assert(in_group(*resolver, g, p0[j]));
            assert(g.m().contains_key(k));
            let i = choose|i: int| 0 <= i < g.m()[k].len() && (#[trigger] g.m()[k][i]).id() == p0[j].id();
        }
    }
    Ok(file_results)
//@end
}
fn main() {}
