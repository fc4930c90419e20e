//! stand-in for git2 (not available here) on top of the installed git, as far as the code under test uses it
use std::cell::RefCell;
use std::collections::HashMap;
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
#[derive(Debug)]
pub struct Error(pub String);
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
thread_local! { static CACHE: RefCell<HashMap<(PathBuf, Vec<String>), Option<Vec<u8>>>> = RefCell::new(HashMap::new()); }
pub fn clear_cache() { CACHE.with(|c| c.borrow_mut().clear()) }
fn git(dir: &Path, args: &[&str]) -> Option<Vec<u8>> {
    let key = (dir.to_path_buf(), args.iter().map(|s| s.to_string()).collect::<Vec<_>>());
    if let Some(r) = CACHE.with(|c| c.borrow().get(&key).cloned()) { return r; }
    let mut c = std::process::Command::new("git");
    for (k, _) in std::env::vars_os() { if k.as_bytes().starts_with(b"GIT_") { c.env_remove(k); } }
    let o = c.env("GIT_CONFIG_NOSYSTEM", "1").env("GIT_CONFIG_GLOBAL", "/dev/null").env("GIT_OPTIONAL_LOCKS", "0").arg("-C").arg(dir).args(args).output().ok()?;
    let r = if o.status.success() { Some(o.stdout) } else { None };
    CACHE.with(|c| c.borrow_mut().insert(key, r.clone()));
    r
}
fn line(v: Vec<u8>) -> PathBuf { let mut v = v; while v.last() == Some(&b'\n') { v.pop(); } v.push(b'/'); PathBuf::from(OsStr::from_bytes(&v)) }
pub struct Repository { at: PathBuf, git_dir: PathBuf, work: Option<PathBuf> }
impl Repository {
    pub fn discover<P: AsRef<Path>>(p: P) -> Result<Repository, Error> {
        let p = p.as_ref();
        if p.as_os_str().is_empty() { return Err(Error("failed to resolve path ''".into())); }
        let p = p.canonicalize().map_err(|e| Error(e.to_string()))?;
        let dir = if p.is_dir() { p } else { p.parent().unwrap().to_path_buf() };
        let g = git(&dir, &["rev-parse", "--absolute-git-dir"]).ok_or_else(|| Error("could not find repository".into()))?;
        let git_dir = line(g);
        // the working directory belongs to the repository, wherever it was found from
        let inside = git(&dir, &["rev-parse", "--is-inside-work-tree"]).is_some_and(|o| o.starts_with(b"true"));
        let bare = git(&dir, &["rev-parse", "--is-bare-repository"]).is_some_and(|o| o.starts_with(b"true"));
        let work = if inside { git(&dir, &["rev-parse", "--show-toplevel"]).map(line) } else if bare { None } else { git_dir.parent().map(|p| PathBuf::from(format!("{}/", p.display()))) };
        Ok(Repository { at: work.clone().unwrap_or(dir), git_dir, work })
    }
    pub fn open<P: AsRef<Path>>(p: P) -> Result<Repository, Error> { Repository::discover(p) }
    pub fn init<P: AsRef<Path>>(p: P) -> Result<Repository, Error> {
        std::fs::create_dir_all(p.as_ref()).map_err(|e| Error(e.to_string()))?;
        git(p.as_ref(), &["init", "-q"]).ok_or_else(|| Error("init failed".into()))?;
        clear_cache();
        Repository::discover(p)
    }
    pub fn index(&self) -> Result<Index, Error> { Ok(Index(self.at.clone())) }
    pub fn find_tree(&self, t: Oid) -> Result<Tree, Error> { Ok(Tree(t.0)) }
    pub fn commit(&self, _r: Option<&str>, _a: &Signature, _c: &Signature, m: &str, _t: &Tree, _p: &[&Commit]) -> Result<Oid, Error> {
        git(&self.at, &["-c", "user.name=x", "-c", "user.email=x@x", "commit", "-q", "-m", m]).ok_or_else(|| Error("commit failed".into()))?;
        clear_cache();
        Ok(Oid(String::new()))
    }
    /// the .git directory (in a linked working tree: its directory under .git/worktrees)
    pub fn path(&self) -> &Path { &self.git_dir }
    /// the working directory, None in a bare repository
    pub fn workdir(&self) -> Option<&Path> { self.work.as_deref() }
    pub fn is_bare(&self) -> bool { self.work.is_none() }
    pub fn statuses(&self, o: Option<&mut StatusOptions>) -> Result<Statuses, Error> {
        let d = StatusOptions::new();
        let o = o.map_or(d, |o| o.clone());
        let u = if o.untracked { "--untracked-files=normal" } else { "--untracked-files=no" };
        let i = if o.ignored { "--ignored=traditional" } else { "--ignored=no" };
        let out = git(&self.at, &["status", "--porcelain=v1", "-z", "--no-renames", u, i]).ok_or_else(|| Error("status failed".into()))?;
        Ok(Statuses(out.split(|b| *b == 0).filter(|e| e.len() > 3).map(|e| Entry { flags: if e.starts_with(b"!!") { 1 << 14 } else { 1 << 7 }, path: e[3..].to_vec() }).collect()))
    }
}
pub struct Index(PathBuf);
impl Index {
    pub fn add_path(&mut self, p: &Path) -> Result<(), Error> { git(&self.0, &["add", "--", p.to_str().unwrap()]).map(|_| clear_cache()).ok_or_else(|| Error("add failed".into())) }
    pub fn write(&mut self) -> Result<(), Error> { Ok(()) }
    pub fn write_tree(&mut self) -> Result<Oid, Error> { Ok(Oid(String::new())) }
}
pub struct Oid(String);
pub struct Tree(#[allow(dead_code)] String);
pub struct Commit;
pub struct Signature;
impl Signature { pub fn now(_n: &str, _e: &str) -> Result<Signature, Error> { Ok(Signature) } }
#[derive(Clone)]
pub struct StatusOptions { ignored: bool, untracked: bool }
impl StatusOptions {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self { StatusOptions { ignored: true, untracked: true } }
    pub fn include_ignored(&mut self, b: bool) -> &mut Self { self.ignored = b; self }
    pub fn include_untracked(&mut self, b: bool) -> &mut Self { self.untracked = b; self }
    pub fn recurse_untracked_dirs(&mut self, _b: bool) -> &mut Self { self }
    pub fn exclude_submodules(&mut self, _b: bool) -> &mut Self { self }
}
pub struct Statuses(Vec<Entry>);
impl Statuses {
    pub fn iter(&self) -> std::slice::Iter<'_, Entry> { self.0.iter() }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
}
#[derive(Clone)]
pub struct Entry { flags: u32, path: Vec<u8> }
impl Entry {
    /// None if the name is not UTF-8
    pub fn path(&self) -> Option<&str> { std::str::from_utf8(&self.path).ok() }
    pub fn path_bytes(&self) -> &[u8] { &self.path }
    pub fn status(&self) -> Status { Status(self.flags) }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Status(u32);
impl Status {
    pub const CURRENT: Status = Status(0);
    pub const IGNORED: Status = Status(1 << 14);
    pub fn is_empty(&self) -> bool { self.0 == 0 }
    pub fn contains(&self, o: Status) -> bool { self.0 & o.0 == o.0 }
    pub fn is_ignored(&self) -> bool { self.0 == 1 << 14 }
}
