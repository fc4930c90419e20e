//! stand-in for the crate ignore (not available here), as far as the code under test uses it; globs by globset
#![allow(clippy::all)]
use globset::{GlobBuilder, GlobMatcher};
use std::path::{Path, PathBuf};
#[derive(Debug)]
pub struct Error(pub String);
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Match<T> { None, Ignore(T), Whitelist(T) }
impl<T> Match<T> { pub fn is_ignore(&self) -> bool { matches!(self, Match::Ignore(_)) } pub fn is_whitelist(&self) -> bool { matches!(self, Match::Whitelist(_)) } pub fn is_none(&self) -> bool { matches!(self, Match::None) } }
/// a line of a .gitignore file
#[derive(Clone, Debug)]
struct Line { neg: bool, dir: bool, m: GlobMatcher }
fn line(p: &str) -> Result<Option<Line>, Error> {
    let mut s = p.trim_end();
    if s.is_empty() || s.starts_with('#') { return Ok(None); }
    let neg = s.starts_with('!');
    if neg { s = &s[1..]; }
    let mut anchored = false;
    if let Some(r) = s.strip_prefix('/') { s = r; anchored = true; }
    let dir = s.ends_with('/');
    if dir { s = &s[..s.len() - 1]; }
    let mut g = s.to_string();
    if !anchored && !s.contains('/') && !g.starts_with("**/") { g = format!("**/{g}"); }
    if g.ends_with("/**") { g.push_str("/*"); }
    let m = GlobBuilder::new(&g).literal_separator(true).backslash_escape(true).build().map_err(|e| Error(e.to_string()))?.compile_matcher();
    Ok(Some(Line { neg, dir, m }))
}
fn last<'a>(l: &'a [Line], p: &Path, is_dir: bool) -> Option<&'a Line> { l.iter().rev().find(|l| (!l.dir || is_dir) && l.m.is_match(p)) }
pub mod overrides {
    use super::*;
    #[derive(Clone, Debug, Default)]
    pub struct Override { root: PathBuf, l: Vec<Line> }
    pub struct OverrideBuilder { root: PathBuf, l: Vec<Line> }
    impl OverrideBuilder {
        pub fn new<P: AsRef<Path>>(root: P) -> Self { OverrideBuilder { root: root.as_ref().to_path_buf(), l: vec![] } }
        pub fn add(&mut self, g: &str) -> Result<&mut Self, Error> { if let Some(x) = line(g)? { self.l.push(x); } Ok(self) }
        pub fn build(&self) -> Result<Override, Error> { Ok(Override { root: self.root.clone(), l: self.l.clone() }) }
    }
    impl Override {
        pub fn matched<P: AsRef<Path>>(&self, p: P, is_dir: bool) -> Match<()> {
            if self.l.is_empty() { return Match::None; }
            let p = p.as_ref();
            let root = if self.root.as_os_str() == "." { std::env::current_dir().unwrap_or_default() } else { self.root.clone() };
            let q = p.strip_prefix(&root).unwrap_or(p);
            match last(&self.l, q, is_dir) {
                Some(x) if x.neg => Match::Ignore(()),
                Some(_) => Match::Whitelist(()),
                None => if self.l.iter().any(|x| !x.neg) && !is_dir { Match::Ignore(()) } else { Match::None },
            }
        }
        pub fn is_empty(&self) -> bool { self.l.is_empty() }
    }
}
#[derive(Clone, Debug)]
pub struct DirEntry { p: PathBuf, depth: usize }
impl DirEntry {
    pub fn path(&self) -> &Path { &self.p }
    pub fn into_path(self) -> PathBuf { self.p }
    pub fn depth(&self) -> usize { self.depth }
    pub fn file_name(&self) -> &std::ffi::OsStr { self.p.file_name().unwrap_or_default() }
    pub fn file_type(&self) -> Option<std::fs::FileType> { std::fs::symlink_metadata(&self.p).ok().map(|m| m.file_type()) }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum WalkState { Continue, Skip, Quit }
pub trait ParallelVisitor: Send { fn visit(&mut self, entry: Result<DirEntry, Error>) -> WalkState; }
pub trait ParallelVisitorBuilder<'s> { fn build(&mut self) -> Box<dyn ParallelVisitor + 's>; }
#[derive(Clone)]
pub struct WalkBuilder { roots: Vec<PathBuf>, hidden: bool, gi: bool, depth: Option<usize>, o: overrides::Override }
impl WalkBuilder {
    pub fn new<P: AsRef<Path>>(p: P) -> Self { WalkBuilder { roots: vec![p.as_ref().to_path_buf()], hidden: true, gi: true, depth: None, o: Default::default() } }
    pub fn add<P: AsRef<Path>>(&mut self, p: P) -> &mut Self { self.roots.push(p.as_ref().to_path_buf()); self }
    pub fn hidden(&mut self, b: bool) -> &mut Self { self.hidden = b; self }
    pub fn parents(&mut self, _b: bool) -> &mut Self { self }
    pub fn ignore(&mut self, _b: bool) -> &mut Self { self }
    pub fn git_ignore(&mut self, b: bool) -> &mut Self { self.gi = b; self }
    pub fn git_global(&mut self, _b: bool) -> &mut Self { self }
    pub fn git_exclude(&mut self, _b: bool) -> &mut Self { self }
    pub fn standard_filters(&mut self, b: bool) -> &mut Self { self.hidden = b; self.gi = b; self }
    pub fn follow_links(&mut self, _b: bool) -> &mut Self { self }
    pub fn max_depth(&mut self, d: Option<usize>) -> &mut Self { self.depth = d; self }
    pub fn threads(&mut self, _n: usize) -> &mut Self { self }
    pub fn overrides(&mut self, o: overrides::Override) -> &mut Self { self.o = o; self }
    pub fn build(&self) -> std::vec::IntoIter<Result<DirEntry, Error>> {
        let mut out = Vec::new();
        for r in &self.roots { self.go(r, 0, &mut |e| { out.push(e); WalkState::Continue }); }
        out.into_iter()
    }
    pub fn build_parallel(&self) -> WalkParallel { WalkParallel(self.clone()) }
    fn git_ignored(&self, p: &Path, is_dir: bool) -> bool {
        // the .gitignore files from the top of the repository down
        let up: Vec<&Path> = p.ancestors().skip(1).collect();
        let Some(top) = up.iter().position(|a| a.join(".git").exists()) else { return false };
        for a in &up[..=top] {
            let Ok(t) = std::fs::read_to_string(a.join(".gitignore")) else { continue };
            let l: Vec<Line> = t.lines().filter_map(|x| line(x).ok().flatten()).collect();
            if let Some(x) = last(&l, p.strip_prefix(a).unwrap(), is_dir) { return !x.neg; }
        }
        false
    }
    fn go(&self, p: &Path, depth: usize, f: &mut dyn FnMut(Result<DirEntry, Error>) -> WalkState) {
        if self.depth.is_some_and(|d| depth > d) { return; }
        if depth == 0 && !p.exists() { f(Err(Error(format!("{}: No such file or directory (os error 2)", p.display())))); return; }
        if f(Ok(DirEntry { p: p.to_path_buf(), depth })) != WalkState::Continue { return; }
        let is_dir = if depth == 0 { p.is_dir() } else { std::fs::symlink_metadata(p).is_ok_and(|m| m.is_dir()) };
        if !is_dir { return; }
        let mut v: Vec<PathBuf> = match std::fs::read_dir(p) { Ok(d) => d.filter_map(|e| e.ok().map(|e| e.path())).collect(), Err(e) => { f(Err(Error(e.to_string()))); return; } };
        v.sort();
        for c in v {
            let d = std::fs::symlink_metadata(&c).is_ok_and(|m| m.is_dir());
            match self.o.matched(&c, d) { Match::Ignore(_) => continue, Match::Whitelist(_) => { self.go(&c, depth + 1, f); continue; } Match::None => {} }
            if self.gi && self.git_ignored(&c, d) { continue; }
            if self.hidden && c.file_name().is_some_and(|n| n.to_string_lossy().starts_with('.')) { continue; }
            self.go(&c, depth + 1, f);
        }
    }
}
pub struct WalkParallel(WalkBuilder);
impl WalkParallel {
    pub fn visit<'s>(self, b: &mut dyn ParallelVisitorBuilder<'s>) {
        let mut v = b.build();
        for r in &self.0.roots { self.0.go(r, 0, &mut |e| v.visit(e)); }
    }
}
