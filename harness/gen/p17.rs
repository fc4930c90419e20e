// configuration discovery as it is in /repo; the directory walk, the user's configuration directory and the
// per-file lookup (crates ignore, etcetera, air_workspace) are stand-ins
#![allow(dead_code, unused)]
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use crate::settings::Settings;
use crate::toml::{find_jarl_toml_in_directory, parse_jarl_toml};
use etcetera::BaseStrategy;
pub type FxHashSet<T> = std::collections::HashSet<T>;
pub mod fs {
use super::*;
use path_absolutize::Absolutize;
//@real crates/jarl-core/src/fs.rs fn normalize_path
}
thread_local! { pub static USER: std::cell::RefCell<Option<PathBuf>> = const { std::cell::RefCell::new(None) }; }
pub mod etcetera {
    pub trait BaseStrategy { fn config_dir(&self) -> std::path::PathBuf; }
    pub struct S(pub std::path::PathBuf);
    impl BaseStrategy for S { fn config_dir(&self) -> std::path::PathBuf { self.0.clone() } }
    pub mod base_strategy { pub fn choose_base_strategy() -> Result<super::S, ()> { super::super::USER.with(|u| u.borrow().clone()).map(super::S).ok_or(()) } }
}
pub mod ignore {
    use std::path::{Path, PathBuf};
    #[derive(Debug)]
    pub struct Error;
    pub struct WalkBuilder { root: Vec<PathBuf>, hidden: bool, gi: bool, depth: Option<usize> }
    #[derive(Clone)]
    pub struct DirEntry { p: PathBuf, depth: usize }
    impl DirEntry {
        pub fn path(&self) -> &Path { &self.p }
        pub fn into_path(self) -> PathBuf { self.p }
        pub fn depth(&self) -> usize { self.depth }
        pub fn file_name(&self) -> &std::ffi::OsStr { self.p.file_name().unwrap_or_default() }
        pub fn file_type(&self) -> Option<std::fs::FileType> { std::fs::metadata(&self.p).ok().map(|m| m.file_type()) }
    }
    impl WalkBuilder {
        pub fn new<P: AsRef<Path>>(p: P) -> Self { WalkBuilder { root: vec![p.as_ref().to_path_buf()], hidden: true, gi: true, depth: None } }
        pub fn add<P: AsRef<Path>>(&mut self, p: P) -> &mut Self { self.root.push(p.as_ref().to_path_buf()); self }
        pub fn hidden(&mut self, b: bool) -> &mut Self { self.hidden = b; self }
        pub fn parents(&mut self, _b: bool) -> &mut Self { self }
        pub fn ignore(&mut self, _b: bool) -> &mut Self { self }
        pub fn git_ignore(&mut self, b: bool) -> &mut Self { self.gi = b; self }
        pub fn git_global(&mut self, _b: bool) -> &mut Self { self }
        pub fn git_exclude(&mut self, _b: bool) -> &mut Self { self }
        pub fn standard_filters(&mut self, _b: bool) -> &mut Self { self }
        pub fn follow_links(&mut self, _b: bool) -> &mut Self { self }
        pub fn max_depth(&mut self, d: Option<usize>) -> &mut Self { self.depth = d; self }
        pub fn build(&self) -> std::vec::IntoIter<Result<DirEntry, Error>> {
            let mut out = Vec::new();
            for r in &self.root { self.go(r, 0, &mut out); }
            out.into_iter()
        }
        fn go(&self, p: &Path, depth: usize, out: &mut Vec<Result<DirEntry, Error>>) {
            if self.depth.is_some_and(|d| depth > d) { return; }
            out.push(Ok(DirEntry { p: p.to_path_buf(), depth }));
            if !p.is_dir() { return; }
            let mut v: Vec<PathBuf> = std::fs::read_dir(p).map(|d| d.filter_map(|e| e.ok().map(|e| e.path())).collect()).unwrap_or_default();
            v.sort();
            for c in v {
                if self.hidden && c.file_name().is_some_and(|n| n.to_string_lossy().starts_with('.')) { continue; }
                if self.gi && c.file_name().is_some_and(|n| n == "gitignored") { continue; }
                if c.file_name().is_some_and(|n| n == "unreadable") { out.push(Err(Error)); continue; }
                self.go(&c, depth + 1, out);
            }
        }
    }
}
//@real crates/jarl-core/src/discovery.rs struct DiscoveredSettings
//@real crates/jarl-core/src/discovery.rs fn discover_settings
//@helpers crates/jarl-core/src/discovery.rs discover_r_file_paths

/// air_workspace::resolve
pub struct PathResolverItem<T> { p: PathBuf, v: T }
impl<T> PathResolverItem<T> { pub fn path(&self) -> &Path { &self.p } pub fn value(&self) -> &T { &self.v } }
pub struct PathResolver<T> { i: Vec<PathResolverItem<T>>, f: T }
impl<T> PathResolver<T> {
    pub fn new(f: T) -> Self { PathResolver { i: vec![], f } }
    pub fn add(&mut self, p: &Path, v: T) { self.i.retain(|x| x.p != p); self.i.push(PathResolverItem { p: p.to_path_buf(), v }); }
    pub fn items(&self) -> &[PathResolverItem<T>] { &self.i }
    pub fn fallback(&self) -> &T { &self.f }
    pub fn resolve(&self, f: &Path) -> Option<&PathResolverItem<T>> { self.i.iter().filter(|x| f.starts_with(&x.p)).max_by_key(|x| x.p.components().count()) }
    pub fn resolve_or_fallback(&self, f: &Path) -> &T { self.resolve(f).map_or(&self.f, |x| &x.v) }
}
pub struct ArgsConfig;
pub struct Config { pub select: Option<Vec<String>>, pub paths: Vec<PathBuf> }
pub fn build_config(_c: &ArgsConfig, s: Option<&Settings>, paths: Vec<PathBuf>) -> anyhow::Result<Config> { Ok(Config { select: s.and_then(|s| s.linter.select.clone()), paths }) }
pub mod jarl_core { pub mod check { pub fn check(c: super::super::Config) -> Vec<(std::path::PathBuf, Option<Vec<String>>)> { c.paths.iter().map(|p| (p.clone(), c.select.clone())).collect() } } }
//@slice crates/jarl/src/commands/check.rs check || pub fn group_and_check(resolver: &PathResolver<Settings>, paths: Vec<PathBuf>, check_config: ArgsConfig) -> anyhow::Result<Vec<(PathBuf, Option<Vec<String>>)>> || `let mut groups` `let mut all_errors` || + `Ok(file_results)`
