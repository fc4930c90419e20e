//! stand-in for air's crate workspace (not available here)
pub mod resolve {
    use std::collections::BTreeMap;
    use std::path::{Path, PathBuf};
    #[derive(Debug, Clone)]
    pub struct PathResolverItem<T> { path: PathBuf, value: T }
    impl<T> PathResolverItem<T> { pub fn path(&self) -> &Path { &self.path } pub fn value(&self) -> &T { &self.value } }
    #[derive(Debug, Clone)]
    pub struct PathResolver<T> { map: Vec<PathResolverItem<T>>, fallback: T }
    impl<T> PathResolver<T> {
        pub fn new(fallback: T) -> Self { PathResolver { map: vec![], fallback } }
        pub fn add(&mut self, path: &Path, value: T) -> Option<T> {
            if let Some(x) = self.map.iter_mut().find(|x| x.path == path) { return Some(std::mem::replace(&mut x.value, value)); }
            self.map.push(PathResolverItem { path: path.to_path_buf(), value });
            self.map.sort_by(|a, b| a.path.cmp(&b.path));
            None
        }
        pub fn items(&self) -> &[PathResolverItem<T>] { &self.map }
        pub fn fallback(&self) -> &T { &self.fallback }
        pub fn resolve(&self, path: &Path) -> Option<&PathResolverItem<T>> { self.map.iter().filter(|x| path.starts_with(&x.path)).max_by_key(|x| x.path.components().count()) }
        pub fn resolve_or_fallback(&self, path: &Path) -> &T { self.resolve(path).map_or(&self.fallback, |x| &x.value) }
    }
    #[allow(dead_code)]
    type Unused = BTreeMap<(), ()>;
}
