//! stand-in for air's crate fs (not available here)
use std::path::{Path, PathBuf};
/// the path relative to the current directory, if it lies below it
pub fn relativize_path<P: AsRef<Path>>(path: P) -> String {
    let path = path.as_ref();
    if let Ok(cwd) = std::env::current_dir() {
        if let Ok(p) = path.strip_prefix(&cwd) { return format!("{}", p.display()); }
    }
    format!("{}", path.display())
}
pub fn normalize_path<P: AsRef<Path>>(path: P) -> PathBuf { std::path::absolute(path.as_ref()).unwrap_or_else(|_| path.as_ref().to_path_buf()) }
