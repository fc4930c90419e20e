// P03 oracle: the guard before fixes, on real Git repositories (the crate git2 replaced by the installed git)
use hx::*;
use std::path::{Path, PathBuf};
mod config {
    pub struct Config { pub paths: Vec<std::path::PathBuf>, pub apply_fixes: bool, pub apply_unsafe_fixes: bool, pub allow_dirty: bool, pub allow_no_vcs: bool }
}
#[path = "/repo/crates/jarl-core/src/vcs.rs"]
#[allow(dead_code)]
mod vcs;
#[allow(dead_code)]
mod world3 {
    use std::cell::RefCell;
    use std::path::{Path, PathBuf};
    use std::sync::Arc;
    pub struct PackageAnalysis;
    pub struct Diagnostic;
    pub fn compute_package_analysis(_p: &[PathBuf], _c: &crate::config::Config) -> PackageAnalysis { PackageAnalysis }
    pub fn relativize_path<P: AsRef<Path>>(p: P) -> String { p.as_ref().display().to_string() }
    thread_local! { pub static TOUCHED: RefCell<Vec<PathBuf>> = const { RefCell::new(vec![]) }; }
    pub fn check_path(p: &PathBuf, _c: Arc<crate::config::Config>, _k: Arc<PackageAnalysis>) -> anyhow::Result<Vec<Diagnostic>> { TOUCHED.with(|t| t.borrow_mut().push(p.clone())); Ok(vec![]) }
    pub trait Par<T> { fn par_iter(&self) -> std::slice::Iter<'_, T>; }
    impl<T> Par<T> for Vec<T> { fn par_iter(&self) -> std::slice::Iter<'_, T> { self.iter() } }
}
#[path = "/verif/build/gen/p03.rs"]
mod checker;
use config::Config;

/// a file to be fixed: where it lies and what is known of its repository by construction
struct F { name: &'static str, file: PathBuf, repo: bool, dirty: bool }
fn sh(dir: &Path, script: &str) {
    let mut c = std::process::Command::new("sh");
    for (k, _) in std::env::vars_os() { if k.to_string_lossy().starts_with("GIT_") { c.env_remove(k); } }
    let s = c.current_dir(dir).env("GIT_CONFIG_NOSYSTEM", "1").env("GIT_CONFIG_GLOBAL", "/dev/null").args(["-c", &format!("set -e; G='git -c user.name=a -c user.email=a@b -c init.defaultBranch=main -c protocol.file.allow=always'; {script}")]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().unwrap();
    if !s.success() { panic!("setting up the repositories failed: {script}"); }
}
fn setup(d: &Path) -> Vec<F> {
    let new = "$G init -q .; echo 1 > a.R; mkdir -p R; echo 2 > R/b.R; $G add -A; $G commit -qm x";
    let mut v = Vec::new();
    let mut add = |name: &'static str, at: &str, script: &str, repo: bool, dirty: bool| {
        let p = d.join(at);
        std::fs::create_dir_all(&p).unwrap();
        if !script.is_empty() { sh(&p, script); }
        let f = if p.join("R/b.R").exists() { p.join("R/b.R") } else { p.join("a.R") };
        if !f.exists() { std::fs::write(&f, "1\n").unwrap(); }
        v.push(F { name, file: f, repo, dirty });
    };
    add("clean repository", "clean", new, true, false);
    add("second clean repository", "clean2", new, true, false);
    add("no repository", "none", "", false, false);
    add("untracked file", "untracked", &format!("{new}; echo 3 > c.R"), true, true);
    add("file of another kind untracked", "other", &format!("{new}; mkdir x; echo 3 > x/notes.txt"), true, true);
    add("modified file", "modified", &format!("{new}; echo 3 > a.R"), true, true);
    add("modification staged", "staged", &format!("{new}; echo 3 > a.R; $G add -A"), true, true);
    add("file deleted", "deleted", &format!("{new}; rm a.R"), true, true);
    add("file added to the index", "added", &format!("{new}; echo 3 > c.R; $G add c.R"), true, true);
    add("no commit yet", "fresh", "$G init -q .; echo 1 > a.R", true, true);
    add("only ignored files changed", "ignored", "$G init -q .; echo '*.log' > .gitignore; mkdir R; echo 1 > R/b.R; $G add -A; $G commit -qm x; echo 1 > x.log", true, false);
    add("untracked file with a name that is not UTF-8", "raw", &format!("{new}; printf 3 > \"$(printf 'c\\377.R')\""), true, true);
    add("repository inside a dirty one", "outer/inner", new, true, false);
    sh(&d.join("outer"), "$G init -q .; echo 1 > a.R; echo inner > .gitignore; $G add -A; $G commit -qm x; echo 2 > a.R");
    add("the dirty one around it", "outer", "", true, true);
    add("clean repository with a dirty linked working tree", "main1", new, true, false);
    sh(&d.join("main1"), "$G worktree add -q ../wt1; echo 3 > ../wt1/a.R");
    add("dirty linked working tree of a clean repository", "wt1", "", true, true);
    add("dirty repository with a clean linked working tree", "main2", new, true, true);
    sh(&d.join("main2"), "$G worktree add -q ../wt2; echo 3 > a.R");
    add("clean linked working tree of a dirty repository", "wt2", "", true, false);
    add("dirty repository whose Git directory is elsewhere", "sep", "mkdir ../store; $G init -q --separate-git-dir ../store/sep.git .; echo 1 > a.R; $G add -A; $G commit -qm x; echo 2 > a.R", true, true);
    add("clean repository whose Git directory is elsewhere", "sep2", "$G init -q --separate-git-dir ../store/sep2.git .; echo 1 > a.R; $G add -A; $G commit -qm x", true, false);
    v
}
fn main() {
    run(|cx| {
        let dir = std::env::temp_dir().join(format!("p03-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        let files = setup(&dir);
        let check = |sel: &[usize], dirty: bool, novcs: bool, fix: bool, unsafe_fixes: bool| -> Result<(), String> {
            let paths: Vec<PathBuf> = sel.iter().map(|i| files[*i].file.clone()).collect();
            let texts: Vec<String> = paths.iter().map(|p| p.display().to_string()).collect();
            let ok = novcs || sel.iter().all(|i| files[*i].repo) && (dirty || !sel.iter().any(|i| files[*i].dirty));
            let c = Config { paths: paths.clone(), apply_fixes: fix, apply_unsafe_fixes: unsafe_fixes, allow_dirty: dirty, allow_no_vcs: novcs };
            let r = vcs::check_version_control(&texts, &c);
            if r.is_ok() != ok { return Err(format!("the guard {}", match r { Ok(_) => "accepts".to_string(), Err(e) => format!("refuses: {e}") })); }
            let run = ok || !(fix || unsafe_fixes) || paths.is_empty();
            world3::TOUCHED.with(|t| t.borrow_mut().clear());
            let r = checker::check(c);
            let mut t = world3::TOUCHED.with(|t| t.borrow().clone());
            t.sort();
            let mut w = if run { paths } else { vec![] };
            w.sort();
            if t != w { return Err(format!("files worked on {t:?}, expected {w:?}")); }
            if run != r.iter().all(|r| r.1.is_ok()) { return Err("an error is missing or wrong".to_string()); }
            Ok(())
        };
        let n = files.len();
        cx.rule("every set of at most two of 20 kinds of repositories, all flags");
        for a in 0..=n { for b in 0..a.max(1) { for flags in 0..16u32 {
            if cx.stop() { break; }
            let sel: Vec<usize> = if a == 0 { vec![] } else { let mut v = vec![a - 1]; if b > 0 { v.insert((flags as usize) % 2, b - 1); } v };
            let (d, v, f, u) = (flags & 1 != 0, flags & 2 != 0, flags & 4 != 0, flags & 8 != 0);
            cx.case(format!("files in [{}]{}{}{}{}", sel.iter().map(|i| files[*i].name).collect::<Vec<_>>().join("; "), if d { " --allow-dirty" } else { "" }, if v { " --allow-no-vcs" } else { "" }, if f { " --fix" } else { "" }, if u { " --unsafe-fixes" } else { "" }), true, || check(&sel, d, v, f, u));
        } } }
        cx.rule("random lists of files");
        while cx.more() {
            if cx.stop() { break; }
            let k = 1 + cx.rng.below(6);
            let clean = cx.rng.chance(1, 2);
            let sel: Vec<usize> = (0..k).map(|_| cx.rng.below(n)).filter(|i| !clean || files[*i].repo && !files[*i].dirty).collect();
            let (d, v, f, u) = (cx.rng.chance(1, 3), cx.rng.chance(1, 5), cx.rng.chance(2, 3), cx.rng.chance(1, 3));
            cx.case(format!("files in [{}]{}{}{}{}", sel.iter().map(|i| files[*i].name).collect::<Vec<_>>().join("; "), if d { " --allow-dirty" } else { "" }, if v { " --allow-no-vcs" } else { "" }, if f { " --fix" } else { "" }, if u { " --unsafe-fixes" } else { "" }), true, || check(&sel, d, v, f, u));
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
}
