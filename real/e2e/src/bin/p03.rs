// oracle for P03, written from the property text: `jarl check --fix` in real Git repositories
use e2e::*;
use std::path::Path;
use std::process::Command;
fn git(dir: &Path, a: &[&str]) -> Result<(), String> {
    let o = Command::new("git").current_dir(dir).args(["-c", "user.name=x", "-c", "user.email=x@x", "-c", "init.defaultBranch=main", "-c", "commit.gpgsign=false"]).args(a).env("GIT_CONFIG_NOSYSTEM", "1").env("GIT_CONFIG_GLOBAL", "/dev/null").env("HOME", dir).output().map_err(|e| e.to_string())?;
    if o.status.success() { Ok(()) } else { Err(format!("git {a:?}: {}", String::from_utf8_lossy(&o.stderr))) }
}
const BAD: &str = "any(is.na(x))\n";
/// what is uncommitted in a repository (None: no repository)
#[derive(Clone, Copy, Debug, PartialEq)]
enum State { NoRepo, Clean, Modified, Staged, Untracked, UntrackedDir, Ignored, OtherModified, Deleted, NoCommit }
use State::*;
const ALL: [State; 10] = [NoRepo, Clean, Modified, Staged, Untracked, UntrackedDir, Ignored, OtherModified, Deleted, NoCommit];
fn fill(d: &Dir, name: &str, s: State) -> Result<(), String> {
    let root = d.0.join(name);
    d.write(&format!("{name}/sub/f.R"), BAD).write(&format!("{name}/o.txt"), "a\n").write(&format!("{name}/p.txt"), "a\n");
    if s == NoRepo { return Ok(()); }
    d.write(&format!("{name}/.gitignore"), "ign*\n");
    git(&root, &["init", "-q"])?;
    if s == NoCommit { return Ok(()); }
    git(&root, &["add", "."])?;
    git(&root, &["commit", "-q", "-m", "x"])?;
    match s {
        Modified => { d.write(&format!("{name}/sub/f.R"), "any(is.na(x))\n# more\n"); }
        Staged => { d.write(&format!("{name}/o.txt"), "b\n"); git(&root, &["add", "."])?; }
        Untracked => { d.write(&format!("{name}/new é.txt"), "b\n"); }
        UntrackedDir => { d.write(&format!("{name}/new/x/y.txt"), "b\n"); }
        Ignored => { d.write(&format!("{name}/ign.txt"), "b\n").write(&format!("{name}/igndir/a.R"), "1\n"); }
        OtherModified => { d.write(&format!("{name}/o.txt"), "b\n"); }
        Deleted => { std::fs::remove_file(root.join("p.txt")).map_err(|e| e.to_string())?; }
        _ => {}
    }
    Ok(())
}
fn dirty(s: State) -> bool { !matches!(s, NoRepo | Clean | Ignored) }
fn run(states: &[State], dirty_ok: bool, novcs_ok: bool, uns: bool, from: usize) -> Result<(), String> {
    let d = Dir::new();
    for (i, s) in states.iter().enumerate() { fill(&d, &format!("r{i}"), *s)?; }
    let mut a = vec!["check", "--output-format", "json"];
    if uns { a.push("--unsafe-fixes"); } else { a.push("--fix"); }
    if dirty_ok { a.push("--allow-dirty"); }
    if novcs_ok { a.push("--allow-no-vcs"); }
    let abs: Vec<String> = (0..states.len()).map(|i| match from { 0 => format!("r{i}/sub/f.R"), 1 => format!("r{i}"), 2 => format!("../r{i}/sub"), _ => d.0.join(format!("r{i}/sub/f.R")).to_string_lossy().to_string() }).collect();
    a.extend(abs.iter().map(|s| s.as_str()));
    let dir = if from == 2 { d.0.join("r0") } else { d.0.clone() };
    let o = jarl_in(&dir, &a);
    if o.err.contains("panicked at") { return Err(format!("panic: {}", o.err)); }
    let may = novcs_ok || (states.iter().all(|s| *s != NoRepo) && (dirty_ok || !states.iter().any(|s| dirty(*s))));
    for i in 0..states.len() {
        let t = d.read(&format!("r{i}/sub/f.R"));
        let changed = t.contains("anyNA");
        if changed != may { return Err(format!("r{i}/sub/f.R was {} (exit {:?}), expected it {}", if changed { "changed" } else { "left" }, o.code, if may { "changed" } else { "left" })); }
    }
    if !may && o.code == Some(0) { return Err("refused, but the exit status is 0".into()); }
    Ok(())
}
fn main() {
    hx::run(|cx| {
        cx.rule("`jarl check --fix` (or --unsafe-fixes) on one to three directories in real Git repositories (clean, modified, staged, untracked, ignored, deleted files, no commit, no repository), with and without --allow-dirty and --allow-no-vcs, from several directories: files change exactly with consent. Non-trivial: some repository is dirty or missing.");
        for s in ALL { for f in 0..4usize { for from in 0..4 {
            let (a, b) = (f & 1 != 0, f & 2 != 0);
            cx.case(format!("{s:?}, dirty allowed {a}, no VCS allowed {b}, from {from}"), s != Clean, || run(&[s], a, b, false, from));
        } } }
        while cx.more() {
            let v: Vec<State> = (0..1 + cx.rng.below(3)).map(|_| if cx.rng.chance(1, 2) { Clean } else { *cx.rng.pick(&ALL) }).collect();
            let (a, b, u, from) = (cx.rng.chance(1, 3), cx.rng.chance(1, 5), cx.rng.chance(1, 4), cx.rng.below(4));
            cx.case(format!("{v:?}, dirty allowed {a}, no VCS allowed {b}, unsafe {u}, from {from}"), v.iter().any(|s| *s != Clean), || run(&v, a, b, u, from));
        }
    })
}
