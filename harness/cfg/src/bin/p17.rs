// P17 oracle: which jarl.toml governs a file, on random directory trees in a scratch directory
use hx::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
#[path = "/repo/crates/jarl-core/src/rule_options/mod.rs"]
mod rule_options;
#[path = "/repo/crates/jarl-core/src/settings.rs"]
mod settings;
#[path = "/repo/crates/jarl-core/src/toml.rs"]
mod toml;
#[path = "/verif/build/gen/p17.rs"]
mod disc;
use disc::*;

const DIRS: [&str; 9] = ["", "a", "a/b", "a/b/c", "a/b2", "d", "d/e", "a/.h", "ab"];
/// what a directory holds: 0 nothing, 1 jarl.toml, 2 .jarl.toml, 3 both, 4 a directory called jarl.toml, 5 that and .jarl.toml
fn fill(root: &Path, kinds: &[usize]) {
    for (d, k) in DIRS.iter().zip(kinds) {
        let p = root.join(d);
        std::fs::create_dir_all(&p).unwrap();
        std::fs::write(p.join("f.R"), "x\n").unwrap();
        let id = |n: &str| format!("[lint]\nselect = [\"{}|{n}\"]\n", d);
        if matches!(k, 1 | 3) { std::fs::write(p.join("jarl.toml"), id("jarl.toml")).unwrap(); }
        if matches!(k, 2 | 3 | 5) { std::fs::write(p.join(".jarl.toml"), id(".jarl.toml")).unwrap(); }
        if matches!(k, 4 | 5) { std::fs::create_dir_all(p.join("jarl.toml")).unwrap(); }
    }
}
fn own(kinds: &[usize], d: &str) -> Option<(String, &'static str)> {
    let i = DIRS.iter().position(|x| *x == d)?;
    match kinds[i] { 1 | 3 => Some((d.into(), "jarl.toml")), 2 | 5 => Some((d.into(), ".jarl.toml")), _ => None }
}
fn parents(rel: &str) -> Vec<String> {
    let mut v = vec![rel.to_string()];
    let mut r = rel.to_string();
    while !r.is_empty() { r = r.rsplit_once('/').map(|x| x.0.to_string()).unwrap_or_default(); v.push(r.clone()); }
    v
}
/// the governing configuration of root/rel, looking no further than `stop`
fn nearest(kinds: &[usize], rel: &str, stop: Option<&str>) -> Option<(String, &'static str)> {
    for d in parents(rel) {
        if let Some(x) = own(kinds, &d) { return Some(x); }
        if stop == Some(d.as_str()) { return None; }
    }
    None
}

fn main() {
    run(|cx| {
        let base = tempfile::tempdir().unwrap();
        let base_dir = base.path().canonicalize().unwrap();
        std::env::set_current_dir(&base_dir).unwrap();
        let mut n = 0;
        let mut tree = |kinds: &[usize]| -> PathBuf { n += 1; let r = base_dir.join(format!("t{n}")); fill(&r, kinds); r };
        cx.rule("find_jarl_toml(_in_directory) for every path of random trees");
        for _ in 0..cx.pick_n(60, 400) {
            if cx.stop() { break; }
            let kinds: Vec<usize> = DIRS.iter().map(|_| *cx.rng.pick(&[0, 0, 1, 2, 3, 4, 5])).collect();
            let root = tree(&kinds);
            for rel in ["", "a", "a/b", "a/b/c", "a/b2", "d", "d/e", "a/.h", "ab", "f.R", "a/f.R", "a/b/c/f.R", "d/e/f.R", "a/none/x.R", "zz"] {
                let k = kinds.clone();
                cx.case(format!("tree {kinds:?}, path {rel:?}"), kinds.iter().any(|k| *k > 0), || {
                    let path = if rel.is_empty() { root.clone() } else { root.join(rel) };
                    let w = nearest(&k, rel, None).map(|(d, f)| if d.is_empty() { root.join(f) } else { root.join(d).join(f) });
                    let r = toml::find_jarl_toml(&path);
                    if r != w { return Err(format!("nearest is {w:?}, found {r:?}")); }
                    let w = own(&k, rel).map(|(_, f)| path.join(f));
                    let r = toml::find_jarl_toml_in_directory(&path);
                    if r != w { return Err(format!("the directory has {w:?}, found {r:?}")); }
                    Ok(())
                });
            }
            std::fs::remove_dir_all(&root).unwrap();
        }
        cx.rule("random trees and lists of paths to check: every file below them is grouped with the settings of its nearest jarl.toml");
        while cx.more() {
            if cx.stop() { return; }
            let kinds: Vec<usize> = DIRS.iter().map(|_| *cx.rng.pick(&[0, 0, 1, 2, 3, 4, 5])).collect();
            let root = tree(&kinds);
            // where the user's configuration is: nowhere, outside the tree (with or without a file), or inside it
            let user = base_dir.join(format!("user{}", cx.rng.below(1_000_000)));
            std::fs::create_dir_all(user.join("jarl")).unwrap();
            let mode = cx.rng.below(4);
            let mut stop = None;
            match mode {
                0 => USER.with(|u| *u.borrow_mut() = None),
                1 | 2 => { USER.with(|u| *u.borrow_mut() = Some(user.clone())); if mode == 2 { std::fs::write(user.join("jarl/jarl.toml"), "[lint]\nselect = [\"user\"]\n").unwrap(); } }
                _ => { std::fs::create_dir_all(root.join("d/jarl")).unwrap(); std::fs::create_dir_all(root.join("d/jarl/x")).unwrap(); std::fs::write(root.join("d/jarl/x/f.R"), "").unwrap(); std::fs::write(root.join("d/jarl/f.R"), "").unwrap(); USER.with(|u| *u.borrow_mut() = Some(root.join("d"))); stop = Some("d/jarl"); }
            }
            let m = if mode == 3 { 1 } else { 1 + cx.rng.below(3) };
            let mut rels: Vec<String> = Vec::new();
            for _ in 0..m {
                let d = if mode == 3 && cx.rng.chance(1, 2) { *cx.rng.pick(&["d/jarl/x", "d/jarl"]) } else { *cx.rng.pick(&DIRS) };
                rels.push(if cx.rng.chance(1, 3) { if d.is_empty() { "f.R".to_string() } else { format!("{d}/f.R") } } else { d.to_string() });
            }
            // the search from a path stops at the user's directory only if the path lies in it
            if !rels[0].starts_with("d/jarl") { stop = None; }
            let style = cx.rng.below(3);
            let args: Vec<String> = rels.iter().map(|r| {
                let full = if r.is_empty() { root.clone() } else { root.join(r) };
                match style { 0 => full.to_string_lossy().to_string(), 1 => full.strip_prefix(&base_dir).unwrap().to_string_lossy().to_string(), _ => format!("./{}/../{}", root.file_name().unwrap().to_string_lossy(), full.strip_prefix(&base_dir).unwrap().to_string_lossy()) }
            }).collect();
            let k = kinds.clone();
            cx.case(format!("tree {kinds:?}, user configuration {mode}, jarl check {rels:?} ({style})"), true, || {
                let found = discover_settings(&args).map_err(|e| format!("failed: {e}"))?;
                for f in &found {
                    let Some(c) = &f.config_path else { return Err("settings without a file".into()) };
                    let sel = f.settings.linter.select.clone().unwrap_or_default();
                    let Ok(rel) = f.directory.strip_prefix(&root) else {
                        if mode == 2 && f.directory == user.join("jarl") && sel == ["user"] { continue; }
                        return Err(format!("unexpected settings for {:?}", f.directory));
                    };
                    let rel = rel.to_string_lossy().to_string();
                    match own(&k, &rel) {
                        Some((d, n)) if f.directory.join(n) == *c && sel == [format!("{d}|{n}")] => {}
                        w => return Err(format!("settings of {rel:?} are {c:?} {sel:?}, expected {w:?}")),
                    }
                }
                let single = if rels.len() == 1 && rels[0].ends_with(".R") { Some(found.iter().map(|f| f.directory.clone()).collect::<Vec<_>>()) } else { None };
                let mut resolver = PathResolver::new(settings::Settings::default());
                for f in found { resolver.add(&f.directory, f.settings); }
                // the files below the arguments that the walk meets
                let mut files: BTreeMap<PathBuf, String> = BTreeMap::new();
                for (r, a) in rels.iter().zip(&args) {
                    for e in ignore::WalkBuilder::new(fs::normalize_path(a)).build() {
                        let p = e.unwrap().into_path();
                        if p.extension().is_some_and(|x| x == "R") { let rel = p.strip_prefix(&root).unwrap().to_string_lossy().to_string(); files.insert(p, rel); }
                    }
                    let _ = r;
                }
                let got = group_and_check(&resolver, files.keys().cloned().collect(), ArgsConfig).map_err(|e| format!("failed: {e}"))?;
                if got.len() != files.len() { return Err(format!("{} files, {} results", files.len(), got.len())); }
                for (p, sel) in &got {
                    let Some(rel) = files.get(p) else { return Err(format!("unknown file {p:?}")) };
                    let w = nearest(&k, rel, stop).map(|(d, n)| vec![format!("{d}|{n}")]);
                    if *sel != w { return Err(format!("{rel}: checked with {sel:?}, its nearest configuration is {w:?}")); }
                }
                if let Some(dirs) = single {
                    let w: Vec<PathBuf> = match nearest(&k, &rels[0], stop) { Some((d, _)) => vec![if d.is_empty() { root.clone() } else { root.join(d) }], None if mode == 2 => vec![user.join("jarl")], None => vec![] };
                    if dirs != w { return Err(format!("settings found in {dirs:?}, expected {w:?}")); }
                }
                Ok(())
            });
            std::fs::remove_dir_all(&root).unwrap();
            std::fs::remove_dir_all(&user).unwrap();
        }
    })
}
