// P07 oracle: minimum R versions, through build_config
use hx::*;
include!("../root.rs");
use config::*;
use rule_set::Rule;
use std::path::PathBuf;

/// the property's reading of a version string
fn version(s: &str) -> Option<(u32, u32, u32)> {
    let mut parts: Vec<String> = vec![String::new()];
    for c in s.chars() { if c == '.' { parts.push(String::new()); } else { parts.last_mut().unwrap().push(c); } }
    let num = |p: &String| -> Option<u32> {
        let d: Vec<char> = p.chars().collect();
        let d = if d.first() == Some(&'+') { &d[1..] } else { &d[..] };
        if d.is_empty() { return None; }
        let mut n: u64 = 0;
        for c in d { let v = c.to_digit(10)?; n = n * 10 + v as u64; if n > u32::MAX as u64 { return None; } }
        Some(n as u32)
    };
    if parts.len() == 2 { Some((num(&parts[0])?, num(&parts[1])?, 0)) } else if parts.len() == 3 { Some((num(&parts[0])?, num(&parts[1])?, num(&parts[2])?)) } else { None }
}
fn at_least(v: (u32, u32, u32), m: (u32, u32, u32)) -> bool {
    if v.0 != m.0 { v.0 > m.0 } else if v.1 != m.1 { v.1 > m.1 } else { v.2 >= m.2 }
}
fn args(select: &str, v: Option<String>) -> ArgsConfig {
    ArgsConfig { files: vec![], fix: false, unsafe_fixes: false, fix_only: false, select: select.into(), extend_select: String::new(), ignore: String::new(), min_r_version: v, allow_dirty: false, allow_no_vcs: false, assignment: None }
}
/// the rules run for a project whose minimum version is `v` (None: unknown), of the named rules
fn want(names: &[String], v: Option<(u32, u32, u32)>) -> Vec<String> {
    Rule::all().iter().filter(|r| names.iter().any(|n| n == r.name()) && match r.minimum_r_version() { None => true, Some(m) => v.is_some_and(|v| at_least(v, m)) }).map(|r| r.name().to_string()).collect()
}
fn check(names: &[String], cli: Option<String>, paths: Vec<PathBuf>, v: Result<Option<(u32, u32, u32)>, ()>) -> Result<(), String> {
    let r = build_config(&args(&names.join(","), cli), None, paths);
    match (r, v) {
        (Err(_), Err(())) => Ok(()),
        (Err(e), Ok(_)) => Err(format!("refused: {e}")),
        (Ok(c), Err(())) => Err(format!("accepted as {:?}", c.minimum_r_version)),
        (Ok(c), Ok(v)) => {
            if c.minimum_r_version != v { return Err(format!("version {:?}, expected {v:?}", c.minimum_r_version)); }
            let w = want(names, v);
            for (what, set) in [("rules", &c.rules), ("rules_to_apply", &c.rules_to_apply)] {
                let g: Vec<String> = set.iter().map(|r| r.name().to_string()).collect();
                if g != w { return Err(format!("{what}: {} instead of {} (version {v:?})", g.join(","), w.join(","))); }
            }
            Ok(())
        }
    }
}

fn main() {
    run(|cx| {
        let all: Vec<String> = Rule::all().iter().map(|r| r.name().to_string()).collect();
        cx.rule("every version string over a small alphabet, as --min-r-version");
        let mut strs = Vec::new();
        all_strings(&["0", "4", "5", ".", "+", "-", " "], cx.pick_n(5, 6), &mut |s| strs.push(s.to_string()));
        for s in ["4294967295.0.0", "4294967296.0", "4.4294967296", "4.5.4294967296", "00004.5", "4.５", "4.5.0.0", "v4.5", "4.5-1", "99999999999999999999.1"] { strs.push(s.into()); }
        for s in &strs {
            if cx.stop() { return; }
            let w = version(s);
            cx.case(format!("parse_r_version({s:?})"), s.contains('.'), || {
                let r = parse_r_version(s.clone()).ok();
                if r == w { Ok(()) } else { Err(format!("read as {r:?}, expected {w:?}")) }
            });
        }
        cx.rule("all versions around the minimum versions of the rules, on the command line and in DESCRIPTION");
        let near: Vec<u32> = vec![0, 1, 3, 4, 5, 6, 10, 40, 45, u32::MAX];
        for a in &near { for b in &near { for c in &near {
            if cx.stop() { return; }
            cx.case(format!("--min-r-version {a}.{b}.{c}, all rules"), true, || check(&all, Some(format!("{a}.{b}.{c}")), vec![], Ok(Some((*a, *b, *c)))));
        } } }
        cx.case("no version known, all rules".into(), true, || check(&all, None, vec![], Ok(None)));
        cx.rule("random projects: several paths, DESCRIPTION files, random rule lists");
        let dir = tempfile::tempdir().unwrap();
        let mut n = 0;
        while cx.more() {
            if cx.stop() { return; }
            n += 1;
            let mut names: Vec<String> = all.iter().filter(|_| cx.rng.chance(1, 3)).cloned().collect();
            for x in ["grepv", "coalesce", "list2df"] { if cx.rng.chance(1, 2) && !names.iter().any(|y| y == x) { names.push(x.into()); } }
            if names.is_empty() { names.push("grepv".into()); }
            let mut paths = Vec::new();
            let mut descr = Vec::new();
            let mut v: Option<Result<Option<(u32, u32, u32)>, ()>> = None;
            for k in 0..1 + cx.rng.below(3) {
                let d = dir.path().join(format!("{n}_{k}"));
                std::fs::create_dir_all(d.join("R")).unwrap();
                let ver = match cx.rng.below(6) { 0 => None, 1 => Some("".to_string()), 2 => Some("4".to_string()), 3 => Some("4.4.x".into()), _ => Some(format!("{}.{}{}", cx.rng.pick(&[3u32, 4, 5]), cx.rng.below(7), if cx.rng.chance(1, 2) { format!(".{}", cx.rng.below(3)) } else { String::new() })) };
                let file = match cx.rng.below(3) { 0 => d.join("a.R"), 1 => d.clone(), _ => d.join("missing.R") };
                if file == d.join("a.R") { std::fs::write(&file, "x").unwrap(); }
                if let Some(x) = &ver {
                    let t = if x.is_empty() { "Package: p\nImports: R (>= 4.5.0)\n".to_string() } else { format!("Package: p\nDepends: dplyr, R (>= {x})\n") };
                    std::fs::write(d.join("DESCRIPTION"), t).unwrap();
                    if v.is_none() && !x.is_empty() { v = Some(version(x).map(Some).ok_or(())); }
                }
                descr.push(format!("{}: {ver:?}", file.strip_prefix(dir.path()).unwrap().display()));
                paths.push(file);
            }
            let cli = if cx.rng.chance(1, 4) { Some(format!("{}.{}", cx.rng.pick(&[3u32, 4, 5]), cx.rng.below(7))) } else { None };
            let w = match &cli { Some(c) => version(c).map(Some).ok_or(()), None => v.unwrap_or(Ok(None)) };
            cx.case(format!("rules {}; version {cli:?}; projects [{}]", names.join(","), descr.join("; ")), true, || check(&names, cli.clone(), paths.clone(), w));
            if n % 200 == 0 { for e in std::fs::read_dir(dir.path()).unwrap() { let _ = std::fs::remove_dir_all(e.unwrap().path()); } }
        }
    });
}
