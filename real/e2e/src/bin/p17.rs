// oracle for P17, written from the property text: `jarl check` on random directory trees
use e2e::*;
use std::collections::{BTreeMap, BTreeSet};
const DIRS: [&str; 9] = ["", "a", "a/b", "a/b/c", "a/b2", "d", "d/e", "a/.h", "ab"];
const RULES: [(&str, &str); 6] = [("any_is_na", "any(is.na(x))"), ("any_duplicated", "any(duplicated(x))"), ("equals_na", "x == NA"), ("length_levels", "length(levels(x))"), ("length_test", "length(x == 2)"), ("numeric_leading_zero", ".5")];
fn rules(id: usize) -> BTreeSet<String> { RULES.iter().enumerate().filter(|(k, _)| id >> k & 1 == 1).map(|(_, r)| r.0.to_string()).collect() }
fn config(id: usize) -> String { format!("[lint]\nselect = [{}]\n", rules(id).iter().map(|r| format!("{r:?}")).collect::<Vec<_>>().join(", ")) }
/// kinds: 0 nothing, 1 jarl.toml, 2 .jarl.toml, 3 both, 4 a directory called jarl.toml, 5 that and .jarl.toml
fn fill(d: &Dir, kinds: &[usize]) {
    let text: String = RULES.iter().map(|r| format!("{}\n", r.1)).collect();
    for (i, (dir, k)) in DIRS.iter().zip(kinds).enumerate() {
        let p = |n: &str| if dir.is_empty() { n.to_string() } else { format!("{dir}/{n}") };
        d.write(&p("f.R"), &text);
        if matches!(k, 1 | 3) { d.write(&p("jarl.toml"), &config(2 * i + 1)); }
        if matches!(k, 2 | 3 | 5) { d.write(&p(".jarl.toml"), &config(2 * i + 2)); }
        if matches!(k, 4 | 5) { std::fs::create_dir_all(d.0.join(p("jarl.toml"))).unwrap(); }
    }
}
/// the rules of the nearest configuration of a directory; None: no configuration
fn nearest(kinds: &[usize], rel: &str) -> Option<usize> {
    let mut r = rel.to_string();
    loop {
        if let Some(i) = DIRS.iter().position(|x| *x == r) { match kinds[i] { 1 | 3 => return Some(2 * i + 1), 2 | 5 => return Some(2 * i + 2), _ => {} } }
        if r.is_empty() { return None; }
        r = r.rsplit_once('/').map(|x| x.0.to_string()).unwrap_or_default();
    }
}
fn main() {
    hx::run(|cx| {
        cx.rule("`jarl check` of one to three paths of random directory trees with jarl.toml, .jarl.toml, both, or a directory of that name, each configuration selecting its own set of rules: every file below the paths is reported exactly for the rules of its closest configuration. Non-trivial: some directory has a configuration.");
        let text: String = RULES.iter().map(|r| format!("{}\n", r.1)).collect();
        let d = Dir::new();
        d.write("f.R", &text);
        let default: BTreeSet<String> = check(&d, &["f.R"]).map(|r| r.diags.into_iter().map(|d| d.name).collect()).unwrap_or_default();
        cx.case("every rule used here is a default rule".into(), false, || if RULES.iter().all(|r| default.contains(r.0)) { Ok(()) } else { Err(format!("{default:?}")) });
        while cx.more() {
            let kinds: Vec<usize> = DIRS.iter().map(|_| *cx.rng.pick(&[0, 0, 1, 2, 3, 4, 5])).collect();
            let mut rels: Vec<String> = Vec::new();
            for _ in 0..1 + cx.rng.below(3) { let x = *cx.rng.pick(&DIRS); rels.push(if cx.rng.chance(1, 2) { if x.is_empty() { "f.R".into() } else { format!("{x}/f.R") } } else { x.into() }); }
            let style = cx.rng.below(4);
            let from = *cx.rng.pick(&["", "", "a", "d/e"]);
            cx.case(format!("tree {kinds:?}, in {from:?}: jarl check {rels:?} (style {style})"), kinds.iter().any(|k| *k > 0), || {
                let d = Dir::new();
                fill(&d, &kinds);
                let args: Vec<String> = rels.iter().map(|r| match style {
                    0 => d.0.join(r).to_string_lossy().trim_end_matches('/').to_string(),
                    1 => d.0.join("ab/..").join(r).to_string_lossy().to_string(),
                    _ => format!("{}{}", if from.is_empty() { "./" } else if from == "a" { "../" } else { "../../" }, r),
                }).collect();
                let mut a = vec!["check", "--output-format", "json"];
                a.extend(args.iter().map(|x| x.as_str()));
                let r = jarl_in(&d.0.join(from), &a).report()?;
                // files below the arguments (hidden directories are not walked into)
                let mut want: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
                for x in DIRS {
                    let f = if x.is_empty() { "f.R".to_string() } else { format!("{x}/f.R") };
                    if rels.iter().any(|r| *r == f || ((r.is_empty() || f.starts_with(&format!("{r}/"))) && (!x.contains("/.h") || r == "a/.h"))) { want.insert(f, nearest(&kinds, x).map(rules).unwrap_or(default.clone())); }
                }
                let mut got: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
                for x in r.diags {
                    let p = std::path::Path::new(&x.file);
                    let p = if p.is_absolute() { p.to_path_buf() } else { d.0.join(from).join(p) };
                    let p = p.canonicalize().map_err(|e| format!("{:?}: {e}", x.file))?;
                    got.entry(p.strip_prefix(&d.0).map_err(|e| format!("{p:?}: {e}"))?.to_string_lossy().to_string()).or_default().insert(x.name);
                }
                if got == want { Ok(()) } else { Err(format!("rules reported {got:?}, expected {want:?}")) }
            });
        }
    })
}
