// P06 oracle: the rules selected, through build_config (and parse_rules_*)
use hx::*;
include!("../root.rs");
use config::*;
use rule_set::{Category, Rule};

fn cat(c: Category) -> &'static str {
    match c { Category::Comm => "COMM", Category::Corr => "CORR", Category::Susp => "SUSP", Category::Perf => "PERF", Category::Read => "READ", Category::Testthat => "TESTTHAT" }
}
const GROUPS: [&str; 6] = ["COMM", "CORR", "SUSP", "PERF", "READ", "TESTTHAT"];
/// what an entry stands for (None: an error)
fn stands(e: &str) -> Option<Vec<&'static str>> {
    let t = e.trim();
    if t == "ALL" { return Some(Rule::all().iter().map(|r| r.name()).collect()); }
    if GROUPS.contains(&t) { return Some(Rule::all().iter().filter(|r| r.categories().iter().any(|c| cat(*c) == t)).map(|r| r.name()).collect()); }
    Rule::all().iter().find(|r| r.name() == t).map(|r| vec![r.name()])
}
fn list(l: &Option<Vec<String>>) -> Option<Option<Vec<&'static str>>> {
    match l { None => Some(None), Some(v) => { let mut o = vec![]; for e in v { o.extend(stands(e)?); } Some(Some(o)) } }
}
type L = Option<Vec<String>>;
fn want(l: &[L; 6]) -> Option<Vec<&'static str>> {
    let n: Vec<Option<Vec<&'static str>>> = l.iter().map(list).collect::<Option<Vec<_>>>()?;
    Some(Rule::all().iter().filter(|r| {
        let has = |k: usize| n[k].as_ref().is_some_and(|v| v.contains(&r.name()));
        let sel = if n[0].is_some() { has(0) } else if n[3].is_some() { has(3) } else { r.is_enabled_by_default() };
        let ext = if n[1].is_some() { has(1) } else { has(4) };
        (sel || ext) && !has(2) && !has(5)
    }).map(|r| r.name()).collect())
}
/// order of the lists: CLI select, extend-select, ignore, TOML select, extend-select, ignore
fn got(l: &[L; 6], toml: bool) -> Result<Vec<&'static str>, String> {
    let cli = |k: usize| l[k].as_ref().map(|v| v.join(",")).unwrap_or_default();
    let args = args::args_config(&args::CheckCommand { select: cli(0), extend_select: cli(1), ignore: cli(2), min_r_version: Some("999.0.0".into()), ..Default::default() });
    // with lists that do not concern the selection
    let (f, u) = (Some(vec!["any_is_na".to_string()]), Some(vec!["PERF".to_string()]));
    let s = settings_of(&[("select", &l[3]), ("extend-select", &l[4]), ("ignore", &l[5]), ("fixable", &f), ("unfixable", &u)])?;
    let c = build_config(&args, if toml { Some(&s) } else { None }, vec![]).map_err(|e| e.to_string())?;
    let r: Vec<_> = c.rules.iter().map(|r| r.name()).collect();
    let a: Vec<_> = c.rules_to_apply.iter().map(|r| r.name()).collect();
    if r != a { return Err(format!("without --fix the rules applied {a:?} differ from the rules {r:?}")); }
    Ok(r)
}
fn check(l: &[L; 6], toml: bool) -> Result<(), String> {
    match (got(l, toml), want(l)) {
        (Err(_), None) => Ok(()),
        (Err(e), Some(w)) => Err(format!("refused: {e}; expected {}", w.join(","))),
        (Ok(g), None) => Err(format!("accepted as {}", g.join(","))),
        (Ok(g), Some(w)) => if g == w { Ok(()) } else {
            let extra: Vec<_> = g.iter().filter(|x| !w.contains(x)).collect();
            let missing: Vec<_> = w.iter().filter(|x| !g.contains(x)).collect();
            Err(format!("runs in addition {extra:?}, does not run {missing:?}{}", if extra.is_empty() && missing.is_empty() { " (order)" } else { "" }))
        }
    }
}
fn show(l: &[L; 6], toml: bool) -> String {
    format!("CLI select {:?}, extend-select {:?}, ignore {:?}; jarl.toml {}", l[0], l[1], l[2], if toml { format!("select {:?}, extend-select {:?}, ignore {:?}", l[3], l[4], l[5]) } else { "absent".into() })
}

fn main() {
    run(|cx| {
        let one = |s: &str| -> L { Some(vec![s.to_string()]) };
        let mut words: Vec<String> = Rule::all().iter().map(|r| r.name().to_string()).collect();
        words.extend(GROUPS.iter().map(|s| s.to_string()));
        words.push("ALL".into());
        let bad: Vec<String> = ["", " ", "all", "perf", "PERFF", "foo", "any_is_na x", "any-is-na", "ANY_IS_NA", "None"].iter().map(|s| s.to_string()).collect();
        let ws: Vec<String> = [" any_is_na", "PERF ", "\tALL\u{a0}", " grepv\n"].iter().map(|s| s.to_string()).collect();
        cx.rule("every single name, group and wrong name in every one of the six lists, alone and with ALL selected");
        for w in words.iter().chain(&bad).chain(&ws) { for k in 0..6 { for all in [false, true] {
            if cx.stop() { return; }
            // an empty option on the command line is an option not given
            if k < 3 && w.is_empty() { continue; }
            let mut l: [L; 6] = Default::default();
            if all { l[0] = one("ALL"); }
            l[k] = one(w);
            let toml = k >= 3;
            cx.case(show(&l, toml), true, || check(&l, toml));
        } } }
        cx.rule("all 64 combinations of lists given, over pairs of names and groups");
        let some: Vec<Vec<String>> = vec![vec!["grepv".into()], vec!["PERF".into(), "seq".into()], vec!["TESTTHAT".into()], vec!["any_is_na".into(), "READ".into()], vec!["unused_function".into(), "which_grepl".into()], vec!["SUSP".into()]];
        for m in 0..64u32 { for rot in 0..6 {
            if cx.stop() { return; }
            let mut l: [L; 6] = Default::default();
            for k in 0..6 { if m >> k & 1 == 1 { l[k] = Some(some[(k + rot) % 6].clone()); } }
            let toml = m >> 3 != 0;
            cx.case(show(&l, toml), m != 0, || check(&l, toml));
        } }
        cx.rule("random lists");
        while cx.more() {
            if cx.stop() { return; }
            let mut l: [L; 6] = Default::default();
            let err = cx.rng.chance(1, 6);
            for k in 0..6 {
                if cx.rng.chance(1, 2) { continue; }
                let n = if k < 3 { 1 + cx.rng.below(4) } else { cx.rng.below(5) };
                l[k] = Some((0..n).map(|_| {
                    let mut w = if err && cx.rng.chance(1, 6) { cx.rng.pick(&bad).clone() } else if cx.rng.chance(1, 4) { GROUPS[cx.rng.below(6)].to_string() } else { cx.rng.pick(&words).clone() };
                    if cx.rng.chance(1, 6) { w = format!(" {w}"); }
                    if cx.rng.chance(1, 6) { w = format!("{w} "); }
                    w
                }).collect());
            }
            for k in 0..3 { if l[k].as_ref().is_some_and(|v| v.join(",").is_empty()) { l[k] = None; } }
            let toml = l[3].is_some() || l[4].is_some() || l[5].is_some() || cx.rng.chance(1, 2);
            cx.case(show(&l, toml), true, || check(&l, toml));
        }
    });
}
