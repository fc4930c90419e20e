// P18 oracle: base and extend- lists of the rule options, from the TOML text to the resolved settings
use hx::*;
use std::collections::{BTreeSet, HashSet};
#[path = "/repo/crates/jarl-core/src/rule_options/mod.rs"]
mod rule_options;
#[path = "/repo/crates/jarl-core/src/settings.rs"]
mod settings;
#[path = "/repo/crates/jarl-core/src/toml.rs"]
mod toml;
use rule_options::ResolvedRuleOptions;

const RULES: [(&str, &str); 4] = [
    ("duplicated_arguments", "skipped-functions"),
    ("implicit_assignment", "skipped-functions"),
    ("undesirable_function", "functions"),
    ("unreachable_code", "stopping-functions"),
];
fn list(o: &ResolvedRuleOptions, i: usize) -> BTreeSet<String> {
    let s: &HashSet<String> = match i {
        0 => &o.duplicated_arguments.skipped_functions,
        1 => &o.implicit_assignment.skipped_functions,
        2 => &o.undesirable_function.functions,
        _ => &o.unreachable_code.stopping_functions,
    };
    s.iter().cloned().collect()
}
type L = Option<Vec<String>>;
fn want(b: &L, e: &L, d: &BTreeSet<String>) -> Option<BTreeSet<String>> {
    match (b, e) {
        (Some(_), Some(_)) => None,
        (Some(b), None) => Some(b.iter().cloned().collect()),
        (None, Some(e)) => Some(d.iter().cloned().chain(e.iter().cloned()).collect()),
        (None, None) => Some(d.clone()),
    }
}
fn q(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join(", ")) }

fn main() {
    run(|cx| {
        let defaults: Vec<BTreeSet<String>> = (0..4).map(|i| list(&ResolvedRuleOptions::default(), i)).collect();
        let dir = tempfile::tempdir().unwrap();
        let file = dir.path().join("jarl.toml");
        cx.rule("resolve_with_extend on all pairs of lists over a small alphabet of names");
        let words = ["a", "b", "c", "stop", ""];
        let mut lists: Vec<L> = vec![None, Some(vec![])];
        for x in words { lists.push(Some(vec![x.to_string()])); for y in words { lists.push(Some(vec![x.to_string(), y.to_string()])); } }
        let defs: [&[&str]; 4] = [&[], &["a"], &["a", "b"], &["stop", "a", "a"]];
        for b in &lists { for e in &lists { for d in defs {
            if cx.stop() { return; }
            let ds: BTreeSet<String> = d.iter().map(|s| s.to_string()).collect();
            cx.case(format!("base {b:?}, extend {e:?}, defaults {d:?}"), b.is_some() || e.is_some(), || {
                let r = rule_options::resolve_with_extend(b.as_ref(), e.as_ref(), d, "r", "f");
                let r = r.ok().map(|s| s.into_iter().collect::<BTreeSet<_>>());
                let w = want(b, e, &ds);
                if r == w { Ok(()) } else { Err(format!("resolved to {r:?}, expected {w:?} (None: an error)")) }
            });
        } } }
        cx.rule("jarl.toml with random option tables for the four rules (in random order), read and resolved as jarl does");
        while cx.more() {
            if cx.stop() { return; }
            let all: Vec<String> = words.iter().map(|s| s.to_string()).chain(defaults.iter().flatten().cloned()).collect();
            let both_ok = cx.rng.chance(1, 3);
            let mut text = String::new();
            let mut w = Vec::new();
            let mut opts: Vec<(usize, L, L)> = Vec::new();
            for i in 0..4 {
                let mut mk = |cx: &mut Cx| -> L { if cx.rng.chance(1, 2) { None } else { let n = cx.rng.below(4); Some((0..n).map(|_| cx.rng.pick(&all).clone()).collect()) } };
                let b = mk(cx);
                let mut e = mk(cx);
                if b.is_some() && !both_ok { e = None; }
                opts.push((i, b, e));
            }
            for i in (1..4).rev() { let j = cx.rng.below(i + 1); opts.swap(i, j); }
            if cx.rng.chance(1, 3) { text += "[lint]\nselect = [\"class_equals\"]\nextend-select = [\"any_is_na\"]\nignore = [\"seq\"]\nfixable = [\"f\"]\nunfixable = [\"u\"]\n"; }
            let tabled = !text.is_empty();
            for (i, b, e) in &opts {
                if b.is_none() && e.is_none() && cx.rng.chance(1, 2) { continue; }
                text += &format!("[lint.{}]\n", RULES[*i].0);
                if let Some(b) = b { text += &format!("{} = {}\n", RULES[*i].1, q(b)); }
                if let Some(e) = e { text += &format!("extend-{} = {}\n", RULES[*i].1, q(e)); }
            }
            opts.sort_by_key(|o| o.0);
            for (i, b, e) in &opts { w.push(want(b, e, &defaults[*i])); }
            std::fs::write(&file, &text).unwrap();
            let err = w.iter().any(|x| x.is_none());
            cx.case(format!("jarl.toml {text:?}"), true, || {
                let t = toml::parse_jarl_toml(&file).map_err(|e| format!("not read: {e}"))?;
                match t.into_settings(dir.path()) {
                    Err(e) => if err { Ok(()) } else { Err(format!("rejected: {e}")) },
                    Ok(s) => {
                        if err { return Err("accepted although a rule has both lists".into()); }
                        for i in 0..4 {
                            let r = list(&s.linter.rule_options, i);
                            if Some(&r) != w[i].as_ref() { return Err(format!("{}: {r:?}, expected {:?}", RULES[i].0, w[i])); }
                        }
                        let l = &s.linter;
                        let o = |x: &str| if tabled { Some(vec![x.to_string()]) } else { None };
                        for (n, a, b) in [("select", &l.select, o("class_equals")), ("extend-select", &l.extend_select, o("any_is_na")), ("ignore", &l.ignore, o("seq")), ("fixable", &l.fixable, o("f")), ("unfixable", &l.unfixable, o("u"))] {
                            if *a != b { return Err(format!("{n} became {a:?}, given as {b:?}")); }
                        }
                        Ok(())
                    }
                }
            });
        }
    })
}
