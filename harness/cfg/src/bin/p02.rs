// P02 oracle: rules run for fixing, through build_config, and fixes carried by diagnostics, through get_checks
use hx::*;
include!("../root.rs");
#[path = "../../../stubs/text.rs"]
mod text;
#[path = "/repo/crates/jarl-core/src/location.rs"]
#[allow(dead_code)]
mod location;
#[path = "/repo/crates/jarl-core/src/error.rs"]
#[allow(dead_code)]
mod error;
#[path = "/repo/crates/jarl-core/src/fs.rs"]
#[allow(dead_code)]
mod fs;
#[allow(dead_code, unused_imports)]
mod rmd {
    #[path = "/repo/crates/jarl-core/src/rmd/extraction.rs"]
    pub mod extraction;
    pub use extraction::*;
}
#[allow(unused_imports)]
mod utils { pub use crate::linter::*; }
#[path = "/verif/build/gen/diag.rs"]
mod diagnostic;
#[path = "../../../stubs/world.rs"]
mod world;
#[path = "/verif/build/gen/linter.rs"]
mod linter;
use config::*;
use rule_set::{FixStatus, Rule};
use std::path::PathBuf;
use world::*;

type L = Option<Vec<String>>;
const GROUPS: [&str; 6] = ["COMM", "CORR", "SUSP", "PERF", "READ", "TESTTHAT"];
/// is the rule one of those the list stands for (names as in the table, groups by their categories)
fn in_list(l: &[String], name: &str) -> bool {
    l.iter().any(|e| { let e = e.trim(); Rule::from_name(name).is_some() && (e == name || e == "ALL")
        || Rule::from_name(name).is_some_and(|r| r.categories().iter().any(|c| c.as_str() == e)) })
}
thread_local! { static FOUND: std::cell::RefCell<(Vec<Found>, Vec<Found>)> = const { std::cell::RefCell::new((vec![], vec![])) }; }

struct Case { select: String, fix: bool, unsafe_fixes: bool, fix_only: bool, fixable: L, unfixable: L, found: Vec<Found>, doc: Vec<Found> }
fn show(c: &Case) -> String {
    format!("--select {:?}{}{}{}, fixable {:?}, unfixable {:?}, found {:?}", c.select, if c.fix { " --fix" } else { "" }, if c.unsafe_fixes { " --unsafe-fixes" } else { "" }, if c.fix_only { " --fix-only" } else { "" }, c.fixable, c.unfixable,
        c.found.iter().chain(&c.doc).map(|f| format!("{} at {:?} fix {:?}", f.name, f.at, f.fix)).collect::<Vec<_>>())
}
fn check(c: &Case) -> Result<(), String> {
    let args = args::args_config(&args::CheckCommand { select: c.select.clone(), fix: c.fix, unsafe_fixes: c.unsafe_fixes, fix_only: c.fix_only, min_r_version: Some("999.0".into()), ..Default::default() });
    let s = settings_of(&[("fixable", &c.fixable), ("unfixable", &c.unfixable)])?;
    let toml = c.fixable.is_some() || c.unfixable.is_some();
    let config = build_config(&args, if toml { Some(&s) } else { None }, vec![PathBuf::from("a.R")]).map_err(|e| format!("refused: {e}"))?;
    let selected: Vec<Rule> = Rule::all().iter().copied().filter(|r| in_list(&c.select.split(',').map(|s| s.to_string()).collect::<Vec<_>>(), r.name())).collect();
    let run: Vec<&str> = selected.iter().filter(|r| !(c.fix && !c.unsafe_fixes && r.fix_status() == FixStatus::Unsafe) && !(c.fix_only && r.fix_status() == FixStatus::None)).map(|r| r.name()).collect();
    let got: Vec<&str> = config.rules_to_apply.iter().map(|r| r.name()).collect();
    if got != run { return Err(format!("rules run: in addition {:?}, missing {:?}", got.iter().filter(|x| !run.contains(x)).collect::<Vec<_>>(), run.iter().filter(|x| !got.contains(x)).collect::<Vec<_>>())); }
    if config.apply_fixes != c.fix || config.apply_unsafe_fixes != c.unsafe_fixes { return Err(format!("apply_fixes {} apply_unsafe_fixes {}", config.apply_fixes, config.apply_unsafe_fixes)); }
    FOUND.with(|f| *f.borrow_mut() = (c.found.clone(), c.doc.clone()));
    WORLD.with(|w| w.borrow_mut().reports = |_, _| FOUND.with(|f| f.borrow().clone()));
    let d = linter::get_checks(&"x <- 1\n".repeat(20), &PathBuf::from("dir/a.R"), &config, &PackageAnalysis::default()).map_err(|e| format!("get_checks failed: {e}"))?;
    let all: Vec<&Found> = c.found.iter().chain(&c.doc).collect();
    if d.len() != all.len() { return Err(format!("{} diagnostics of {}", d.len(), all.len())); }
    for (d, f) in d.iter().zip(all) {
        let declared = Rule::from_name(&f.name).is_some_and(|r| run.contains(&r.name()) && r.fix_status() == FixStatus::None);
        let may = !declared && !f.fix.3 && !c.unfixable.as_ref().is_some_and(|l| in_list(l, &f.name)) && c.fixable.as_ref().is_none_or(|l| in_list(l, &f.name));
        let w = if may { f.fix.clone() } else { (String::new(), 0, 0, true) };
        let g = (d.fix.content.clone(), d.fix.start, d.fix.end, d.fix.to_skip);
        if g != w { return Err(format!("diagnostic of {}: fix {g:?}, expected {w:?}", f.name)); }
        let b = diagnostic(f);
        if d.message != b.message || d.range != b.range || d.filename != PathBuf::from("dir/a.R") { return Err(format!("diagnostic of {} changed: {d:?}", f.name)); }
    }
    Ok(())
}
fn fix(n: usize) -> (String, usize, usize, bool) { [("x".to_string(), 1, 3, false), (String::new(), 1, 3, false), ("yy".to_string(), 0, 0, true), (String::new(), 0, 0, false), ("é".to_string(), 4, 4, false)][n % 5].clone() }

fn main() {
    run(|cx| {
        let names: Vec<String> = Rule::all().iter().map(|r| r.name().to_string()).collect();
        cx.rule("every rule, under all flags, alone and with ALL, with its diagnostic listed fixable/unfixable/neither, kept or skipped");
        for (k, n) in names.iter().enumerate() { for flags in 0..8u32 { for lists in 0..5usize { for skip in [false, true] {
            if cx.stop() { return; }
            let other = names[(k + 1) % names.len()].clone();
            let l = |x: &String| Some(vec![x.clone()]);
            let (f, u): (L, L) = match lists { 0 => (None, None), 1 => (l(n), None), 2 => (l(&other), None), 3 => (None, l(n)), _ => (l(n), l(n)) };
            let c = Case { select: if flags % 2 == 0 { "ALL".into() } else { n.clone() }, fix: flags & 1 != 0, unsafe_fixes: flags & 2 != 0, fix_only: flags & 4 != 0, fixable: f, unfixable: u,
                found: vec![Found { name: n.clone(), at: (2, 5), fix: ("x".into(), 2, 5, skip) }], doc: vec![Found { name: other, at: (7, 9), fix: fix(k) }] };
            cx.case(show(&c), true, || check(&c));
        } } } }
        cx.rule("random selections, lists and diagnostics (also of names that are no rule's)");
        while cx.more() {
            if cx.stop() { return; }
            let mut word = |cx: &mut Cx| if cx.rng.chance(1, 4) { GROUPS[cx.rng.below(6)].to_string() } else if cx.rng.chance(1, 12) { "ALL".to_string() } else { cx.rng.pick(&names).clone() };
            let mut list = |cx: &mut Cx, empty: bool| -> Vec<String> { let n = cx.rng.below(5) + if empty { 0 } else { 1 }; (0..n).map(|_| word(cx)).collect() };
            let select = list(cx, false).join(",");
            let fixable = if cx.rng.chance(1, 2) { Some(list(cx, true)) } else { None };
            let unfixable = if cx.rng.chance(1, 2) { Some(list(cx, true)) } else { None };
            let mut found = |cx: &mut Cx| -> Vec<Found> { let n = cx.rng.below(5); (0..n).map(|_| {
                let name = if cx.rng.chance(1, 10) { ["", "PERF", "ANY_IS_NA", "all"][cx.rng.below(4)].to_string() } else { cx.rng.pick(&names).clone() };
                let a = cx.rng.below(20) as u32;
                Found { name, at: (a, a + cx.rng.below(4) as u32), fix: fix(cx.rng.below(5)) }
            }).collect() };
            let (f, d) = (found(cx), found(cx));
            let c = Case { select, fix: cx.rng.chance(1, 2), unsafe_fixes: cx.rng.chance(1, 2), fix_only: cx.rng.chance(1, 2), fixable, unfixable, found: f, doc: d };
            cx.case(show(&c), true, || check(&c));
        }
    });
}
