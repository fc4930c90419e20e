// oracle for P15, written from the property text
#[path = "/repo/crates/jarl-core/src/rule_set.rs"]
#[allow(dead_code)]
mod rule_set;
use rule_set::*;
use std::str::FromStr;

/// one declared rule: variant, name, categories, default, fix
struct Decl { variant: String, name: String, cats: Vec<String>, default: String, fix: String }
/// the declaration table as written; None if it is not written as one `Variant => { field: value, … },` per rule
fn declared() -> Option<Vec<Decl>> {
    let src = std::fs::read_to_string("/repo/crates/jarl-core/src/rule_set.rs").ok()?;
    let a = src.find("\ndeclare_rules! {")?;
    let body = &src[a + 17..];
    let end = body.find("\n}")?;
    let mut out = vec![];
    let mut cur: Option<Decl> = None;
    for l in body[..end].lines() {
        let t = l.trim();
        if t.is_empty() || t.starts_with("//") || t.starts_with("#[") { continue; }
        if let Some(v) = t.strip_suffix("=> {") { cur = Some(Decl { variant: v.trim().into(), name: String::new(), cats: vec![], default: String::new(), fix: String::new() }); continue; }
        if t == "}," || t == "}" { out.push(cur.take()?); continue; }
        let (k, v) = t.split_once(':')?;
        let v = v.trim().trim_end_matches(',');
        let c = cur.as_mut()?;
        match k.trim() {
            "name" => c.name = v.trim_matches('"').into(),
            "categories" => c.cats = v.trim_matches(|x| x == '[' || x == ']').split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect(),
            "default" => c.default = v.into(),
            "fix" => c.fix = v.into(),
            "min_r_version" => {}
            _ => return None,
        }
    }
    if out.is_empty() { None } else { Some(out) }
}
fn ensure(b: bool, m: impl FnOnce() -> String) -> Result<(), String> { if b { Ok(()) } else { Err(m()) } }

const CATS: [Category; 6] = [Category::Comm, Category::Corr, Category::Susp, Category::Perf, Category::Read, Category::Testthat];

fn lookup(s: &str) -> Result<(), String> {
    let want: Vec<Rule> = ALL_RULES.iter().copied().filter(|r| r.name() == s).collect();
    ensure(want.len() <= 1, || format!("{want:?} share a name"))?;
    ensure(Rule::from_name(s) == want.first().copied(), || format!("from_name gives {:?}", Rule::from_name(s)))
}
fn category(s: &str) -> Result<(), String> {
    let want = CATS.into_iter().find(|c| c.as_str() == s);
    ensure(Category::from_str(s).ok() == want, || format!("from_str gives {:?}", Category::from_str(s)))
}
fn one_rule(r: Rule) -> Result<(), String> {
    ensure(Rule::from_name(r.name()) == Some(r), || format!("from_name({:?}) = {:?}", r.name(), Rule::from_name(r.name())))?;
    ensure(r.to_string() == r.name(), || "Display is not the name".into())?;
    ensure(ALL_RULES.iter().filter(|x| **x == r).count() == 1, || "not listed exactly once".into())?;
    ensure(Rule::all().iter().filter(|x| **x == r).count() == 1, || "not listed exactly once by all()".into())?;
    let f = [r.has_safe_fix(), r.has_unsafe_fix(), r.has_no_fix()];
    ensure(f.iter().filter(|b| **b).count() == 1, || format!("fix flags {f:?}"))?;
    let w = match r.fix_status() { FixStatus::Safe => 0, FixStatus::Unsafe => 1, FixStatus::None => 2 };
    ensure(f[w], || format!("{:?} but {f:?}", r.fix_status()))?;
    ensure(r.is_enabled_by_default() != r.is_disabled_by_default(), || "enabled/disabled".into())?;
    ensure(r.is_enabled_by_default() == (r.default_status() == DefaultStatus::Enabled), || "default status".into())?;
    ensure(Rule::enabled_by_default().filter(|x| *x == r).count() == r.is_enabled_by_default() as usize, || "enabled_by_default()".into())?;
    ensure(Rule::disabled_by_default().filter(|x| *x == r).count() == r.is_disabled_by_default() as usize, || "disabled_by_default()".into())?;
    for s in [FixStatus::None, FixStatus::Safe, FixStatus::Unsafe] {
        ensure(Rule::by_fix_status(s).filter(|x| *x == r).count() == (r.fix_status() == s) as usize, || format!("by_fix_status({s:?})"))?;
    }
    for c in CATS {
        let has = r.categories().iter().any(|x| *x == c);
        ensure(r.has_category(c) == has, || format!("has_category({c:?})"))?;
        ensure(Rule::by_category(c).filter(|x| *x == r).count() == has as usize, || format!("by_category({c:?})"))?;
    }
    Ok(())
}
fn sets(rules: &[Rule], probe: Rule) -> Result<(), String> {
    let s = RuleSet::from_rules(rules.to_vec());
    ensure(s.len() == rules.len() && s.is_empty() == rules.is_empty(), || "len".into())?;
    ensure(s.contains(&probe) == rules.contains(&probe), || "contains".into())?;
    ensure(s.contains_name(probe.name()) == rules.contains(&probe), || "contains_name".into())?;
    ensure(s.iter().copied().eq(rules.iter().copied()), || "iter".into())?;
    let c: RuleSet = rules.iter().collect();
    ensure(c == s && rules.iter().copied().collect::<RuleSet>() == s, || "collect".into())?;
    let k: Vec<Rule> = rules.iter().copied().filter(|r| r.has_safe_fix()).collect();
    let f = s.filter(|r| r.has_safe_fix());
    ensure(f.iter().copied().eq(k.iter().copied()), || "filter".into())
}
fn main() {
    hx::run(|cx| {
        cx.rule("Every rule against the declaration table and every listing; every category; lookups of every name, every edit of a name by one character and random names; random rule sets. Non-trivial: the lookup finds something or a rule is examined.");
        let decl = declared();
        if let Some(d) = &decl {
            let n = d.len();
            cx.case("number of rules".into(), true, || ensure(ALL_RULES.len() == n && Rule::all().len() == n && RuleSet::all().len() == n, || format!("{n} declared, {} listed", ALL_RULES.len())));
            for x in d {
                cx.case(format!("declared {}", x.variant), true, || {
                    let r = Rule::from_name(&x.name).ok_or("name not found")?;
                    ensure(format!("{r:?}") == x.variant, || format!("finds {r:?}"))?;
                    ensure(r.name() == x.name, || format!("name {}", r.name()))?;
                    ensure(format!("{:?}", r.default_status()) == x.default, || format!("default {:?}", r.default_status()))?;
                    ensure(format!("{:?}", r.fix_status()) == x.fix, || format!("fix {:?}", r.fix_status()))?;
                    let c: Vec<String> = r.categories().iter().map(|c| format!("{c:?}")).collect();
                    ensure(c == x.cats, || format!("categories {c:?}"))?;
                    one_rule(r)
                });
            }
        }
        for r in ALL_RULES { cx.case(format!("{r:?}"), true, || one_rule(*r)); }
        cx.case("RuleSet::all/empty".into(), true, || ensure(RuleSet::all().iter().copied().eq(ALL_RULES.iter().copied()) && RuleSet::empty().is_empty(), || "all/empty".into()));
        cx.case("Category::ALL".into(), true, || ensure(CATS.iter().all(|c| Category::ALL.iter().filter(|x| *x == c).count() == 1), || format!("{:?}", Category::ALL)));
        let mut texts: Vec<String> = vec![String::new(), "ALL".into(), "Rule".into()];
        for r in ALL_RULES { texts.push(r.name().into()); texts.push(format!("{r:?}")); }
        for c in CATS { texts.push(c.as_str().into()); texts.push(format!("{c:?}")); texts.push(c.to_string()); }
        let mut all = texts.clone();
        for t in &texts {
            all.push(t.to_uppercase()); all.push(t.to_lowercase()); all.push(t.replace('_', "-")); all.push(t.replace('_', ""));
            let cs: Vec<char> = t.chars().collect();
            for i in 0..=cs.len() {
                for e in ["_", " ", "s", "2", "X", ""] {
                    let a: String = cs[..i].iter().collect(); let z: String = cs[i..].iter().collect();
                    all.push(format!("{a}{e}{z}"));
                    if i < cs.len() { let z: String = cs[i + 1..].iter().collect(); all.push(format!("{a}{e}{z}")); }
                }
            }
        }
        for t in all {
            let nt = Rule::from_name(&t).is_some() || Category::from_str(&t).is_ok();
            cx.case(format!("{t:?}"), nt, || { lookup(&t)?; category(&t) });
        }
        while cx.more() {
            let n = cx.rng.below(12);
            let rules: Vec<Rule> = (0..n).map(|_| *cx.rng.pick(ALL_RULES)).collect();
            let probe = *cx.rng.pick(ALL_RULES);
            cx.case(format!("{rules:?} {probe:?}"), n > 0, || sets(&rules, probe));
        }
    });
}
