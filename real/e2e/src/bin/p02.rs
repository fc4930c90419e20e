// oracle for P02, written from the property text: which files `jarl check --fix` changes
use e2e::*;
use jarl_core::rule_set::FixStatus;
use std::collections::BTreeSet;
fn main() {
    hx::run(|cx| {
        cx.rule("`jarl check` with random --fix/--unsafe-fixes/--fix-only, selections and fixable/unfixable lists on a directory with a file per rule: a file is changed only if a rule that is permitted and may fix reports a fix in it, and a file left as it was is reported for exactly the rules that run. Non-trivial: --fix.");
        let (d, all) = trigger_dir();
        let at = attrs();
        while cx.more() {
            let mut l: [L; 6] = Default::default();
            l[0] = Some(if cx.rng.chance(1, 2) { vec!["ALL".into()] } else { list(&mut cx.rng, false, false) });
            let (fixable, unfixable): (L, L) = (if cx.rng.chance(1, 2) { Some(list(&mut cx.rng, true, false)) } else { None }, if cx.rng.chance(1, 2) { Some(list(&mut cx.rng, true, false)) } else { None });
            let (fix, uns, only) = (cx.rng.chance(2, 3), cx.rng.chance(1, 2), cx.rng.chance(1, 3));
            cx.case(format!("--select {:?}{}{}{}, fixable {fixable:?}, unfixable {unfixable:?}", l[0], if fix { " --fix" } else { "" }, if uns { " --unsafe-fixes" } else { "" }, if only { " --fix-only" } else { "" }), fix, || {
                for (n, t) in TRIGGERS { d.write(&format!("t_{n}.R"), t); }
                d.write("jarl.toml", &format!("[lint]\n{}{}", toml_list("fixable", &fixable), toml_list("unfixable", &unfixable)));
                let sel = l[0].clone().unwrap().join(",");
                let mut a = vec!["check", "--output-format", "json", "--min-r-version", "999.0", "--allow-no-vcs", "--select", &sel, "."];
                if fix { a.push("--fix"); }
                if uns { a.push("--unsafe-fixes"); }
                if only { a.push("--fix-only"); }
                let r = d.jarl(&a).report()?;
                let sel = selected(&l).ok_or("bad list")?;
                let run: BTreeSet<&str> = at.iter().filter(|r| sel.contains(r.name) && !(fix && !uns && r.fix == FixStatus::Unsafe) && !(only && r.fix == FixStatus::None)).map(|r| r.name).collect();
                let within = |l: &[String], n: &str| l.iter().any(|e| stands(e).is_some_and(|v| v.contains(&n)));
                for (f, reports) in &all {
                    let changed = TRIGGERS.iter().any(|(n, t)| *f == format!("t_{n}.R") && d.read(f) != *t);
                    let may: Vec<&str> = reports.iter().filter(|x| x.1 && run.contains(x.0.as_str()) && at.iter().any(|r| r.name == x.0 && r.fix != FixStatus::None) && !unfixable.as_ref().is_some_and(|l| within(l, &x.0)) && fixable.as_ref().is_none_or(|l| within(l, &x.0))).map(|x| x.0.as_str()).collect();
                    if changed != ((fix || uns) && !may.is_empty()) { return Err(format!("{f} {}; rules allowed to fix it: {may:?}", if changed { format!("was changed to {:?}", d.read(f)) } else { "was left as it was".into() })); }
                    if !changed {
                        let got: BTreeSet<&str> = r.diags.iter().filter(|x| x.file == *f).map(|x| x.name.as_str()).collect();
                        let want: BTreeSet<&str> = reports.iter().map(|x| x.0.as_str()).filter(|n| run.contains(n)).collect();
                        if got != want { return Err(format!("{f}: rules reported {got:?}, expected {want:?}")); }
                        for x in r.diags.iter().filter(|x| x.file == *f && x.fix.is_some()) { if !may.contains(&x.name.as_str()) { return Err(format!("the diagnostic of {} carries a fix", x.name)); } }
                    }
                }
                Ok(())
            });
        }
    })
}
