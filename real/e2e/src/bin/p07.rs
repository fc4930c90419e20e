// oracle for P07, written from the property text: rules with a minimum R version in `jarl check`
use e2e::*;
use std::collections::BTreeSet;
/// the version a text stands for
fn version(s: &str) -> Option<(u32, u32, u32)> {
    let p: Vec<&str> = s.split('.').collect();
    if p.len() != 2 && p.len() != 3 { return None; }
    let n: Option<Vec<u32>> = p.iter().map(|x| { let y = x.strip_prefix('+').unwrap_or(x); if y.is_empty() || !y.bytes().all(|b| b.is_ascii_digit()) { None } else { y.parse().ok() } }).collect();
    let n = n?;
    Some((n[0], n[1], n.get(2).copied().unwrap_or(0)))
}
fn main() {
    hx::run(|cx| {
        cx.rule("`jarl check --select ALL` on a directory with a file per rule, with the R version given on the command line, by Depends in DESCRIPTION, by both or not at all. Non-trivial: all.");
        let (d, all) = trigger_dir();
        let at = attrs();
        let vs = ["4.0", "4.4", "4.4.0", "4.3.9", "4.3.99", "4.5", "4.4.9", "3.9.9", "5.0", "4.10", "10.0.0", "4.5.0", "4.0.0", "3.99.99", "4.4.1", "0.0.0", "04.4", "+4.4"];
        let bad = ["4", "", "4.4.0.1", "4.x", "x.4", "4.4.", ".4", "4..4", "-4.4", "4,4", "99999999999.0", " 4.4", "4.4 ", "r4.4"];
        while cx.more() {
            let v = |cx: &mut hx::Cx| if cx.rng.chance(1, 5) { cx.rng.pick(&bad).to_string() } else if cx.rng.chance(1, 4) { format!("{}.{}.{}", cx.rng.below(6), cx.rng.below(7), cx.rng.below(3)) } else { cx.rng.pick(&vs).to_string() };
            let cli = if cx.rng.chance(1, 2) { Some(v(cx)) } else { None };
            let desc = if cx.rng.chance(1, 2) { let s = cx.rng.pick(&vs).to_string(); Some(s) } else { None };
            let form = cx.rng.below(3);
            cx.case(format!("--min-r-version {cli:?}, DESCRIPTION {desc:?} (form {form})"), true, || {
                let f = d.0.join("DESCRIPTION");
                let _ = std::fs::remove_file(&f);
                if let Some(s) = &desc { d.write("DESCRIPTION", &match form { 0 => format!("Package: p\nDepends: R (>= {s})\n"), 1 => format!("Depends:\n    utils,\n    R (>= {s}),\n    stats (>= 9.9.9)\n"), _ => format!("Imports: grepv (>= 9.9)\nDepends: methods (>= 9.9), R (>= {s})\nSuggests: R (>= 0.1)\n") }); }
                let mut a = vec!["check", "--output-format", "json", "--select", "ALL", "."];
                let c = format!("--min-r-version={}", cli.clone().unwrap_or_default());
                if cli.is_some() { a.push(&c); }
                let o = d.jarl(&a);
                let v = match (&cli, &desc) { (Some(s), _) => match version(s) { None => return if o.code == Some(255) || o.code == Some(2) { Ok(()) } else { Err(format!("the version {s:?} is accepted: exit {:?}", o.code)) }, x => x }, (None, Some(s)) => version(s), _ => None };
                let r = o.report()?;
                let got: BTreeSet<(String, String)> = r.diags.into_iter().map(|x| (x.file, x.name)).collect();
                let runs = |n: &str| at.iter().find(|a| a.name == n).is_some_and(|a| a.min.is_none_or(|m| v.is_some_and(|v| v >= m)));
                let want: BTreeSet<(String, String)> = all.iter().flat_map(|(f, s)| s.iter().map(|x| (f.clone(), x.0.clone()))).filter(|x| runs(&x.1)).collect();
                if got == want { Ok(()) } else { Err(format!("reported in addition {:?}, not reported {:?}", got.difference(&want).collect::<Vec<_>>(), want.difference(&got).collect::<Vec<_>>())) }
            });
        }
    })
}
