// oracle for P21, written from the property text: the exit status of real runs of `jarl check`
use e2e::*;
#[derive(Clone, Debug)]
struct Case { files: Vec<usize>, stats: bool, fmt: &'static str, unused: usize, threshold: Option<usize>, select: &'static str, toml_extend: bool, broken_toml: usize }
/// 0 clean, 1 and 2 with diagnostics, 3 does not parse, 4 Rmd with a diagnostic, 5 Rmd whose chunk does not parse
const TEXT: [(&str, &str); 7] = [("R", "x <- 1\n"), ("R", "any(is.na(x))\n"), ("R", "any(is.na(x))\nany(duplicated(y))\n"), ("R", "x <- (\n"), ("Rmd", "```{r}\nany(is.na(x))\n```\n"), ("Rmd", "```{r}\nx <- (\n```\n"), ("R", "x <- T\nany(is.na(y)) == NA\n")];
fn run(c: &Case) -> Result<(), String> {
    let d = Dir::new();
    for (i, k) in c.files.iter().enumerate() { d.write(&format!("f{i}.{}", TEXT[*k].0), TEXT[*k].1); }
    if c.unused > 0 {
        d.write("p/DESCRIPTION", "Package: p\n").write("p/NAMESPACE", "export(aa)\n");
        d.write("p/R/a.R", &(0..c.unused).map(|i| format!("fun{i} <- function() {{\n  1\n}}\n")).collect::<String>());
    }
    let mut t = String::new();
    if c.toml_extend { t += "[lint]\nextend-select = [\"unused_function\"]\n"; }
    if let Some(n) = c.threshold { t += &format!("[lint.unused_function]\nthreshold-ignore = {n}\n"); }
    if c.broken_toml == 1 { t += "[lint\n"; }
    if !t.is_empty() { d.write("jarl.toml", &t); }
    match c.broken_toml {
        2 => { let mut b = t.clone().into_bytes(); b.extend(b"# \xe9\n"); d.write_bytes("jarl.toml", &b); }
        3 => { d.write("jarl.toml", &(t.clone() + "[lint]\nno-such-key-at-all = 1\n[lint]\n")); }
        4 => { d.write_bytes("DESCRIPTION", b"Package: q\nAuthor: \xe9\n"); }
        _ => (),
    }
    let mut a = vec!["check", ".", "--output-format", c.fmt];
    if c.stats { a.push("--statistics"); }
    if !c.select.is_empty() { a.push("--select"); a.push(c.select); }
    let o = d.jarl(&a);
    let ordinary = |k: &usize| matches!(k, 1 | 2 | 4) && (c.select.is_empty() || c.select.contains("any_is_na") || c.select.contains("PERF"));
    let on = c.select.contains("CORR") || c.select.contains("unused_function") || c.toml_extend;
    let explicit = c.select.contains("unused_function") || c.toml_extend;
    let unused = if on && (explicit || c.unused <= c.threshold.unwrap_or(50)) { c.unused } else { 0 };
    let want = if (1..4).contains(&c.broken_toml) { 255 } else if c.files.contains(&3) { 255 } else if c.files.iter().any(ordinary) || unused > 0 { 1 } else { 0 };
    if o.code == Some(want) || (c.broken_toml == 4 && o.code == Some(255)) { Ok(()) } else { Err(format!("exit status {:?}, expected {want}; stdout {:?} stderr {:?}", o.code, o.out, o.err)) }
}
/// whatever else is asked for: the status goes with what the same run shows as JSON
fn shown(c: &Case, flags: &[&str], toml: &str) -> Result<(), String> {
    let go = |fmt: &str, stats: bool| {
        let d = Dir::new();
        for (i, k) in c.files.iter().enumerate() { d.write(&format!("f{i}.{}", TEXT[*k].0), TEXT[*k].1); }
        d.write("jarl.toml", toml);
        let mut a = vec!["check", ".", "--output-format", fmt];
        if stats { a.push("--statistics"); }
        if !c.select.is_empty() { a.extend(["--select", c.select]); }
        a.extend(flags);
        d.jarl(&a)
    };
    let j = go("json", false);
    let o = go(c.fmt, c.stats);
    let rep = j.report();
    let want = match &rep { Err(_) => 255, Ok(r) if !r.errors.is_empty() => 255, Ok(r) if !r.diags.is_empty() => 1, Ok(_) => 0 };
    for x in [&j, &o] { if x.code != Some(want) { return Err(format!("exit status {:?}, expected {want} for {:?}; stdout {:?} stderr {:?}", x.code, rep.as_ref().map(|r| (r.diags.len(), r.errors.len())), x.out, x.err)); } }
    Ok(())
}
const FLAGS: &[&[&str]] = &[&["--fix", "--allow-no-vcs"], &["--fix", "--allow-no-vcs", "--fix-only"], &["--fix", "--allow-no-vcs", "--unsafe-fixes"], &["--fix-only"], &["--fix", "--fix-only", "--unsafe-fixes", "--allow-no-vcs"], &["--fix"], &["--with-timing"], &["--no-default-exclude"], &["--min-r-version", "4.5"], &["--min-r-version", "x"], &["--extend-select", "PERF"], &["--ignore", "any_is_na"], &["--ignore", "nosuch"], &["--unsafe-fixes"]];
const TOMLS: &[&str] = &["", "[lint]\nunfixable = [\"any_is_na\"]\n", "[lint]\nfixable = [\"any_duplicated\"]\n", "[lint]\nunfixable = [\"ALL\"]\n", "[lint]\nexclude = [\"f0.*\"]\n", "[lint]\nselect = [\"equals_na\"]\n"];
fn main() {
    hx::run(|cx| {
        cx.rule("Exit status of `jarl check` on directories of up to 4 files (clean, with diagnostics, that do not parse, Rmd) and a package with unused functions, with and without --statistics, 4 formats, thresholds, selections and configuration files that are broken or no UTF-8 (the run as a whole fails); for runs with other flags (--fix, --fix-only, --ignore, ...) the status goes with the diagnostics and errors that the same run shows as JSON. Non-trivial: all.");
        let base = Case { files: vec![], stats: false, fmt: "json", unused: 0, threshold: None, select: "", toml_extend: false, broken_toml: 0 };
        let fmts = ["full", "concise", "json", "github"];
        for b in 1..5 { for stats in [false, true] { let c = Case { files: vec![0, 1], stats, broken_toml: b, ..base.clone() }; cx.case(format!("{c:?}"), true, || run(&c)); } }
        for stats in [false, true] { for fmt in fmts { for a in 0..6 {
            let c = Case { files: vec![a], stats, fmt, ..base.clone() };
            cx.case(format!("{c:?}"), true, || run(&c));
            for b in [0, 1, 3] { let c = Case { files: vec![a, b], stats, fmt, ..base.clone() }; cx.case(format!("{c:?}"), true, || run(&c)); }
        } } }
        for f in FLAGS { for toml in TOMLS { for files in [vec![1], vec![2], vec![1, 3], vec![6], vec![4, 6], vec![0], vec![2, 5]] {
            let c = Case { files, stats: false, fmt: "full", ..base.clone() };
            cx.case(format!("{c:?} {f:?} {toml:?}"), true, || shown(&c, f, toml));
        } } }
        while cx.more() {
            if cx.rng.chance(1, 3) {
                let n = 1 + cx.rng.below(4);
                let c = Case { files: (0..n).map(|_| cx.rng.below(7)).collect(), stats: cx.rng.chance(1, 3), fmt: *cx.rng.pick(&fmts), select: *cx.rng.pick(&["", "", "any_is_na", "ALL"]), ..base.clone() };
                let mut f = cx.rng.pick(FLAGS).to_vec();
                if cx.rng.chance(1, 3) { let g = *cx.rng.pick(FLAGS); if g.iter().all(|x| !f.contains(x)) { f.extend(g); } }
                let toml = *cx.rng.pick(TOMLS);
                cx.case(format!("{c:?} {f:?} {toml:?}"), true, || shown(&c, &f, toml));
                continue;
            }
            let n = cx.rng.below(5);
            let c = Case { files: (0..n).map(|_| *cx.rng.pick(&[0, 0, 0, 1, 2, 3, 4, 5])).collect(), stats: cx.rng.chance(1, 2), fmt: *cx.rng.pick(&fmts), unused: *cx.rng.pick(&[0, 1, 3, 50, 51, 60]), threshold: *cx.rng.pick(&[None, None, Some(0), Some(2), Some(3), Some(55)]),
                select: *cx.rng.pick(&["", "", "any_is_na", "unused_function", "any_is_na,unused_function", "CORR,PERF", "CORR", "PERF"]), toml_extend: cx.rng.chance(1, 4), broken_toml: *cx.rng.pick(&[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4]) };
            if c.files.is_empty() && c.unused == 0 { continue; }
            cx.case(format!("{c:?}"), true, || run(&c));
        }
    })
}
