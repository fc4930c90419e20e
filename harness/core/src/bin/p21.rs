// oracle for P21, written from the property text: the real end of `jarl check`, and real processes
#[path = "/repo/crates/jarl-core/src/rule_set.rs"]
#[allow(dead_code)]
mod rule_set;
#[path = "/repo/crates/jarl/src/status.rs"]
mod status;
#[path = "/verif/build/gen/p21.rs"]
mod tail;
use status::ExitStatus;
use std::process::ExitCode;
use tail::*;

#[derive(Clone, Debug)]
struct Case { files: Vec<i32>, stats: bool, fmt: usize, select: String, threshold: Option<usize>, toml: bool }
/// per file: -1 failed, otherwise code n: n ordinary and unused_function diagnostics (n % 4 ordinary, n / 4 unused_function)
fn diags(n: i32) -> Vec<Diagnostic> {
    let d = |s: &str| Diagnostic { message: Message { name: s.into() }, fix: n % 2 == 0 };
    let mut v: Vec<Diagnostic> = (0..n % 4).map(|_| d("any_is_na")).collect();
    v.extend((0..n / 4).map(|_| d("unused_function")));
    v
}
fn expected(c: &Case) -> u8 {
    if c.files.iter().any(|f| *f < 0) { return 255; }
    let all: Vec<Diagnostic> = c.files.iter().flat_map(|f| diags(*f)).collect();
    let unused = all.iter().filter(|d| d.message.name == "unused_function").count();
    let explicit = c.select.split(',').any(|s| s.trim() == "unused_function") || (c.toml && c.threshold.is_some());
    let hidden = !explicit && unused > c.threshold.unwrap_or(50);
    let left = if hidden { all.len() - unused } else { all.len() };
    if left > 0 { 1 } else { 0 }
}
fn run_tail(c: &Case) -> anyhow::Result<ExitStatus> {
    let results = c.files.iter().enumerate().map(|(i, f)| (format!("f{i}.R"), if *f < 0 { Err(anyhow::anyhow!("does not parse")) } else { Ok(diags(*f)) })).collect();
    let args = CheckCommand { select: c.select.clone(), extend_select: String::new(), ignore: String::new(), statistics: c.stats, output_format: [OutputFormat::Concise, OutputFormat::Json, OutputFormat::Github, OutputFormat::Full][c.fmt], add_jarl_ignore: None, assignment: None, with_timing: false };
    let mut s = Settings::default();
    let items = match c.threshold { None => vec![], Some(t) => { s.linter.rule_options.unused_function.threshold_ignore = t; if c.toml { s.linter.select = Some(vec!["unused_function".into()]); } vec![Item { s }] } };
    check_tail(results, args.clone(), PathResolver { i: items, p: Default::default() }, args, None, None)
}
fn check(c: &Case) -> Result<(), String> {
    let st = run_tail(c).map_err(|e| format!("failed: {e}"))?;
    let want = match expected(c) { 0 => ExitStatus::Success, 1 => ExitStatus::Failure, _ => ExitStatus::Error };
    if st != want { return Err(format!("{st:?}, expected {want:?}")); }
    let code = main_tail(Ok(st));
    if code != ExitCode::from(expected(c)) { return Err(format!("exit code {code:?}, expected {}", expected(c))); }
    Ok(())
}
fn process(s: &str, want: i32) -> Result<(), String> {
    let o = std::process::Command::new(std::env::current_exe().unwrap()).env("P21_CHILD", s).output().map_err(|e| e.to_string())?;
    if o.status.code() == Some(want) { Ok(()) } else { Err(format!("process exits with {:?}, expected {want}", o.status.code())) }
}
fn main() -> ExitCode {
    if let Ok(s) = std::env::var("P21_CHILD") {
        return match s.as_str() { "success" => ExitStatus::Success.into(), "failure" => ExitStatus::Failure.into(), "error" => ExitStatus::Error.into(), _ => main_tail(Err(anyhow::anyhow!("x"))) };
    }
    hx::run(|cx| {
        cx.rule("The three statuses and a failed run as real processes; the end of `jarl check` on all runs over up to 3 files (failed, clean, with ordinary and with unused_function diagnostics), with and without --statistics, 4 formats, thresholds and selections; then random ones. Non-trivial: some file fails or has a diagnostic.");
        for (s, w) in [("success", 0), ("failure", 1), ("error", 255), ("hard-error", 255)] { cx.case(format!("process {s}"), true, || process(s, w)); }
        let kinds = [-1, 0, 1, 3, 4, 8, 9];
        let mut lists: Vec<Vec<i32>> = vec![vec![]];
        for a in kinds { lists.push(vec![a]); for b in kinds { lists.push(vec![a, b]); for c in kinds { lists.push(vec![a, b, c]); } } }
        for files in &lists { for stats in [false, true] { for fmt in 0..4 { for threshold in [None, Some(0), Some(2)] { for select in ["", "unused_function", "any_is_na, unused_function"] { for toml in [false, true] {
            let c = Case { files: files.clone(), stats, fmt, select: select.into(), threshold, toml };
            cx.case(format!("{c:?}"), files.iter().any(|f| *f != 0), || check(&c));
        } } } } } }
        while cx.more() {
            let n = cx.rng.below(8);
            let c = Case { files: (0..n).map(|_| if cx.rng.chance(1, 12) { -1 } else { cx.rng.below(80) as i32 }).collect(), stats: cx.rng.chance(1, 2), fmt: cx.rng.below(4), select: cx.rng.pick(&["", "unused_function", "x", "unused"]).to_string(), threshold: if cx.rng.chance(1, 2) { Some(cx.rng.below(60)) } else { None }, toml: cx.rng.chance(1, 4) };
            cx.case(format!("{c:?}"), c.files.iter().any(|f| *f != 0), || check(&c));
        }
    });
    ExitCode::SUCCESS
}
