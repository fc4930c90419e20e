// oracle for P04, written from the property text
#[path = "../../../stubs/text.rs"]
mod text;
#[path = "/repo/crates/jarl-core/src/location.rs"]
#[allow(dead_code)]
mod location;
#[path = "/verif/build/gen/p04.rs"]
mod code;
use code::*;
use text::*;

fn diag(start: usize, end: usize, k: usize) -> Diagnostic {
    Diagnostic { message: ViolationData { name: format!("rule{k}"), body: format!("body{k}"), suggestion: if k % 2 == 0 { None } else { Some(format!("s{k}")) } },
        filename: format!("f{k}.R").into(), range: TextRange::new((start as u32).into(), (end as u32).into()), location: None,
        fix: Fix { content: format!("c{k}"), start, end, to_skip: k % 3 == 0 } }
}
/// (row, column), and whether the case is the recorded finding (the last newline before the start is the first byte)
fn want(s: &str, start: usize) -> (usize, usize, bool) {
    let before = &s.as_bytes()[..start];
    let row = 1 + before.iter().filter(|b| **b == b'\n').count();
    match before.iter().rposition(|b| *b == b'\n') { Some(p) => (row, start - p - 1, p == 0), None => (row, start, false) }
}
fn check_list(s: &str, input: Vec<(usize, usize)>, out: Vec<Diagnostic>, strict: bool) -> Result<(), String> {
    if out.len() != input.len() { return Err(format!("{} diagnostics became {}", input.len(), out.len())); }
    for (k, (d, (a, b))) in out.iter().zip(&input).enumerate() {
        let mut o = diag(*a, *b, k);
        let (row, col, known) = want(s, *a);
        let Some(l) = d.location else { return Err(format!("diagnostic {k} has no location")) };
        if l.row() != row { return Err(format!("offset {a}: row {}, expected {row}", l.row())); }
        if l.column() != col && (strict || !known || l.column() != *a) { return Err(format!("offset {a}: column {}, expected {col}", l.column())); }
        o.location = d.location;
        if *d != o { return Err(format!("diagnostic {k} changed: {d:?}")); }
    }
    Ok(())
}
fn check(s: &str, input: Vec<(usize, usize)>, strict: bool) -> Result<(), String> {
    let ds = || input.iter().enumerate().map(|(k, (a, b))| diag(*a, *b, k)).collect::<Vec<_>>();
    check_list(s, input.clone(), get_checks_rmd_end(s, ds()).map_err(|e| e.to_string())?, strict)?;
    check_list(s, input.clone(), get_checks_end(s, ds()).map_err(|e| e.to_string())?, strict)
}
fn main() {
    hx::run(|cx| {
        cx.rule("Locating diagnostics in texts over {newline, a, e-acute, carriage return, emoji, blank} of up to 6 (7) characters, one diagnostic per character boundary, then random longer texts. Non-trivial: the text has a newline before some diagnostic.");
        let n = cx.pick_n(5, 7);
        hx::all_strings(&["\n", "a", "é", "\r", "😀"], n, &mut |s| {
            if cx.stop() { return; }
            let all: Vec<(usize, usize)> = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).map(|i| (i, s.len())).collect();
            cx.case(format!("{s:?}"), s.contains('\n'), || check(s, all, false));
        });
        cx.case("file starting with a newline, diagnostic on line 2".into(), true, || check("\nany(is.na(x))", vec![(1, 14)], true));
        while cx.more() {
            let n = cx.rng.below(60);
            let s = hx::random_string(&mut cx.rng, &["\n", "\n", "a", "b", "é", "\r", "😀", " ", "\t", "ß"], n);
            let b: Vec<usize> = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect();
            let k = cx.rng.below(8);
            let v: Vec<(usize, usize)> = (0..k).map(|_| { let x = *cx.rng.pick(&b); let y = *cx.rng.pick(&b); (x.min(y), x.max(y)) }).collect();
            cx.case(format!("{s:?} {v:?}"), s.contains('\n') && !v.is_empty(), || check(&s, v, false));
        }
    });
}
