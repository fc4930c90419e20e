// oracle for P01, written from the property text
#[path = "../../../stubs/text.rs"]
mod text;
#[path = "/repo/crates/jarl-core/src/location.rs"]
#[allow(dead_code)]
mod location;
#[path = "/repo/crates/jarl-core/src/rule_set.rs"]
#[allow(dead_code)]
mod rule_set;
#[path = "/verif/build/gen/diag.rs"]
mod diagnostic;
#[path = "/repo/crates/jarl-core/src/fix.rs"]
#[allow(dead_code)]
mod fix;
#[path = "/verif/build/gen/p01.rs"]
mod passes;
use diagnostic::*;
use text::*;

/// an in-memory file and a linter whose findings are a function of the file
#[allow(dead_code)]
mod world {
    use super::diagnostic::*;
    use std::cell::RefCell;
    use std::path::{Path, PathBuf};
    pub struct Config { pub apply_fixes: bool, pub apply_unsafe_fixes: bool }
    pub struct PackageAnalysis;
    pub type Linter = fn(&str) -> Vec<Diagnostic>;
    thread_local! { pub static FILE: RefCell<(String, Option<Linter>, u32)> = const { RefCell::new((String::new(), None, 0)) }; }
    pub mod fs {
        use super::*;
        pub fn read_to_string(_p: impl AsRef<Path>) -> std::io::Result<String> { Ok(FILE.with(|f| f.borrow().0.clone())) }
        pub fn write(_p: impl AsRef<Path>, t: impl AsRef<[u8]>) -> std::io::Result<()> {
            FILE.with(|f| { let mut f = f.borrow_mut(); f.0 = String::from_utf8(t.as_ref().to_vec()).unwrap(); f.2 += 1; if f.2 > 200 { panic!("does not end") } }); Ok(())
        }
    }
    pub fn get_checks(c: &str, _f: &Path, _k: &Config, _p: &PackageAnalysis) -> anyhow::Result<Vec<Diagnostic>> { Ok(FILE.with(|f| f.borrow().1.unwrap())(c)) }
    pub fn relativize_path<P: AsRef<Path>>(p: P) -> String { p.as_ref().display().to_string() }
    pub fn pb(s: &str) -> PathBuf { PathBuf::from(s) }
}
mod fs { pub fn has_rmd_extension(p: &std::path::Path) -> bool { matches!(p.extension().and_then(|e| e.to_str()), Some("rmd" | "Rmd" | "qmd" | "Qmd")) } }

type E = (usize, usize, &'static str);
fn diag(e: &E) -> Diagnostic {
    Diagnostic { message: ViolationData { name: "x".into(), body: "y".into(), suggestion: None }, filename: "f.R".into(), range: TextRange::new((e.0 as u32).into(), (e.1 as u32).into()), location: None,
        fix: Fix { content: e.2.into(), start: e.0, end: e.1, to_skip: false } }
}
/// the file with exactly the chosen ranges replaced
fn expected(s: &str, es: &[E]) -> (bool, String) {
    let mut chosen: Vec<&E> = vec![];
    let mut skipped = false;
    for e in es { if chosen.iter().any(|c| e.0 < c.1) { skipped = true } else { chosen.push(e) } }
    let mut out = vec![];
    let mut p = 0;
    for c in chosen { out.extend_from_slice(&s.as_bytes()[p..c.0]); out.extend_from_slice(c.2.as_bytes()); p = c.1; }
    out.extend_from_slice(&s.as_bytes()[p..]);
    (skipped, String::from_utf8(out).unwrap())
}
fn check(s: &str, es: &[E]) -> Result<(), String> {
    let got = fix::apply_fixes(&es.iter().map(diag).collect::<Vec<_>>(), s);
    let want = expected(s, es);
    if got != want { return Err(format!("{got:?}, expected {want:?}")); }
    Ok(())
}
// linters for whole runs: every occurrence of a pattern is to be replaced
fn occurrences(c: &str, from: &str, to: &'static str) -> Vec<Diagnostic> { (0..c.len()).filter(|i| c.is_char_boundary(*i) && c[*i..].starts_with(from)).map(|i| diag(&(i, i + from.len(), to))).collect() }
fn l_overlap(c: &str) -> Vec<Diagnostic> { occurrences(c, "aa", "é") }
fn l_grow(c: &str) -> Vec<Diagnostic> { occurrences(c, "éa", "bbbb") }
fn l_report(c: &str) -> Vec<Diagnostic> { let mut v = occurrences(c, "b", ""); let mut d = diag(&(0, 0, "")); d.fix = Fix::empty(); v.push(d); v }
fn l_none(_c: &str) -> Vec<Diagnostic> { let mut d = diag(&(0, 0, "")); d.fix = Fix::empty(); vec![d] }
/// the passes by definition: until one leaves nothing out
fn run(mut s: String, l: world::Linter) -> String {
    loop {
        let es: Vec<Diagnostic> = l(&s);
        let e: Vec<E> = es.iter().map(|d| (d.fix.start, d.fix.end, Box::leak(d.fix.content.clone().into_boxed_str()) as &'static str)).collect();
        let (sk, t) = expected(&s, &e);
        s = t;
        if !sk { return s; }
    }
}
fn whole(s: &str, l: world::Linter, name: &str, fixes: bool, uns: bool) -> Result<(), String> {
    use std::sync::Arc;
    world::FILE.with(|f| *f.borrow_mut() = (s.into(), Some(l), 0));
    let r = passes::check_path(&world::pb(name), Arc::new(world::Config { apply_fixes: fixes, apply_unsafe_fixes: uns }), Arc::new(world::PackageAnalysis)).map_err(|e| e.to_string())?;
    let got = world::FILE.with(|f| f.borrow().0.clone());
    let want = if (fixes || uns) && !name.ends_with("md") { run(s.into(), l) } else { s.to_string() };
    if got != want { return Err(format!("file {got:?}, expected {want:?}")); }
    if r != l(&got) { return Err("the diagnostics returned are not those of the file".into()); }
    Ok(())
}
fn main() {
    hx::run(|cx| {
        cx.rule("apply_fixes on all pairs (triples) of fixes on short texts with 1 to 4 byte characters (replacements empty, shorter, longer, multi-byte), then random lists of up to 8 fixes on longer texts; check_path on whole runs with four linters. Non-trivial: at least two fixes.");
        let texts: &[&'static str] = &["", "x", "ab", "é", "😀é", "abc\n"];
        for s in ["aéb", "éé", "abcd", "😀xé", "aé😀\nb"] {
            let b: Vec<usize> = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect();
            let mut all: Vec<E> = vec![];
            for x in &b { for y in &b { if x <= y { for t in texts { all.push((*x, *y, t)); } } } }
            for e in &all { cx.case(format!("{s:?} {e:?}"), false, || check(s, &[*e])); }
            for e in &all { for f in &all { cx.case(format!("{s:?} {e:?} {f:?}"), true, || check(s, &[*e, *f])); } }
        }
        let ls: [(&str, world::Linter); 4] = [("aa->é", l_overlap), ("éa->bbbb", l_grow), ("b->", l_report), ("none", l_none)];
        for (n, l) in ls { for s in ["", "aaaa", "éaéaa", "xbbéb", "aaaaaaa éa 😀aab\n", "\u{feff}aab"] { for f in ["a.R", "b.Rmd", "c.qmd"] { for k in 0..4 {
            cx.case(format!("run {n} {s:?} {f} {k}"), true, || whole(s, l, f, k % 2 == 1, k / 2 == 1));
        } } } }
        while cx.more() {
            let s = hx::random_string(&mut cx.rng, &["a", "b", "é", "😀", "\n", "日", " "], 30);
            let b: Vec<usize> = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect();
            let k = cx.rng.below(8);
            let mut es: Vec<E> = (0..k).map(|_| { let x = *cx.rng.pick(&b); let y = *cx.rng.pick(&b); let y = if cx.rng.chance(1, 2) { y } else { *b.iter().find(|z| **z >= x + 2).unwrap_or(&s.len()) }; (x.min(y), x.max(y), *cx.rng.pick(texts)) }).collect();
            if cx.rng.chance(3, 4) { es.sort(); }
            cx.case(format!("{s:?} {es:?}"), k >= 2, || check(&s, &es));
        }
    });
}
