// oracle for P04, written from the property text: the whole program on generated files
use e2e::*;
fn right(text: &str, d: &Diag) -> Result<(), String> {
    let b = text.as_bytes();
    if d.start > b.len() { return Err(format!("{d:?} starts outside the file")); }
    let before = &b[..d.start];
    let row = 1 + before.iter().filter(|c| **c == b'\n').count();
    let col = before.iter().rev().take_while(|c| **c != b'\n').count();
    // the known finding (known_findings.txt)
    if b.first() == Some(&b'\n') && row == 2 && d.row == 2 { return Ok(()); }
    if (d.row, d.col) != (row, col) { return Err(format!("{} at byte {} is reported at {}:{}, expected {row}:{col}", d.name, d.start, d.row, d.col)); }
    Ok(())
}
fn one(text: &str, name: &str) -> Result<usize, String> {
    let d = Dir::new();
    d.write(name, text);
    let r = check(&d, &["--select", "ALL", name])?;
    for x in &r.diags { right(text, x)?; if x.file != name { return Err(format!("file name {}", x.file)); } }
    Ok(r.diags.len())
}
fn main() {
    hx::run(|cx| {
        cx.rule("Generated R files (nested code, comments, several lines, non-ASCII text, CRLF, no final newline) and Rmd files with generated chunks through `jarl check --output-format json`: row and column of every diagnostic against its range. Non-trivial: all.");
        for t in ["any(is.na(x))", "x\n\n# jarl-ignore\n", "x <- 'é'; any(is.na(x))\n", "x\r\nany(is.na(x))\r\n# jarl-ignore", "\n\n\nany(is.na(x))\n", "x\n\u{c}\nany(is.na(x))\n'\u{c}\u{b}\r\u{85}\u{2028}'; any(is.na(x))\n", "f(\"a\n\nb\", any(is.na(x)))\n# jarl-ignore x: y"] {
            cx.case(format!("file {t:?}"), true, || one(t, "a.R").map(|_| ()));
        }
        while cx.more() {
            if cx.rng.chance(1, 4) {
                let mut t = String::new();
                for _ in 0..1 + cx.rng.below(3) { t.push_str(*cx.rng.pick(&["text é\n\n", "", "# Title\n", "```python\nany(is.na(x))\n```\n"])); t.push_str(&format!("```{{r}}\n{}\n```\n", rfile(&mut cx.rng))); }
                let n = *cx.rng.pick(&["a.Rmd", "b.qmd"]);
                cx.case(format!("{n} {t:?}"), true, || one(&t, n).map(|_| ()));
            } else {
                let t = rfile(&mut cx.rng);
                cx.case(format!("file {t:?}"), true, || one(&t, "a.R").map(|_| ()));
            }
        }
    });
}
