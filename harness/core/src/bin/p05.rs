// oracle for P05, written from the property text
#[path = "/repo/crates/jarl-core/src/rmd/extraction.rs"]
#[allow(dead_code)]
mod extraction;
use extraction::extract_r_chunks;

fn fence(line: &[char]) -> Option<usize> {
    let mut i = 0;
    while i < line.len() && (line[i] == ' ' || line[i] == '\t') { i += 1; }
    let mut n = 0;
    while i < line.len() && line[i] == '`' { i += 1; n += 1; }
    if n < 3 || i + 2 >= line.len() + 0 && !(i + 2 < line.len()) { return None; }
    if line[i] != '{' || !(line[i + 1] == 'r' || line[i + 1] == 'R') { return None; }
    line[i + 2..].contains(&'}').then_some(n)
}
fn oracle(t: &str) -> Vec<(String, usize)> {
    let mut lines: Vec<(usize, usize)> = vec![];
    let mut s = 0;
    for (i, b) in t.bytes().enumerate() { if b == b'\n' { lines.push((s, i + 1)); s = i + 1; } }
    if s < t.len() { lines.push((s, t.len())); }
    let mut out = vec![];
    let mut i = 0;
    while i < lines.len() {
        let l: Vec<char> = t[lines[i].0..lines[i].1].chars().collect();
        if let Some(n) = fence(&l) {
            let close = (i + 1..lines.len()).find(|&j| {
                let c: Vec<char> = t[lines[j].0..lines[j].1].chars().collect();
                let a = c.iter().position(|c| !c.is_whitespace());
                let z = c.iter().rposition(|c| !c.is_whitespace());
                match (a, z) { (Some(a), Some(z)) => z + 1 - a == n && c[a..=z].iter().all(|c| *c == '`'), _ => false }
            });
            let Some(j) = close else { break };
            let st = lines[i].1;
            out.push((t[st..lines[j].0].to_string(), st));
            i = j + 1;
        } else { i += 1; }
    }
    out
}
fn check(t: &str) -> Result<(), String> {
    let got: Vec<(String, usize)> = extract_r_chunks(t).into_iter().map(|c| (c.code, c.start_byte)).collect();
    let want = oracle(t);
    if got != want { return Err(format!("chunks {got:?}, expected {want:?}")); }
    Ok(())
}
fn main() {
    hx::run(|cx| {
        cx.rule("documents built from fence lines, text and line ends (LF, CRLF, none), ASCII and not: all sequences of up to 6 (thorough 7) of 9 pieces, all sequences of up to 3 of 24 whole lines, then random documents. Non-trivial: the oracle finds at least one chunk.");
        let n = cx.pick_n(6, 7);
        let mut go = |cx: &mut hx::Cx, t: String| { let nt = !oracle(&t).is_empty(); cx.case(format!("{t:?}"), nt, move || check(&t)); };
        hx::all_strings(&["```", "`", "{r}", "\n", "x", " ", "é", "{r", "~~~"], n, &mut |t| { if !cx.stop() { go(cx, t.to_string()) } });
        let lines = ["```{r}\n", "```{R}\n", "````{r}\n", "  ```{r, echo=FALSE}\n", "\t```{r é€}\r\n", "```r\n", "```{python}\n", "``{r}\n", "```{ r}\n", "```{r\n", "```{r}x}\n", "x ```{r}\n", "~~~{r}\n",
            "```\n", "````\n", "  ```  \n", "```\r\n", "\u{a0}```\u{3000}\n", "``` x\n", "```", "x <- 1\n", "é\n", "\n", "'```'\n"];
        hx::all_strings(&lines, 3, &mut |t| { if !cx.stop() { go(cx, format!("```{{r}}\n{t}```\n")); go(cx, t.to_string()) } });
        while cx.more() {
            let t = if cx.rng.chance(2, 3) { hx::random_string(&mut cx.rng, &lines, 12) } else {
                hx::random_string(&mut cx.rng, &["```", "`", "{r}", "{R a}", "{", "}", "r", "\n", "\n", "\r\n", "\r", "x", " ", "\t", "é", "😀", "\u{a0}", "~~~", "\u{b}", "\u{2028}", "\u{85}", "#|"], 40) };
            go(cx, t);
        }
    });
}
