// oracle for P08, written from the property text
#[path = "/repo/crates/jarl-core/src/description.rs"]
#[allow(dead_code)]
mod description;
use description::Description;

/// the Depends field: its own line after the colon and its continuation lines
fn depends(t: &str) -> Option<String> {
    let mut fields: Vec<(String, Vec<String>)> = vec![];
    for l in t.split('\n') {
        let l = l.strip_suffix('\r').unwrap_or(l);
        let Some(c) = l.chars().next() else { continue };
        if c.is_whitespace() { if let Some(f) = fields.last_mut() { f.1.push(l.trim().to_string()); } continue; }
        if let Some((k, v)) = l.split_once(':') { fields.push((k.trim().to_string(), vec![v.trim().to_string()])); }
    }
    fields.into_iter().rev().find(|f| f.0 == "Depends").map(|f| f.1.join(" "))
}
fn version(e: &str) -> Option<String> {
    let cs: Vec<char> = e.chars().collect();
    let a = cs.iter().position(|c| *c == '(')?;
    let z = a + 1 + cs[a + 1..].iter().position(|c| *c == ')')?;
    let inner: String = cs[a + 1..z].iter().collect();
    let v = inner.split(">=").collect::<String>().trim().to_string();
    (!v.is_empty()).then_some(v)
}
fn oracle(t: &str) -> Vec<String> {
    let Some(d) = depends(t) else { return vec![] };
    d.split(',').map(|e| e.trim()).filter(|e| e.starts_with("R ")).filter_map(version).collect()
}
fn check(t: &str) -> Result<(), String> {
    match Description::get_depend_r_version(t) {
        Ok(v) if v == oracle(t) => Ok(()),
        x => Err(format!("{x:?}, expected {:?}", oracle(t))),
    }
}
fn main() {
    hx::run(|cx| {
        cx.rule("DESCRIPTION files: all Depends values of up to 5 (thorough 6) of 10 pieces, all files of up to 4 of 14 lines, then random files. Non-trivial: the oracle finds a version.");
        let n = cx.pick_n(5, 6);
        let mut go = |cx: &mut hx::Cx, t: String| { let nt = !oracle(&t).is_empty(); cx.case(format!("{t:?}"), nt, move || check(&t)); };
        hx::all_strings(&["R ", "(", ")", ">=", "4.1", ",", "Rcpp ", " ", "\n  ", "é"], n, &mut |t| { if !cx.stop() { go(cx, format!("Depends: {t}\n")) } });
        let lines = ["Package: x\n", "Depends: R (>= 4.3.0)\n", "Depends:\n", "    R (>= 3.6),\n", "\tR (4.0.1)\n", "    dplyr (>= 1.0), R (>= 2.1)\n", "Imports: R (>= 9)\n", "\n", "no colon\n", "Depends : R (>= 1)\r\n", "R (>= 5): x\n", "  : R (>= 7)\n", "depends: R (>= 8)\n", "Depends: R, R (3)"];
        hx::all_strings(&lines, 4, &mut |t| { if !cx.stop() { go(cx, t.to_string()) } });
        while cx.more() {
            let t = if cx.rng.chance(1, 2) { hx::random_string(&mut cx.rng, &lines, 12) } else {
                let v = hx::random_string(&mut cx.rng, &["R ", "R", "(", ")", ">=", ">", "=", "4.1.2", "3", ".", ",", ", ", " ", "Rcpp", "\n ", "\n", "\t", "é", "😀", "\u{a0}", ":", "<", "\r\n "], 20);
                format!("Package: a\nDepends:{v}\nImports: R (>= 1)\n") };
            go(cx, t);
        }
    });
}
