// oracle for P11: `jarl check --add-jarl-ignore` on generated files only inserts comments
use e2e::sup::{File, Opts};
use e2e::*;
use e2e::ins::{MORE, has_comment, inserted, tokens};

#[derive(Debug)]
struct Case { text: String, rmd: bool, reason: String, select: &'static str }
fn run(c: &Case) -> Result<bool, String> {
    let d = Dir::new();
    let name = if c.rmd { "f.Rmd" } else { "f.R" };
    d.write(name, &c.text);
    let before = check(&d, &[name, "--select", c.select])?;
    let o = d.jarl(&["check", name, "--select", c.select, &format!("--add-jarl-ignore={}", c.reason)]);
    if o.err.contains("panicked") { return Err(format!("jarl panicked: {}", o.err.chars().take(300).collect::<String>())); }
    let new = d.read(name);
    if c.reason.contains(['\n', '\r']) { return if new == c.text && o.code == Some(255) { Ok(true) } else { Err(format!("a reason with a line break: exit {:?}, file changed: {}", o.code, new != c.text)) }; }
    if !before.errors.is_empty() { return if new == c.text { Ok(false) } else { Err(format!("a file that does not parse was changed to {new:?}")) }; }
    let n = inserted(&c.text, &new, &c.reason).ok_or_else(|| format!("not only comments were inserted: {new:?}"))?;
    if (n == 0) != before.diags.is_empty() { return Err(format!("{n} comments for {} diagnostics", before.diags.len())); }
    let said = o.out.lines().find_map(|l| l.strip_prefix("Summary: Added ")?.split(' ').next()?.parse::<usize>().ok()).unwrap_or(0);
    if said != n { return Err(format!("said to have added {said} comments, added {n}")); }
    if !c.rmd && tokens(&c.text) != tokens(&new) { return Err(format!("the code has changed: {new:?}")); }
    if !c.rmd { for x in &before.diags {
        // a diagnostic about a comment has no code of its own
        if x.name.ends_with("_suppression") { continue; }
        if !has_comment(&c.text, &new, &x.name, &c.reason, x.start, x.end) { return Err(format!("no comment for {} at bytes {}..{}: {new:?}", x.name, x.start, x.end)); }
    } }
    if c.rmd {
        // the same number of R chunks, with the same code
        let code = |t: &str| jarl_core::rmd::extract_r_chunks(t).iter().map(|k| tokens(&k.code)).collect::<Vec<_>>();
        let (p, q) = (jarl_core::rmd::extract_r_chunks(&c.text), jarl_core::rmd::extract_r_chunks(&new));
        for x in &before.diags {
            if x.name.ends_with("_suppression") { continue; }
            let Some(i) = p.iter().position(|k| k.start_byte <= x.start && x.end <= k.start_byte + k.code.len()) else { continue };
            if i < q.len() && !has_comment(&p[i].code, &q[i].code, &x.name, &c.reason, x.start - p[i].start_byte, x.end - p[i].start_byte) { return Err(format!("no comment for {} at bytes {}..{}: {new:?}", x.name, x.start, x.end)); }
        }
        if code(&c.text) != code(&new) { return Err(format!("the code has changed: {new:?}")); }
    }
    Ok(n > 0)
}
fn main() {
    hx::run(|cx| {
        cx.rule("`jarl check --add-jarl-ignore=<reason>` on hand-made and random R files (strings over several lines, several statements on a line, tabs, multi-byte text, Windows line ends, no line end at the end) and on Rmd files with such chunks: without the comments with this reason the file is the original, the tokens of the code are the same, the number of comments is the one told. Non-trivial: a comment was added.");
        for rmd in [false, true] { for m in MORE { for (pre, post) in [("", "\n"), ("", ""), ("y\n  ", "\n"), ("{\n\t", "\n}\n"), ("'x\n y'; ", "; z\n")] {
            let t = format!("{pre}{m}{post}");
            let text = if rmd { format!("---\ntitle: é\n---\n\n```{{r}}\n{t}\n```\nT\n```{{r}}\n{t}\n```\n") } else { t };
            let c = Case { text, rmd, reason: "zq: é".into(), select: "ALL" };
            cx.try_case(format!("{c:?}"), || run(&c));
        } } }
        while cx.more() {
            let one = |r: &mut hx::Rng| match r.below(4) { 0 => File::random(r, Opts { chunk: false, odd: false, file: true }).text, 1 => { let mut t = String::new(); for _ in 0..1 + r.below(4) { t += *r.pick(MORE); t += *r.pick(&["\n", "; ", "\n\n", "\n  "]); } t }, _ => rfile(r) };
            let rmd = cx.rng.chance(1, 4);
            let mut text = String::new();
            if rmd {
                for _ in 0..1 + cx.rng.below(3) {
                    let t = one(&mut cx.rng);
                    text += *cx.rng.pick(&["é\n", "", "T\n\n", "```\nT\n```\n"]);
                    text += &format!("{}```{{r{}}}\n{}{}```\n", cx.rng.pick(&["", "  "]), cx.rng.pick(&["", " a, echo=T"]), t, if t.ends_with('\n') { "" } else { "\n" });
                }
            } else { text = one(&mut cx.rng); }
            let reason = cx.rng.pick(&["zq: é", "zq: é", "zq", "<zq>", "zq # a", "zq\nb", "zq\rb"]).to_string();
            let select = *cx.rng.pick(&["ALL", "any_is_na,true_false_symbol", "any_is_na"]);
            let c = Case { text, rmd, reason, select };
            cx.try_case(format!("{c:?}"), || run(&c));
        }
    })
}
