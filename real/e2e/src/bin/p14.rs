// oracle for P14: what the real language server publishes, and the edits it offers, for generated documents
use e2e::ins::{MORE, inserted, tokens};
use e2e::lsp::*;
use e2e::sup::{File, Opts};
use e2e::*;
use serde_json::Value;

#[derive(Debug)]
struct Case { text: String, rmd: bool, enc: Enc, cursor: ((usize, usize), (usize, usize)) }
fn num(v: &Value, k: &str) -> Result<usize, String> { v[k].as_u64().map(|n| n as usize).ok_or(format!("no number {k} in {v}")) }
/// the single edit of an action: start and end in the text, new text
fn edit(a: &Value, f: &std::path::Path, t: &str, e: Enc) -> Result<(usize, usize, String), String> {
    let ch = a["edit"]["changes"].as_object().ok_or(format!("no edit in {a}"))?;
    if ch.len() != 1 { return Err(format!("edits in {} files", ch.len())); }
    let l = ch.get(&uri(f)).and_then(|v| v.as_array()).ok_or(format!("no edit of the document in {a}"))?;
    if l.len() != 1 { return Err(format!("{} edits", l.len())); }
    let (s, z) = range(&l[0]["range"]).ok_or("no range")?;
    let at = |p| offset(t, p, e).ok_or(format!("the edit {} is at a position {p:?} that the text does not have", l[0]));
    Ok((at(s)?, at(z)?, l[0]["newText"].as_str().ok_or("no text")?.to_string()))
}
fn apply(t: &str, e: &(usize, usize, String)) -> String { format!("{}{}{}", &t[..e.0], e.2, &t[e.1..]) }
fn run(l: &mut Lsp, c: &Case) -> Result<bool, String> {
    let d = Dir::new();
    let name = if c.rmd { "f.Rmd" } else { "f.R" };
    d.write(name, &c.text).write("jarl.toml", "[lint]\nselect = [\"ALL\"]\n");
    let cli = check(&d, &[name])?;
    let f = d.0.join(name);
    l.open(&f, &c.text);
    let r = judge(l, c, &cli, &f);
    l.close(&f);
    r
}
fn judge(l: &mut Lsp, c: &Case, cli: &Report, f: &std::path::Path) -> Result<bool, String> {
    let (t, e) = (c.text.as_str(), c.enc);
    let got = l.save(f)?;
    if !cli.errors.is_empty() { return if got.is_none_or(|g| g.is_empty()) { Ok(false) } else { Err("diagnostics for a document that does not parse".into()) }; }
    let got = got.ok_or("nothing was published")?;
    // the same findings as the command line program, in the right places
    let mut a: Vec<_> = cli.diags.iter().map(|x| (x.name.clone(), x.start, x.end, x.fix.clone())).collect();
    let mut b = vec![];
    for g in &got {
        let v = &g["data"];
        let (s, z) = (num(v, "diagnostic_start")?, num(v, "diagnostic_end")?);
        let (fs, fe, fc) = (num(v, "start")?, num(v, "end")?, v["content"].as_str().ok_or("no content")?.to_string());
        b.push((v["rule_name"].as_str().ok_or("no name")?.to_string(), s, z, if fs == 0 && fe == 0 && fc.is_empty() { None } else { Some((fs, fe, fc)) }));
        if range(&g["range"]) != Some((position(t, s, e), position(t, z, e))) { return Err(format!("{} at bytes {s}..{z} was published at {}, expected {:?}", v["rule_name"], g["range"], (position(t, s, e), position(t, z, e)))); }
    }
    a.sort(); b.sort();
    if a != b { return Err(format!("the program finds {a:?}, the server publishes {b:?}")); }
    // the actions
    let (mut acts, _) = l.actions(f, c.cursor)?;
    let code = |t: &str| if c.rmd { jarl_core::rmd::extract_r_chunks(t).iter().map(|k| tokens(&k.code)).collect::<Vec<_>>() } else { vec![tokens(t)] };
    let mut any = false;
    for g in &got {
        let r = range(&g["range"]).unwrap();
        if !(r.0 <= c.cursor.1 && c.cursor.0 <= r.1) { continue; }
        any = true;
        let v = &g["data"];
        let rule = v["rule_name"].as_str().unwrap();
        let mut next = |p: &str| { let i = acts.iter().position(|a| a["title"].as_str().is_some_and(|x| x.starts_with(p)) && a["diagnostics"][0] == *g)?; Some(acts.remove(i)) };
        let (fs, fe, fc) = (num(v, "start")?, num(v, "end")?, v["content"].as_str().unwrap());
        match (next("Fix"), fc.is_empty() && fs == fe) {
            (None, true) => {}
            (Some(x), false) => {
                if edit(&x, f, t, e)? != (fs, fe, fc.to_string()) { return Err(format!("the fix {fc:?} of bytes {fs}..{fe} is offered as {}", x["edit"])); }
                if (x["kind"] == "quickfix") != (v["is_safe"] == true) { return Err(format!("a fix that is safe: {}, offered as {}", v["is_safe"], x["kind"])); }
            }
            (x, _) => return Err(format!("the fix {fc:?} of bytes {fs}..{fe} of {rule} at {r:?} is offered as {x:?}")),
        }
        match next("Suppress") {
            None => if !t.contains("jarl-ignore") { return Err(format!("no comment is offered for {rule} at {r:?}")); },
            Some(x) => {
                let ed = edit(&x, f, t, e)?;
                let n = apply(t, &ed);
                if ed.0 != ed.1 || !ed.2.contains(&format!("# jarl-ignore {rule}: <reason>")) || inserted(t, &n, "<reason>") != Some(1) || code(t) != code(&n) { return Err(format!("the comment for {rule} at {r:?} is offered as {ed:?}")); }
            }
        }
        match next("Ignore") {
            None => if c.rmd && !t.contains("jarl-ignore-chunk") && !t.contains(&format!("- {rule}:")) { return Err(format!("no chunk comment is offered for {rule} at {r:?}")); },
            Some(x) => {
                let ed = edit(&x, f, t, e)?;
                let s = num(v, "diagnostic_start")?;
                let k = jarl_core::rmd::extract_r_chunks(t).into_iter().find(|k| k.start_byte <= s && s <= k.start_byte + k.code.len()).ok_or("no chunk")?;
                if !c.rmd || ed != (k.start_byte, k.start_byte, format!("#| jarl-ignore-chunk:\n#|   - {rule}: <reason>\n")) { return Err(format!("the chunk comment for {rule} at {r:?} is offered as {ed:?}")); }
            }
        }
    }
    if let Some(x) = acts.first() { return Err(format!("an action that was not expected: {x}")); }
    Ok(any)
}
fn main() {
    hx::run(|cx| {
        cx.rule("The real language server over its in-memory connection, on hand-made and random R and Rmd documents (multi-byte text, strings over several lines, tabs, Windows line ends, several diagnostics on a line), in the encodings it agrees on with its client: what it publishes is what `jarl check` finds, each at the line and column a naive count gives for its bytes; the code actions for a random range are, for each diagnostic that touches it, the edit of its fix at the fix's bytes, an edit that inserts one comment for the rule and leaves the tokens of the code alone, and in Rmd an edit at the start of the chunk. Non-trivial: a diagnostic touches the range.");
        let offers: [Option<&[&str]>; 6] = [Some(&["utf-16", "utf-8"]), None, Some(&["utf-16"]), Some(&["utf-32"]), Some(&["utf-32", "utf-16", "utf-7"]), Some(&[])];
        let mut servers: Vec<Lsp> = vec![];
        for o in offers {
            let l = Lsp::new(o);
            let named = match l.enc { Enc::U8 => "utf-8", Enc::U16 => "utf-16", Enc::U32 => "utf-32" };
            cx.case(format!("a client that offers {o:?}"), true, || if l.enc == Enc::U16 || o.is_some_and(|o| o.contains(&named)) { Ok(()) } else { Err(format!("the server chose {named}")) });
            servers.push(l);
        }
        let encs: Vec<Enc> = servers.iter().map(|l| l.enc).collect();
        for (m, x) in MORE.iter().enumerate() { for rmd in [false, true] { for (i, (pre, post)) in [("é; 'ж😀'; ", "\n"), ("x <- '😀é'; y\n  ", ""), ("'😀\n ж'; ", "; z # é\n"), ("'😀ж'; ", "")].into_iter().enumerate() {
            let t = format!("{pre}{x}{post}");
            let text = if rmd { format!("é 😀\n\n```{{r}}\n{t}\n```\nT\n```{{r}}\n{t}\n```\n") } else { t };
            let k = (m + i) % encs.len();
            let c = Case { text, rmd, enc: encs[k], cursor: ((0, 0), (99, 0)) };
            cx.try_case(format!("{c:?}"), || run(&mut servers[k], &c));
        } } }
        while cx.more() {
            let one = |r: &mut hx::Rng| match r.below(5) { 0 => File::random(r, Opts { chunk: false, odd: false, file: true }).text, 1 | 2 => { let mut t = String::new(); for _ in 0..1 + r.below(4) { if r.chance(1, 3) { t += *r.pick(&["'é'; ", "\"😀ж\" ; ", "`😀`; "]); } t += *r.pick(MORE); t += *r.pick(&["\n", "; ", "\n\n", "\n  "]); } t }, _ => rfile(r) };
            let rmd = cx.rng.chance(1, 3);
            let mut text = String::new();
            if rmd {
                for _ in 0..1 + cx.rng.below(3) {
                    let t = one(&mut cx.rng);
                    text += *cx.rng.pick(&["é\n", "", "T 😀\n\n", "```\nT\n```\n"]);
                    text += &format!("{}```{{r{}}}\n{}{}{}```\n", cx.rng.pick(&["", "  "]), cx.rng.pick(&["", " a, echo=T"]), cx.rng.pick(&["", "", "", "#| jarl-ignore-chunk any_is_na: a\n"]), t, if t.ends_with('\n') { "" } else { "\n" });
                }
            } else { text = one(&mut cx.rng); }
            let k = cx.rng.below(encs.len());
            let lines = text.matches('\n').count() + 1;
            let p = |r: &mut hx::Rng| (r.below(lines), r.below(25));
            let cursor = match cx.rng.below(3) { 0 => ((0, 0), (lines, 0)), 1 => { let a = p(&mut cx.rng); (a, a) }, _ => { let (a, b) = (p(&mut cx.rng), p(&mut cx.rng)); (a.min(b), a.max(b)) } };
            let c = Case { text, rmd, enc: encs[k], cursor };
            cx.try_case(format!("{c:?}"), || run(&mut servers[k], &c));
        }
    })
}
