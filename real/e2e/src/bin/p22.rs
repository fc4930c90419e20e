// oracle for P22: what is found in an Rmd/Qmd file is what is found in its chunks, each checked as a file of its own
use e2e::*;

#[derive(Debug)]
struct Case { name: &'static str, chunks: Vec<String>, text: String, offs: Vec<usize>, select: &'static str }
type At = (String, usize, usize, String);
fn run(c: &Case) -> Result<bool, String> {
    let d = Dir::new();
    d.write(c.name, &c.text);
    let rep = check(&d, &[c.name, "--select", c.select])?;
    let (mut all, mut wide): (Vec<At>, Vec<&str>) = (vec![], vec![]);
    for (i, k) in c.chunks.iter().enumerate() {
        // "0" before the chunk: a comment for the whole file is misplaced after it
        let pre = if i == 0 { "" } else { "0\n" };
        d.write("own.R", &format!("{pre}{k}"));
        let own = check(&d, &["own.R", "--select", c.select])?;
        if !own.errors.is_empty() { continue; }
        all.extend(own.diags.iter().map(|x| (x.name.clone(), x.start + c.offs[i] - pre.len(), x.end + c.offs[i] - pre.len(), x.body.clone())));
        if i == 0 {
            for (rule, bug) in [("any_is_na", "any(is.na(zz))"), ("any_duplicated", "any(duplicated(zz))"), ("equals_na", "zz == NA"), ("length_levels", "length(levels(zz))")] {
                let t = format!("{k}\n0\n");
                d.write("own.R", &format!("{t}{bug}\n"));
                if !check(&d, &["own.R", "--select", rule])?.diags.iter().any(|x| x.start == t.len()) { wide.push(rule); }
            }
        }
    }
    let broken: Vec<String> = all.iter().map(|x| x.0.clone()).collect();
    let useless = |x: &At| x.0 == "outdated_suppression" && wide.iter().any(|r| broken.iter().any(|b| b == r) && c.text[x.1..x.2].starts_with(&format!("# jarl-ignore-file {r}:")));
    let mut want: Vec<At> = all.iter().filter(|x| !useless(x) && !wide.contains(&x.0.as_str())).cloned().collect();
    want.sort();
    let mut got: Vec<At> = rep.diags.iter().map(|x| (x.name.clone(), x.start, x.end, x.body.clone())).collect();
    got.sort();
    if got != want { return Err(format!("diagnostics {got:?}, from the chunks {want:?}")); }
    if !rep.errors.is_empty() { return Err(format!("errors {:?}", rep.errors)); }
    for x in &rep.diags {
        if x.fix.is_some() { return Err(format!("a fix is offered: {x:?}")); }
        if x.file != c.name { return Err(format!("reported in {}", x.file)); }
    }
    let o = d.jarl(&["check", c.name, "--fix", "--unsafe-fixes", "--select", c.select, "--allow-no-vcs"]);
    if o.err.contains("panicked") { return Err(format!("jarl panicked: {}", o.err)); }
    if d.read(c.name) != c.text { return Err(format!("--fix has changed the file to {:?}", d.read(c.name))); }
    Ok(!got.is_empty() && c.chunks.len() > 1)
}
fn main() {
    hx::run(|cx| {
        cx.rule("Rmd and Qmd files of 1-4 chunks of random R code (violations of several rules, suppression comments of all kinds, chunks that do not parse) between random prose: the diagnostics are those of each chunk checked as an R file, moved by the place of the chunk, without those of the rules the first chunk suppresses for the file and without the complaint that such a comment is of no use; none has a fix, and --fix leaves the file as it is. Non-trivial: more than one chunk, and a diagnostic.");
        while cx.more() {
            let r = &mut cx.rng;
            let (mut text, mut offs, mut chunks) = (String::new(), vec![], vec![]);
            let nl = if r.chance(1, 6) { "\r\n" } else { "\n" };
            if r.chance(1, 2) { text += &format!("---{nl}title: é{nl}---{nl}"); }
            for _ in 0..1 + r.below(4) {
                text += &r.pick(&["", "é\n", "any(is.na(x))\n\n", "```\nany(is.na(x))\n```\n", "```{python}\nx == NA\n```\n", "`r x == NA` T\n"]).replace('\n', nl);
                text += &format!("```{{r{}}}{nl}", r.pick(&["", " a", ", echo=T"]));
                offs.push(text.len());
                let mut k = String::new();
                if r.chance(1, 3) { k += *r.pick(&["# jarl-ignore-file any_is_na: a\n", "# jarl-ignore-file equals_na: a\n", "# jarl-ignore-file any_is_na: a\n# jarl-ignore-file equals_na: b\n", "#| label: a\n# jarl-ignore-file any_duplicated: a\n", "# jarl-ignore-file length_levels: a\n"]); }
                match r.below(8) { 0 => k += "x <- (\n", 1 => k += *r.pick(&["", "x\n", "any(is.na(x))\n"]), _ => k += &body(r, 2, "") }
                let k = k.replace('\n', nl);
                text += &k;
                text += &format!("```{nl}");
                chunks.push(k);
            }
            let c = Case { name: *r.pick(&["f.Rmd", "f.qmd", "f.rmd", "f.Qmd"]), chunks, text, offs, select: *r.pick(&["ALL", "ALL", "any_is_na,equals_na,outdated_suppression,misplaced_file_suppression", "any_is_na,any_duplicated"]) };
            cx.try_case(format!("{c:?}"), || run(&c));
        }
    })
}
