// oracle for P01, written from the property text: `jarl check --fix` on files whose fixed text is known by construction
use e2e::*;
/// a call and what becomes of it
fn node(r: &mut hx::Rng, depth: usize) -> (String, String) {
    if depth == 0 || r.chance(1, 5) {
        let a = r.pick(&["x", "\"é\"", "`жи`", "'😀😀'", "foo()", "y$z", "f(\"a\nb\")", "1L"]).to_string();
        return (a.clone(), a);
    }
    let (a, b) = node(r, depth - 1);
    match r.below(6) {
        0 | 1 => (format!("any(is.na({a}))"), format!("anyNA({b})")),
        2 => (format!("any(duplicated({a}))"), format!("anyDuplicated({b}) > 0")),
        3 => (format!("length(levels({a}))"), format!("nlevels({b})")),
        4 => { let (c, d) = node(r, depth - 1); (format!("foo({a}, é = {c})"), format!("foo({b}, é = {d})")) }
        _ => { let (c, d) = node(r, depth - 1); (format!("c({a},{c} )"), format!("c({b},{d} )")) }
    }
}
fn stmts(r: &mut hx::Rng, depth: usize, nl: &str) -> (String, String) {
    let (mut a, mut b) = (String::new(), String::new());
    for _ in 0..r.below(5) {
        let plain = r.pick(&["", "  ", "# é 😀 any(is.na(x))", "\t# x", ""]).to_string();
        if r.chance(1, 3) { a += &plain; b += &plain; a += nl; b += nl; }
        let ind = *r.pick(&["", "  ", "\t"]);
        let (x, y) = node(r, 4);
        let (p, q) = *r.pick(&[("", ""), ("é <- ", ""), ("x1 = ", " # 😀"), ("", "; x"), ("y <- foo(2, ", ")")]);
        a += &format!("{ind}{p}{x}{q}{nl}");
        b += &format!("{ind}{p}{y}{q}{nl}");
        if depth > 0 && r.chance(1, 3) { let (x, y) = stmts(r, depth - 1, nl); a += &format!("if (é) {{{nl}{x}}}{nl}"); b += &format!("if (é) {{{nl}{y}}}{nl}"); }
    }
    (a, b)
}
fn run(files: &[(String, String)]) -> Result<(), String> {
    let d = Dir::new();
    for (i, (a, _)) in files.iter().enumerate() { d.write(&format!("f{i}.R"), a); }
    d.write("keep.Rmd", "```{r}\nany(is.na(x))\n```\n");
    let r = check(&d, &["--fix", "--allow-no-vcs", "--select", "any_is_na,any_duplicated,length_levels", "."])?;
    if !r.errors.is_empty() { return Err(format!("errors {:?}", r.errors)); }
    for (i, (a, b)) in files.iter().enumerate() {
        let g = d.read(&format!("f{i}.R"));
        if g != *b { return Err(format!("fixing {a:?} gives {g:?}, expected {b:?}")); }
    }
    if d.read("keep.Rmd") != "```{r}\nany(is.na(x))\n```\n" { return Err("the Rmd file was changed".into()); }
    if r.diags.iter().any(|x| x.file != "keep.Rmd") { return Err(format!("left over: {:?}", r.diags)); }
    Ok(())
}
fn main() {
    hx::run(|cx| {
        cx.rule("`jarl check --fix` on generated files with nested fixable calls among non-ASCII text, strings of several lines, comments and CRLF, whose fixed text is known by construction. Non-trivial: something is fixed.");
        while cx.more() {
            let nl = *cx.rng.pick(&["\n", "\n", "\r\n"]);
            let n = 1 + cx.rng.below(3);
            let files: Vec<(String, String)> = (0..n).map(|_| { let (mut a, mut b) = stmts(&mut cx.rng, 1, nl); if cx.rng.chance(1, 3) && a.ends_with('\n') && b.ends_with('\n') { a.pop(); b.pop(); } (a, b) }).collect();
            cx.case(format!("files {:?}", files.iter().map(|f| &f.0).collect::<Vec<_>>()), files.iter().any(|f| f.0 != f.1), || run(&files));
        }
    })
}
