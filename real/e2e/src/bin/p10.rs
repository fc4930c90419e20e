// oracle for P10: what the suppression comments of generated files hide, and which of them are reported as unused
use e2e::sup::*;
use e2e::*;
fn run(f: &File) -> Result<(), String> {
    let d = Dir::new();
    d.write("f.R", &f.text);
    let rep = check(&d, &["f.R", "--select", &[&RULES[..], &["outdated_suppression"]].concat().join(",")])?;
    judge(f, &rep)?;
    let rep = check(&d, &["f.R", "--select", &RULES.join(",")])?;
    let (got, want) = (found(&rep, &RULES), f.visible());
    if got != want || rep.diags.len() != want.len() { return Err(format!("without outdated_suppression: diagnostics {got:?}, expected {want:?}")); }
    Ok(())
}
fn main() {
    hx::run(|cx| {
        cx.rule("Random R files of nested blocks, calls and functions with violations of 3 rules and file, chunk, start/end and node suppression comments of these rules: the diagnostics shown are those no comment of the same rule covers, a comment that covers none is reported as unused, and for each hidden one a comment that covers it is not. Non-trivial: a diagnostic is hidden.");
        while cx.more() {
            let f = File::random(&mut cx.rng, Opts { chunk: true, odd: false, file: true });
            let hidden = f.visible().len() < f.bugs.len();
            cx.case(f.text.clone(), hidden, || run(&f));
        }
    })
}
