// oracle for P26: what suppression comments apply to, and which of them are reported as wrong
use e2e::sup::*;
use e2e::*;
fn run(f: &File) -> Result<(), String> {
    let d = Dir::new();
    d.write("f.R", &f.text);
    let rep = check(&d, &["f.R", "--select", &[&RULES[..], &ABOUT[..]].concat().join(",")])?;
    judge(f, &rep)?;
    let (got, want) = (found(&rep, &ABOUT[1..]), f.wrong_sorted());
    if got != want { return Err(format!("wrong comments {got:?}, expected {want:?}")); }
    Ok(())
}
fn main() {
    hx::run(|cx| {
        cx.rule("Random R files of nested blocks, calls (with comments between their arguments) and functions with violations of 3 rules, all kinds of suppression comments and wrong ones (blanket, unexplained, unknown rule, at the end of a line, file comment after code, unmatched start or end). Non-trivial: a comment is there.");
        while cx.more() {
            let ch = cx.rng.chance(1, 2);
            let f = File::random(&mut cx.rng, Opts { chunk: ch, odd: true, file: true });
            let n = f.sups.len() + f.wrong.len();
            cx.case(f.text.clone(), n > 0, || run(&f));
        }
    })
}
