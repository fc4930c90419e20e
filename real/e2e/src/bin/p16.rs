// oracle for P16: which statements of generated functions are reported as unreachable
use e2e::*;
use hx::Rng;

#[derive(Clone, Debug)]
enum C { Open(usize), Text(Option<bool>, String) }
#[derive(Clone, Debug)]
enum S { Call, Stop, Return(bool), Bare, Break, Next, If(C, Body, Option<Body>), Loop(u8, Body), Braces(Vec<S>) }
#[derive(Clone, Debug)]
enum Body { One(Box<S>), Many(Vec<S>) }
/// the text, and for each marked statement its bytes and whether it can run
#[derive(Default)]
struct Out { t: String, marks: Vec<(usize, usize, bool, bool)>, n: usize }
/// a condition: its text and what it is known to be
fn cond(r: &mut Rng, depth: usize) -> C {
    fn go(r: &mut Rng, d: usize) -> (String, Option<bool>) {
        match r.below(if d == 0 { 4 } else { 9 }) {
            0 => ("TRUE".into(), Some(true)),
            1 => ("FALSE".into(), Some(false)),
            2 | 3 => (r.pick(&["a", "f(b)", "x > 1", "!a", "NA", "T", "!FALSE", "1", "xor(TRUE, a)"]).to_string(), None),
            4 => { let (a, v) = go(r, d - 1); (format!("({a})"), v) }
            k => {
                let (a, v) = go(r, d - 1);
                let (b, w) = go(r, d - 1);
                let op = if k < 7 { *r.pick(&["|", "||"]) } else { *r.pick(&["&", "&&"]) };
                let (a, b) = (if a.contains(' ') { format!("({a})") } else { a }, if b.contains(' ') { format!("({b})") } else { b });
                let z = if k < 7 { if v == Some(true) || w == Some(true) { Some(true) } else if v == Some(false) && w == Some(false) { Some(false) } else { None } }
                    else if v == Some(false) || w == Some(false) { Some(false) } else if v == Some(true) && w == Some(true) { Some(true) } else { None };
                (format!("{a} {op} {b}"), z)
            }
        }
    }
    if r.chance(1, 2) { C::Open(r.below(3)) } else { let (t, v) = go(r, depth); C::Text(v, t) }
}
fn many(r: &mut Rng, d: usize, max: usize) -> Vec<S> { (0..r.below(max + 1)).map(|_| stmt(r, d)).collect() }
fn body(r: &mut Rng, d: usize) -> Body { if r.chance(1, 4) { match stmt(r, d) { S::Braces(l) => Body::Many(l), s => Body::One(Box::new(s)) } } else { Body::Many(many(r, d, 4)) } }
fn stmt(r: &mut Rng, d: usize) -> S {
    match r.below(if d == 0 { 14 } else { 26 }) {
        0..=6 => S::Call,
        7 | 8 => S::Stop,
        9 | 10 => S::Return(r.chance(1, 2)),
        11 => if r.chance(1, 4) { S::Bare } else { S::Call },
        12 => S::Break,
        13 => S::Next,
        14..=20 => { let c = cond(r, 2); let a = body(r, d - 1); let b = if r.chance(2, 3) { Some(body(r, d - 1)) } else { None };
            // an else goes with the nearest if
            let a = match a { Body::One(s) if b.is_some() && matches!(*s, S::If(..) | S::Loop(..)) => Body::Many(vec![*s]), a => a };
            S::If(c, a, b) }
        21..=24 => S::Loop(r.below(3) as u8, body(r, d - 1)),
        _ => S::Braces(many(r, d - 1, 3)),
    }
}
/// writes a statement; `live`: it can run; `inl`: it is in a loop. Returns whether what follows can run if it can.
/// A statement that leaves the function or the pass is not itself reported where only what led there cannot run (`sure` is false)
impl Out {
    fn mark(&mut self, text: &str, live: bool, sure: bool) { let s = self.t.len(); self.t += text; self.marks.push((s, self.t.len(), live, sure)); }
    fn list(&mut self, l: &[S], ind: usize, live: bool, inl: bool, sure: bool) -> bool {
        let mut ok = live;
        for s in l {
            self.t += &" ".repeat(ind);
            ok = self.one(s, ind, ok, inl, sure) && ok;
            self.t += "\n";
        }
        ok
    }
    fn body(&mut self, b: &Body, ind: usize, live: bool, inl: bool) -> bool {
        match b {
            Body::One(s) => self.one(s, ind, live, inl, true),
            Body::Many(l) => { self.t += "{\n"; let r = self.list(l, ind + 2, live, inl, true); self.t += &" ".repeat(ind); self.t += "}"; r }
        }
    }
    fn one(&mut self, s: &S, ind: usize, live: bool, inl: bool, sure: bool) -> bool {
        self.n += 1;
        let n = self.n;
        match s {
            S::Call => { self.mark(&format!("s{n}()"), live, sure); true }
            S::Stop => { self.mark(*["stop(\"m\")", "rlang::abort(m)", "cli_abort()", "stop()"].get(n % 4).unwrap(), live, false); false }
            S::Return(v) => { self.mark(if *v { "return(1)" } else { "return()" }, live, false); false }
            S::Bare => { self.mark("return", live, sure); true }
            S::Break => { self.mark(if n % 3 == 0 { "break()" } else { "break" }, live, false); !inl }
            S::Next => { self.mark(if n % 3 == 0 { "next()" } else { "next" }, live, false); !inl }
            S::If(c, a, b) => {
                let (text, v) = match c { C::Open(k) => (["a", "f(b) > 1", "is.na(x) && y"][*k].to_string(), None), C::Text(v, t) => (t.clone(), *v) };
                self.t += &format!("if ({text}) ");
                let x = self.body(a, ind, live && v != Some(false), inl);
                let y = match b {
                    None => true,
                    Some(b) => { self.t += " else "; self.body(b, ind, live && v != Some(true), inl) }
                };
                v != Some(false) && x || v != Some(true) && y
            }
            S::Loop(k, b) => {
                self.t += ["repeat ", "while (w) ", "for (i in x) "][*k as usize];
                self.body(b, ind, live, true);
                true
            }
            // braces by themselves are one statement: what is in them is not looked at
            S::Braces(l) => {
                self.t += "{\n";
                let k = self.marks.len();
                self.list(l, ind + 2, live, inl, true);
                for m in &mut self.marks[k..] { m.2 = live; }
                self.t += &" ".repeat(ind); self.t += "}"; true
            }
        }
    }
}
fn run(text: &str, marks: &[(usize, usize, bool, bool)]) -> Result<(), String> {
    let d = Dir::new();
    d.write("f.R", text);
    let rep = check(&d, &["f.R", "--select", "unreachable_code"])?;
    if !rep.errors.is_empty() { return Err(format!("{:?}", rep.errors)); }
    for x in &rep.diags { if x.fix.is_some() || x.name != "unreachable_code" { return Err(format!("{x:?}")); } }
    for (s, e, live, sure) in marks {
        let hit = rep.diags.iter().any(|x| x.start <= *s && *e <= x.end);
        let touch = rep.diags.iter().any(|x| x.start < *e && *s < x.end);
        if *live && touch { return Err(format!("{} at byte {s} can run and is reported", &text[*s..*e])); }
        if !*live && *sure && !hit { return Err(format!("{} at byte {s} cannot run and is not reported", &text[*s..*e])); }
    }
    Ok(())
}
fn main() {
    hx::run(|cx| {
        cx.rule("Random functions of nested if/else (conditions open, or settled by TRUE, FALSE, |, ||, &, && and parentheses), for, while and repeat loops, braces, calls, stop/abort, return(), bare return, break and next: a statement is within an unreachable_code diagnostic exactly when no way through the function leads to it (loops may run any number of times and end). At the top level, what can run is not reported. Non-trivial: some statement cannot run.");
        while cx.more() {
            let l = many(&mut cx.rng, 3, 5);
            if l.is_empty() { continue; }
            let mut o = Out::default();
            if cx.rng.chance(1, 5) {
                o.list(&l, 0, true, false, true);
                let dead = o.marks.iter().any(|m| !m.2);
                for m in &mut o.marks { m.3 = false; }
                cx.case(o.t.clone(), dead, || run(&o.t, &o.marks));
                continue;
            }
            o.t += *cx.rng.pick(&["f <- function(x, a = 1) {\n", "function(a) {\n", "g(function(b) {\n", "\\(x) {\n"]);
            let g = o.t.starts_with("g(");
            o.list(&l, 2, true, false, true);
            o.t += if g { "})\n" } else { "}\n" };
            let dead = o.marks.iter().any(|m| !m.2);
            cx.case(o.t.clone(), dead, || run(&o.t, &o.marks));
        }
    })
}
