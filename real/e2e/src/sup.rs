//! R files with suppression comments, together with what the comments mean (written from the documentation).
use crate::*;

pub const RULES: [&str; 3] = ["any_is_na", "any_duplicated", "equals_na"];
/// the rules about the comments themselves
pub const ABOUT: [&str; 8] = ["outdated_suppression", "unmatched_range_suppression", "misplaced_suppression", "misplaced_file_suppression", "blanket_suppression", "unexplained_suppression", "misnamed_suppression", "invalid_chunk_suppression"];
/// a bug of this rule
pub fn bug(rule: usize, v: &str) -> String { [format!("any(is.na({v}))"), format!("any(duplicated({v}))"), format!("{v} == NA")][rule].clone() }

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct At { pub name: String, pub start: usize, pub end: usize }
/// a suppression: where the comment is, the rule, and what it covers
#[derive(Debug, Clone)]
pub struct Sup { pub rule: usize, pub at: (usize, usize), pub covers: (usize, usize) }
#[derive(Debug, Default, Clone)]
pub struct File {
    pub text: String,
    /// what breaks a rule
    pub bugs: Vec<(usize, usize, usize)>,
    pub sups: Vec<Sup>,
    /// what is wrong with the comments
    pub wrong: Vec<At>,
    open: Vec<(usize, usize, (usize, usize))>,
    pending: Vec<(usize, (usize, usize))>,
    code: bool,
}
#[derive(Clone, Copy)]
pub struct Opts { pub chunk: bool, pub odd: bool, pub file: bool }
impl File {
    fn push(&mut self, s: &str) -> (usize, usize) { let a = self.text.len(); self.text.push_str(s); (a, self.text.len()) }
    fn wrong(&mut self, name: &str, at: (usize, usize)) { self.wrong.push(At { name: name.into(), start: at.0, end: at.1 }); }
    fn bug(&mut self, r: &mut hx::Rng) {
        let k = r.below(RULES.len());
        let at = self.push(&bug(k, *r.pick(&["x", "y1", "`é`"])));
        self.bugs.push((k, at.0, at.1));
        self.code = true;
    }
    /// comments on lines of their own, before a statement (or, if `last`, after the last one) at this depth
    fn comments(&mut self, r: &mut hx::Rng, depth: usize, pad: &str, last: bool, o: Opts) {
        for _ in 0..[0, 0, 0, 1, 1, 2, 3][r.below(7)] {
            let k = r.below(RULES.len());
            let n = RULES[k];
            let why = *r.pick(&["why", "a: b", "é"]);
            self.push(pad);
            match r.below(12) {
                0..=2 if last && r.chance(1, 2) => { let c = self.push(&format!("# jarl-ignore {n}: {why}")); self.sups.push(Sup { rule: k, at: c, covers: (1, 0) }); }
                0..=2 if !last => { let c = self.push(&format!("# jarl-ignore {n}: {why}")); self.pending.push((k, c)); }
                3 | 4 => {
                    let c = self.push(&format!("# jarl-ignore-start {n}: {why}"));
                    if let Some(i) = self.open.iter().position(|x| x.0 == k && x.1 == depth) { let old = self.open.remove(i); self.wrong("unmatched_range_suppression", old.2); }
                    self.open.push((k, depth, c));
                }
                5 | 6 => {
                    let c = self.push(&format!("# jarl-ignore-end {n}"));
                    match self.open.iter().position(|x| x.0 == k && x.1 == depth) {
                        Some(i) => { let s = self.open.remove(i); self.sups.push(Sup { rule: k, at: s.2, covers: (s.2.0, c.1) }); }
                        None => self.wrong("unmatched_range_suppression", c),
                    }
                }
                7 if o.file => {
                    let c = self.push(&format!("# jarl-ignore-file {n}: {why}"));
                    if self.code || last { self.wrong("misplaced_file_suppression", c); } else { self.sups.push(Sup { rule: k, at: c, covers: (0, usize::MAX) }); }
                }
                8 if o.chunk && !last => {
                    self.push("#| jarl-ignore-chunk:\n");
                    for _ in 0..1 + r.below(2) {
                        let k = r.below(RULES.len());
                        self.push(pad);
                        let c = self.push(&format!("#|   - {}: {why}", RULES[k]));
                        self.sups.push(Sup { rule: k, at: c, covers: (0, usize::MAX) });
                        self.push("\n");
                    }
                    self.push(pad); self.push("# plain");
                }
                9 if o.odd => { let c = self.push(*r.pick(&["# jarl-ignore", "#jarl-ignore"])); self.wrong("blanket_suppression", c); }
                10 if o.odd => { let c = self.push(&format!("# jarl-ignore{} {n}{}", r.pick(&["", "-start"]), r.pick(&["", ":", ": "]).trim_end())); self.wrong("unexplained_suppression", c); }
                11 if o.odd => { let c = self.push("# jarl-ignore nosuchrule: why"); self.wrong("misnamed_suppression", c); }
                _ => { self.push(*r.pick(&["# plain", "#' @param x jarl-ignore", "#"])); }
            }
            self.push("\n");
        }
    }
    fn trailing(&mut self, r: &mut hx::Rng, o: Opts) {
        if o.odd && r.chance(1, 10) {
            self.push(" ");
            let c = self.push(&format!("# jarl-ignore{} any_is_na: why", r.pick(&["", "-start", "-file"])));
            self.wrong("misplaced_suppression", c);
        }
    }
    /// a node with its comments before it
    fn node(&mut self, pend: Vec<(usize, (usize, usize))>, start: usize) {
        let e = self.text.len();
        for (k, c) in pend { self.sups.push(Sup { rule: k, at: c, covers: (start, e) }); }
    }
    fn value(&mut self, r: &mut hx::Rng, depth: usize, blocks: usize, pad: &str, o: Opts) {
        match r.below(10) {
            0..=3 => self.bug(r),
            4 | 5 => { self.push("1"); self.code = true; }
            6 => { self.push("foo(a, "); self.code = true; self.value(r, depth.saturating_sub(1), blocks, pad, o); self.push(")"); }
            7 if depth > 0 => {
                // a call whose arguments stand on lines of their own; sometimes it breaks a rule as a whole
                let whole = if r.chance(1, 3) { Some(r.below(2)) } else { None };
                let from = self.text.len();
                if let Some(k) = whole { self.push(["any(is.na(", "any(duplicated("][k]); }
                self.push("foo(\n");
                self.code = true;
                let p = format!("{pad}  ");
                let n = 1 + r.below(2);
                for i in 0..n {
                    self.comments(r, blocks, &p, false, Opts { chunk: false, file: false, ..o });
                    let pend = std::mem::take(&mut self.pending);
                    self.push(&p);
                    let s = self.text.len();
                    if r.chance(1, 3) { self.push("arg = "); }
                    self.value(r, depth - 1, blocks, &p, o);
                    self.node(pend, s);
                    self.push(if i + 1 < n { ",\n" } else { "\n" });
                }
                self.push(pad); self.push(")");
                if let Some(k) = whole { self.push("))"); let to = self.text.len(); self.bugs.push((k, from, to)); }
            }
            8 if depth > 0 => { self.push("function(x) "); self.code = true; self.block(r, depth - 1, blocks, pad, o); }
            _ => { self.push("y"); self.code = true; }
        }
    }
    fn block(&mut self, r: &mut hx::Rng, depth: usize, blocks: usize, pad: &str, o: Opts) {
        self.push("{\n");
        self.code = true;
        let p = format!("{pad}  ");
        self.stmts(r, depth, blocks + 1, &p, 1, o);
        self.push(pad); self.push("}");
    }
    fn stmts(&mut self, r: &mut hx::Rng, depth: usize, blocks: usize, pad: &str, least: usize, o: Opts) {
        for _ in 0..least + r.below(3) {
            self.comments(r, blocks, pad, false, o);
            let pend = std::mem::take(&mut self.pending);
            self.push(pad);
            let s = self.text.len();
            match r.below(8) {
                0 if depth > 0 => self.block(r, depth - 1, blocks, pad, o),
                1 if depth > 0 => { self.push("if (a) "); self.code = true; self.block(r, depth - 1, blocks, pad, o); }
                2 if depth > 0 => { self.push("for (i in z) "); self.code = true; self.block(r, depth - 1, blocks, pad, o); }
                3 => { self.push("(\n"); self.code = true; self.value(r, depth, blocks, pad, o); self.push("\n"); self.push(pad); self.push(")"); }
                4 | 5 => { self.push("y <- "); self.code = true; self.value(r, depth, blocks, pad, o); }
                _ => self.value(r, depth, blocks, pad, o),
            }
            self.node(pend, s);
            self.trailing(r, o);
            self.push("\n");
            if r.chance(1, 5) { self.push("\n"); }
        }
        self.comments(r, blocks, pad, true, o);
    }
    pub fn random(r: &mut hx::Rng, o: Opts) -> File {
        let mut f = File::default();
        f.stmts(r, 2, 0, "", 1, o);
        for x in std::mem::take(&mut f.open) { f.wrong("unmatched_range_suppression", x.2); }
        f
    }
    pub fn covering(&self, b: &(usize, usize, usize)) -> Vec<&Sup> { self.sups.iter().filter(|s| s.rule == b.0 && s.covers.0 <= b.1 && b.2 <= s.covers.1).collect() }
    /// the bugs that stay visible
    pub fn visible(&self) -> Vec<At> {
        let mut v: Vec<At> = self.bugs.iter().filter(|b| self.covering(b).is_empty()).map(|b| At { name: RULES[b.0].into(), start: b.1, end: b.2 }).collect();
        v.sort();
        v
    }
    pub fn wrong_sorted(&self) -> Vec<At> { let mut v = self.wrong.clone(); v.sort(); v }
}
pub fn at(d: &Diag) -> At { At { name: d.name.clone(), start: d.start, end: d.end } }
/// the diagnostics of these rules
pub fn found(rep: &Report, names: &[&str]) -> Vec<At> { let mut v: Vec<At> = rep.diags.iter().filter(|d| names.contains(&d.name.as_str())).map(at).collect(); v.sort(); v }
/// the diagnostics that are hidden, and the comments said to be unused
pub fn judge(f: &File, rep: &Report) -> Result<(), String> {
    if !rep.errors.is_empty() { return Err("the generated file does not parse".into()); }
    let (got, want) = (found(rep, &RULES), f.visible());
    if got != want { return Err(format!("diagnostics {got:?}, expected {want:?}")); }
    let outdated = found(rep, &["outdated_suppression"]);
    for a in &outdated { if !f.sups.iter().any(|s| (a.start, a.end) == s.at) { return Err(format!("outdated_suppression at {}..{}, where there is no suppression", a.start, a.end)); } }
    let un = |s: &Sup| outdated.iter().any(|a| (a.start, a.end) == s.at);
    for s in &f.sups {
        let hides = f.bugs.iter().any(|b| s.rule == b.0 && s.covers.0 <= b.1 && b.2 <= s.covers.1);
        if !hides && !un(s) { return Err(format!("the comment at {:?} hides nothing and is not reported as unused", s.at)); }
    }
    for b in &f.bugs { let c = f.covering(b); if !c.is_empty() && c.iter().all(|s| un(s)) { return Err(format!("{b:?} is hidden, and each of the comments that cover it is reported as unused")); } }
    Ok(())
}
