//! Harness support: cases, deterministic random numbers, watchdog, JSON report.
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03); for _ in 0..4 { r.next(); } r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }
}

pub struct Cx {
    pub seed: u64,
    pub thorough: bool,
    pub rng: Rng,
    only: Option<String>,
    evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    violations: Vec<(String, String)>,
    rule: String,
    exhaustive: bool,
    started: Instant,
    budget: Duration,
    current: Arc<Mutex<(String, Option<Instant>)>>,
}

const CASE_LIMIT: Duration = Duration::from_secs(20);
const MAX_VIOLATIONS: usize = 5;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) { o.push_str(&format!("\\u{:04x}", u)); }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Cx {
    pub fn rule(&mut self, r: &str) { self.rule = r.to_string(); }
    pub fn set_exhaustive(&mut self) { self.exhaustive = true; }
    /// more random cases wanted?
    pub fn more(&self) -> bool { self.violations.len() < MAX_VIOLATIONS && self.started.elapsed() < self.budget }
    pub fn stop(&self) -> bool { self.violations.len() >= MAX_VIOLATIONS }
    pub fn pick_n(&self, quick: usize, thorough: usize) -> usize { if self.thorough { thorough } else { quick } }
    /// one case: `desc` identifies it (and is what --only replays)
    pub fn case<F: FnOnce() -> Result<(), String>>(&mut self, desc: String, nontrivial: bool, f: F) {
        if self.stop() { return; }
        if let Some(o) = &self.only { if *o != desc { return; } }
        self.evals += 1;
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            desc.hash(&mut h);
            if self.distinct.len() < 3_000_000 { self.distinct.insert(h.finish()); }
            if self.samples.len() < 3 || (self.samples.len() < 6 && self.evals % 997 == 0) { self.samples.push(desc.clone()); }
        }
        { let mut c = self.current.lock().unwrap(); c.0.clear(); c.0.push_str(&desc); c.1 = Some(Instant::now()); }
        let r = catch_unwind(AssertUnwindSafe(f));
        { self.current.lock().unwrap().1 = None; }
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => self.violations.push((desc, e)),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                self.violations.push((desc, format!("panicked: {m}")));
            }
        }
    }
    /// a case that itself says whether it was a non-trivial one
    pub fn try_case<F: FnOnce() -> Result<bool, String>>(&mut self, desc: String, f: F) {
        let mut nt = false;
        let before = self.evals;
        self.case(desc.clone(), false, || f().map(|b| nt = b));
        if nt && self.evals > before {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            desc.hash(&mut h);
            if self.distinct.len() < 3_000_000 { self.distinct.insert(h.finish()); }
            if self.samples.len() < 3 { self.samples.push(desc); }
        }
    }
    fn report(&self) {
        let s: Vec<String> = self.samples.iter().map(|s| esc(s)).collect();
        let v: Vec<String> = self.violations.iter().map(|(a, b)| format!("{{\"case\":{},\"why\":{}}}", esc(a), esc(b))).collect();
        println!("HARNESS-REPORT {{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"exhaustive\":{},\"samples\":[{}],\"violations\":[{}]}}",
            self.evals, self.distinct.len(), esc(&self.rule), self.exhaustive, s.join(","), v.join(","));
    }
}

pub fn run<F: FnOnce(&mut Cx) + Send>(f: F) {
    let mut seed = 1u64;
    let mut thorough = false;
    let mut only = None;
    let mut secs = None;
    let a: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i < a.len() {
        match a[i].as_str() {
            "--seed" => { seed = a[i + 1].parse().unwrap_or(1); i += 1; }
            "--thorough" => thorough = true,
            "--secs" => { secs = a[i + 1].parse().ok(); i += 1; }
            "--only-file" => { only = Some(std::fs::read_to_string(&a[i + 1]).unwrap()); i += 1; }
            _ => {}
        }
        i += 1;
    }
    std::panic::set_hook(Box::new(|_| {}));
    let current = Arc::new(Mutex::new((String::new(), None::<Instant>)));
    let w = current.clone();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let (d, hung) = { let c = w.lock().unwrap(); (c.0.clone(), c.1.map(|t| t.elapsed() > CASE_LIMIT).unwrap_or(false)) };
        if hung {
            println!("HARNESS-REPORT {{\"evaluations\":1,\"distinct_nontrivial\":1,\"rule\":\"watchdog\",\"exhaustive\":false,\"samples\":[],\"violations\":[{{\"case\":{},\"why\":\"does not finish within 20 s\"}}]}}", esc(&d));
            std::process::exit(0);
        }
    });
    let budget = Duration::from_secs(secs.unwrap_or(if thorough { 240 } else { 15 }));
    let mut cx = Cx { seed, thorough, rng: Rng::new(seed), only, evals: 0, distinct: HashSet::new(), samples: vec![], violations: vec![],
        rule: String::new(), exhaustive: false, started: Instant::now(), budget, current };
    let r = std::thread::Builder::new().stack_size(64 << 20);
    // run on a big stack; scoped so that `f` may borrow
    std::thread::scope(|s| { r.spawn_scoped(s, || f(&mut cx)).unwrap().join().unwrap_or_else(|_| { println!("HARNESS-ERROR"); std::process::exit(3) }) });
    cx.report();
}

/// all strings over `alphabet` of length <= n (alphabet entries may be longer than one char)
pub fn all_strings(alphabet: &[&str], n: usize, f: &mut dyn FnMut(&str)) {
    fn go(al: &[&str], n: usize, cur: &mut String, f: &mut dyn FnMut(&str)) {
        f(cur);
        if n == 0 { return; }
        for a in al { let l = cur.len(); cur.push_str(a); go(al, n - 1, cur, f); cur.truncate(l); }
    }
    go(alphabet, n, &mut String::new(), f);
}
pub fn random_string(r: &mut Rng, alphabet: &[&str], max: usize) -> String {
    let n = r.below(max + 1);
    (0..n).map(|_| *r.pick(alphabet)).collect()
}
