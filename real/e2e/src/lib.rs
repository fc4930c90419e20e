//! Running the real `jarl` program (linked against the stand-ins of ../stubs) in scratch directories.
pub mod ins;
pub mod lsp;
pub mod sup;
use jarl_core::rule_set::{FixStatus, Rule};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicUsize, Ordering};

static N: AtomicUsize = AtomicUsize::new(0);
/// a scratch directory, removed when dropped
pub struct Dir(pub PathBuf);
impl Dir {
    pub fn new() -> Dir {
        let p = std::env::temp_dir().join(format!("vx-e2e-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&p).unwrap();
        Dir(p.canonicalize().unwrap())
    }
    pub fn write_bytes(&self, name: &str, bytes: &[u8]) -> &Self {
        let p = self.0.join(name);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, bytes).unwrap();
        self
    }
    pub fn write(&self, name: &str, text: &str) -> &Self {
        let p = self.0.join(name);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, text).unwrap();
        self
    }
    pub fn read(&self, name: &str) -> String { String::from_utf8_lossy(&std::fs::read(self.0.join(name)).unwrap()).into_owned() }
    pub fn jarl(&self, args: &[&str]) -> Out { jarl_in(&self.0, args) }
}
impl Default for Dir { fn default() -> Self { Dir::new() } }
impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

#[derive(Debug, Clone)]
pub struct Out { pub code: Option<i32>, pub out: String, pub err: String }
pub fn exe() -> PathBuf { std::env::current_exe().unwrap().parent().unwrap().join("jarl") }
pub fn jarl_in(dir: &Path, args: &[&str]) -> Out {
    let o = Command::new(exe()).args(args).current_dir(dir).env("NO_COLOR", "1").env("HOME", dir).env_remove("XDG_CONFIG_HOME").output().unwrap();
    Out { code: o.status.code(), out: String::from_utf8_lossy(&o.stdout).into_owned(), err: String::from_utf8_lossy(&o.stderr).into_owned() }
}
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Diag { pub file: String, pub start: usize, pub end: usize, pub name: String, pub row: usize, pub col: usize, pub fix: Option<(usize, usize, String)>, pub body: String }
#[derive(Debug, Clone)]
pub struct Report { pub diags: Vec<Diag>, pub errors: Vec<String>, pub code: i32 }
impl Out {
    /// the JSON report
    pub fn report(&self) -> Result<Report, String> {
        let code = self.code.ok_or("jarl was killed")?;
        if self.err.contains("panicked at") { return Err(format!("jarl panicked: {}", self.err.chars().take(300).collect::<String>())); }
        if self.out.contains("No R files found") { return Ok(Report { diags: vec![], errors: vec![], code }); }
        let v: Value = serde_json::from_str(&self.out).map_err(|e| format!("no JSON report ({e}), exit {code}, stdout {:?}, stderr {:?}", self.out, self.err))?;
        let mut diags = vec![];
        for d in v["diagnostics"].as_array().ok_or("no diagnostics")? {
            let n = |x: &Value| x.as_u64().map(|n| n as usize).ok_or(format!("no number in {d}"));
            let s = |x: &Value| x.as_str().map(String::from).ok_or(format!("no text in {d}"));
            let f = &d["fix"];
            let (fs, fe, fc) = (n(&f["start"])?, n(&f["end"])?, s(&f["content"])?);
            diags.push(Diag { file: s(&d["filename"])?, start: n(&d["range"][0])?, end: n(&d["range"][1])?, name: s(&d["message"]["name"])?, row: n(&d["location"]["row"])?, col: n(&d["location"]["column"])?,
                fix: if fs == 0 && fe == 0 && fc.is_empty() { None } else { Some((fs, fe, fc)) }, body: s(&d["message"]["body"])? });
        }
        let errors = v["errors"].as_array().ok_or("no errors")?.iter().map(|e| e["file"].as_str().unwrap_or("?").to_string()).collect();
        Ok(Report { diags, errors, code })
    }
}
/// `jarl check --output-format json`, with more arguments
pub fn check(d: &Dir, args: &[&str]) -> Result<Report, String> {
    let mut a = vec!["check", "--output-format", "json"];
    a.extend(args);
    d.jarl(&a).report()
}

/// expressions each of which breaks exactly one rule (name, text); `@` stands for any harmless expression
pub const BROKEN: &[(&str, &str)] = &[
    ("any_is_na", "any(is.na(@))"), ("any_duplicated", "any(duplicated(@))"), ("equals_na", "@ == NA"), ("class_equals", "if (class(@) == 'a') 1"), ("true_false_symbol", "@(T)"),
    ("any_is_na", "any(\n  is.na(@)\n)"), ("length_levels", "length(levels(@))"),
];
/// harmless expressions
pub const FINE: &[&str] = &["x", "foo(a, b = 2)", "1 + 2", "\"é\"", "'жи 😀'", "f(\"a\nb\")", "x$y[[1]]", "c(1,\n  2)", "-1L", "`a b`", "\"#no comment\"", "'\u{c}\u{b}\u{85}\u{2028}'", "\"a\u{2029}\n\u{c}\"", "'\u{feff}\r'"];
pub const COMMENTS: &[&str] = &["# plain", "# \u{c} \u{2028}\u{85}b", "#é😀", "#", "# jarl-ignore", "# jarl-ignore any_is_na", "# jarl-ignore nosuch: a", "# jarl-ignore-start any_is_na: a", "# jarl-ignore-end any_is_na", "# jarl-ignore-file any_is_na: a", "# jarl-ignore any_is_na: why", "# jarl-ignore any_duplicated: why", "#jarl-ignore equals_na: é"];

pub fn fine(r: &mut hx::Rng) -> String { r.pick(FINE).to_string() }
pub fn broken(r: &mut hx::Rng) -> String { let b = r.pick(BROKEN).1; let f = r.pick(&["x", "y1", "foo(2)", "`é`"]).to_string(); b.replace('@', &f) }
pub fn expr(r: &mut hx::Rng, depth: usize) -> String {
    match r.below(if depth == 0 { 5 } else { 11 }) {
        0 | 1 => fine(r),
        2..=4 => broken(r),
        5 => format!("y <- {}", expr(r, depth - 1)),
        6 => format!("foo({}, {})", expr(r, depth - 1), expr(r, depth - 1)),
        7 => format!("f <- function(x, ...) {{\n{}}}", body(r, depth - 1, "  ")),
        8 => format!("if (x) {{\n{}}} else {{\n{}}}", body(r, depth - 1, "\t"), body(r, depth - 1, "  ")),
        9 => format!("for (i in 1:10) {{\n{}}}", body(r, depth - 1, "    ")),
        _ => format!("{{\n{}}}", body(r, depth - 1, "")),
    }
}
pub fn body(r: &mut hx::Rng, depth: usize, indent: &str) -> String {
    let mut o = String::new();
    for _ in 0..r.below(4) {
        match r.below(6) {
            0 => o.push('\n'),
            1 => { o.push_str(indent); o.push_str(*r.pick(COMMENTS)); o.push('\n'); }
            _ => { o.push_str(indent); o.push_str(&expr(r, depth)); if r.chance(1, 8) { o.push_str("; x"); } if r.chance(1, 6) { o.push(' '); o.push_str(*r.pick(COMMENTS)); } o.push('\n'); }
        }
    }
    o
}
/// a whole file
pub fn rfile(r: &mut hx::Rng) -> String {
    let mut o = String::new();
    for _ in 0..1 + r.below(3) { o.push_str(&body(r, 2, "")); }
    if r.chance(1, 10) { o = o.replace('\n', "\r\n"); }
    if r.chance(1, 4) && o.ends_with('\n') { o.pop(); }
    o
}

/// for almost every rule a file that breaks it (and no other rule, except where found out by a run with all rules)
pub const TRIGGERS: &[(&str, &str)] = &[
    ("all_equal", "if (all.equal(a, b)) 1\n"),
    ("any_duplicated", "any(duplicated(x))\n"),
    ("any_is_na", "any(is.na(x))\n"),
    ("assignment", "y = 1\n"),
    ("blanket_suppression", "# jarl-ignore\n1\n"),
    ("browser", "browser()\n"),
    ("class_equals", "if (class(x) == 'a') 1\n"),
    ("coalesce", "if (is.null(x)) y else x\n"),
    ("comparison_negation", "!(x == y)\n"),
    ("download_file", "download.file('a', 'b')\n"),
    ("duplicated_arguments", "f(a = 1, a = 2)\n"),
    ("empty_assignment", "x <- {}\n"),
    ("equals_na", "x == NA\n"),
    ("equals_nan", "x == NaN\n"),
    ("equals_null", "x == NULL\n"),
    ("expect_length", "expect_equal(length(x), 2L)\n"),
    ("expect_match", "expect_true(grepl(y, x))\n"),
    ("expect_named", "expect_equal(names(x), 'a')\n"),
    ("expect_no_match", "expect_false(grepl(y, x))\n"),
    ("expect_not", "expect_true(!x)\n"),
    ("expect_null", "expect_equal(x, NULL)\n"),
    ("expect_s3_class", "expect_equal(class(x), 'a')\n"),
    ("expect_true_false", "expect_equal(x, TRUE)\n"),
    ("expect_type", "expect_equal(typeof(x), 'a')\n"),
    ("fixed_regex", "grepl('abc', x)\n"),
    ("for_loop_dup_index", "for (i in 1:3) for (i in 1:4) 1\n"),
    ("for_loop_index", "for (x in x) 1\n"),
    ("grepv", "grep(y, x, value = TRUE)\n"),
    ("if_always_true", "if (TRUE) 1\n"),
    ("implicit_assignment", "if (x <- 2) 1\n"),
    ("internal_function", "stats:::foo(2)\n"),
    ("invalid_chunk_suppression", "# jarl-ignore-chunk any_is_na: old\n1\n"),
    ("is_numeric", "is.numeric(x) || is.integer(x)\n"),
    ("length_levels", "length(levels(x))\n"),
    ("length_test", "length(x == 2)\n"),
    ("lengths", "sapply(x, length)\n"),
    ("list2df", "do.call(cbind.data.frame, x)\n"),
    ("matrix_apply", "apply(x, 1, sum)\n"),
    ("misnamed_suppression", "# jarl-ignore nosuch: a\n1\n"),
    ("misplaced_file_suppression", "1\n# jarl-ignore-file equals_na: late\n2\n"),
    ("misplaced_suppression", "x <- 1 # jarl-ignore any_is_na: a\n"),
    ("numeric_leading_zero", ".5\n"),
    ("outdated_suppression", "# jarl-ignore equals_na: nothing\n1\n"),
    ("outer_negation", "all(!x)\n"),
    ("redundant_equals", "x == TRUE\n"),
    ("redundant_ifelse", "ifelse(x, TRUE, FALSE)\n"),
    ("repeat", "while (TRUE) foo()\n"),
    ("sample_int", "sample(1:10, 2)\n"),
    ("seq", "1:length(x)\n"),
    ("seq2", "seq(length(x))\n"),
    ("sort", "x[order(x)]\n"),
    ("sprintf", "sprintf('abc')\n"),
    ("string_boundary", "substr(x, 1, 3) == 'abc'\n"),
    ("system_file", "system.file(file.path('a', 'b'), package = 'p')\n"),
    ("true_false_symbol", "T\n"),
    ("unexplained_suppression", "# jarl-ignore any_is_na\n1\n"),
    ("unmatched_range_suppression", "# jarl-ignore-start equals_na: late\n1\n"),
    ("unnecessary_nesting", "if (a) { if (b) { 1 } }\n"),
    ("unreachable_code", "f <- function() { return(1)\n 2 }\n"),
    ("vector_logic", "if (x & y) 1\n"),
    ("which_grepl", "which(grepl(y, x))\n"),
];

/// a directory with a file per trigger, and what each file reports when all rules run: (rule, has a fix)
pub fn trigger_dir() -> (Dir, BTreeMap<String, BTreeSet<(String, bool)>>) {
    let d = Dir::new();
    for (n, t) in TRIGGERS { d.write(&format!("t_{n}.R"), t); }
    let mut m: BTreeMap<String, BTreeSet<(String, bool)>> = BTreeMap::new();
    if let Ok(r) = check(&d, &["--select", "ALL", "--min-r-version", "999.0.0", "."]) {
        for x in r.diags { m.entry(x.file).or_default().insert((x.name, x.fix.is_some())); }
    }
    (d, m)
}
pub const GROUPS: [&str; 6] = ["COMM", "CORR", "SUSP", "PERF", "READ", "TESTTHAT"];
/// name, categories, enabled by default, fix status, minimum R version; as in the table of rules (subject of P15)
pub struct Attr { pub name: &'static str, pub cats: Vec<&'static str>, pub default: bool, pub fix: FixStatus, pub min: Option<(u32, u32, u32)> }
pub fn attrs() -> Vec<Attr> {
    Rule::all().iter().map(|r| Attr { name: r.name(), cats: r.categories().iter().map(|c| c.as_str()).collect(), default: r.is_enabled_by_default(), fix: r.fix_status(), min: r.minimum_r_version() }).collect()
}
/// what an entry of a list stands for (None: an error)
pub fn stands(e: &str) -> Option<Vec<&'static str>> {
    let t = e.trim();
    let a = attrs();
    if t == "ALL" { return Some(a.iter().map(|r| r.name).collect()); }
    if GROUPS.contains(&t) { return Some(a.iter().filter(|r| r.cats.contains(&t)).map(|r| r.name).collect()); }
    a.iter().find(|r| r.name == t).map(|r| vec![r.name])
}
pub type L = Option<Vec<String>>;
/// the rules selected by CLI select, extend-select, ignore, TOML select, extend-select, ignore (None: an error)
pub fn selected(l: &[L; 6]) -> Option<BTreeSet<String>> {
    let mut n: Vec<Option<Vec<&'static str>>> = vec![];
    for x in l { n.push(match x { None => None, Some(v) => { let mut o = vec![]; for e in v { o.extend(stands(e)?); } Some(o) } }); }
    Some(attrs().iter().filter(|r| {
        let has = |k: usize| n[k].as_ref().is_some_and(|v| v.contains(&r.name));
        let sel = if n[0].is_some() { has(0) } else if n[3].is_some() { has(3) } else { r.default };
        let ext = if n[1].is_some() { has(1) } else { has(4) };
        (sel || ext) && !has(2) && !has(5)
    }).map(|r| r.name.to_string()).collect())
}
pub fn toml_list(key: &str, l: &L) -> String { match l { None => String::new(), Some(v) => format!("{key} = [{}]\n", v.iter().map(|e| serde_json::to_string(e).unwrap()).collect::<Vec<_>>().join(", ")) } }
/// a random list of names and groups, sometimes wrong ones
pub fn list(r: &mut hx::Rng, empty: bool, err: bool) -> Vec<String> {
    let n = r.below(4) + if empty { 0 } else { 1 };
    (0..n).map(|_| {
        let w = if err && r.chance(1, 6) { r.pick(&[" ", "all", "perf", "any_is_na x", "ANY_IS_NA"]).to_string() } else if r.chance(1, 3) { r.pick(&GROUPS).to_string() } else { r.pick(TRIGGERS).0.to_string() };
        if r.chance(1, 8) { format!(" {w}") } else { w }
    }).collect()
}
