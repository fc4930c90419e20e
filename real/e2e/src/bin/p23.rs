// oracle for P23: which definitions of generated packages are reported as duplicated or unused
use e2e::*;
use hx::Rng;
use std::collections::{BTreeMap, BTreeSet};

const NAMES: &[&str] = &["foo", "bar", "baz_1", "f2", "café", "été", ".hidden", "print.cls", "cls", "sort_by.data.table", "sort_by", "a.b.c", "fooo", "x.y", "変数", ".onLoad", "on_load", "sort_by.my.data.table", "print.a.b.c.d", "a.b.c.d.e.f"];
/// a name that occurs in a text: the longest run of letters, digits, `.` and `_` that starts with none of the digits
fn words(text: &str) -> Vec<String> {
    let mut out = vec![];
    for l in text.split('\n') {
        let t = l.trim_start();
        if t.starts_with('#') && !t.starts_with("#'") { continue; }
        let c: Vec<char> = l.chars().collect();
        let mut i = 0;
        while i < c.len() {
            let id = |c: char| c.is_alphanumeric() || c == '.' || c == '_';
            if id(c[i]) {
                let s = i;
                while i < c.len() && id(c[i]) { i += 1; }
                // a number directly before a name is no part of it
                let w: String = c[s..i].iter().skip_while(|c| c.is_numeric()).collect();
                if !w.is_empty() { out.push(w); }
            } else { i += 1; }
        }
    }
    out
}
struct RFile { path: String, text: String, defs: Vec<(String, usize)>, }
/// a file with some definitions and uses
fn file(r: &mut Rng, path: &str, max: usize) -> RFile {
    let (mut text, mut defs) = (String::new(), vec![]);
    for _ in 0..r.below(max + 1) {
        let n = r.pick(NAMES).to_string();
        let u = r.pick(NAMES).to_string();
        match r.below(12) {
            0..=5 => {
                defs.push((n.clone(), text.len()));
                let op = *r.pick(&[" <- ", " = ", "<-", "<- "]);
                let f = *r.pick(&["function(x) ", "\\(x) ", "function() ", "function (x) ", "function\n(x) ", "function\t(x) "]);
                let b = match r.below(5) { 0 => "x\n".to_string(), 1 => format!("{{\n  {u}(x)\n}}\n"), 2 => "{\n  y <- function(x) 1\n  y\n}\n".into(), 3 => format!("{{\n  # {u}\n  1\n}}\n"), _ => "NULL\n".into() };
                text += &format!("{n}{op}{f}{b}");
            }
            6 => text += &format!("{u}(1)\n"),
            7 => text += &format!("do.call(\"{u}\", list(1))\n"),
            8 => text += &format!("# {u}()\n"),
            9 => text += &format!("#' see {u}\n"),
            10 => text += &format!("v <- 1 # {u}\n"),
            _ => text += *r.pick(&["n <- 12\n", "functional <- 3\n", "\n", "  z <- function() 1\n", "w <<- function() 1\n"]),
        }
    }
    RFile { path: path.into(), text, defs }
}
/// NAMESPACE directives in many ways of writing
fn namespace(r: &mut Rng, exports: &mut BTreeSet<String>, pats: &mut Vec<String>) -> String {
    let q = |r: &mut Rng, n: &str| match r.below(4) { 0 => format!("\"{n}\""), 1 => format!("'{n}'"), 2 => format!("`{n}`"), _ => n.to_string() };
    let mut t = String::new();
    for _ in 0..r.below(4) {
        let l: Vec<String> = (0..r.below(3) + 1).map(|_| r.pick(NAMES).to_string()).collect();
        let sp = *r.pick(&["", " ", "\n  ", " # (note\n"]);
        let pre = *r.pick(&["", "", "if (getRversion() >= \"4.4.0\") ", "# export(foo)\n"]);
        let d = match r.below(7) {
            0..=2 => { exports.extend(l.iter().cloned()); let k = *r.pick(&["export", "export", "exportMethods", "exportClasses"]); format!("{k}({sp}{}{sp})", l.iter().map(|n| q(r, n)).collect::<Vec<_>>().join(&format!(",{sp}"))) }
            3 => { let (p, c) = (*r.pick(&["", "pkg::"]), *r.pick(&["print", "sort_by", "foo"])); let k = *r.pick(&["cls", "data.table", "x"]); exports.insert(format!("{c}.{k}")); format!("S3method({p}{},{sp}{})", if p.is_empty() { q(r, c) } else { c.into() }, q(r, k)) }
            4 => { let m = &l[0]; exports.insert(m.clone()); format!("S3method(print,{sp}thing, {})", q(r, m)) }
            5 => { let p: Vec<(&str, &str)> = (0..r.below(2) + 1).map(|_| *r.pick(&[("^foo", "foo*"), ("^[^\\\\.]", "nodot"), ("\\\\.cls$", "*.cls"), ("^ba", "ba*")])).collect(); pats.extend(p.iter().map(|p| p.1.to_string())); let m = *r.pick(&["\"", "'"]); format!("exportPattern({})", p.iter().map(|p| format!("{m}{}{m}", p.0)).collect::<Vec<_>>().join(", ")) }
            _ => r.pick(&["importFrom(stats, foo)", "import(bar)", "useDynLib(cls, .registration = TRUE)"]).to_string(),
        };
        t += &format!("{pre}{d}{}", r.pick(&["\n", "\n", ";", " ; ", " # x(y)\n", "\n\n"]));
    }
    t
}
fn matches(p: &str, n: &str) -> bool { match p { "foo*" => n.starts_with("foo"), "nodot" => !n.starts_with('.'), "*.cls" => n.ends_with(".cls"), _ => n.starts_with("ba") } }
fn main() {
    hx::run(|cx| {
        cx.rule("Random packages: 1-4 files in R/ (one maybe excluded or in R/unix), tests/, inst/tinytest/ and src/ with definitions and uses of 17 names (ASCII and not, with dots) in code, texts and comments, a NAMESPACE of directives in many ways of writing (several lines, one line, comments, guards, quotes, backticks, patterns, S3 methods), paths given once or twice: every definition of a name that is defined earlier in the package, in the order of the paths, is reported as duplicated, and no other; a definition is reported as unused exactly when it is not exported, no hook, not skipped by the configuration, no possible S3 method, and its name occurs nowhere else in R/ nor in tests/, inst/ or src/ (for one in tests/ or inst/: nowhere else there). Non-trivial: something is reported.");
        cx.case("a line inside a text of several lines that reads like a definition".into(), true, || {
            let d = Dir::new();
            d.write("DESCRIPTION", "Package: p\n").write("NAMESPACE", "export(z)\n").write("R/a.R", "z <- function() 1\nx <- \"\nz <- function() 1\n\"\n");
            let rep = check(&d, &[".", "--select", "duplicated_function_definition,unused_function"])?;
            if rep.diags.is_empty() { Ok(()) } else { Err(format!("{:?}", rep.diags)) }
        });
        while cx.more() {
            let r = &mut cx.rng;
            let d = Dir::new();
            d.write("DESCRIPTION", "Package: p\n");
            let (mut exports, mut pats) = (BTreeSet::new(), vec![]);
            let ns = namespace(r, &mut exports, &mut pats);
            let has_ns = r.chance(9, 10);
            if has_ns { let mut b = ns.clone().into_bytes(); if r.chance(1, 8) { b.splice(0..0, *b"# \xe9t\xe9\n"); } d.write_bytes("NAMESPACE", &b); }
            let mut rf: Vec<RFile> = vec![];
            for n in ["a.R", "b.r", "B.R", "zzz.R"] { if r.chance(2, 3) { rf.push(file(r, &format!("R/{n}"), 6)); } }
            if rf.is_empty() { rf.push(file(r, "R/a.R", 8)); }
            let mut tf: Vec<RFile> = vec![];
            for n in ["tests/t.R", "tests/testthat/helper.R"] { if r.chance(1, 4) { tf.push(file(r, n, 4)); } }
            let mut inf: Vec<RFile> = vec![];
            if r.chance(1, 4) { inf.push(file(r, "inst/tinytest/test_a.R", 4)); }
            let mut extra = String::new();
            if r.chance(1, 4) {
                // C and C++ files, maybe not encoded as UTF-8
                let u = *r.pick(NAMES);
                let t = r.pick(&["int NAME(int x) { return 1; }\n", "#define CALLED \"NAME\"\n", "  # define CALLED NAME(\n", "// calls NAME\n", "Function f = ns[\"NAME\"];\n"]).replace("NAME", u);
                let mut bytes = t.clone().into_bytes();
                if r.chance(1, 4) { bytes.splice(0..0, *b"// caf\xe9\n"); }
                d.write_bytes(*r.pick(&["src/x.cpp", "src/y.c", "src/h.hpp", "src/sub/z.cc", "src/w.h", "src/v.cxx", "src/h.hh", "src/h.hxx"]), &bytes);
                // a line that starts with # is no comment there
                extra += &t.trim_start().replace("# define", "define").replace("#define", "define");
            }
            if r.chance(1, 5) { let f = file(r, "R/unix/u.R", 4); d.write(&f.path, &f.text); extra += &f.text; }
            for f in rf.iter().chain(&tf).chain(&inf) { d.write(&f.path, &f.text); }
            let skip = if r.chance(1, 6) { Some("^f") } else { None };
            let excl = if rf.len() > 1 && r.chance(1, 5) { Some(rf[0].path.clone()) } else { None };
            let mut toml = String::from("[lint]\nselect = [\"unused_function\", \"duplicated_function_definition\"]\n");
            if let Some(x) = &excl { toml += &format!("exclude = [\"{x}\"]\n"); }
            toml += "[lint.unused_function]\nthreshold-ignore = 1000\n";
            if let Some(s) = skip { toml += &format!("skipped-functions = [\"{s}\"]\n"); }
            d.write("jarl.toml", &toml);
            for f in rf.iter().chain(&tf).chain(&inf) { if f.text.is_empty() { continue; } }
            // what is expected
            let mut want: BTreeMap<(String, usize, String), usize> = BTreeMap::new();
            let all = |l: &[RFile]| l.iter().flat_map(|f| words(&f.text)).fold(BTreeMap::new(), |mut m: BTreeMap<String, usize>, w| { *m.entry(w).or_default() += 1; m });
            let ndef = |l: &[RFile], n: &str| l.iter().flat_map(|f| &f.defs).filter(|x| x.0 == n).count();
            let occ = all(&rf);
            let ext: BTreeSet<String> = words(&extra).into_iter().chain(all(&tf).into_keys()).chain(all(&inf).into_keys()).collect();
            rf.sort_by(|a, b| a.path.cmp(&b.path));
            let mut seen = BTreeSet::new();
            for f in &rf {
                for (n, at) in &f.defs {
                    if !seen.insert(n.clone()) { want.insert((f.path.clone(), *at, "duplicated_function_definition".into()), n.len()); }
                    let s3 = n.match_indices('.').any(|(i, _)| occ.contains_key(&n[..i]));
                    if has_ns && !exports.contains(n) && !pats.iter().any(|p| matches(p, n)) && n != ".onLoad" && n != "on_load" && !skip.is_some_and(|_| n.starts_with('f')) && !s3 && occ[n] <= ndef(&rf, n) && !ext.contains(n) {
                        want.insert((f.path.clone(), *at, "unused_function".into()), n.len());
                    }
                }
            }
            for l in [&tf, &inf] {
                let occ = all(l);
                for f in l { for (n, at) in &f.defs { if has_ns && occ[n] <= ndef(l, n) && !skip.is_some_and(|_| n.starts_with('f')) { want.insert((f.path.clone(), *at, "unused_function".into()), n.len()); } } }
            }
            want.retain(|k, _| Some(&k.0) != excl.as_ref());
            let args: Vec<&str> = r.pick(&[&["."][..], &[".", "R"], &["R", "tests", "inst"], &[".", "."]]).to_vec();
            let args: Vec<&str> = args.into_iter().filter(|a| d.0.join(a).exists()).collect();
            if !args.contains(&".") { want.retain(|k, _| args.iter().any(|a| k.0.starts_with(&format!("{a}/")))); }
            let desc = format!("paths {args:?}\n== NAMESPACE ({has_ns})\n{ns}\n== jarl.toml\n{toml}\n{}== src or R/unix\n{extra}", rf.iter().chain(&tf).chain(&inf).map(|f| format!("== {}\n{}", f.path, f.text)).collect::<String>());
            cx.case(desc, !want.is_empty(), || {
                let rep = check(&d, &args)?;
                if !rep.errors.is_empty() { return Err(format!("{:?}", rep.errors)); }
                let mut got: Vec<_> = rep.diags.iter().map(|x| (x.file.clone(), x.start, x.name.clone(), x.end - x.start)).collect();
                got.sort();
                let mut w: Vec<_> = want.iter().map(|(k, v)| (k.0.clone(), k.1, k.2.clone(), *v)).collect();
                w.sort();
                if got != w {
                    let (m, x): (Vec<_>, Vec<_>) = (w.iter().filter(|a| !got.contains(a)).collect(), got.iter().filter(|a| !w.contains(a)).collect());
                    return Err(format!("missing {m:?}, too many {x:?}, all {got:?}"));
                }
                Ok(())
            });
        }
    })
}
