// oracle for P20, written from the property text
#[path = "/repo/crates/jarl-core/src/fs.rs"]
#[allow(dead_code)]
mod fs;
use std::path::{Path, PathBuf};

/// the extension of the last component: what follows its last dot, if something precedes that dot
fn ext(p: &str) -> Option<&str> {
    let comps: Vec<&str> = p.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
    let name = *comps.last()?;
    if name == ".." { return None; }
    let d = name.rfind('.')?;
    if d == 0 { None } else { Some(&name[d + 1..]) }
}
fn ensure(b: bool, m: impl FnOnce() -> String) -> Result<(), String> { if b { Ok(()) } else { Err(m()) } }
fn kinds(p: &str) -> Result<(), String> {
    let e = ext(p);
    let r = matches!(e, Some("r") | Some("R"));
    let m = matches!(e, Some("rmd") | Some("Rmd") | Some("qmd") | Some("Qmd"));
    let path = Path::new(p);
    ensure(fs::has_r_extension(path) == r, || format!("has_r_extension = {}", fs::has_r_extension(path)))?;
    ensure(fs::has_rmd_extension(path) == m, || format!("has_rmd_extension = {}", fs::has_rmd_extension(path)))
}
fn word(w: &str) -> Result<(), String> {
    ensure(fs::is_r_extension(w) == (w == "r" || w == "R"), || "is_r_extension".into())?;
    ensure(fs::is_rmd_extension(w) == (w == "rmd" || w == "Rmd" || w == "qmd" || w == "Qmd"), || "is_rmd_extension".into())
}
fn comps(p: &Path) -> Vec<String> { p.components().map(|c| c.as_os_str().to_string_lossy().into_owned()).collect() }
fn shown(p: &str) -> Result<(), String> {
    let cwd = std::env::current_dir().unwrap();
    let path = Path::new(p);
    let s = fs::relativize_path(path);
    let (cc, pc) = (comps(&cwd), comps(path));
    let inside = pc.len() >= cc.len() && pc[..cc.len()] == cc[..];
    if inside {
        ensure(Path::new(&s).is_relative(), || format!("shown as {s:?}"))?;
        ensure(comps(&cwd.join(&s)) == pc, || format!("shown as {s:?}, which is {:?}", cwd.join(&s)))
    } else { ensure(s == p, || format!("shown as {s:?}, not unchanged")) }
}
fn main() {
    // a working directory with a few names; nothing is written
    let d = PathBuf::from("/usr/share");
    if d.is_dir() { std::env::set_current_dir(&d).unwrap(); }
    hx::run(|cx| {
        cx.rule("All paths of up to 5 pieces of 18 (names, dots, separators, extensions), all words of up to 5 pieces, all paths below, above and beside the working directory of up to 4 components, then random ones. Non-trivial: the path has one of the extensions, or lies in the working directory.");
        let pieces = ["a", ".", "/", "r", "R", "rmd", "Rmd", "qmd", "Qmd", "..", "RMD", "QMD", "rm", " ", "é", "md", "q", "R.r"];
        let n = cx.pick_n(4, 5);
        hx::all_strings(&pieces, n, &mut |t| { if !cx.stop() { let nt = ext(t).is_some(); cx.case(format!("{t:?}"), nt, || { kinds(t)?; word(t) }); } });
        let cwd = std::env::current_dir().unwrap();
        let c = cwd.to_str().unwrap().to_string();
        let mut go = |cx: &mut hx::Cx, t: String| { let nt = t.starts_with(&c); cx.case(format!("shown {t:?}"), nt, || shown(&t)); };
        for base in ["", "/", "/usr", "/usr/share", "/usr/share/", "/usr/sharex", "/usr/shar", "/usr/share.R", "usr/share", "/USR/share", "./usr", "/home"] {
            hx::all_strings(&["/a", "/..", "/share", "/usr", "/x.R", "/é b", "x", "/"], 3, &mut |t| { if !cx.stop() { go(cx, format!("{base}{t}")) } });
        }
        while cx.more() {
            let t = hx::random_string(&mut cx.rng, &pieces, 10);
            let nt = ext(&t).is_some();
            cx.case(format!("{t:?}"), nt, || { kinds(&t)?; word(&t) });
            let k = cx.rng.below(3);
            let t = format!("{}{}", ["", "/usr/share", "/usr/share/"][k], hx::random_string(&mut cx.rng, &["/", "a", "usr", "share", "..", "/R", ".R", "é"], 8));
            go(cx, t);
        }
    });
}
