// oracle for P13, written from the property text
#[path = "/repo/crates/jarl-lsp/src/document.rs"]
#[allow(dead_code)]
mod document;
use document::{PositionEncoding as E, TextDocument};
use lsp_types::Position;

pub fn unit(c: char, e: E) -> usize { match e { E::UTF8 => c.len_utf8(), E::UTF16 => c.len_utf16(), E::UTF32 => 1 } }
const ENCS: [E; 3] = [E::UTF8, E::UTF16, E::UTF32];

fn check(t: &str) -> Result<(), String> {
    let d = TextDocument::new(t.to_string(), 1);
    if d.content() != t { return Err("content differs".into()); }
    let lines: Vec<&str> = t.split('\n').collect();
    if d.line_count() != lines.len() { return Err(format!("line_count {} expected {}", d.line_count(), lines.len())); }
    for e in ENCS {
        let mut start = 0;
        for (li, l) in lines.iter().enumerate() {
            let total: usize = l.chars().map(|c| unit(c, e)).sum();
            // exact positions
            let mut exact = std::collections::HashMap::new();
            let mut u = 0;
            let mut b = 0;
            exact.insert(0usize, 0usize);
            for c in l.chars() { u += unit(c, e); b += c.len_utf8(); exact.insert(u, b); }
            for ch in (0..=total + 3).chain([u32::MAX as usize]) {
                let r = d.position_to_offset(Position::new(li as u32, ch as u32), e);
                match exact.get(&ch) {
                    Some(b) => match r { Ok(o) if o == start + b => {}, x => return Err(format!("position {li}:{ch} {e:?} -> {x:?}, expected {}", start + b)) },
                    None if ch < total => if let Ok(o) = r { return Err(format!("position {li}:{ch} {e:?} inside a character -> {o}")); },
                    None => if let Ok(o) = r { if o != start + l.len() { return Err(format!("position {li}:{ch} {e:?} past the line end -> {o}, expected an error or {}", start + l.len())); } },
                }
            }
            for (u, b) in &exact {
                match d.offset_to_position(start + b, e) {
                    Ok(p) if p == Position::new(li as u32, *u as u32) => {}
                    x => return Err(format!("offset {} {e:?} -> {x:?}, expected {li}:{u}", start + b)),
                }
            }
            start += l.len() + 1;
        }
        for k in [lines.len(), lines.len() + 1, u32::MAX as usize] {
            if let Ok(o) = d.position_to_offset(Position::new(k as u32, 0), e) { return Err(format!("line {k} out of range {e:?} -> {o}")); }
        }
        for o in 0..=t.len() + 2 {
            let r = d.offset_to_position(o, e);
            if !t.is_char_boundary(o) { continue; }
            let p = match r { Ok(p) => p, Err(x) => return Err(format!("offset {o} {e:?}: {x}")) };
            match d.position_to_offset(p, e) { Ok(b) if b == o => {}, x => return Err(format!("round trip of offset {o} {e:?} -> {x:?}")) }
            for o2 in [o, t.len()] {
                match d.range_of_text(o, o2, e) { Ok(g) if g.start == p && Some(g.end) == d.offset_to_position(o2, e).ok() => {}, x => return Err(format!("range_of_text({o},{o2}) {e:?} -> {x:?}")) }
            }
        }
        let _ = d.offset_to_position(usize::MAX, e);
        let _ = d.range_of_text(t.len() + 1, 0, e);
    }
    Ok(())
}

fn main() {
    hx::run(|cx| {
        cx.rule("texts over {a, newline, CR, é, €, 😀}: all up to length 5 (thorough 7), then random ones up to 40 characters; every position of every line (and beyond), every byte offset (and beyond), all three encodings. Non-trivial: contains a newline or a non-ASCII character.");
        let n = cx.pick_n(5, 7);
        hx::all_strings(&["a", "\n", "\r", "é", "€", "😀"], n, &mut |t| {
            let t = t.to_string();
            cx.case(format!("{t:?}"), !t.is_ascii() || t.contains('\n'), move || check(&t));
        });
        while cx.more() {
            let al = ["a", "b", " ", "\n", "\n", "\r\n", "é", "ß", "€", "語", "😀", "𝒳", "\u{301}", "\u{feff}", "\0"];
            let t = hx::random_string(&mut cx.rng, &al, 40);
            cx.case(format!("{t:?}"), !t.is_ascii() || t.contains('\n'), move || check(&t));
        }
    });
}
