// oracle for P12, written from the property text: changes applied one after the other
#[path = "/repo/crates/jarl-lsp/src/document.rs"]
#[allow(dead_code)]
mod document;
use document::{PositionEncoding as E, TextDocument};
use lsp_types::{Position, Range, TextDocumentContentChangeEvent as Ch};

fn unit(c: char, e: E) -> usize { match e { E::UTF8 => c.len_utf8(), E::UTF16 => c.len_utf16(), E::UTF32 => 1 } }
const ENCS: [E; 3] = [E::UTF8, E::UTF16, E::UTF32];

#[derive(Debug, Clone, Copy, PartialEq)]
enum At { Exact(usize), PastEnd(usize), Bad }
fn locate(t: &str, p: Position, e: E) -> At {
    let mut start = 0;
    for (i, l) in t.split('\n').enumerate() {
        if i == p.line as usize {
            let (mut u, mut b) = (0, start);
            for c in l.chars() {
                if u == p.character as usize { return At::Exact(b); }
                if u > p.character as usize { return At::Bad; }
                u += unit(c, e);
                b += c.len_utf8();
            }
            return if u == p.character as usize { At::Exact(b) } else if u > p.character as usize { At::Bad } else { At::PastEnd(b) };
        }
        start += l.len() + 1;
    }
    At::Bad
}

#[derive(Debug, Clone)]
struct C { a: (u32, u32), b: (u32, u32), full: bool, text: &'static str }

fn run(t0: &str, cs: &[C], e: E) -> Result<(), String> {
    let mut d = TextDocument::new(t0.to_string(), 7).with_language_id("r");
    let mut want = Some(t0.to_string());
    let mut must_accept = true;
    for c in cs {
        let Some(t) = want.as_ref() else { break };
        if c.full { must_accept = false; want = Some(c.text.to_string()); continue; }
        let (x, y) = (locate(t, Position::new(c.a.0, c.a.1), e), locate(t, Position::new(c.b.0, c.b.1), e));
        let off = |a: At| match a { At::Exact(o) => Some((o, true)), At::PastEnd(o) => Some((o, false)), At::Bad => None };
        match (off(x), off(y)) {
            (Some((s, es)), Some((f, ef))) if s <= f => {
                if !es || !ef { must_accept = false; }
                want = Some(format!("{}{}{}", &t[..s], c.text, &t[f..]));
            }
            _ => { want = None; must_accept = false; }
        }
    }
    let evs: Vec<Ch> = cs.iter().map(|c| Ch {
        range: if c.full { None } else { Some(Range::new(Position::new(c.a.0, c.a.1), Position::new(c.b.0, c.b.1))) },
        range_length: None, text: c.text.to_string() }).collect();
    match d.apply_changes(evs, 8, e) {
        Ok(()) => {
            let Some(w) = want else { return Err(format!("accepted an invalid change; text is now {:?}", d.content())) };
            if d.content() != w { return Err(format!("text is {:?}, the editor has {:?}", d.content(), w)); }
            if d.version() != 8 { return Err(format!("version {} instead of 8", d.version())); }
        }
        Err(x) => {
            if must_accept { return Err(format!("valid changes rejected: {x}")); }
            if d.content() != t0 { return Err(format!("rejected, but the text changed to {:?}", d.content())); }
            if d.version() != 7 { return Err(format!("rejected, but the version changed to {}", d.version())); }
        }
    }
    if d.language_id() != Some("r") { return Err("language id lost".into()); }
    // positions resolve against the current text
    let t = d.content().to_string();
    if d.line_count() != t.split('\n').count() { return Err(format!("line_count {} for text {t:?}", d.line_count())); }
    for (li, l) in t.split('\n').enumerate() {
        let n: usize = l.chars().map(|c| unit(c, e)).sum();
        for ch in [0, n] {
            let p = Position::new(li as u32, ch as u32);
            let At::Exact(o) = locate(&t, p, e) else { continue };
            match d.position_to_offset(p, e) { Ok(x) if x == o => {}, x => return Err(format!("after the edit {li}:{ch} resolves to {x:?}, expected {o}")) }
        }
    }
    Ok(())
}

fn main() {
    hx::run(|cx| {
        cx.rule("documents from a fixed list and random ones over {a, newline, CR, é, €, 😀}; notifications of 0-4 changes with ranges on, past and inside characters, reversed ranges, full replacements; three encodings. Single-change notifications over small documents enumerated completely. Non-trivial: at least two changes, or a non-ASCII character, or an invalid range.");
        let texts = ["", "a", "\n", "ab\ncd", "é€\n😀x\n", "a\r\nb"];
        let ins = ["", "x", "\n", "é\n😀"];
        for t in texts {
            for e in ENCS {
                let mut ps: Vec<(u32, u32)> = vec![];
                for l in 0..4u32 { for c in 0..6u32 { ps.push((l, c)); } }
                for &a in &ps { for &b in &ps { for i in ins {
                    let cs = vec![C { a, b, full: false, text: i }];
                    cx.case(format!("{t:?} {e:?} {cs:?}"), !t.is_ascii() || a > b, || run(t, &cs, e));
                } } }
            }
        }
        // two changes, completely enumerated on a small document
        for t in ["ab\nc", "é😀"] {
            for e in ENCS {
                let ps: Vec<(u32, u32)> = (0..3u32).flat_map(|l| (0..4u32).map(move |c| (l, c))).collect();
                for &a in &ps { for &b in &ps { if b < a { continue } for &a2 in &ps { for &b2 in &ps { if b2 < a2 || cx.stop() { continue } 
                    let cs = vec![C { a, b, full: false, text: "x\n" }, C { a: a2, b: b2, full: false, text: "é" }];
                    cx.case(format!("{t:?} {e:?} {cs:?}"), true, || run(t, &cs, e));
                } } } }
            }
        }
        while cx.more() {
            let al = ["a", "b", "\n", "\r\n", "é", "€", "😀", "foo", "语"];
            let t = hx::random_string(&mut cx.rng, &al, 14);
            let e = *cx.rng.pick(&ENCS);
            let n = cx.rng.below(5);
            let ins = ["", "x", "yy", "\n", "é", "😀\n", "\n\n", "long text", "a\r\nb"];
            let mut cur = t.clone();
            let mut cs = vec![];
            for _ in 0..n {
                // mostly valid positions of the current text
                let mut pos = |r: &mut hx::Rng| -> (u32, u32) {
                    if r.chance(1, 12) { return (r.below(5) as u32, r.below(9) as u32); }
                    let b: Vec<usize> = (0..=cur.len()).filter(|i| cur.is_char_boundary(*i)).collect();
                    let o = *r.pick(&b);
                    let ls = cur[..o].rfind('\n').map(|x| x + 1).unwrap_or(0);
                    (cur[..o].matches('\n').count() as u32, cur[ls..o].chars().map(|c| unit(c, e)).sum::<usize>() as u32)
                };
                let (mut a, mut b) = (pos(&mut cx.rng), pos(&mut cx.rng));
                if a > b && !cx.rng.chance(1, 10) { std::mem::swap(&mut a, &mut b); }
                let c = C { a, b, full: cx.rng.chance(1, 40), text: cx.rng.pick(&ins) };
                if let (At::Exact(s), At::Exact(f)) = (locate(&cur, Position::new(a.0, a.1), e), locate(&cur, Position::new(b.0, b.1), e)) {
                    if s <= f && !c.full { cur = format!("{}{}{}", &cur[..s], c.text, &cur[f..]); }
                }
                cs.push(c);
            }
            cx.case(format!("{t:?} {e:?} {cs:?}"), cs.len() > 1 || !t.is_ascii(), || run(&t, &cs, e));
        }
    });
}
