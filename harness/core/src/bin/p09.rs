// oracle for P09, written from the property text
#[path = "/repo/crates/jarl-core/src/directive.rs"]
#[allow(dead_code)]
mod directive;
#[path = "/repo/crates/jarl-core/src/rule_set.rs"]
#[allow(dead_code)]
mod rule_set;
use directive::*;
use rule_set::Rule;

fn named(n: &str) -> Option<Rule> { Rule::all().iter().copied().find(|r| r.name() == n) }
#[derive(Clone, Copy)]
enum K { Next, File, Start, End, Chunk }
fn rule_part(t: &str, k: K) -> Option<DirectiveParseResult> {
    let (name, reason) = match t.split_once(':') { Some((a, b)) => (a.trim(), b.trim()), None => (t.trim(), "") };
    if name.is_empty() { return None; }
    let Some(r) = named(name) else { return Some(DirectiveParseResult::InvalidRuleName) };
    if reason.is_empty() && !matches!(k, K::End) { return Some(DirectiveParseResult::MissingExplanation); }
    Some(DirectiveParseResult::Valid(match k {
        K::Next => LintDirective::Ignore(r), K::File => LintDirective::IgnoreFile(r), K::Start => LintDirective::IgnoreStart(r),
        K::End => LintDirective::IgnoreEnd(r), K::Chunk => LintDirective::IgnoreChunk(r),
    }))
}
fn oracle(text: &str) -> Option<DirectiveParseResult> {
    let t = text.trim_start();
    let pipe = t.starts_with("#| ");
    let t = if pipe { &t[3..] } else if t.starts_with("# ") { &t[2..] } else if t.starts_with('#') { &t[1..] } else { return None };
    if !t.starts_with("jarl-ignore") { return None; }
    let t = &t[11..];
    // the directive word ends at the first blank or colon
    let cut = t.find([' ', ':']).unwrap_or(t.len());
    let (word, rest) = t.split_at(cut);
    let k = match word { "" => K::Next, "-file" => K::File, "-start" => K::Start, "-end" => K::End, "-chunk" => K::Chunk, _ => return None };
    if pipe && !matches!(k, K::Chunk) { return None; }
    let may_be_blanket = matches!(k, K::Next | K::Chunk);
    if rest.is_empty() || rest.starts_with(':') { return may_be_blanket.then_some(DirectiveParseResult::BlanketSuppression); }
    let rest = &rest[1..];
    if rest.starts_with(':') && may_be_blanket { return Some(DirectiveParseResult::BlanketSuppression); }
    rule_part(rest, k)
}
fn item_oracle(text: &str) -> Option<DirectiveParseResult> {
    let t = text.trim();
    if !t.starts_with("#|") { return None; }
    let t = t[2..].trim_start();
    if !t.starts_with('-') { return None; }
    let u = &t[1..];
    if u.trim_start().len() == u.len() { return None; }
    rule_part(u.trim_start(), K::Chunk)
}
fn check(t: &str) -> Result<(), String> {
    let (g, w) = (parse_comment_directive(t), oracle(t));
    if g != w { return Err(format!("read as {g:?}, expected {w:?}")); }
    let (g, w) = (parse_quarto_chunk_array_item(t), item_oracle(t));
    if g != w { return Err(format!("array item read as {g:?}, expected {w:?}")); }
    if is_quarto_chunk_array_header(t) != (t.trim() == "#| jarl-ignore-chunk:") { return Err("array header".into()); }
    Ok(())
}
fn main() {
    hx::run(|cx| {
        cx.rule("comments: prefix x directive word x separator x rule x colon x reason, all combinations of the listed pieces; every rule name, also shortened, extended and with blanks; all sequences of up to 5 (thorough 6) of 12 pieces; then random ones. Non-trivial: read as a directive or an array item.");
        let mut go = |cx: &mut hx::Cx, t: String| { let nt = oracle(&t).is_some() || item_oracle(&t).is_some(); cx.case(format!("{t:?}"), nt, move || check(&t)); };
        let prefixes = ["#", "# ", "#  ", "#| ", "#|", "#|  ", "#' ", "##", "", " # ", "\t#", "#\t", "\u{a0}# ", "x # "];
        let words = ["jarl-ignore", "jarl-ignore-file", "jarl-ignore-start", "jarl-ignore-end", "jarl-ignore-chunk", "jarl-ignores", "jarl-ignore-", "jarl-ignore-files", "jarl-ignore-File", "Jarl-ignore", "jarl ignore", "jarl-ignore_file", "nolint", "- ", "-", "-\t", "jarl-ignore-chunk:-"];
        let seps = [" ", "", ":", " :", "  ", "\t", ": ", "\u{a0}"];
        let names = ["any_is_na", "", "any_is_na ", "any_is_n", "any_is_naa", "Any_is_na", "any_is_na any_duplicated", "any_is_na, any_duplicated", "é", "all", "PERF", "coalesce"];
        let tails = ["", ":", ": ", ": reason", ":reason", " : reason", ": reason: more", ":\u{a0}", ": é", "\u{3000}: x", " reason", ":\n", ":x\r"];
        for p in prefixes { for w in words { for s in seps { for n in names { for t in tails { if !cx.stop() { go(cx, format!("{p}{w}{s}{n}{t}")); } } } } } }
        for r in Rule::all() {
            let n = r.name();
            for m in [n.to_string(), n[1..].to_string(), n[..n.len() - 1].to_string(), format!("{n}x"), n.to_uppercase(), format!("{n}_"), n.replace('_', "-")] {
                for w in ["# jarl-ignore", "#jarl-ignore-file", "# jarl-ignore-start", "# jarl-ignore-end", "#| jarl-ignore-chunk", "# jarl-ignore-chunk", "#|   -"] {
                    for t in [": because", "", ":", ":  "] { if !cx.stop() { go(cx, format!("{w} {m}{t}")); } }
                }
            }
        }
        let n = cx.pick_n(5, 6);
        hx::all_strings(&["#", "| ", " ", "jarl-ignore", "-", "file", "chunk", "end", "sprintf", ":", "x", "é"], n, &mut |t| { if !cx.stop() { go(cx, t.to_string()) } });
        let all: Vec<&str> = prefixes.iter().chain(&words).chain(&seps).chain(&names).chain(&tails).copied().collect();
        while cx.more() { let t = if cx.rng.chance(1, 2) { hx::random_string(&mut cx.rng, &all, 9) } else { format!("# jarl-ignore{}", hx::random_string(&mut cx.rng, &all, 6)) }; go(cx, t); }
    });
}
