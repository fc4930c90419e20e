//! judging inserted suppression comments
use std::collections::HashSet;
/// is `new` the text `old` with comment lines inserted, each with this reason, at a line start, or, with a line break before and the indentation of
/// what follows after, inside a line? The number of comments.
pub fn inserted(old: &str, new: &str, reason: &str) -> Option<usize> {
    let (o, n): (Vec<char>, Vec<char>) = (old.chars().collect(), new.chars().collect());
    // the comment line (with indentation and line break) that starts at i
    let comment = |i: usize| -> Option<usize> {
        let e = (i..n.len()).find(|k| n[*k] == '\n')?;
        let l: String = n[i..e].iter().collect();
        let (rule, why) = l.trim_start().strip_prefix("# jarl-ignore ")?.split_once(": ")?;
        if jarl_core::rule_set::Rule::from_name(rule).is_some() && why == reason { Some(e + 1) } else { None }
    };
    let comments = |mut i: usize| -> Option<(usize, usize)> { let mut c = 0; while let Some(k) = comment(i) { i = k; c += 1; } if c > 0 { Some((i, c)) } else { None } };
    // (position in new, position in old, comments so far, at a line start)
    let (mut todo, mut seen) = (vec![(0usize, 0usize, 0usize, true)], HashSet::new());
    while let Some((i, j, c, start)) = todo.pop() {
        if !seen.insert((i, j, start)) { continue; }
        if i == n.len() && j == o.len() { return Some(c); }
        if i < n.len() && j < o.len() && n[i] == o[j] { todo.push((i + 1, j + 1, c, n[i] == '\n')); }
        if start { if let Some((k, m)) = comments(i) { todo.push((k, j, c + m, false)); } }
        if i < n.len() && n[i] == '\n' && !start { if let Some((k, m)) = comments(i + 1) {
            let w = (k..n.len()).take_while(|x| n[*x] == ' ' || n[*x] == '\t').count();
            for x in 0..=w { todo.push((k + x, j, c + m, false)); }
        } }
    }
    None
}
/// does the diagnostic at these bytes of `old` have a comment for its rule in `new` (`old` with comments inserted) before something that holds it, or before its line?
pub fn has_comment(old: &str, new: &str, rule: &str, reason: &str, start: usize, end: usize) -> bool {
    use biome_rowan::{AstNode, Direction};
    let (p, q) = (air_r_parser::parse(old, air_r_parser::RParserOptions::default()), air_r_parser::parse(new, air_r_parser::RParserOptions::default()));
    if p.has_error() || q.has_error() { return true; }
    let toks = |p: &air_r_parser::Parse| -> Vec<(usize, usize)> { p.syntax().descendants_tokens(Direction::Next).map(|x| (usize::from(x.text_trimmed_range().start()), usize::from(x.text_trimmed_range().end()))).collect() };
    let (a, b) = (toks(&p), toks(&q));
    // the tokens of the diagnostic
    let held: Vec<usize> = (0..a.len()).filter(|k| a[*k].0 < end && start < a[*k].1).collect();
    let (Some(f), Some(l)) = (held.first(), held.last()) else { return true };
    let (s, e) = (b[*f].0, b[*l].1);
    let want = format!("# jarl-ignore {rule}: {reason}");
    let before = |x: usize| { let prev = b.iter().rev().find(|t| t.1 <= x).map_or(0, |t| t.1); new[prev..x].lines().any(|l| l.trim() == want) };
    // or before the line it stands on
    let line = old[..start].rfind('\n').map_or(0, |k| k + 1);
    if let Some(k) = (0..a.len()).find(|k| a[*k].0 >= line) { if before(b[k].0) { return true; } }
    q.tree().syntax().descendants().any(|n| {
        let r = n.text_trimmed_range();
        let (x, y) = (usize::from(r.start()), usize::from(r.end()));
        let k = format!("{:?}", n.kind());
        k != "R_ROOT" && k != "R_EXPRESSION_LIST" && x <= s && e <= y && before(x)
    })
}
/// the tokens of an R file
pub fn tokens(t: &str) -> Option<Vec<String>> {
    let p = air_r_parser::parse(t, air_r_parser::RParserOptions::default());
    if p.has_error() { return None; }
    Some(p.syntax().descendants_tokens(biome_rowan::Direction::Next).map(|x| x.text_trimmed().to_string()).collect())
}
/// statements with diagnostics, some of them in odd places
pub const MORE: &[&str] = &["T", "\"a\nb\"; T", "{ T }", "x <- 'a\n  '; F", "if (any(is.na(x))) 1", "if (a) any(is.na(x)) else any(duplicated(x))", "f <- function(x = T, y =\n    any(is.na(x))) T", "\tany(is.na(x))", "\u{a0}T", "x; any(is.na(é)); any(is.na(y)) # c", "'é'; any(is.na(x)) & any(duplicated(x))",
    "foo(any(is.na(x)), any(is.na(x)),\n  any(is.na(x)))", "x |>\n  foo(any(is.na(y)))", "while (any(is.na(x))) { T }", "repeat T", "\"😀\n\" ;any(is.na(x))", "x <-\n\tany(is.na(x))", "!any(is.na(x))", "-T", "x[T]", "x[[any(is.na(x))]]", "function() T", "any(is.na(\n'a\n  b' )); 'é\n'; T ;any(is.na(x))", "y = 1", "'a'; y = \"b\n c\"; T"];
