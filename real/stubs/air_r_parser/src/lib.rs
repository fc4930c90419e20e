//! stand-in for air_r_parser (not available here): a parser of R in the shape of air's trees
#![allow(clippy::all)]
use air_r_syntax::RSyntaxKind::*;
use air_r_syntax::*;
use biome_rowan::*;
use std::sync::Arc;

#[derive(Clone, Debug, Default)]
pub struct RParserOptions;
#[derive(Clone)]
pub struct Parse { tree: Arc<Tree>, error: Option<ParseError> }
#[derive(Clone, Debug)]
pub struct ParseError(pub String);
impl std::fmt::Display for ParseError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for ParseError {}
impl Parse {
    pub fn has_error(&self) -> bool { self.error.is_some() }
    pub fn error(&self) -> Option<&ParseError> { self.error.as_ref() }
    pub fn syntax(&self) -> RSyntaxNode { RSyntaxNode::new(self.tree.clone(), self.tree.root) }
    pub fn tree(&self) -> RRoot { RRoot::cast(self.syntax()).unwrap() }
}
pub fn parse(text: &str, _o: RParserOptions) -> Parse {
    match lex(text).and_then(|t| Parser::new(text, t).run()) {
        Ok(t) => Parse { tree: Arc::new(t), error: None },
        Err(e) => Parse { tree: Arc::new(bogus(text)), error: Some(ParseError(e)) },
    }
}
fn tok(kind: RSyntaxKind, lead: usize, start: usize, end: usize, trail: usize) -> TokenData { TokenData { kind: kind as u16, parent: 0, lead, start, end, trail, leading: vec![], trailing: vec![] } }
fn nd(kind: RSyntaxKind, slots: Vec<Option<Elem>>) -> NodeData { NodeData { kind: kind as u16, parent: None, slots, at: 0, first: None, last: None } }
/// the whole text as one token in an empty program
fn bogus(text: &str) -> Tree {
    let mut t = Tree { text: text.to_string(), tokens: vec![tok(EOF, 0, text.len(), text.len(), text.len())], nodes: vec![nd(R_EXPRESSION_LIST, vec![])], root: 1 };
    t.nodes.push(nd(R_ROOT, vec![None, Some(Elem::Node(0)), Some(Elem::Token(0))]));
    t.finish();
    t
}
fn trivia(s: &str, mut p: usize, stop_at_newline: bool) -> (Vec<(Trivia, usize, usize)>, usize) {
    let b = s.as_bytes();
    let mut v = vec![];
    while p < b.len() {
        let st = p;
        match b[p] {
            b'\n' => { if stop_at_newline { break; } p += 1; v.push((Trivia::Newline, st, p)); }
            b'\r' if b.get(p + 1) == Some(&b'\n') => { if stop_at_newline { break; } p += 2; v.push((Trivia::Newline, st, p)); }
            b' ' | b'\t' | 0x0c | b'\r' => { while p < b.len() && matches!(b[p], b' ' | b'\t' | 0x0c) || p < b.len() && b[p] == b'\r' && b.get(p + 1) != Some(&b'\n') { p += 1; } v.push((Trivia::Whitespace, st, p)); }
            0xc2 if b.get(p + 1) == Some(&0xa0) => { p += 2; v.push((Trivia::Whitespace, st, p)); }
            b'#' => { while p < b.len() && b[p] != b'\n' && !(b[p] == b'\r' && b.get(p + 1) == Some(&b'\n')) { p += 1; } v.push((Trivia::Comment, st, p)); }
            _ => break,
        }
    }
    (v, p)
}
fn lex(s: &str) -> Result<Vec<TokenData>, String> {
    let mut out: Vec<TokenData> = vec![];
    let mut open: Vec<RSyntaxKind> = vec![];
    let mut p = 0;
    loop {
        let lead = p;
        let (leading, st) = trivia(s, p, false);
        if st >= s.len() {
            let mut t = tok(EOF, lead, st, st, st);
            t.leading = leading;
            out.push(t);
            return Ok(out);
        }
        let (kind, end) = one(s, st, &mut open)?;
        let (trailing, tr) = trivia(s, end, true);
        let mut t = tok(kind, lead, st, end, tr);
        t.leading = leading;
        t.trailing = trailing;
        out.push(t);
        p = tr;
    }
}
fn one(s: &str, p: usize, open: &mut Vec<RSyntaxKind>) -> Result<(RSyntaxKind, usize), String> {
    let r = &s[p..];
    let c = r.chars().next().unwrap();
    if (c == 'r' || c == 'R') && r[1..].starts_with(['"', '\'']) {
        // raw string
        let q = r[1..].chars().next().unwrap();
        let d = r[2..].chars().take_while(|c| *c == '-').count();
        if let Some(o) = r[2 + d..].chars().next().filter(|c| "([{".contains(*c)) {
            let cl = match o { '(' => ')', '[' => ']', _ => '}' };
            let fin = format!("{cl}{}{q}", "-".repeat(d));
            let body = &r[3 + d..];
            return body.find(&fin).map(|k| (STRING, p + 3 + d + k + fin.len())).ok_or("unclosed raw string".into());
        }
    }
    if c == '"' || c == '\'' || c == '`' {
        let mut it = r.char_indices().skip(1);
        while let Some((k, x)) = it.next() {
            if x == '\\' { it.next(); continue; }
            if x == c { return Ok((if c == '`' { IDENT } else { STRING }, p + k + 1)); }
        }
        return Err("unclosed string".into());
    }
    let b = r.as_bytes();
    if c.is_ascii_digit() || c == '.' && b.get(1).is_some_and(|d| d.is_ascii_digit()) {
        let mut k = 0;
        if r.starts_with("0x") || r.starts_with("0X") { k = 2; while k < b.len() && b[k].is_ascii_hexdigit() { k += 1; } }
        else {
            while k < b.len() && (b[k].is_ascii_digit() || b[k] == b'.') { k += 1; }
            if k < b.len() && (b[k] | 32) == b'e' {
                let mut j = k + 1;
                if j < b.len() && (b[j] == b'+' || b[j] == b'-') { j += 1; }
                if j < b.len() && b[j].is_ascii_digit() { while j < b.len() && b[j].is_ascii_digit() { j += 1; } k = j; }
            }
        }
        return Ok(match b.get(k) { Some(b'L') => (INT, p + k + 1), Some(b'i') => (COMPLEX, p + k + 1), _ => (DOUBLE, p + k) });
    }
    if c.is_alphabetic() || c == '.' || c == '_' {
        let w: String = r.chars().take_while(|c| c.is_alphanumeric() || *c == '.' || *c == '_').collect();
        let k = match w.as_str() {
            "..." => DOTS,
            "NULL" => NULL_KW, "TRUE" => TRUE_KW, "FALSE" => FALSE_KW, "Inf" => INF_KW, "NaN" => NAN_KW, "NA" => NA_LOGICAL_KW,
            "NA_integer_" => NA_INTEGER_KW, "NA_real_" => NA_DOUBLE_KW, "NA_character_" => NA_CHARACTER_KW, "NA_complex_" => NA_COMPLEX_KW,
            "if" => IF_KW, "else" => ELSE_KW, "for" => FOR_KW, "in" => IN_KW, "while" => WHILE_KW, "repeat" => REPEAT_KW, "function" => FUNCTION_KW,
            "next" => NEXT_KW, "break" => BREAK_KW, "return" => RETURN_KW,
            w if w.starts_with("..") && w.len() > 2 && w[2..].bytes().all(|b| b.is_ascii_digit()) => DOTDOTI,
            _ => IDENT,
        };
        return Ok((k, p + w.len()));
    }
    if c == '%' {
        return r[1..].find(['%', '\n']).filter(|k| r.as_bytes()[k + 1] == b'%').map(|k| (SPECIAL, p + k + 2)).ok_or("unclosed %".into());
    }
    if r.starts_with("]]") && open.last() == Some(&L_BRACK2) { open.pop(); return Ok((R_BRACK2, p + 2)); }
    const OPS: &[(&str, RSyntaxKind)] = &[
        ("->>", SUPER_ASSIGN_RIGHT), ("<<-", SUPER_ASSIGN), (":::", COLON3), ("[[", L_BRACK2), ("->", ASSIGN_RIGHT), ("<-", ASSIGN), ("<=", LESS_THAN_OR_EQUAL_TO), (">=", GREATER_THAN_OR_EQUAL_TO),
        ("==", EQUAL2), ("!=", NOT_EQUAL), ("||", OR2), ("&&", AND2), ("|>", PIPE), ("**", EXPONENTIATE2), ("::", COLON2), (":=", WALRUS),
        ("(", L_PAREN), (")", R_PAREN), ("[", L_BRACK), ("]", R_BRACK), ("{", L_CURLY), ("}", R_CURLY), (",", COMMA), (";", SEMICOLON), ("\\", BACKSLASH),
        ("?", WAT), ("~", TILDE), ("=", EQUAL), ("|", OR), ("&", AND), ("!", BANG), (">", GREATER_THAN), ("<", LESS_THAN), ("+", PLUS), ("-", MINUS), ("*", MULTIPLY), ("/", DIVIDE), ("^", EXPONENTIATE), (":", COLON), ("$", DOLLAR), ("@", AT),
    ];
    for (o, k) in OPS {
        if r.starts_with(o) {
            match k {
                L_PAREN | L_BRACK | L_BRACK2 | L_CURLY => open.push(*k),
                R_PAREN | R_BRACK | R_CURLY => {
                    let want = match k { R_PAREN => L_PAREN, R_BRACK => L_BRACK, _ => L_CURLY };
                    if open.pop() != Some(want) { return Err(format!("unmatched {o}")); }
                }
                _ => {}
            }
            return Ok((*k, p + o.len()));
        }
    }
    Err(format!("unexpected character {c:?}"))
}
struct Parser { t: Tree, p: usize, /// newlines end an expression
    nl: Vec<bool> }
type P = Result<usize, String>;
/// (left binding power, right binding power)
fn power(k: RSyntaxKind) -> Option<(u8, u8)> {
    Some(match k {
        WAT => (1, 2), EQUAL => (4, 3), ASSIGN | SUPER_ASSIGN | WALRUS => (8, 7), ASSIGN_RIGHT | SUPER_ASSIGN_RIGHT => (9, 10), TILDE => (11, 12), OR | OR2 => (13, 14), AND | AND2 => (15, 16),
        GREATER_THAN | GREATER_THAN_OR_EQUAL_TO | LESS_THAN | LESS_THAN_OR_EQUAL_TO | EQUAL2 | NOT_EQUAL => (19, 20),
        PLUS | MINUS => (21, 22), MULTIPLY | DIVIDE => (23, 24), SPECIAL | PIPE => (25, 26), COLON => (27, 28), EXPONENTIATE | EXPONENTIATE2 => (32, 31), DOLLAR | AT => (35, 36), COLON2 | COLON3 => (37, 38),
        _ => return None,
    })
}
const POSTFIX: u8 = 35;
impl Parser {
    fn new(text: &str, tokens: Vec<TokenData>) -> Self { Parser { t: Tree { text: text.to_string(), nodes: vec![], tokens, root: 0 }, p: 0, nl: vec![true] } }
    fn k(&self) -> RSyntaxKind { self.t.tokens[self.p].kind.into() }
    fn newline_before(&self, p: usize) -> bool { self.t.tokens[p].leading.iter().any(|x| x.0 == Trivia::Newline) }
    /// the expression ends before the next token
    fn ends(&self) -> bool { *self.nl.last().unwrap() && self.newline_before(self.p) }
    fn bump(&mut self) -> Option<Elem> { self.p += 1; Some(Elem::Token(self.p - 1)) }
    fn eat(&mut self, k: RSyntaxKind) -> Result<Option<Elem>, String> { if self.k() == k { Ok(self.bump()) } else { Err(format!("expected {k:?}, found {:?}", self.k())) } }
    fn node(&mut self, k: RSyntaxKind, slots: Vec<Option<Elem>>) -> usize { self.t.nodes.push(nd(k, slots)); self.t.nodes.len() - 1 }
    fn run(mut self) -> Result<Tree, String> {
        let l = self.list(EOF)?;
        let e = self.eat(EOF)?;
        let r = self.node(R_ROOT, vec![None, Some(Elem::Node(l)), e]);
        self.t.root = r;
        self.t.finish();
        Ok(self.t)
    }
    fn list(&mut self, end: RSyntaxKind) -> P {
        let mut slots = vec![];
        let mut first = true;
        while self.k() != end {
            if self.k() == SEMICOLON { slots.push(self.bump()); first = true; continue; }
            if !first && !self.newline_before(self.p) { return Err("two expressions on a line".into()); }
            slots.push(Some(Elem::Node(self.expr(0)?)));
            first = false;
        }
        Ok(self.node(R_EXPRESSION_LIST, slots))
    }
    fn within<T>(&mut self, nl: bool, f: impl FnOnce(&mut Self) -> Result<T, String>) -> Result<T, String> { self.nl.push(nl); let r = f(self); self.nl.pop(); r }
    fn expr(&mut self, min: u8) -> P {
        let mut left = self.primary()?;
        loop {
            if self.ends() { break; }
            let k = self.k();
            match k {
                L_PAREN | L_BRACK | L_BRACK2 => {
                    if POSTFIX < min { break; }
                    let (close, args, outer) = match k { L_PAREN => (R_PAREN, R_CALL_ARGUMENTS, R_CALL), L_BRACK => (R_BRACK, R_SUBSET_ARGUMENTS, R_SUBSET), _ => (R_BRACK2, R_SUBSET2_ARGUMENTS, R_SUBSET2) };
                    let o = self.bump();
                    let l = self.within(false, |s| s.arguments(close))?;
                    let c = self.eat(close)?;
                    let a = self.node(args, vec![o, Some(Elem::Node(l)), c]);
                    left = self.node(outer, vec![Some(Elem::Node(left)), Some(Elem::Node(a))]);
                }
                _ => {
                    let Some((l, r)) = power(k) else { break };
                    if l < min { break; }
                    let o = self.bump();
                    let right = self.expr(r)?;
                    let kind = match k { DOLLAR | AT => R_EXTRACT_EXPRESSION, COLON2 | COLON3 => R_NAMESPACE_EXPRESSION, _ => R_BINARY_EXPRESSION };
                    left = self.node(kind, vec![Some(Elem::Node(left)), o, Some(Elem::Node(right))]);
                }
            }
        }
        Ok(left)
    }
    fn leaf(&mut self, k: RSyntaxKind) -> P { let t = self.bump(); Ok(self.node(k, vec![t])) }
    fn arguments(&mut self, close: RSyntaxKind) -> P {
        let mut slots = vec![];
        if self.k() != close {
            loop {
                let a = self.argument(close)?;
                slots.push(Some(Elem::Node(a)));
                if self.k() == COMMA { slots.push(self.bump()); } else { break; }
            }
        }
        Ok(self.node(R_ARGUMENT_LIST, slots))
    }
    fn argument(&mut self, close: RSyntaxKind) -> P {
        if self.k() == COMMA || self.k() == close { return Ok(self.node(R_ARGUMENT, vec![None, None])); }
        let mut clause = None;
        if matches!(self.k(), IDENT | STRING | DOTS | DOTDOTI | NULL_KW) && RSyntaxKind::from(self.t.tokens[self.p + 1].kind) == EQUAL {
            let k = match self.k() { STRING => R_STRING_VALUE, DOTS => R_DOTS, DOTDOTI => R_DOT_DOT_I, _ => R_IDENTIFIER };
            let n = self.leaf(k)?;
            let e = self.bump();
            clause = Some(Elem::Node(self.node(R_ARGUMENT_NAME_CLAUSE, vec![Some(Elem::Node(n)), e])));
            if self.k() == COMMA || self.k() == close { return Ok(self.node(R_ARGUMENT, vec![clause, None])); }
        }
        let v = self.expr(5)?;
        Ok(self.node(R_ARGUMENT, vec![clause, Some(Elem::Node(v))]))
    }
    fn primary(&mut self) -> P {
        let k = self.k();
        match k {
            IDENT => self.leaf(R_IDENTIFIER),
            DOTS => self.leaf(R_DOTS), DOTDOTI => self.leaf(R_DOT_DOT_I),
            INT => self.leaf(R_INTEGER_VALUE), DOUBLE => self.leaf(R_DOUBLE_VALUE), COMPLEX => self.leaf(R_COMPLEX_VALUE), STRING => self.leaf(R_STRING_VALUE),
            NULL_KW => self.leaf(R_NULL_EXPRESSION), TRUE_KW => self.leaf(R_TRUE_EXPRESSION), FALSE_KW => self.leaf(R_FALSE_EXPRESSION), INF_KW => self.leaf(R_INF_EXPRESSION), NAN_KW => self.leaf(R_NAN_EXPRESSION),
            NA_LOGICAL_KW | NA_INTEGER_KW | NA_DOUBLE_KW | NA_CHARACTER_KW | NA_COMPLEX_KW => self.leaf(R_NA_EXPRESSION),
            NEXT_KW => self.leaf(R_NEXT_EXPRESSION), BREAK_KW => self.leaf(R_BREAK_EXPRESSION), RETURN_KW => self.leaf(R_RETURN_EXPRESSION),
            MINUS | PLUS | BANG | TILDE | WAT => {
                let r = match k { MINUS | PLUS => 29, BANG => 17, TILDE => 12, _ => 1 };
                let o = self.bump();
                let a = self.expr(r)?;
                Ok(self.node(R_UNARY_EXPRESSION, vec![o, Some(Elem::Node(a))]))
            }
            L_PAREN => {
                let o = self.bump();
                let b = self.within(false, |s| s.expr(0))?;
                let c = self.eat(R_PAREN)?;
                Ok(self.node(R_PARENTHESIZED_EXPRESSION, vec![o, Some(Elem::Node(b)), c]))
            }
            L_CURLY => {
                let o = self.bump();
                let b = self.within(true, |s| s.list(R_CURLY))?;
                let c = self.eat(R_CURLY)?;
                Ok(self.node(R_BRACED_EXPRESSIONS, vec![o, Some(Elem::Node(b)), c]))
            }
            IF_KW => {
                let i = self.bump();
                let (o, c, cl) = self.condition()?;
                let b = self.expr(3)?;
                let mut e = None;
                // at top level, `else` has to be on the same line
                if self.k() == ELSE_KW && !(self.nl.len() == 1 && self.newline_before(self.p)) {
                    let t = self.bump();
                    let a = self.expr(3)?;
                    e = Some(Elem::Node(self.node(R_ELSE_CLAUSE, vec![t, Some(Elem::Node(a))])));
                }
                Ok(self.node(R_IF_STATEMENT, vec![i, o, Some(Elem::Node(c)), cl, Some(Elem::Node(b)), e]))
            }
            WHILE_KW => {
                let i = self.bump();
                let (o, c, cl) = self.condition()?;
                let b = self.expr(3)?;
                Ok(self.node(R_WHILE_STATEMENT, vec![i, o, Some(Elem::Node(c)), cl, Some(Elem::Node(b))]))
            }
            REPEAT_KW => { let i = self.bump(); let b = self.expr(3)?; Ok(self.node(R_REPEAT_STATEMENT, vec![i, Some(Elem::Node(b))])) }
            FOR_KW => {
                let i = self.bump();
                let o = self.eat(L_PAREN)?;
                let (v, n, s) = self.within(false, |s| { if s.k() != IDENT { return Err("for".to_string()); } let v = s.leaf(R_IDENTIFIER)?; let n = s.eat(IN_KW)?; Ok((v, n, s.expr(0)?)) })?;
                let c = self.eat(R_PAREN)?;
                let b = self.expr(3)?;
                Ok(self.node(R_FOR_STATEMENT, vec![i, o, Some(Elem::Node(v)), n, Some(Elem::Node(s)), c, Some(Elem::Node(b))]))
            }
            FUNCTION_KW | BACKSLASH => {
                let i = self.bump();
                let o = self.eat(L_PAREN)?;
                let l = self.within(false, |s| s.parameters())?;
                let c = self.eat(R_PAREN)?;
                let ps = self.node(R_PARAMETERS, vec![o, Some(Elem::Node(l)), c]);
                let b = self.expr(3)?;
                Ok(self.node(R_FUNCTION_DEFINITION, vec![i, Some(Elem::Node(ps)), Some(Elem::Node(b))]))
            }
            _ => Err(format!("unexpected {k:?}")),
        }
    }
    fn condition(&mut self) -> Result<(Option<Elem>, usize, Option<Elem>), String> {
        let o = self.eat(L_PAREN)?;
        let c = self.within(false, |s| s.expr(0))?;
        Ok((o, c, self.eat(R_PAREN)?))
    }
    fn parameters(&mut self) -> P {
        let mut slots = vec![];
        if self.k() != R_PAREN {
            loop {
                let k = match self.k() { IDENT => R_IDENTIFIER, DOTS => R_DOTS, DOTDOTI => R_DOT_DOT_I, k => return Err(format!("parameter {k:?}")) };
                let n = self.leaf(k)?;
                let mut d = None;
                if self.k() == EQUAL {
                    let e = self.bump();
                    let v = self.expr(5)?;
                    d = Some(Elem::Node(self.node(R_PARAMETER_DEFAULT, vec![e, Some(Elem::Node(v))])));
                }
                let x = self.node(R_PARAMETER, vec![Some(Elem::Node(n)), d]);
                slots.push(Some(Elem::Node(x)));
                if self.k() == COMMA { slots.push(self.bump()); } else { break; }
            }
        }
        Ok(self.node(R_PARAMETER_LIST, slots))
    }
}
