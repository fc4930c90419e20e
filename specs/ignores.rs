//@methods split_inclusive trim
//@include chunks.rs
//@item crates/jarl-core/src/suppression_edit.rs struct SuppressionInsertPoint
//@item crates/jarl-core/src/suppression_edit.rs struct SuppressionEdit

// ---- text helpers (TRUSTED meaning of the std functions) ----
pub open spec fn count_of(s: Seq<char>, c: char) -> nat
    decreases s.len(),
{ if s.len() == 0 { 0 } else if s.last() == c { count_of(s.drop_last(), c) + 1 } else { count_of(s.drop_last(), c) } }
pub open spec fn repeated(s: Seq<char>, n: nat) -> Seq<char>
    decreases n,
{ if n == 0 { Seq::empty() } else { repeated(s, (n - 1) as nat) + s } }
pub trait VxText {
    spec fn vx_t(&self) -> Seq<char>;
    /// matches(c).count()
    fn vx_count_of(&self, c: char) -> (r: usize) ensures r == count_of(self.vx_t(), c);
    fn vx_repeat(&self, n: usize) -> (r: String) ensures r@ == repeated(self.vx_t(), n as nat);
}
impl VxText for str {
    open spec fn vx_t(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_count_of(&self, c: char) -> (r: usize) { self.matches(c).count() }
    #[verifier::external_body]
    fn vx_repeat(&self, n: usize) -> (r: String) { self.repeat(n) }
}
pub trait VxChars {
    spec fn vx_v(&self) -> Seq<char>;
    /// chars().take_while(f).collect()
    fn vx_take_while<F: FnMut(&char) -> bool>(self, f: F) -> (r: String)
        requires forall|c: &char| call_requires(f, (c,)),
        ensures r@.len() <= self.vx_v().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == self.vx_v()[i] && call_ensures(f, (&r@[i],), true),
            r@.len() < self.vx_v().len() ==> call_ensures(f, (&self.vx_v()[r@.len() as int],), false);
}
impl VxChars for Vec<char> {
    open spec fn vx_v(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_take_while<F: FnMut(&char) -> bool>(self, mut f: F) -> (r: String) { self.into_iter().take_while(|c| f(c)).collect() }
}

// ---- the parser and the syntax tree (TRUSTED stubs) ----
/// the file parses
pub uninterp spec fn parses(s: Seq<char>) -> bool;
/// where its tokens are, without the blanks and comments around them
pub uninterp spec fn tokens(s: Seq<char>) -> Seq<TextRange>;
/// strictly inside a token
pub open spec fn inside(s: Seq<char>, o: int) -> bool { exists|i: int| 0 <= i < tokens(s).len() && (#[trigger] tokens(s)[i]).s < o < tokens(s)[i].e }
/// a token ends with a character that is not blank
#[verifier::external_body]
pub proof fn axiom_token(s: Seq<char>, i: int)
    requires 0 <= i < tokens(s).len(), tokens(s)[i].s < tokens(s)[i].e,
    ensures exists|k: int| 0 < k <= s.len() && bo(s, k) == tokens(s)[i].e && !ws(s[k - 1]),
{ }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
#[allow(non_camel_case_types)]
pub enum RSyntaxKind { R_BINARY_EXPRESSION, R_CALL, R_IF_STATEMENT, R_FOR_STATEMENT, R_WHILE_STATEMENT, R_REPEAT_STATEMENT, R_FUNCTION_DEFINITION, R_UNARY_EXPRESSION, R_SUBSET, R_SUBSET2, R_PARAMETER, R_ARGUMENT, R_BRACED_EXPRESSIONS, R_PARENTHESIZED_EXPRESSION, R_EXPRESSION_LIST, R_ROOT, OTHER }
#[verifier::external_body]
pub struct RNode { e: () }
impl RNode {
    /// the text of the tree it is in
    pub uninterp spec fn src(&self) -> Seq<char>;
    pub uninterp spec fn depth(&self) -> nat;
    pub uninterp spec fn range(&self) -> TextRange;
    #[verifier::external_body]
    pub fn kind(&self) -> (r: RSyntaxKind) { unimplemented!() }
    /// a node begins where a token begins
    #[verifier::external_body]
    pub fn text_trimmed_range(&self) -> (r: TextRange)
        ensures r == self.range(), r.s <= r.e, r.e <= encode_utf8(self.src()).len(), begins(self.src(), r.s as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<RNode>) ensures r matches Some(p) ==> p.src() == self.src() && p.depth() < self.depth() { unimplemented!() }
    /// panics unless the range lies in the tree
    #[verifier::external_body]
    pub fn covering_element(&self, range: TextRange) -> (r: NodeOrToken)
        requires range.s <= range.e, range.e <= encode_utf8(self.src()).len(),
        ensures match r { NodeOrToken::Node(n) => n.src() == self.src(), NodeOrToken::Token(t) => t.src() == self.src() },
            range.s == range.e ==> forall|i: int| 0 <= i < tokens(self.src()).len() && (#[trigger] tokens(self.src())[i]).s < range.s < tokens(self.src())[i].e ==> r is Token && r->Token_0.range() == tokens(self.src())[i],
    { unimplemented!() }
}
impl Clone for RNode {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.src() == self.src(), r.depth() == self.depth(), r.range() == self.range() { unimplemented!() }
}
#[verifier::external_body]
pub struct RToken { e: () }
impl RToken {
    pub uninterp spec fn src(&self) -> Seq<char>;
    pub uninterp spec fn range(&self) -> TextRange;
    #[verifier::external_body]
    pub fn text_trimmed_range(&self) -> (r: TextRange) ensures r == self.range() { unimplemented!() }
    /// a token of a tree is in a node
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<RNode>) ensures r is Some, r->0.src() == self.src() { unimplemented!() }
}
pub enum NodeOrToken { Node(RNode), Token(RToken) }
#[verifier::external_body]
pub struct Parsed { e: () }
#[verifier::external_body]
pub struct RRoot { e: () }
impl Parsed {
    pub uninterp spec fn src(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn has_error(&self) -> (r: bool) ensures r == !parses(self.src()) { unimplemented!() }
    #[verifier::external_body]
    pub fn tree(&self) -> (r: RRoot) ensures r.src() == self.src() { unimplemented!() }
}
impl RRoot {
    pub uninterp spec fn src(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn syntax(&self) -> (r: &RNode) ensures r.src() == self.src() { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_parse(s: &str) -> (r: Parsed) ensures r.src() == s@ { unimplemented!() }

// ---- what the property says ----
pub open spec fn line_start(s: Seq<char>, k: int) -> bool { 0 <= k <= s.len() && (k == 0 || s[k - 1] == '\n') }
pub open spec fn blanks(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> ws(#[trigger] s[i]) && s[i] != '\n' }
/// newlines before byte o
pub open spec fn lines_before(s: Seq<char>, o: int) -> nat { count_of(decode_utf8(encode_utf8(s).subrange(0, o)), '\n') }
/// at character k, which starts a line unless a line break is inserted as well
pub open spec fn place(s: Seq<char>, k: int, p: SuppressionInsertPoint) -> bool {
    0 <= k <= s.len() && p.offset == bo(s, k) && (p.needs_leading_newline || line_start(s, k)) && blanks(p.indent@) && p.line == lines_before(s, p.offset as int)
}
pub open spec fn some_place(s: Seq<char>, p: SuppressionInsertPoint) -> bool { exists|k: int| #[trigger] place(s, k, p) }
/// the same, and no token is cut
pub open spec fn good_place(s: Seq<char>, p: SuppressionInsertPoint) -> bool {
    some_place(s, p) && (parses(s) ==> !inside(s, p.offset as int))
}
/// one comment on its line
pub open spec fn comment(indent: Seq<char>, rule: Seq<char>, why: Seq<char>) -> Seq<char> { indent + "# jarl-ignore "@ + rule + ": "@ + why }
pub open spec fn comments(indent: Seq<char>, rules: Seq<Seq<char>>, why: Seq<char>) -> Seq<char>
    decreases rules.len(),
{ if rules.len() == 0 { Seq::empty() } else { comments(indent, rules.drop_last(), why) + comment(indent, rules.last(), why) + seq!['\n'] } }
pub open spec fn inserted(indent: Seq<char>, rules: Seq<Seq<char>>, why: Seq<char>, nl: bool) -> Seq<char> {
    if nl { seq!['\n'] + comments(indent, rules, why) + indent } else { comments(indent, rules, why) }
}
/// such a line reads as a comment
pub proof fn p11_reads_as_comment(indent: Seq<char>, rule: Seq<char>, why: Seq<char>)
    requires blanks(indent), !rule.contains('\n'), !why.contains('\n'),
    ensures !comment(indent, rule, why).contains('\n'), comment(indent, rule, why).len() > indent.len(), comment(indent, rule, why)[indent.len() as int] == '#',
        forall|i: int| 0 <= i < indent.len() ==> ws(#[trigger] comment(indent, rule, why)[i]),
{
    reveal_strlit("# jarl-ignore "); reveal_strlit(": ");
    let c = comment(indent, rule, why);
    let a = indent.len() as int; let b = a + "# jarl-ignore "@.len(); let d = b + rule.len(); let e = d + ": "@.len();
    assert forall|i: int| 0 <= i < c.len() implies c[i] != '\n' by {
        if i < a { assert(c[i] == indent[i]); } else if i < b { assert(c[i] == "# jarl-ignore "@[i - a]); } else if i < d { assert(c[i] == rule[i - b]); }
        else if i < e { assert(c[i] == ": "@[i - d]); } else { assert(c[i] == why[i - e]); }
    }
    assert forall|i: int| 0 <= i < indent.len() implies ws(#[trigger] c[i]) by { assert(c[i] == indent[i]); }
}

//@fn crates/jarl-core/src/suppression_edit.rs format_suppression_comments
//@ret r
//@contract
    ensures r@ == inserted(indent@, views(rule_names@), explanation@, needs_leading_newline),
//@loop 0 it
    invariant
        it.seq().len() == rule_names@.len(), forall|i: int| 0 <= i < rule_names@.len() ==> *#[trigger] it.seq()[i] == rule_names@[i],
        result@ == (if needs_leading_newline { seq!['\n'] } else { Seq::<char>::empty() }) + comments(indent@, views(rule_names@).take(it.index() as int), explanation@),
//@at loop 0 start
    let ghost k = it.index() as int;
    let ghost r0 = result@;
    proof { assert(views(rule_names@).take(k + 1).drop_last() =~= views(rule_names@).take(k)); }
//@at loop 0 end
    proof {
        reveal_strlit("# jarl-ignore "); reveal_strlit(": ");
        assert(result@ =~= r0 + (comment(indent@, rule@, explanation@) + seq!['\n']));
        assert(result@ =~= (if needs_leading_newline { seq!['\n'] } else { Seq::<char>::empty() }) + comments(indent@, views(rule_names@).take(k + 1), explanation@));
    }
//@at before loop 0
    proof { assert(views(rule_names@).take(0) =~= Seq::<Seq<char>>::empty()); }
//@at after loop 0
    proof { assert(views(rule_names@).take(rule_names@.len() as int) =~= views(rule_names@)); }
//@end

/// character k is where byte b is
pub open spec fn at_char(s: Seq<char>, b: int, k: int) -> bool { 0 <= k <= s.len() && b == bo(s, k) }
/// l starts the line character k is on
pub open spec fn starts_line_of(s: Seq<char>, l: int, k: int) -> bool { line_start(s, l) && l <= k <= s.len() && forall|j: int| l <= j < k ==> s[j] != '\n' }
pub proof fn lemma_line(s: Seq<char>, l: int, m: int, k: int)
    requires starts_line_of(s, l, k), starts_line_of(s, m, k),
    ensures l == m,
{ if l < m { assert(s[m - 1] == '\n'); } else if m < l { assert(s[l - 1] == '\n'); } }
/// the last newline of the text before k
pub proof fn lemma_last(s: Seq<char>, k: int, n: int)
    requires 0 <= k <= s.len(), last_at(s.take(k), '\n', n),
    ensures starts_line_of(s, n + 1, k), bo(s, n + 1) == bo(s.take(k), n) + 1, bo(s.take(k), n) < bo(s, k),
{
    let t = s.take(k);
    assert(t[n] == s[n]);
    assert forall|j: int| n + 1 <= j < k implies s[j] != '\n' by { assert(t[j] == s[j]); }
    assert(t.take(n) =~= s.take(n));
    lemma_bo_next(s, n);
    lemma_bo(s, n, k);
}
pub proof fn lemma_first(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), !s.take(k).contains('\n'),
    ensures starts_line_of(s, 0, k),
{ assert forall|j: int| 0 <= j < k implies s[j] != '\n' by { assert(s.take(k)[j] == s[j]); } }
/// the text before byte o
pub open spec fn whole(s: Seq<char>, o: int) -> bool { exists|k: int| #[trigger] at_char(s, o, k) }
/// only blanks before o on its line
pub open spec fn own_line(s: Seq<char>, o: int) -> bool { forall|k: int| #[trigger] at_char(s, o, k) ==> !code_before(s, k) }
pub open spec fn starts_line_at(s: Seq<char>, l: int, o: int) -> bool { forall|k: int| #[trigger] at_char(s, o, k) ==> starts_line_of(s, l, k) }
pub open spec fn line_found(s: Seq<char>, start: int, o: int) -> bool { exists|l: int| #[trigger] at_char(s, start, l) && starts_line_at(s, l, o) }
//@methods rfind is_whitespace all repeat
//@fn crates/jarl-core/src/suppression_edit.rs is_on_own_line
//@subst `.chars()` => `.vx_chars_of()`
//@ret r
//@contract
    requires whole(source@, offset as int),
    ensures r == own_line(source@, offset as int),
//@closure 0 (c: char) -> b: bool
    ensures b == ws(c),
//@closure 1 (c: char) -> b: bool
    ensures b == ws(c),
//@at start
    let ghost s = source@;
    let ghost k = choose|k: int| #[trigger] at_char(s, offset as int, k);
    proof {
        assert(source.spec_bytes().len() <= isize::MAX); lemma_bo(s, 0, k); encode_utf8_valid_utf8(s);
        assert forall|j: int| #[trigger] at_char(s, offset as int, j) implies j == k by { lemma_bo_inj(s, j, k); }
    }
//@at after let before
    proof {
        lemma_slice(s, 0, k, before@);
        assert(s.subrange(0, k) =~= s.take(k));
        if !before@.contains('\n') { lemma_first(s, k); lemma_code_before(s, k, 0); assert(code_before(s, k) == exists|i: int| 0 <= i < before@.len() && !ws(#[trigger] before@[i])); }
    }
//@at before let line_prefix
    let ghost n = choose|n: int| #[trigger] last_at(before@, '\n', n) && newline_pos == bo(before@, n);
    let ghost bc = before@;
    proof {
        lemma_bo_next(bc, n); lemma_bo(bc, n + 1, bc.len() as int); encode_utf8_valid_utf8(bc); assert(before.spec_bytes().len() <= isize::MAX);
        lemma_last(s, k, n);
        lemma_code_before(s, k, n + 1);
        assert(s.subrange(n + 1, k) =~= bc.subrange(n + 1, bc.len() as int));
    }
//@at after let line_prefix
    proof { lemma_slice(bc, n + 1, bc.len() as int, line_prefix@); }
//@end
//@fn crates/jarl-core/src/suppression_edit.rs compute_inline_indent
//@ret r
//@contract
    requires whole(source@, offset as int),
    ensures blanks(r@),
//@closure 0 (p: usize) -> q: usize
    requires p < usize::MAX,
    ensures q == p + 1,
//@at start
    let ghost s = source@;
    let ghost k = choose|k: int| #[trigger] at_char(s, offset as int, k);
    proof { assert(source.spec_bytes().len() <= isize::MAX); lemma_bo(s, 0, k); encode_utf8_valid_utf8(s); }
//@at after let before
    proof {
        lemma_slice(s, 0, k, before@);
        assert(s.subrange(0, k) =~= s.take(k));
        assert forall|n: int| #[trigger] last_at(before@, '\n', n) implies bo(before@, n) < offset by { lemma_last(s, k, n); }
    }
//@at after let column
    proof { reveal_strlit(" "); lemma_repeated(" "@, column as nat); }
//@end
pub proof fn lemma_repeated(s: Seq<char>, n: nat)
    requires blanks(s),
    ensures blanks(repeated(s, n)),
    decreases n,
{ if n > 0 { lemma_repeated(s, (n - 1) as nat); } }
//@fn crates/jarl-core/src/suppression_edit.rs count_lines_to
//@subst `.matches('\n').count()` => `.vx_count_of('\n')`
//@ret r
//@contract
    requires whole(source@, offset as int),
    ensures r == lines_before(source@, offset as int),
//@at start
    let ghost s = source@;
    let ghost k = choose|k: int| #[trigger] at_char(s, offset as int, k);
    proof {
        assert(source.spec_bytes().len() <= isize::MAX); lemma_bo(s, 0, k); encode_utf8_valid_utf8(s);
    }
//@end
//@fn crates/jarl-core/src/suppression_edit.rs find_line_start_and_indent
//@subst `.chars()` => `.vx_chars_of()`
//@subst `.take_while` => `.vx_take_while`
//@subst `.collect()` => ``
//@ret r
//@contract
    requires whole(source@, byte_offset as int),
    ensures
        blanks(r.1@), r.0 <= encode_utf8(source@).len(), is_char_boundary(encode_utf8(source@), r.0 as int), valid_utf8(encode_utf8(source@)),
        line_found(source@, r.0 as int, byte_offset as int),
//@closure 0 (pos: usize) -> q: usize
    requires pos < usize::MAX,
    ensures q == pos + 1,
//@closure 1 (c: &char) -> b: bool
    ensures b == (ws(*c) && *c != '\n'),
//@at start
    let ghost s = source@;
    let ghost k = choose|k: int| #[trigger] at_char(s, byte_offset as int, k);
    proof {
        assert(source.spec_bytes().len() <= isize::MAX); lemma_bo(s, 0, k); encode_utf8_valid_utf8(s);
        assert forall|j: int| #[trigger] at_char(s, byte_offset as int, j) implies j == k by { lemma_bo_inj(s, j, k); }
        assert(s.subrange(0, k) =~= s.take(k));
        assert forall|t: Seq<char>| encode_utf8(t) == encode_utf8(s).subrange(bo(s, 0), bo(s, k)) implies t == s.take(k) by { lemma_slice(s, 0, k, t); }
        assert forall|n: int| #[trigger] last_at(s.take(k), '\n', n) implies bo(s.take(k), n) < byte_offset by { lemma_last(s, k, n); }
    }
//@at after let line_start
    proof {
        if !s.take(k).contains('\n') { lemma_first(s, k); assert(at_char(s, line_start as int, 0)); }
        else {
            let n = choose|n: int| #[trigger] last_at(s.take(k), '\n', n) && line_start == bo(s.take(k), n) + 1;
            lemma_last(s, k, n);
            assert(at_char(s, line_start as int, n + 1));
        }
        let l = choose|l: int| #[trigger] at_char(s, line_start as int, l) && starts_line_of(s, l, k);
        lemma_bo(s, l, s.len() as int);
        assert(at_char(s, line_start as int, l) && starts_line_at(s, l, byte_offset as int));
    }
//@end
//@fn crates/jarl-core/src/suppression_edit.rs compute_simple_insert_point
//@subst `.matches('\n').count()` => `.vx_count_of('\n')`
//@ret r
//@contract
    requires whole(source@, byte_offset as int),
    ensures r is Some, !r->0.needs_leading_newline,
        some_place(source@, r->0), line_found(source@, r->0.offset as int, byte_offset as int),
//@at start
    broadcast use {lemma_at_line};
//@end

//@methods into
//@fn crates/jarl-core/src/suppression_edit.rs is_meaningful_expression
//@subst `SyntaxNode<air_r_syntax::RLanguage>` => `RNode`
//@end
//@fn crates/jarl-core/src/suppression_edit.rs is_control_flow_statement
//@subst `SyntaxNode<air_r_syntax::RLanguage>` => `RNode`
//@end
/// where a diagnostic is: a piece of the text that does not begin inside a token
pub open spec fn found_at(s: Seq<char>, start: int, end: int) -> bool {
    &&& 0 <= start <= end <= encode_utf8(s).len() <= u32::MAX
    &&& whole(s, start)
    &&& parses(s) ==> !inside(s, start)
}
/// where a node begins
pub open spec fn begins(s: Seq<char>, o: int) -> bool { o <= encode_utf8(s).len() && !inside(s, o) && whole(s, o) }
/// nothing but blanks between the start of the line and a place not inside a token: the start of the line is not in one either
pub proof fn lemma_outside(s: Seq<char>, l: int, k: int)
    requires starts_line_of(s, l, k), !code_before(s, k), !inside(s, bo(s, k)),
    ensures !inside(s, bo(s, l)),
{
    if inside(s, bo(s, l)) {
        let i = choose|i: int| 0 <= i < tokens(s).len() && (#[trigger] tokens(s)[i]).s < bo(s, l) < tokens(s)[i].e;
        axiom_token(s, i);
        let e = choose|e: int| 0 < e <= s.len() && bo(s, e) == tokens(s)[i].e && !ws(s[e - 1]);
        lemma_bo(s, l, k);
        if e > k { lemma_bo(s, k, e); assert(inside(s, bo(s, k))); }
        else {
            if e <= l { lemma_bo(s, e, l); }
            lemma_code_before(s, k, l);
            assert(s.subrange(l, k)[e - 1 - l] == s[e - 1]);
            assert(code_before(s, k));
        }
    }
}
pub broadcast proof fn lemma_own_line(s: Seq<char>, o: int, start: int)
    requires begins(s, o), #[trigger] line_found(s, start, o), own_line(s, o),
    ensures !inside(s, start),
{
    let k = choose|k: int| #[trigger] at_char(s, o, k);
    let l = choose|l: int| #[trigger] at_char(s, start, l) && starts_line_at(s, l, o);
    lemma_outside(s, l, k);
}
/// a place at the start of a line
pub broadcast proof fn lemma_at_line(s: Seq<char>, o: int, start: int, p: SuppressionInsertPoint)
    requires #[trigger] line_found(s, start, o), p.offset == start, whole(s, o), blanks(p.indent@), p.line == lines_before(s, start),
    ensures #[trigger] some_place(s, p),
{
    let k = choose|k: int| #[trigger] at_char(s, o, k);
    let l = choose|l: int| #[trigger] at_char(s, start, l) && starts_line_at(s, l, o);
    assert(place(s, l, p));
}
pub broadcast proof fn lemma_inline(s: Seq<char>, p: SuppressionInsertPoint)
    requires whole(s, p.offset as int), p.needs_leading_newline, blanks(p.indent@), p.line == lines_before(s, p.offset as int),
    ensures #[trigger] some_place(s, p),
{
    let k = choose|k: int| #[trigger] at_char(s, p.offset as int, k);
    assert(place(s, k, p));
}
//@fn crates/jarl-core/src/suppression_edit.rs compute_suppression_insert_point
//@subst `.matches('\n').count()` => `.vx_count_of('\n')`
//@subst `SyntaxNode<air_r_syntax::RLanguage>` => `RNode`
//@subst `biome_rowan::NodeOrToken` => `NodeOrToken`
//@subst `air_r_parser::parse(source, RParserOptions::default())` => `vx_parse(source)`
//@ret r
//@contract
    requires found_at(source@, diagnostic_start as int, diagnostic_end as int),
    ensures r is Some, good_place(source@, r->0),
//@at start
    let ghost s = source@;
    broadcast use {lemma_own_line, lemma_at_line, lemma_inline};
//@loop 0 -
    invariant
        s == source@, encode_utf8(s).len() <= u32::MAX, parses(s), current.src() == s,
        last_meaningful is Some ==> last_meaningful->0.src() == s, first_meaningful_on_own_line is Some ==> first_meaningful_on_own_line->0.src() == s && own_line(s, first_meaningful_on_own_line->0.range().s as int),
    decreases current.depth(),
//@at loop 0 start
    broadcast use {lemma_own_line, lemma_at_line, lemma_inline};
//@end

//@methods saturating_sub
pub trait VxSatSub { spec fn vx_n(&self) -> int; fn vx_saturating_sub(self, o: usize) -> (r: usize) ensures r == if self.vx_n() > o { self.vx_n() - o } else { 0 }; }
impl VxSatSub for usize {
    open spec fn vx_n(&self) -> int { *self as int }
    #[verifier::external_body]
    fn vx_saturating_sub(self, o: usize) -> (r: usize) { self.saturating_sub(o) }
}
/// the edit for one rule
pub open spec fn edit_for(e: SuppressionEdit, rule: Seq<char>, why: Seq<char>) -> bool {
    e.comment_text@ == inserted(e.insert_point.indent@, seq![rule], why, e.insert_point.needs_leading_newline)
}
//@fn crates/jarl-core/src/suppression_edit.rs create_suppression_edit
//@ret r
//@contract
    requires found_at(source@, diagnostic_start as int, diagnostic_end as int),
    ensures r is Some, good_place(source@, r->0.insert_point), edit_for(r->0, rule_name@, explanation@),
//@at after let comment_text
    proof { assert(views([rule_name]@) =~= seq![rule_name@]); }
//@end

// ---- Rmd/Qmd: the chunk the diagnostic is in ----
/// the chunk is the piece of the file that begins at byte start, which is the start of a line
pub open spec fn chunk_at(content: Seq<char>, code: Seq<char>, start: int, a: int) -> bool {
    at_char(content, start, a) && line_start(content, a) && a + code.len() <= content.len() && content.subrange(a, a + code.len()) == code
}
#[verifier::rlimit(60)]
pub proof fn lemma_chunk_at(ls: Seq<Seq<char>>, i: int, m: int)
    requires is_split_inclusive(concat(ls), '\n', ls), 0 <= i <= ls.len(), 0 <= m < chunks_from(ls, i).len(),
    ensures exists|a: int| #[trigger] chunk_at(concat(ls), chunks_from(ls, i)[m].0, chunks_from(ls, i)[m].1, a),
    decreases ls.len() - i,
{
    if i >= ls.len() { } else if opens(ls[i]) is None { lemma_chunk_at(ls, i + 1, m); assert(chunks_from(ls, i) == chunks_from(ls, i + 1)); } else {
        let j = closing(ls, i + 1, opens(ls[i])->0);
        lemma_closing(ls, i + 1, opens(ls[i])->0);
        assert(chunks_from(ls, i) == seq![(concat(ls.subrange(i + 1, j)), off(ls, i + 1))] + chunks_from(ls, j + 1));
        if m > 0 { lemma_chunk_at(ls, j + 1, m - 1); assert(chunks_from(ls, i)[m] == chunks_from(ls, j + 1)[m - 1]); } else {
            let s = concat(ls); let before = concat(ls.take(i + 1)); let code = concat(ls.subrange(i + 1, j)); let a = before.len() as int;
            lemma_concat_split(ls, j);
            lemma_concat_split(ls.take(j), i + 1);
            assert(ls.take(j).take(i + 1) =~= ls.take(i + 1));
            assert(ls.take(j).skip(i + 1) =~= ls.subrange(i + 1, j));
            assert(s == (before + code) + concat(ls.skip(j)));
            assert(s.take(a) =~= before);
            assert(s.subrange(a, a + code.len()) =~= code);
            assert(ls.take(i + 1).last() == ls[i]);
            assert(piece_ok(ls[i], '\n', i + 1 == ls.len()));
            assert(before.last() == ls[i].last());
            assert(before == concat(ls.take(i + 1).drop_last()) + ls[i]);
            assert(s[a - 1] == before.last());
            assert(chunks_from(ls, i)[0] == (code, off(ls, i + 1)));
            assert(chunk_at(concat(ls), chunks_from(ls, i)[m].0, chunks_from(ls, i)[m].1, a));
        }
    }
}
/// a place in a chunk is a place in the file
pub proof fn lemma_chunk_place(content: Seq<char>, code: Seq<char>, start: int, p: SuppressionInsertPoint, q: SuppressionInsertPoint)
    requires
        exists|a: int| #[trigger] chunk_at(content, code, start, a), some_place(code, p), q.offset == p.offset + start, q.line == p.line + lines_before(content, start), q.indent@ == p.indent@, q.needs_leading_newline == p.needs_leading_newline,
    ensures some_place(content, q),
{
    let a = choose|a: int| #[trigger] chunk_at(content, code, start, a);
    let k = choose|k: int| #[trigger] place(code, k, p);
    let k2 = a + k;
    assert(content.take(k2) =~= content.take(a) + code.take(k));
    lemma_encode_concat(content.take(a), code.take(k));
    if line_start(code, k) && k > 0 { assert(code[k - 1] == content[k2 - 1]); }
    lemma_bo(content, 0, a); lemma_bo(content, 0, k2); lemma_bo(code, 0, k);
    assert(content.subrange(0, a) =~= content.take(a)); assert(content.subrange(0, k2) =~= content.take(k2)); assert(code.subrange(0, k) =~= code.take(k));
    lemma_count(content.take(a), code.take(k), '\n');
    assert(place(content, k2, q));
}
pub proof fn lemma_count(a: Seq<char>, b: Seq<char>, c: char)
    ensures count_of(a + b, c) == count_of(a, c) + count_of(b, c),
    decreases b.len(),
{ if b.len() > 0 { lemma_count(a, b.drop_last(), c); assert((a + b).drop_last() =~= a + b.drop_last()); } else { assert(a + b =~= a); } }
/// the diagnostic lies in chunk c
pub open spec fn in_chunk(c: (Seq<char>, int), start: int, end: int) -> bool { c.1 <= start <= c.1 + encode_utf8(c.0).len() && found_at(c.0, start - c.1, end - c.1) }
/// the diagnostic lies in a chunk, and in no other
pub open spec fn found_in_chunk(cs: Seq<(Seq<char>, int)>, start: int, end: int) -> bool {
    &&& exists|i: int| 0 <= i < cs.len() && in_chunk(#[trigger] cs[i], start, end)
    &&& forall|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).1 <= start <= cs[i].1 + encode_utf8(cs[i].0).len() ==> in_chunk(cs[i], start, end)
}
/// a good place in one of the chunks
pub open spec fn good_in_chunk(cs: Seq<(Seq<char>, int)>, o: int) -> bool {
    exists|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).1 <= o <= cs[i].1 + encode_utf8(cs[i].0).len() && (parses(cs[i].0) ==> !inside(cs[i].0, o - cs[i].1))
}
/// there are no more newlines than bytes
pub proof fn lemma_lines(s: Seq<char>, o: int)
    requires 0 <= o <= encode_utf8(s).len(), whole(s, o),
    ensures lines_before(s, o) <= o,
{
    let k = choose|k: int| #[trigger] at_char(s, o, k);
    lemma_bo(s, 0, k); assert(s.subrange(0, k) =~= s.take(k));
    lemma_count_len(s.take(k)); 
}
pub proof fn lemma_count_len(t: Seq<char>)
    ensures count_of(t, '\n') <= encode_utf8(t).len(),
    decreases t.len(),
{
    if t.len() > 0 {
        lemma_count_len(t.drop_last()); lemma_encode_concat(t.drop_last(), seq![t.last()]); lemma_char_len(t.last());
        assert(t =~= t.drop_last() + seq![t.last()]);
    }
}
//@fn crates/jarl-core/src/suppression_edit.rs create_suppression_edit_in_rmd
//@subst `crate::rmd::extract_r_chunks` => `extract_r_chunks`
//@subst `.matches('\n').count()` => `.vx_count_of('\n')`
//@ret r
//@noexit
//@contract
    requires forall|cs: Seq<(Seq<char>, int)>| #[trigger] chunks_of(file_content@, cs) ==> found_in_chunk(cs, diagnostic_start as int, diagnostic_end as int),
    ensures
        r is Some, some_place(file_content@, r->0.insert_point), edit_for(r->0, rule_name@, explanation@),
        exists|cs: Seq<(Seq<char>, int)>| #[trigger] chunks_of(file_content@, cs) && good_in_chunk(cs, r->0.insert_point.offset as int),
//@at after let comment_text
    proof {
        assert(views([rule_name]@) =~= seq![rule_name@]);
        lemma_chunk_place(file_content@, chunk.code@, chunk.start_byte as int, p0, insert_point);
        assert(cs[n].1 <= insert_point.offset <= cs[n].1 + encode_utf8(cs[n].0).len());
    }
//@at before `insert_point.offset +=`
    let ghost p0 = insert_point;
    proof {
        let k = choose|k: int| #[trigger] place(chunk.code@, k, p0);
        lemma_bo(chunk.code@, 0, k);
        lemma_bo(file_content@, 0, a); encode_utf8_valid_utf8(file_content@);
        assert(at_char(chunk.code@, p0.offset as int, k));
        lemma_lines(chunk.code@, p0.offset as int);
        lemma_lines(file_content@, chunk.start_byte as int);
    }
//@loop 0 it
    invariant
        chunks_of(file_content@, cviews(chunks@)),
        found_in_chunk(cviews(chunks@), diagnostic_start as int, diagnostic_end as int),
        forall|i: int| 0 <= i < chunks@.len() ==> verbatim(file_content@, #[trigger] cviews(chunks@)[i]),
        it.seq().len() == chunks@.len(), forall|i: int| 0 <= i < chunks@.len() ==> *#[trigger] it.seq()[i] == chunks@[i],
        forall|i: int| 0 <= i < it.index() ==> !((#[trigger] cviews(chunks@)[i]).1 <= diagnostic_start <= cviews(chunks@)[i].1 + encode_utf8(cviews(chunks@)[i].0).len()),
//@at loop 0 start
    let ghost cs = cviews(chunks@);
    let ghost n = it.index() as int;
    proof {
        assert(cs[n] == (chunk.code@, chunk.start_byte as int));
        assert(verbatim(file_content@, cs[n]));
        assert(file_content.spec_bytes().len() <= isize::MAX);
        let ls = choose|ls: Seq<Seq<char>>| #[trigger] is_split_inclusive(file_content@, '\n', ls) && cs == chunks_from(ls, 0);
        lemma_chunk_at(ls, 0, n);
    }
    let ghost a = choose|a: int| #[trigger] chunk_at(file_content@, chunk.code@, chunk.start_byte as int, a);
//@end

