//@item crates/jarl-core/src/directive.rs enum LintDirective
//@item crates/jarl-core/src/directive.rs enum DirectiveParseResult
//@item crates/jarl-core/src/directive.rs enum RuleParseResult

// ---- what the text of a comment means ----
pub open spec fn before_colon(t: Seq<char>) -> Seq<char> { match find(t, ':') { Some(k) => t.take(k), None => t } }
/// `<rule>: <reason>`: the name is what precedes the first colon, the reason what follows it (blanks around them do not count)
pub open spec fn reasoned(t: Seq<char>) -> RuleParseResult {
    let name = trim(before_colon(t));
    if name.len() == 0 { RuleParseResult::Invalid }
    else if rule_named(name) is None { RuleParseResult::InvalidRuleName }
    else if find(t, ':') is None || trim(t.skip(find(t, ':')->0 + 1)).len() == 0 { RuleParseResult::MissingExplanation }
    else { RuleParseResult::Valid(rule_named(name)->0) }
}
pub open spec fn directive_for(p: RuleParseResult, d: spec_fn(Rule) -> LintDirective) -> Option<DirectiveParseResult> {
    match p {
        RuleParseResult::Valid(r) => Some(DirectiveParseResult::Valid(d(r))),
        RuleParseResult::MissingExplanation => Some(DirectiveParseResult::MissingExplanation),
        RuleParseResult::InvalidRuleName => Some(DirectiveParseResult::InvalidRuleName),
        RuleParseResult::Invalid => None,
    }
}
/// text after the comment prefix, and whether the prefix is Quarto's "#| "
pub open spec fn body(t: Seq<char>) -> Option<(Seq<char>, bool)> {
    if has_prefix(t, "#| "@) { Some((t.skip(3), true)) }
    else if has_prefix(t, "# "@) { Some((t.skip(2), false)) }
    else if has_prefix(t, "#"@) { Some((t.skip(1), false)) }
    else { None }
}
pub open spec fn is_word(rest: Seq<char>, w: Seq<char>) -> bool { has_prefix(rest, w) }
/// what follows "jarl-ignore"
pub open spec fn after_word(rest: Seq<char>, pipe: bool) -> Option<DirectiveParseResult> {
    if has_prefix(rest, "-chunk "@) {
        if has_prefix(rest.skip(7), ":"@) { Some(DirectiveParseResult::BlanketSuppression) } else { directive_for(reasoned(rest.skip(7)), |r| LintDirective::IgnoreChunk(r)) }
    } else if rest == "-chunk"@ || has_prefix(rest, "-chunk:"@) { Some(DirectiveParseResult::BlanketSuppression) }
    else if pipe { None }
    else if has_prefix(rest, "-file "@) { directive_for(reasoned(rest.skip(6)), |r| LintDirective::IgnoreFile(r)) }
    else if has_prefix(rest, "-start "@) { directive_for(reasoned(rest.skip(7)), |r| LintDirective::IgnoreStart(r)) }
    else if has_prefix(rest, "-end "@) {
        let name = trim(before_colon(rest.skip(5)));
        if name.len() == 0 { None } else if rule_named(name) is None { Some(DirectiveParseResult::InvalidRuleName) } else { Some(DirectiveParseResult::Valid(LintDirective::IgnoreEnd(rule_named(name)->0))) }
    }
    else if has_prefix(rest, " "@) {
        if has_prefix(rest.skip(1), ":"@) { Some(DirectiveParseResult::BlanketSuppression) } else { directive_for(reasoned(rest.skip(1)), |r| LintDirective::Ignore(r)) }
    }
    else if rest.len() == 0 || has_prefix(rest, ":"@) { Some(DirectiveParseResult::BlanketSuppression) }
    else { None }
}
pub open spec fn meaning(text: Seq<char>) -> Option<DirectiveParseResult> {
    match body(trim_start(text)) {
        None => None,
        Some(b) => if has_prefix(b.0, "jarl-ignore"@) { after_word(b.0.skip(11), b.1) } else { None },
    }
}
pub open spec fn array_item(text: Seq<char>) -> Option<DirectiveParseResult> {
    let t = trim(text);
    if !has_prefix(t, "#|"@) { None } else {
        let u = trim_start(t.skip(2));
        if !has_prefix(u, "-"@) { None } else {
            let v = u.skip(1);
            if v.len() == 0 || !ws(v[0]) || trim_start(v).len() == 0 { None } else { directive_for(reasoned(trim_start(v)), |r| LintDirective::IgnoreChunk(r)) }
        }
    }
}
/// the literals above
pub proof fn lemma_literals()
    ensures "#| "@ == seq!['#', '|', ' '], "# "@ == seq!['#', ' '], "#"@ == seq!['#'], "#|"@ == seq!['#', '|'], "-"@ == seq!['-'], ":"@ == seq![':'], " "@ == seq![' '],
        "jarl-ignore"@.len() == 11, "-chunk "@ == seq!['-', 'c', 'h', 'u', 'n', 'k', ' '], "-chunk:"@ == seq!['-', 'c', 'h', 'u', 'n', 'k', ':'], "-chunk"@ == seq!['-', 'c', 'h', 'u', 'n', 'k'],
        "-file "@ == seq!['-', 'f', 'i', 'l', 'e', ' '], "-start "@ == seq!['-', 's', 't', 'a', 'r', 't', ' '], "-end "@ == seq!['-', 'e', 'n', 'd', ' '],
{
    reveal_strlit("#| "); reveal_strlit("# "); reveal_strlit("#"); reveal_strlit("#|"); reveal_strlit("-"); reveal_strlit(":"); reveal_strlit(" ");
    reveal_strlit("jarl-ignore"); reveal_strlit("-chunk "); reveal_strlit("-chunk:"); reveal_strlit("-chunk"); reveal_strlit("-file "); reveal_strlit("-start "); reveal_strlit("-end ");
    assert("#| "@ =~= seq!['#', '|', ' ']); assert("# "@ =~= seq!['#', ' ']); assert("#"@ =~= seq!['#']); assert("#|"@ =~= seq!['#', '|']);
    assert("-"@ =~= seq!['-']); assert(":"@ =~= seq![':']); assert(" "@ =~= seq![' ']);
    assert("-chunk "@ =~= seq!['-', 'c', 'h', 'u', 'n', 'k', ' ']); assert("-chunk:"@ =~= seq!['-', 'c', 'h', 'u', 'n', 'k', ':']); assert("-chunk"@ =~= seq!['-', 'c', 'h', 'u', 'n', 'k']);
    assert("-file "@ =~= seq!['-', 'f', 'i', 'l', 'e', ' ']); assert("-start "@ =~= seq!['-', 's', 't', 'a', 'r', 't', ' ']); assert("-end "@ =~= seq!['-', 'e', 'n', 'd', ' ']);
}
/// the forms of the rest exclude each other: their second characters differ
pub proof fn lemma_forms(rest: Seq<char>)
    ensures
        has_prefix(rest, "-file "@) ==> rest[1] == 'f', has_prefix(rest, "-start "@) ==> rest[1] == 's', has_prefix(rest, "-end "@) ==> rest[1] == 'e',
        has_prefix(rest, "-chunk "@) ==> rest[1] == 'c' && rest.len() > 6 && rest[6] == ' ', has_prefix(rest, "-chunk:"@) ==> rest[1] == 'c' && rest[6] == ':', rest == "-chunk"@ ==> rest[1] == 'c' && rest.len() == 6,
        has_prefix(rest, " "@) ==> rest[0] == ' ', has_prefix(rest, ":"@) ==> rest[0] == ':',
        has_prefix(rest, "-file "@) || has_prefix(rest, "-start "@) || has_prefix(rest, "-end "@) || has_prefix(rest, "-chunk "@) || has_prefix(rest, "-chunk:"@) || rest == "-chunk"@ ==> rest[0] == '-',
{
    lemma_literals();
    assert(forall|p: Seq<char>, i: int| #[trigger] has_prefix(rest, p) && 0 <= i < p.len() ==> rest[i] == #[trigger] p[i]) by {
        assert forall|p: Seq<char>, i: int| #[trigger] has_prefix(rest, p) && 0 <= i < p.len() implies rest[i] == #[trigger] p[i] by { assert(rest.subrange(0, p.len() as int)[i] == rest[i]); }
    }
    assert("-file "@[1] == 'f'); assert("-start "@[1] == 's'); assert("-end "@[1] == 'e'); assert("-chunk "@[1] == 'c'); assert("-chunk "@[6] == ' '); assert("-chunk:"@[1] == 'c'); assert("-chunk:"@[6] == ':');
    assert("-chunk"@[1] == 'c'); assert(" "@[0] == ' '); assert(":"@[0] == ':'); assert("-file "@[0] == '-'); assert("-start "@[0] == '-'); assert("-end "@[0] == '-'); assert("-chunk "@[0] == '-'); assert("-chunk:"@[0] == '-'); assert("-chunk"@[0] == '-');
}

//@fn crates/jarl-core/src/directive.rs parse_rule_with_explanation
//@ret r
//@contract
    ensures r == reasoned(text@),
//@at start
    proof {
        let s = text@;
        assert(text.spec_bytes().len() <= isize::MAX);
        encode_utf8_valid_utf8(s);
        lemma_find(s, ':');
        if find(s, ':') is Some {
            let a = find(s, ':')->0;
            assert(s[a] == ':');
            lemma_bo_next(s, a);
            lemma_bo(s, 0, a);
            lemma_bo(s, a + 1, s.len() as int);
            assert(s.skip(a + 1) =~= s.subrange(a + 1, s.len() as int));
            assert(s.take(a) =~= s.subrange(0, a));
        }
    }
//@end

//@fn crates/jarl-core/src/directive.rs parse_rule_only
//@ret r
//@contract
    ensures r == (if trim(text@).len() == 0 { None } else { rule_named(trim(text@)) }),
//@end

//@methods
//@fn crates/jarl-core/src/directive.rs is_quarto_chunk_array_header
//@ret r
//@contract
    ensures r == (trim(text@) == "#| jarl-ignore-chunk:"@),
//@end

//@fn crates/jarl-core/src/directive.rs parse_quarto_chunk_array_item
//@subst `starts_with(char::is_whitespace)` => `vx_starts_ws()`
//@subst `.strip_prefix(` => `.vx_pstrip_prefix(`
//@ret r
//@contract
    ensures r == array_item(text@),
//@at start
    proof { lemma_literals(); }
//@end

//@fn crates/jarl-core/src/directive.rs parse_comment_directive
//@subst `.strip_prefix(` => `.vx_pstrip_prefix(`
//@subst `.starts_with(` => `.vx_pstarts_with(`
//@ret r
//@contract
    ensures r == meaning(text@),
//@at start
    proof { lemma_literals(); }
//@at after let rest
    proof {
        lemma_forms(rest@);
    }
//@at before let rule_part
    proof {
        let s = after_end@;
        assert(after_end.spec_bytes().len() <= isize::MAX);
        encode_utf8_valid_utf8(s);
        lemma_find(s, ':');
        if find(s, ':') is Some {
            let a = find(s, ':')->0;
            lemma_bo_next(s, a);
            lemma_bo(s, 0, a);
            assert(s.take(a) =~= s.subrange(0, a));
        }
    }
//@end
