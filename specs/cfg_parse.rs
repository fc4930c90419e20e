pub open spec fn selection_is(s: RuleSelection, sel: Option<Seq<Seq<char>>>, ext: Option<Seq<Seq<char>>>, ign: Option<Seq<Seq<char>>>) -> bool {
    opt_texts(s.selected) == opt_names(sel) && opt_texts(s.extended) == opt_names(ext) && s.ignored.texts() == some_names(ign)
}
//@item crates/jarl-core/src/config.rs struct RuleSelection
//@methods contains to_vec copied filter collect any iter map trim
//@fn crates/jarl-core/src/config.rs parse_rules_cli
//@subst `.split(",").collect::<Vec<&str>>()` => `.vx_split(',')`
//@subst `HashSet::from_iter(all_rules.iter().filter(|r|` => `{ let vx_f = vx_filter_by(all_rules.iter(), Ghost(named_in(texts_of(expanded_rules@))), |r|`
//@subst `expanded_rules.iter().any(|name| name == r.name())` => `vx_any_by(expanded_rules.iter(), Ghost(same_as(r.d_name())), |name| vx_same(name, r.name()))`
//@subst `).map(|x| x.name().to_string()),)` => `); let vx_n = vx_f.map(|x| x.name().to_string()); proof { lemma_expanded(views(passed_by_user@), expanded_rules@); lemma_set(views(passed_by_user@), expanded_rules@, vx_f@, vx_n@); } HashSet::from_iter(vx_n) }`
//@subst `return Err(` => `proof { lemma_expanded(views(passed_by_user@), expanded_rules@); } return Err(`
//@closure 0 (r: &&Rule) -> b: bool
    ensures b == named_in(texts_of(expanded_rules@))(**r),
//@closure 1 (name: &String) -> b: bool
    ensures b == same_as(r.d_name())(*name),
//@closure 2 (x: &Rule) -> s: String
    ensures s@ == x.d_name(),
//@closure 3 (r: &&Rule) -> b: bool
    ensures b == named_in(texts_of(expanded_rules@))(**r),
//@closure 4 (name: &String) -> b: bool
    ensures b == same_as(r.d_name())(*name),
//@closure 5 (x: &Rule) -> s: String
    ensures s@ == x.d_name(),
//@closure 6 (r: &&Rule) -> b: bool
    ensures b == named_in(texts_of(expanded_rules@))(**r),
//@closure 7 (name: &String) -> b: bool
    ensures b == same_as(r.d_name())(*name),
//@closure 8 (x: &Rule) -> s: String
    ensures s@ == x.d_name(),
//@ret r
//@contract
    ensures r is Ok == (opt_ok(given(select@)) && opt_ok(given(extend_select@)) && opt_ok(given(ignore@))),
        r is Ok ==> selection_is(r->Ok_0, given(select@), given(extend_select@), given(ignore@)),
//@at start
    broadcast use lemma_any_same;
//@end
//@fn crates/jarl-core/src/config.rs parse_rules_toml
//@subst `= select.iter().map(|s| s.as_str()).collect();` => `: Vec<&str> = select.iter().map(|s| s.as_str()); proof { lemma_views(passed_by_user@, select@); }`
//@subst `= extend_select.iter().map(|s| s.as_str()).collect();` => `: Vec<&str> = extend_select.iter().map(|s| s.as_str()); proof { lemma_views(passed_by_user@, extend_select@); }`
//@subst `= ignore.iter().map(|s| s.as_str()).collect();` => `: Vec<&str> = ignore.iter().map(|s| s.as_str()); proof { lemma_views(passed_by_user@, ignore@); }`
//@subst `HashSet::from_iter(all_rules.iter().filter(|r|` => `{ let vx_f = vx_filter_by(all_rules.iter(), Ghost(named_in(texts_of(expanded_rules@))), |r|`
//@subst `expanded_rules.iter().any(|name| name == r.name())` => `vx_any_by(expanded_rules.iter(), Ghost(same_as(r.d_name())), |name| vx_same(name, r.name()))`
//@subst `).map(|x| x.name().to_string()),)` => `); let vx_n = vx_f.map(|x| x.name().to_string()); proof { lemma_expanded(views(passed_by_user@), expanded_rules@); lemma_set(views(passed_by_user@), expanded_rules@, vx_f@, vx_n@); } HashSet::from_iter(vx_n) }`
//@subst `return Err(` => `proof { lemma_expanded(views(passed_by_user@), expanded_rules@); } return Err(`
//@closure 0 (s: &String) -> t: &str
    ensures t@ == s@,
//@closure 1 (r: &&Rule) -> b: bool
    ensures b == named_in(texts_of(expanded_rules@))(**r),
//@closure 2 (name: &String) -> b: bool
    ensures b == same_as(r.d_name())(*name),
//@closure 3 (x: &Rule) -> s: String
    ensures s@ == x.d_name(),
//@closure 4 (s: &String) -> t: &str
    ensures t@ == s@,
//@closure 5 (r: &&Rule) -> b: bool
    ensures b == named_in(texts_of(expanded_rules@))(**r),
//@closure 6 (name: &String) -> b: bool
    ensures b == same_as(r.d_name())(*name),
//@closure 7 (x: &Rule) -> s: String
    ensures s@ == x.d_name(),
//@closure 8 (s: &String) -> t: &str
    ensures t@ == s@,
//@closure 9 (r: &&Rule) -> b: bool
    ensures b == named_in(texts_of(expanded_rules@))(**r),
//@closure 10 (name: &String) -> b: bool
    ensures b == same_as(r.d_name())(*name),
//@closure 11 (x: &Rule) -> s: String
    ensures s@ == x.d_name(),
//@ret r
//@contract
    ensures
        match toml_settings {
            None => r is Ok && selection_is(r->Ok_0, None, None, None),
            Some(s) => r is Ok == (opt_ok(given_list(s.linter.select)) && opt_ok(given_list(s.linter.extend_select)) && opt_ok(given_list(s.linter.ignore)))
                && (r is Ok ==> selection_is(r->Ok_0, given_list(s.linter.select), given_list(s.linter.extend_select), given_list(s.linter.ignore))),
        },
//@at start
    broadcast use lemma_any_same;
//@end
