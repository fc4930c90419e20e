//@methods contains to_vec copied filter collect any iter map trim
//@fn crates/jarl-core/src/config.rs parse_fixable_toml
//@subst `= fixable_rules.iter().map(|s| s.as_str()).collect();` => `: Vec<&str> = fixable_rules.iter().map(|s| s.as_str()); proof { lemma_views(passed_by_user@, fixable_rules@); }`
//@subst `= unfixable_rules.iter().map(|s| s.as_str()).collect();` => `: Vec<&str> = unfixable_rules.iter().map(|s| s.as_str()); proof { lemma_views(passed_by_user@, unfixable_rules@); }`
//@subst `HashSet::from_iter(all_rules.iter().filter(|r|` => `{ let vx_f = vx_filter_by(all_rules.iter(), Ghost(named_in(texts_of(expanded_rules@))), |r|`
//@subst `expanded_rules.iter().any(|name| name == r.name())` => `vx_any_by(expanded_rules.iter(), Ghost(same_as(r.d_name())), |name| vx_same(name, r.name()))`
//@subst `).map(|x| x.name().to_string()),)` => `); let vx_n = vx_f.map(|x| x.name().to_string()); proof { lemma_expanded(views(passed_by_user@), expanded_rules@); lemma_set(views(passed_by_user@), expanded_rules@, vx_f@, vx_n@); } HashSet::from_iter(vx_n) }`
//@subst `return Err(` => `proof { lemma_expanded(views(passed_by_user@), expanded_rules@); } return Err(`
//@closure 0 (s: &String) -> t: &str
    ensures t@ == s@,
//@closure 1 (r: &&Rule) -> b: bool
    ensures b == named_in(texts_of(expanded_rules@))(**r),
//@closure 2 (name: &String) -> b: bool
    ensures b == same_as(r.d_name())(*name),
//@closure 3 (x: &Rule) -> s: String
    ensures s@ == x.d_name(),
//@closure 4 (s: &String) -> t: &str
    ensures t@ == s@,
//@closure 5 (r: &&Rule) -> b: bool
    ensures b == named_in(texts_of(expanded_rules@))(**r),
//@closure 6 (name: &String) -> b: bool
    ensures b == same_as(r.d_name())(*name),
//@closure 7 (x: &Rule) -> s: String
    ensures s@ == x.d_name(),
//@ret r
//@contract
    ensures
        match toml_settings {
            None => r is Ok && r->Ok_0.0 is None && r->Ok_0.1.texts() == ISet::<Seq<char>>::empty(),
            Some(s) => r is Ok == (opt_ok(given_list(s.linter.fixable)) && opt_ok(given_list(s.linter.unfixable)))
                && (r is Ok ==> opt_texts(r->Ok_0.0) == opt_names(given_list(s.linter.fixable)) && r->Ok_0.1.texts() == some_names(given_list(s.linter.unfixable))),
        },
//@at start
    broadcast use lemma_any_same;
//@end
