// from the two selections to the rules
pub open spec fn by_default() -> spec_fn(Rule) -> bool { |r: Rule| r.d_default() == DefaultStatus::Enabled }
pub open spec fn default_names() -> ISet<Seq<char>> { ISet::new(|x: Seq<char>| exists|r: Rule| #[trigger] r.d_name() == x && r.d_default() == DefaultStatus::Enabled) }
//@fn crates/jarl-core/src/lints/mod.rs all_rules_enabled_by_default
//@subst `Rule::all().iter().filter(|r| r.is_enabled_by_default())` => `let vx_f = vx_filter_by(Rule::all().iter(), Ghost(by_default()), |r| r.is_enabled_by_default()); let vx_r = vx_f`
//@subst `.collect()` => ``
//@closure 0 (r: &&Rule) -> b: bool
    ensures b == by_default()(**r),
//@closure 1 (r: &Rule) -> s: String
    ensures s@ == r.d_name(),
//@ret r
//@contract
    ensures texts_of(r@) == default_names(),
//@at end
    ;proof { assert(dr(vx_f@).len() == vx_f@.len()); lemma_texts_of_names(by_default(), vx_f@, vx_r@); assert(texts_of(vx_r@) =~= default_names()) by {
        assert forall|x: Seq<char>| texts_of(vx_r@).contains(x) == default_names().contains(x) by {
            if texts_of(vx_r@).contains(x) { let r = choose|r: Rule| #[trigger] r.d_name() == x && by_default()(r); assert(default_names().contains(x)); }
            if default_names().contains(x) { let r = choose|r: Rule| #[trigger] r.d_name() == x && r.d_default() == DefaultStatus::Enabled; assert(by_default()(r)); }
        } } }
    vx_r
//@end
/// the names in force: CLI before TOML before the defaults, plus CLI else TOML extensions, minus everything ignored
pub open spec fn first_of(a: Option<ISet<Seq<char>>>, b: Option<ISet<Seq<char>>>, d: ISet<Seq<char>>) -> ISet<Seq<char>> {
    match a { Some(x) => x, None => match b { Some(y) => y, None => d } }
}
pub open spec fn in_force(c: RuleSelection, t: RuleSelection) -> ISet<Seq<char>> {
    first_of(opt_texts(c.selected), opt_texts(t.selected), default_names())
        .union(first_of(opt_texts(c.extended), opt_texts(t.extended), ISet::empty()))
        .difference(c.ignored.texts().union(t.ignored.texts()))
}
//@fn crates/jarl-core/src/config.rs reconcile_rules
//@subst `final_selected.union(&cli_extended).cloned().collect()` => `final_selected.vx_union(&cli_extended)`
//@subst `final_selected.union(&toml_extended).cloned().collect()` => `final_selected.vx_union(&toml_extended)`
//@subst `cli_ignored.union(&toml_ignored).cloned().collect()` => `cli_ignored.vx_union(&toml_ignored)`
//@subst `final_selected.difference(&all_ignored).cloned().collect()` => `final_selected.vx_difference(&all_ignored)`
//@subst `all_rules.iter().filter(|r|` => `vx_filter_by(all_rules.iter(), Ghost(named_in(final_rule_names.texts())), |r|`
//@subst `final_rule_names.iter().any(|name| name == r.name())` => `vx_any_by(final_rule_names.iter(), Ghost(same_as(r.d_name())), |name| vx_same(name, r.name()))`
//@subst `.collect();` => `.vx_ruleset(); proof { assert(final_rule_names.texts() =~= in_force(rules_cli, rules_toml)); }`
//@closure 0 (r: &&Rule) -> b: bool
    ensures b == named_in(final_rule_names.texts())(**r),
//@closure 1 (name: &String) -> b: bool
    ensures b == same_as(r.d_name())(*name),
//@ret r
//@contract
    ensures r is Ok, r->Ok_0.rules@ == d_all().filter(named_in(in_force(rules_cli, rules_toml))),
//@at start
    broadcast use lemma_any_same;
//@end
