// P06: the rules that run
use vstd::prelude::*;
verus! {
mod vx {
use vstd::prelude::*;
//@include vlib.rs
//@include vlib_str.rs
//@include vlib_iter.rs
//@include vlib_set.rs
}
use vx::*;
use vstd::string::*;
broadcast use {vx_axioms, lemma_view_bytes};
//@include rules_common.rs
//@include cfg_common.rs
//@include cfg_settings.rs
//@include cfg_names.rs
//@include cfg_lists.rs
//@include cfg_parse.rs
//@include cfg_reconcile.rs
//@include cfg_args.rs

// ---- the property ----
pub open spec fn listed_in(o: Option<Seq<Seq<char>>>, r: Rule) -> bool { o is Some && listed(o->0, r) }
pub open spec fn toml_list(t: Option<&Settings>, k: int) -> Option<Seq<Seq<char>>> {
    match t { None => None, Some(s) => given_list(if k == 0 { s.linter.select } else if k == 1 { s.linter.extend_select } else { s.linter.ignore }) }
}
pub open spec fn or_else(a: Option<Seq<Seq<char>>>, b: Option<Seq<Seq<char>>>) -> Option<Seq<Seq<char>>> { if a is Some { a } else { b } }
pub open spec fn runs(a: &ArgsConfig, t: Option<&Settings>, r: Rule) -> bool {
    let sel = or_else(given(a.select@), toml_list(t, 0));
    ((match sel { Some(l) => listed(l, r), None => r.d_default() == DefaultStatus::Enabled }) || listed_in(or_else(given(a.extend_select@), toml_list(t, 1)), r))
        && !listed_in(given(a.ignore@), r) && !listed_in(toml_list(t, 2), r)
}
pub open spec fn all_lists_known(a: &ArgsConfig, t: Option<&Settings>) -> bool {
    opt_ok(given(a.select@)) && opt_ok(given(a.extend_select@)) && opt_ok(given(a.ignore@)) && opt_ok(toml_list(t, 0)) && opt_ok(toml_list(t, 1)) && opt_ok(toml_list(t, 2))
}
proof fn lemma_names_listed(l: Seq<Seq<char>>, r: Rule)
    ensures names(l).contains(r.d_name()) == listed(l, r),
{ if names(l).contains(r.d_name()) { let q = choose|q: Rule| #[trigger] q.d_name() == r.d_name() && listed(l, q); lemma_same_name(q, r); } }
proof fn lemma_default_names(r: Rule)
    ensures default_names().contains(r.d_name()) == (r.d_default() == DefaultStatus::Enabled),
{ if default_names().contains(r.d_name()) { let q = choose|q: Rule| #[trigger] q.d_name() == r.d_name() && q.d_default() == DefaultStatus::Enabled; lemma_same_name(q, r); } }
pub open spec fn that_run(a: &ArgsConfig, t: Option<&Settings>) -> spec_fn(Rule) -> bool { |r: Rule| runs(a, t, r) }
proof fn lemma_filter_same(s: Seq<Rule>, p: spec_fn(Rule) -> bool, q: spec_fn(Rule) -> bool)
    requires forall|r: Rule| #[trigger] p(r) == q(r),
    ensures s.filter(p) == s.filter(q),
    decreases s.len(),
{
    reveal_with_fuel(Seq::filter, 2);
    if s.len() > 0 { lemma_filter_same(s.drop_last(), p, q); }
    assert(s.filter(p) =~= s.filter(q));
}
proof fn lemma_property(a: &ArgsConfig, t: Option<&Settings>, c: RuleSelection, m: RuleSelection)
    requires selection_is(c, given(a.select@), given(a.extend_select@), given(a.ignore@)), selection_is(m, toml_list(t, 0), toml_list(t, 1), toml_list(t, 2)),
    ensures d_all().filter(named_in(in_force(c, m))) == d_all().filter(that_run(a, t)),
{
    let p = named_in(in_force(c, m)); let q = that_run(a, t);
    assert forall|r: Rule| #[trigger] p(r) == q(r) by {
        lemma_default_names(r);
        if given(a.select@) is Some { lemma_names_listed(given(a.select@)->0, r); }
        if given(a.extend_select@) is Some { lemma_names_listed(given(a.extend_select@)->0, r); }
        if given(a.ignore@) is Some { lemma_names_listed(given(a.ignore@)->0, r); }
        if toml_list(t, 0) is Some { lemma_names_listed(toml_list(t, 0)->0, r); }
        if toml_list(t, 1) is Some { lemma_names_listed(toml_list(t, 1)->0, r); }
        if toml_list(t, 2) is Some { lemma_names_listed(toml_list(t, 2)->0, r); }
        assert(p(r) == q(r));
    }
    lemma_filter_same(d_all(), p, q);
}
/// the first statements of build_config
//@fn crates/jarl-core/src/config.rs build_config as=p06_build_config
//@sig fn p06_build_config(check_config: &ArgsConfig, toml_settings: Option<&Settings>) -> Result<RuleSet>
//@from `let rules_cli =`
//@upto `let rules = filter_rules_by_version`
//@ret r
//@contract
    ensures
        r is Ok == all_lists_known(check_config, toml_settings),
        r is Ok ==> r->Ok_0.rules@ == d_all().filter(that_run(check_config, toml_settings)),
//@at end
    proof { lemma_property(check_config, toml_settings, rules_cli, rules_toml); }
    Ok(rules)
//@end
}
fn main() {}
