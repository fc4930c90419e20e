// P02: fixes the user did not allow
use vstd::prelude::*;
verus! {
mod vx {
use vstd::prelude::*;
//@include vlib.rs
//@include vlib_str.rs
//@include vlib_iter.rs
//@include vlib_set.rs
//@include vlib_text.rs
}
use vx::*;
use vstd::string::*;
broadcast use {vx_axioms, lemma_view_bytes};
//@include rules_common.rs
//@include cfg_common.rs
//@include cfg_settings.rs
//@include cfg_names.rs
//@include cfg_lists.rs
//@include cfg_fixable.rs
//@include cfg_args.rs

// ---- the property: rules run for fixing ----
/// may the rule be run, given the flags
pub open spec fn permitted(a: &ArgsConfig, r: Rule) -> bool {
    &&& a.fix && !a.unsafe_fixes ==> r.d_fix() != FixStatus::Unsafe
    &&& a.fix_only ==> r.d_fix() != FixStatus::None
}
pub open spec fn permitted_by(a: &ArgsConfig) -> spec_fn(Rule) -> bool { |r: Rule| permitted(a, r) }
pub open spec fn not_unsafe() -> spec_fn(Rule) -> bool { |r: Rule| r.d_fix() != FixStatus::Unsafe }
pub open spec fn has_fix() -> spec_fn(Rule) -> bool { |r: Rule| r.d_fix() != FixStatus::None }
pub open spec fn without_fix() -> spec_fn(Rule) -> bool { |r: Rule| r.d_fix() == FixStatus::None }
pub open spec fn every_rule() -> spec_fn(Rule) -> bool { |r: Rule| true }
proof fn lemma_filter_same(s: Seq<Rule>, p: spec_fn(Rule) -> bool, q: spec_fn(Rule) -> bool)
    requires forall|r: Rule| #[trigger] p(r) == q(r),
    ensures s.filter(p) == s.filter(q),
    decreases s.len(),
{
    reveal_with_fuel(Seq::filter, 2);
    if s.len() > 0 { lemma_filter_same(s.drop_last(), p, q); }
    assert(s.filter(p) =~= s.filter(q));
}
proof fn lemma_filter_all(s: Seq<Rule>, p: spec_fn(Rule) -> bool)
    requires forall|r: Rule| #[trigger] p(r),
    ensures s.filter(p) == s,
    decreases s.len(),
{
    reveal_with_fuel(Seq::filter, 2);
    if s.len() > 0 { lemma_filter_all(s.drop_last(), p); }
    assert(s.filter(p) =~= s);
}
proof fn lemma_filter_twice(s: Seq<Rule>, p: spec_fn(Rule) -> bool, q: spec_fn(Rule) -> bool, pq: spec_fn(Rule) -> bool)
    requires forall|r: Rule| #[trigger] pq(r) == (p(r) && q(r)),
    ensures s.filter(p).filter(q) == s.filter(pq),
    decreases s.len(),
{
    reveal_with_fuel(Seq::filter, 2);
    if s.len() > 0 {
        lemma_filter_twice(s.drop_last(), p, q, pq);
        let t = s.drop_last().filter(p);
        if p(s.last()) { assert(t.push(s.last()).drop_last() =~= t); assert(t.push(s.last()).filter(q) =~= if q(s.last()) { t.filter(q).push(s.last()) } else { t.filter(q) }); }
        assert(pq(s.last()) == (p(s.last()) && q(s.last())));
    }
    assert(s.filter(p).filter(q) =~= s.filter(pq));
}
/// what the filters of build_config keep
proof fn lemma_permitted(a: &ArgsConfig, s: Seq<Rule>)
    ensures s.filter(every_rule()) == s,
        ({
            let m = if a.fix && !a.unsafe_fixes { s.filter(not_unsafe()) } else { s };
            s.filter(permitted_by(a)) == (if a.fix_only { m.filter(has_fix()) } else { m })
        }),
{
    lemma_filter_all(s, every_rule());
    if a.fix && !a.unsafe_fixes {
        if a.fix_only { lemma_filter_twice(s, not_unsafe(), has_fix(), permitted_by(a)); }
        else { lemma_filter_same(s, not_unsafe(), permitted_by(a)); }
    } else if a.fix_only { lemma_filter_same(s, has_fix(), permitted_by(a)); }
    else { lemma_filter_all(s, permitted_by(a)); }
}
/// a rule run for fixing without --unsafe-fixes has no unsafe fix, also with --fix-only
proof fn p02_no_unsafe(a: &ArgsConfig, s: Seq<Rule>, r: Rule)
    requires a.fix, !a.unsafe_fixes, s.filter(permitted_by(a)).contains(r),
    ensures r.d_fix() != FixStatus::Unsafe, s.contains(r),
{ lemma_filter_has(s, permitted_by(a), r); }

impl Rule {
//@fn expand:crates/jarl-core/src/rule_set.rs Rule::has_safe_fix
//@ret r
//@contract
    ensures r == (self.d_fix() == FixStatus::Safe),
//@end
//@fn expand:crates/jarl-core/src/rule_set.rs Rule::has_unsafe_fix
//@ret r
//@contract
    ensures r == (self.d_fix() == FixStatus::Unsafe),
//@end
//@fn expand:crates/jarl-core/src/rule_set.rs Rule::has_no_fix
//@ret r
//@contract
    ensures r == (self.d_fix() == FixStatus::None),
//@end
}
#[verifier::external_body]
pub fn vx_rule_options(t: Option<&Settings>) -> (r: ResolvedRuleOptions) { unimplemented!() }
#[verifier::external_body]
pub fn parse_assignment_cli(value: &str) -> (r: Result<ResolvedAssignmentOptions>) { unimplemented!() }
//@item crates/jarl-core/src/config.rs struct Config
pub open spec fn fix_lists(t: Option<&Settings>, c: Config) -> bool {
    match t {
        None => c.fixable is None && c.unfixable.texts() == ISet::<Seq<char>>::empty(),
        Some(s) => opt_texts(c.fixable) == opt_names(given_list(s.linter.fixable)) && c.unfixable.texts() == some_names(given_list(s.linter.unfixable)),
    }
}
/// the last statements of build_config
//@methods iter ruleset
//@fn crates/jarl-core/src/config.rs build_config as=p02_build_config
//@sig fn p02_build_config(check_config: &ArgsConfig, toml_settings: Option<&Settings>, paths: Vec<PathBuf>, rules: RuleSet, minimum_r_version: Option<(u32, u32, u32)>) -> Result<Config>
//@from `let (fixable_toml, unfixable_toml)`
//@subst `.filter(` => `.vx_keep(`
//@subst `.collect::<RuleSet>()` => `.ruleset()`
//@subst `toml_settings.map(|s| s.linter.rule_options.clone()).unwrap_or_default()` => `vx_rule_options(toml_settings)`
//@closure 0 (r: &&Rule) -> b: bool
    ensures b == (r.d_fix() != FixStatus::Unsafe),
//@closure 1 (r: &&Rule) -> b: bool
    ensures b,
//@closure 2 (r: &&Rule) -> b: bool
    ensures b == (r.d_fix() != FixStatus::None),
//@ret r
//@contract
    ensures
        r is Ok ==> ({
            let c = r->Ok_0;
            &&& c.rules.rules@ == rules.rules@
            &&& c.rules_to_apply.rules@ == rules.rules@.filter(permitted_by(check_config))
            &&& c.apply_fixes == check_config.fix && c.apply_unsafe_fixes == check_config.unsafe_fixes
            &&& c.allow_dirty == check_config.allow_dirty && c.allow_no_vcs == check_config.allow_no_vcs
            &&& fix_lists(toml_settings, c)
            &&& c.paths == paths && c.minimum_r_version == minimum_r_version
        }),
//@at start
    proof { lemma_permitted(check_config, rules.rules@); }
//@end

// ---- the property: fixes carried by diagnostics ----
#[verifier::external_body]
pub struct Location { e: () }
#[verifier::external_body]
pub struct Path { e: () }
impl Path {
    pub uninterp spec fn p(&self) -> PathBuf;
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: PathBuf) ensures r == self.p() { unimplemented!() }
}
//@item crates/jarl-core/src/diagnostic.rs struct Fix
//@item crates/jarl-core/src/diagnostic.rs struct ViolationData
//@item crates/jarl-core/src/diagnostic.rs struct Diagnostic
pub open spec fn no_fix(f: Fix) -> bool { f.to_skip && f.start == 0 && f.end == 0 && f.content@ == Seq::<char>::empty() }
impl Fix {
//@fn crates/jarl-core/src/diagnostic.rs Fix::empty
//@subst `"".to_string()` => `vx_string_from("")`
//@ret r
//@contract
    ensures no_fix(r),
//@at start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@end
}
/// may a diagnostic of this name, with this fix, keep it
pub open spec fn may_fix(run: Seq<Rule>, c: &Config, name: Seq<char>, f: Fix) -> bool {
    &&& !exists|r: Rule| #[trigger] run.contains(r) && r.d_fix() == FixStatus::None && r.d_name() == name
    &&& !c.unfixable.texts().contains(name)
    &&& c.fixable is Some ==> c.fixable->0.texts().contains(name)
    &&& !f.to_skip
}
pub open spec fn allowed_fix(run: Seq<Rule>, c: &Config, f: &Path, a: Diagnostic, b: Diagnostic) -> bool {
    &&& b.message == a.message && b.range == a.range && b.location == a.location && b.filename == f.p()
    &&& if may_fix(run, c, a.message.name@, a.fix) { b.fix == a.fix } else { no_fix(b.fix) }
}
/// the rules whose names are listed
proof fn lemma_named(run: Seq<Rule>, s: Seq<&Rule>, names: Seq<String>)
    requires dr(s) == run.filter(without_fix()), names.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] names[i])@ == s[i].d_name(),
    ensures forall|x: Seq<char>| #[trigger] texts_of(names).contains(x) == (exists|r: Rule| #[trigger] run.contains(r) && r.d_fix() == FixStatus::None && r.d_name() == x),
{
    assert forall|x: Seq<char>| #[trigger] texts_of(names).contains(x) == (exists|r: Rule| #[trigger] run.contains(r) && r.d_fix() == FixStatus::None && r.d_name() == x) by {
        if texts_of(names).contains(x) {
            let i = choose|i: int| 0 <= i < names.len() && (#[trigger] names[i]).t() == x;
            assert(dr(s)[i] == *s[i]);
            lemma_filter_has(run, without_fix(), *s[i]);
            assert(run.contains(*s[i]));
        }
        if exists|r: Rule| #[trigger] run.contains(r) && r.d_fix() == FixStatus::None && r.d_name() == x {
            let r = choose|r: Rule| #[trigger] run.contains(r) && r.d_fix() == FixStatus::None && r.d_name() == x;
            lemma_filter_has(run, without_fix(), r);
            let i = choose|i: int| 0 <= i < dr(s).len() && dr(s)[i] == r;
            assert(names[i].t() == x);
        }
    }
}
/// Vec<String>::contains (TRUSTED: std)
#[verifier::external_body]
pub fn vx_has(v: &Vec<String>, x: &String) -> (r: bool) ensures r == texts_of(v@).contains(x@) { unimplemented!() }
pub struct SuppressionManager { pub x: u8 }
pub struct Checker { pub rule_set: RuleSet, pub diagnostics: Vec<Diagnostic>, pub minimum_r_version: Option<(u32, u32, u32)> }
impl Checker {
    #[verifier::external_body]
    pub fn new(s: SuppressionManager, o: ResolvedRuleOptions) -> (r: Checker) { unimplemented!() }
}
impl ResolvedRuleOptions {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) { unimplemented!() }
}
/// the statements of get_checks that say which rules run
//@fn crates/jarl-core/src/check.rs get_checks as=p02_rules_run
//@sig fn p02_rules_run(suppression: SuppressionManager, config: &Config) -> Checker
//@from `let mut checker =`
//@upto `let duplicate_assignments`
//@ret r
//@contract
    ensures r.rule_set.rules@ == config.rules_to_apply.rules@,
//@at end
    checker
//@end
/// the statements of get_checks that filter the fixes
//@methods iter map contains into_iter collect
//@fn crates/jarl-core/src/check.rs get_checks as=p02_filter_fixes
//@sig fn p02_filter_fixes(checker: Checker, file: &Path, config: &Config) -> Vec<Diagnostic>
//@from `let rules_without_fix =`
//@upto `let loc_new_lines`
//@subst `= checker.rule_set.iter().filter(` => `= { let vx_f = checker.rule_set.iter().vx_keep(`
//@subst `.map(|x| x.name().to_string()).collect::<Vec<String>>();` => `; let ghost vx_s = vx_f@; let vx_n = vx_f.map(|x| x.name().to_string()); proof { lemma_named(run, vx_s, vx_n@); } vx_n };`
//@subst `.map(|mut x| {` => `.map(|vx_x| { let mut x = vx_x;`
//@subst `rules_without_fix.contains(` => `vx_has(&rules_without_fix, `
//@subst `.collect();` => `;`
//@subst `Some(ref fixable_set) = config.fixable` => `Some(fixable_set) = &config.fixable`
//@closure 0 (x: &&Rule) -> b: bool
    ensures b == (x.d_fix() == FixStatus::None),
//@closure 1 (x: &Rule) -> s: String
    ensures s@ == x.d_name(),
//@closure 2 (vx_x: Diagnostic) -> y: Diagnostic
    ensures allowed_fix(run, config, file, vx_x, y),
//@ret r
//@contract
    ensures r@.len() == checker.diagnostics@.len(), forall|i: int| 0 <= i < r@.len() ==> allowed_fix(checker.rule_set.rules@, config, file, checker.diagnostics@[i], #[trigger] r@[i]),
//@at start
    let ghost run = checker.rule_set.rules@;
//@at end
    diagnostics
//@end
}
fn main() {}
