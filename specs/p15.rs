// P15: the rule table
use vstd::prelude::*;
verus! {
mod vx {
use vstd::prelude::*;
//@include vlib.rs
//@include vlib_str.rs
//@include vlib_iter.rs
}
use vx::*;
use vstd::string::*;
//@include rules_common.rs
//@methods contains to_vec iter copied filter collect any
//@const expand:crates/jarl-core/src/rule_set.rs ALL_RULES d_all()

// ---- the table: a name identifies its rule, every rule is listed exactly once ----
pub proof fn p15_names_identify(a: Rule, b: Rule)
    requires a.d_name() == b.d_name(),
    ensures a == b,
{
    lemma_name_index(a); lemma_name_index(b); lemma_all_index(a); lemma_all_index(b);
}
pub proof fn p15_listed_once(r: Rule)
    ensures d_all().contains(r), forall|i: int, j: int| 0 <= i < d_all().len() && 0 <= j < d_all().len() && d_all()[i] == r && d_all()[j] == r ==> i == j,
{
    lemma_all_index(r);
    assert forall|i: int, j: int| 0 <= i < d_all().len() && 0 <= j < d_all().len() && d_all()[i] == r && d_all()[j] == r implies i == j by { lemma_index_all(i); lemma_index_all(j); }
}
/// looking up a rule's name returns that rule
pub fn p15_lookup(r: Rule) -> (x: Option<Rule>)
    ensures x == Some(r),
{
    let x = Rule::from_name(r.name());
    proof { if x is Some { p15_names_identify(x->0, r); } }
    x
}

impl Rule {
//@fn expand:crates/jarl-core/src/rule_set.rs Rule::has_safe_fix
//@ret r
//@contract
    ensures r == (self.d_fix() == FixStatus::Safe),
//@end
//@fn expand:crates/jarl-core/src/rule_set.rs Rule::has_unsafe_fix
//@ret r
//@contract
    ensures r == (self.d_fix() == FixStatus::Unsafe),
//@end
//@fn expand:crates/jarl-core/src/rule_set.rs Rule::has_no_fix
//@ret r
//@contract
    ensures r == (self.d_fix() == FixStatus::None),
//@end
//@fn expand:crates/jarl-core/src/rule_set.rs Rule::is_enabled_by_default
//@ret r
//@contract
    ensures r == (self.d_default() == DefaultStatus::Enabled),
//@end
//@fn expand:crates/jarl-core/src/rule_set.rs Rule::is_disabled_by_default
//@ret r
//@contract
    ensures r == (self.d_default() == DefaultStatus::Disabled),
//@end
//@fn expand:crates/jarl-core/src/rule_set.rs Rule::has_category
//@ret r
//@contract
    ensures r == self.d_categories().contains(category),
//@end
//@fn expand:crates/jarl-core/src/rule_set.rs Rule::all
//@ret r
//@contract
    ensures r@ == d_all(),
//@end
//@fn crates/jarl-core/src/rule_set.rs Rule::by_fix_status
//@subst `impl Iterator<Item = Rule>` => `Vec<Rule>`
//@ret r
//@contract
    ensures r@ == d_all().filter(|x: Rule| x.d_fix() == status),
//@subst `ALL_RULES.iter().copied().filter(` => `let vx_a = ALL_RULES.iter().copied(); let vx_r = vx_a.filter(`
//@closure 0 (r: &Rule) -> b: bool
    ensures b == (r.d_fix() == status),
//@at end
    ;proof {
        assert(vx_a@ =~= d_all());
        let o = choose|o: Seq<Option<Rule>>| vx_r@ == #[trigger] somes(o) && o.len() == vx_a@.len() && forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i] == kept(vx_a@[i], o[i] is Some) && (o[i] is Some) == { let r = &vx_a@[i]; (r.d_fix() == status) });
        lemma_somes_filter(d_all(), o, |x: Rule| x.d_fix() == status);
    }
    vx_r
//@end
//@fn crates/jarl-core/src/rule_set.rs Rule::by_category
//@subst `impl Iterator<Item = Rule>` => `Vec<Rule>`
//@ret r
//@contract
    ensures r@ == d_all().filter(|x: Rule| x.d_categories().contains(category)),
//@subst `ALL_RULES.iter().copied().filter(` => `let vx_a = ALL_RULES.iter().copied(); let vx_r = vx_a.filter(`
//@closure 0 (r: &Rule) -> b: bool
    ensures b == r.d_categories().contains(category),
//@at end
    ;proof {
        assert(vx_a@ =~= d_all());
        let o = choose|o: Seq<Option<Rule>>| vx_r@ == #[trigger] somes(o) && o.len() == vx_a@.len() && forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i] == kept(vx_a@[i], o[i] is Some) && (o[i] is Some) == { let r = &vx_a@[i]; r.d_categories().contains(category) });
        lemma_somes_filter(d_all(), o, |x: Rule| x.d_categories().contains(category));
    }
    vx_r
//@end
//@fn crates/jarl-core/src/rule_set.rs Rule::enabled_by_default
//@subst `impl Iterator<Item = Rule>` => `Vec<Rule>`
//@ret r
//@contract
    ensures r@ == d_all().filter(|x: Rule| x.d_default() == DefaultStatus::Enabled),
//@subst `ALL_RULES.iter().copied().filter(` => `let vx_a = ALL_RULES.iter().copied(); let vx_r = vx_a.filter(`
//@closure 0 (r: &Rule) -> b: bool
    ensures b == (r.d_default() == DefaultStatus::Enabled),
//@at end
    ;proof {
        assert(vx_a@ =~= d_all());
        let o = choose|o: Seq<Option<Rule>>| vx_r@ == #[trigger] somes(o) && o.len() == vx_a@.len() && forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i] == kept(vx_a@[i], o[i] is Some) && (o[i] is Some) == { let r = &vx_a@[i]; (r.d_default() == DefaultStatus::Enabled) });
        lemma_somes_filter(d_all(), o, |x: Rule| x.d_default() == DefaultStatus::Enabled);
    }
    vx_r
//@end
//@fn crates/jarl-core/src/rule_set.rs Rule::disabled_by_default
//@subst `impl Iterator<Item = Rule>` => `Vec<Rule>`
//@ret r
//@contract
    ensures r@ == d_all().filter(|x: Rule| x.d_default() == DefaultStatus::Disabled),
//@subst `ALL_RULES.iter().copied().filter(` => `let vx_a = ALL_RULES.iter().copied(); let vx_r = vx_a.filter(`
//@closure 0 (r: &Rule) -> b: bool
    ensures b == (r.d_default() == DefaultStatus::Disabled),
//@at end
    ;proof {
        assert(vx_a@ =~= d_all());
        let o = choose|o: Seq<Option<Rule>>| vx_r@ == #[trigger] somes(o) && o.len() == vx_a@.len() && forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i] == kept(vx_a@[i], o[i] is Some) && (o[i] is Some) == { let r = &vx_a@[i]; (r.d_default() == DefaultStatus::Disabled) });
        lemma_somes_filter(d_all(), o, |x: Rule| x.d_default() == DefaultStatus::Disabled);
    }
    vx_r
//@end
}

// ---- categories ----
pub open spec fn cat_text(c: Category) -> Seq<char> {
    match c { Category::Comm => "COMM"@, Category::Corr => "CORR"@, Category::Susp => "SUSP"@, Category::Perf => "PERF"@, Category::Read => "READ"@, Category::Testthat => "TESTTHAT"@ }
}
#[verifier::external_body]
pub fn vx_message() -> (s: String) { unimplemented!() }
impl Category {
//@const crates/jarl-core/src/rule_set.rs Category::ALL seq![Category::Comm, Category::Corr, Category::Susp, Category::Perf, Category::Read, Category::Testthat]
//@fn crates/jarl-core/src/rule_set.rs Category::as_str
//@ret r
//@contract
    ensures r@ == cat_text(self),
//@end
//@fn crates/jarl-core/src/rule_set.rs Category::from_str
//@subst `Result<Self, Self::Err>` => `core::result::Result<Self, String>`
//@subst `format!("Unknown category: {}", s)` => `vx_message()`
//@ret r
//@contract
    ensures match r { Ok(c) => cat_text(c) == s@, Err(_) => forall|c: Category| #[trigger] cat_text(c) != s@ },
//@end
}
pub proof fn p15_categories(c: Category, d: Category)
    requires cat_text(c) == cat_text(d),
    ensures c == d,
{
    reveal_strlit("COMM"); reveal_strlit("CORR"); reveal_strlit("SUSP"); reveal_strlit("PERF"); reveal_strlit("READ"); reveal_strlit("TESTTHAT");
    let a = cat_text(c); let b = cat_text(d);
    assert(a.len() == b.len() && a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3]);
}
/// a category's text form parses back to it
pub fn p15_category_roundtrip(c: Category) -> (r: core::result::Result<Category, String>)
    ensures r == Ok::<Category, String>(c),
{
    let r = Category::from_str(c.as_str());
    proof { assert(cat_text(c) == cat_text(c)); if r is Ok { p15_categories(r->Ok_0, c); } }
    r
}

// ---- rule sets ----
impl RuleSet {
//@fn crates/jarl-core/src/rule_set.rs RuleSet::empty
//@ret r
//@contract
    ensures r.rules@ == Seq::<Rule>::empty(),
//@end
//@fn crates/jarl-core/src/rule_set.rs RuleSet::from_rules
//@ret r
//@contract
    ensures r.rules@ == rules@,
//@end
//@fn crates/jarl-core/src/rule_set.rs RuleSet::all
//@ret r
//@contract
    ensures r.rules@ == d_all(),
//@end
//@fn crates/jarl-core/src/rule_set.rs RuleSet::contains
//@ret r
//@contract
    ensures r == self.rules@.contains(*rule),
//@end
//@fn crates/jarl-core/src/rule_set.rs RuleSet::contains_name
//@subst `self.rules.iter().any(` => `let vx_a = self.rules.iter(); let vx_r = vx_a.any(`
//@ret r
//@contract
    ensures r == exists|i: int| 0 <= i < self.rules@.len() && (#[trigger] self.rules@[i]).d_name() == name@,
//@closure 0 (r: &Rule) -> b: bool
    ensures b == (r.d_name() == name@),
//@at end
    ;proof {
        if vx_r { let i = choose|i: int| 0 <= i < vx_a@.len() && (#[trigger] vx_a@[i]).d_name() == name@; assert(self.rules@[i].d_name() == name@); }
        else { assert forall|i: int| 0 <= i < self.rules@.len() implies (#[trigger] self.rules@[i]).d_name() != name@ by { assert(vx_a@[i].d_name() != name@); } }
    }
    vx_r
//@end
//@fn crates/jarl-core/src/rule_set.rs RuleSet::len
//@ret r
//@contract
    ensures r == self.rules@.len(),
//@end
//@fn crates/jarl-core/src/rule_set.rs RuleSet::is_empty
//@ret r
//@contract
    ensures r == (self.rules@.len() == 0),
//@end
}
}
fn main() {}
