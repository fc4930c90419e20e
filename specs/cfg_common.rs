//@methods contains to_vec copied filter collect any iter
//@const expand:crates/jarl-core/src/rule_set.rs ALL_RULES d_all()
//@require crates/jarl-core/src/rule_set.rs `impl<'a> FromIterator<&'a Rule> for RuleSet { fn from_iter<I: IntoIterator<Item = &'a Rule>>(iter: I) -> Self { Self { rules: iter.into_iter().copied().collect() } } }`
impl RuleSet {
    /// RuleSet's FromIterator<&Rule> (its text is required to be the one above; std's copied/collect)
    #[verifier::external_body]
    pub fn vx_from_iter(v: Vec<&Rule>) -> (r: RuleSet) ensures r.rules@ == dr(v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: RuleSet) ensures r.rules@ == self.rules@ { unimplemented!() }
//@fn crates/jarl-core/src/rule_set.rs RuleSet::iter as=vx_iter
//@subst `impl Iterator<Item = &Rule>` => `Vec<&Rule>`
//@ret r
//@contract
    ensures dr(r@) == self.rules@, r@.len() == self.rules@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.rules@[i],
//@subst `self.rules.iter()` => `let vx_r = self.rules.iter();`
//@at end
    proof { lemma_dr(vx_r@, self.rules@); }
    vx_r
//@end
}
pub trait VxRuleSet { spec fn vx_rs(&self) -> Seq<Rule>; fn vx_ruleset(self) -> (r: RuleSet) ensures r.rules@ == self.vx_rs(); }
impl<'a> VxRuleSet for Vec<&'a Rule> { open spec fn vx_rs(&self) -> Seq<Rule> { dr(self@) } fn vx_ruleset(self) -> (r: RuleSet) { RuleSet::vx_from_iter(self) } }
