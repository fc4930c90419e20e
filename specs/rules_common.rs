//@item crates/jarl-core/src/rule_set.rs enum Category derive=Clone,Copy,PartialEq,Eq,Structural
//@item crates/jarl-core/src/rule_set.rs enum DefaultStatus derive=Clone,Copy,PartialEq,Eq,Structural
//@item crates/jarl-core/src/rule_set.rs enum FixStatus derive=Clone,Copy,PartialEq,Eq,Structural
//@item expand:crates/jarl-core/src/rule_set.rs enum Rule derive=Clone,Copy,PartialEq,Eq,Structural
//@rules crates/jarl-core/src/rule_set.rs
//@item crates/jarl-core/src/rule_set.rs struct RuleSet
impl Rule {
//@fn expand:crates/jarl-core/src/rule_set.rs Rule::name
//@ret r
//@contract
    ensures r@ == self.d_name(),
//@end
//@fn expand:crates/jarl-core/src/rule_set.rs Rule::categories
//@ret r
//@contract
    ensures r@ =~= self.d_categories(),
//@end
//@fn expand:crates/jarl-core/src/rule_set.rs Rule::default_status
//@ret r
//@contract
    ensures r == self.d_default(),
//@end
//@fn expand:crates/jarl-core/src/rule_set.rs Rule::fix_status
//@ret r
//@contract
    ensures r == self.d_fix(),
//@end
//@fn expand:crates/jarl-core/src/rule_set.rs Rule::minimum_r_version
//@ret r
//@contract
    ensures r == self.d_min(),
//@end
//@fn expand:crates/jarl-core/src/rule_set.rs Rule::from_name
//@ret r
//@contract
    ensures match r { Some(x) => x.d_name() == name@, None => forall|x: Rule| #[trigger] x.d_name() != name@ },
//@at end
//@end
}
