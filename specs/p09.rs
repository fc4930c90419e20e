// P09: suppression directives in comments
use vstd::prelude::*;
verus! {
mod vx {
use vstd::prelude::*;
//@include vlib.rs
//@include vlib_str.rs
//@include vlib_pat.rs
}
use vx::*;
use vstd::utf8::*;
use vstd::string::*;
broadcast use {vx_axioms, lemma_view_bytes};
//@methods trim trim_start find

// ---- rules (their table is the subject of P15) ----
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Rule { e: () }
/// the rule whose name is exactly n
pub uninterp spec fn rule_named(n: Seq<char>) -> Option<Rule>;
impl Rule {
    #[verifier::external_body]
    pub fn from_name(name: &str) -> (r: Option<Rule>) ensures r == rule_named(name@) { unimplemented!() }
}
//@include directives.rs
}
fn main() {}
