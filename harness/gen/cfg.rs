// lints/mod.rs as far as config.rs needs it
use crate::rule_set::Rule;
//@real crates/jarl-core/src/lints/mod.rs fn all_rules_enabled_by_default
