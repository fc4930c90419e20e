// the diagnostics of /repo
#![allow(dead_code, unused)]
use serde::{Deserialize, Serialize};
use std::path::PathBuf;
use std::cmp::Ordering;
use crate::location::Location;
use crate::text::*;
use crate::text::biome_rowan;
use crate::rule_set::{FixStatus, Rule};
//@real crates/jarl-core/src/diagnostic.rs struct Fix
//@real crates/jarl-core/src/diagnostic.rs impl Fix
//@real crates/jarl-core/src/diagnostic.rs trait Violation
//@real crates/jarl-core/src/diagnostic.rs struct ViolationData
//@real crates/jarl-core/src/diagnostic.rs impl ViolationData
//@real crates/jarl-core/src/diagnostic.rs struct Diagnostic
//@real crates/jarl-core/src/diagnostic.rs impl Diagnostic
