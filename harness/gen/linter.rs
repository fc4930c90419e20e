// the code of /repo that gathers the diagnostics of a file
#![allow(dead_code, unused)]
use crate::config::Config;
use crate::diagnostic::*;
use crate::error::ParseError;
use crate::location::Location;
use crate::rule_set::{Rule, RuleSet};
use crate::text::*;
use crate::text::biome_rowan;
use crate::world::air_r_parser::{self, RParserOptions};
use crate::world::*;
use anyhow::{Context, Result, anyhow};
use std::collections::{HashMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::Arc;
//@real crates/jarl-core/src/utils.rs fn find_new_lines_from_content
//@real crates/jarl-core/src/utils.rs fn find_row_col
//@real crates/jarl-core/src/utils.rs fn compute_lints_location
//@helpers crates/jarl-core/src/utils.rs
//@real crates/jarl-core/src/check.rs fn get_checks
//@real crates/jarl-core/src/check.rs fn get_checks_rmd
//@helpers crates/jarl-core/src/check.rs check check_path lint_only lint_fix
