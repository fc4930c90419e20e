// the code of /repo that locates diagnostics, with stand-ins for the syntax tree
#![allow(dead_code, unused)]
use anyhow::{Result, anyhow};
use serde::{Deserialize, Serialize};
use std::path::PathBuf;
use crate::location::Location;
use crate::text::*;
//@real crates/jarl-core/src/diagnostic.rs struct Fix
//@real crates/jarl-core/src/diagnostic.rs struct ViolationData
//@real crates/jarl-core/src/diagnostic.rs struct Diagnostic
//@real crates/jarl-core/src/utils.rs fn find_new_lines_from_content
//@real crates/jarl-core/src/utils.rs fn find_row_col
//@real crates/jarl-core/src/utils.rs fn compute_lints_location
//@slice crates/jarl-core/src/check.rs get_checks || pub fn get_checks_end(contents: &str, diagnostics: Vec<Diagnostic>) -> Result<Vec<Diagnostic>> || `let loc_new_lines`
//@slice crates/jarl-core/src/check.rs get_checks_rmd || pub fn get_checks_rmd_end(contents: &str, all_diagnostics: Vec<Diagnostic>) -> Result<Vec<Diagnostic>> || `let loc_new_lines` || `crate::utils::` => ``
