// the code of /repo that applies fixes to a file, with stand-ins for the file system and for the linter
#![allow(dead_code, unused)]
use anyhow::{Context, Result};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use crate::world::*;
use crate::diagnostic::*;
use crate::fix::*;
//@real crates/jarl-core/src/check.rs fn lint_only
//@real crates/jarl-core/src/check.rs fn lint_fix
//@real crates/jarl-core/src/check.rs fn check_path
//@helpers crates/jarl-core/src/check.rs get_checks get_checks_rmd check
