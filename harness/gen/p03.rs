// the code of /repo that checks files, with stand-ins for what is done to one file
#![allow(dead_code, unused)]
use crate::config::Config;
use crate::vcs::check_version_control;
use crate::world3::*;
use anyhow::{Context, Result};
use std::path::{Path, PathBuf};
use std::sync::Arc;
//@real crates/jarl-core/src/check.rs fn check
//@helpers crates/jarl-core/src/check.rs check_path lint_only lint_fix get_checks get_checks_rmd
