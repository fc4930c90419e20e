// the command line's options as handed to the library
#![allow(dead_code, unused)]
use crate::config::ArgsConfig;
#[derive(Clone, Debug, Default)]
pub struct CheckCommand { pub files: Vec<String>, pub fix: bool, pub unsafe_fixes: bool, pub fix_only: bool, pub allow_dirty: bool, pub allow_no_vcs: bool, pub select: String, pub extend_select: String, pub ignore: String, pub with_timing: bool, pub min_r_version: Option<String>, pub assignment: Option<String>, pub no_default_exclude: bool, pub statistics: bool, pub add_jarl_ignore: Option<String> }
//@slice crates/jarl/src/commands/check.rs check || pub fn args_config(args: &CheckCommand) -> ArgsConfig || `let check_config = ArgsConfig` `let mut groups` || + `check_config`
//@else pub fn args_config(a: &CheckCommand) -> ArgsConfig { ArgsConfig { files: vec![], fix: a.fix, unsafe_fixes: a.unsafe_fixes, fix_only: a.fix_only, select: a.select.clone(), extend_select: a.extend_select.clone(), ignore: a.ignore.clone(), min_r_version: a.min_r_version.clone(), allow_dirty: a.allow_dirty, allow_no_vcs: a.allow_no_vcs, assignment: a.assignment.clone() } }
