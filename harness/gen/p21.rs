// the end of `jarl check` as it is in /repo, with stand-ins for printing and for the types of the parsed program
#![allow(dead_code, unused, non_camel_case_types)]
use anyhow::Result;
use std::collections::*;
use std::path::PathBuf;
use std::process::ExitCode;
use std::time::Instant;
use crate::rule_set::Rule;
use crate::status::ExitStatus;
macro_rules! println { ($($t:tt)*) => {{ let _ = format!($($t)*); }} }
macro_rules! eprintln { ($($t:tt)*) => {{ let _ = format!($($t)*); }} }
macro_rules! writeln { ($w:expr, $($t:tt)*) => {{ let _ = &mut $w; let _ = format!($($t)*); Ok::<(), std::fmt::Error>(()) }} }
pub trait Colorize { fn bold(&self) -> String; fn red(&self) -> String; fn yellow(&self) -> String; fn white(&self) -> String; fn cyan(&self) -> String; fn green(&self) -> String; }
impl<T: std::fmt::Display> Colorize for T { fn bold(&self) -> String { self.to_string() } fn red(&self) -> String { self.to_string() } fn yellow(&self) -> String { self.to_string() } fn white(&self) -> String { self.to_string() } fn cyan(&self) -> String { self.to_string() } fn green(&self) -> String { self.to_string() } }
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Message { pub name: String }
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Diagnostic { pub message: Message, pub fix: bool }
impl Diagnostic { pub fn has_safe_fix(&self) -> bool { self.fix } }
#[derive(Clone, Copy)]
pub enum OutputFormat { Concise, Json, Github, Full }
pub struct ConciseEmitter; pub struct JsonEmitter; pub struct GithubEmitter; pub struct FullEmitter;
pub trait Emitter: Sized { fn emit<W>(&self, _w: &mut W, _d: &[&Diagnostic], _e: &[(String, anyhow::Error)]) -> Result<()> { Ok(()) } }
impl Emitter for ConciseEmitter {} impl Emitter for JsonEmitter {} impl Emitter for GithubEmitter {} impl Emitter for FullEmitter {}
#[derive(Default, Clone)]
pub struct UnusedFn { pub threshold_ignore: usize }
#[derive(Default, Clone)]
pub struct RuleOptions { pub unused_function: UnusedFn }
#[derive(Default, Clone)]
pub struct Linter { pub deprecated_assignment_syntax: bool, pub select: Option<Vec<String>>, pub extend_select: Option<Vec<String>>, pub ignore: Option<Vec<String>>, pub rule_options: RuleOptions }
#[derive(Default, Clone)]
pub struct Settings { pub linter: Linter }
#[derive(Clone)]
pub struct Item { pub s: Settings }
impl Item { pub fn value(&self) -> &Settings { &self.s } }
pub struct PathResolver<T> { pub i: Vec<Item>, pub p: std::marker::PhantomData<T> }
impl<T> PathResolver<T> { pub fn items(&self) -> &Vec<Item> { &self.i } }
#[derive(Clone)]
pub struct CheckCommand { pub select: String, pub extend_select: String, pub ignore: String, pub statistics: bool, pub output_format: OutputFormat, pub add_jarl_ignore: Option<String>, pub assignment: Option<String>, pub with_timing: bool }
fn print_summary(_d: &[&Diagnostic], _e: bool) {}
fn print_warnings(_w: &[String]) {}
fn print_notes(_w: &[String]) {}
fn add_jarl_ignore_comments(_d: &[(String, Vec<Diagnostic>)], _r: &str, _p: Option<PathBuf>) -> Result<ExitStatus> { Ok(ExitStatus::Success) }
//@real crates/jarl/src/statistics.rs fn print_statistics
//@real crates/jarl/src/commands/check.rs fn hide_unused_function_if_needed
//@slice crates/jarl/src/commands/check.rs check || pub fn check_tail(file_results: Vec<(String, std::result::Result<Vec<Diagnostic>, anyhow::Error>)>, args: CheckCommand, resolver: PathResolver<Settings>, check_config: CheckCommand, parent_config_path: Option<PathBuf>, start: Option<Instant>) -> Result<ExitStatus> || `let mut all_errors = Vec::new();`
//@slice crates/jarl/src/main.rs main || pub fn main_tail(vx_run: Result<ExitStatus>) -> ExitCode || `match run(args)` || `run(args)` => `vx_run`
