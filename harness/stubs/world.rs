// stand-ins for the parser and the rules: what they report is set by the oracle
#![allow(dead_code, unused)]
use crate::diagnostic::*;
use crate::rule_set::{Rule, RuleSet};
use crate::rule_options::ResolvedRuleOptions;
use crate::text::*;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::path::{Path, PathBuf};
pub mod air_r_parser {
    #[derive(Default)]
    pub struct RParserOptions;
    pub struct Parse { pub text: String }
    #[derive(Clone, Debug)]
    pub struct Tree { pub text: String }
    impl Parse {
        pub fn has_error(&self) -> bool { super::WORLD.with(|w| (w.borrow().broken)(&self.text)) }
        pub fn syntax(&self) -> super::RSyntaxNode { super::RSyntaxNode { text: self.text.clone(), child: Some(Box::new(super::RSyntaxNode { text: self.text.clone(), child: None })) } }
        pub fn tree(&self) -> Tree { Tree { text: self.text.clone() } }
    }
    /// the whole of the code is one expression
    #[derive(Clone, Debug)]
    pub struct Expressions { pub text: Vec<String> }
    impl Tree { pub fn expressions(&self) -> Expressions { Expressions { text: vec![self.text.clone()] } } }
    impl IntoIterator for &Expressions { type Item = String; type IntoIter = std::vec::IntoIter<String>; fn into_iter(self) -> Self::IntoIter { self.text.clone().into_iter() } }
    pub fn parse(text: &str, _o: RParserOptions) -> Parse { Parse { text: text.to_string() } }
}
pub struct RSyntaxNode { pub text: String, pub child: Option<Box<RSyntaxNode>> }
impl RSyntaxNode { pub fn first_child(&self) -> Option<&RSyntaxNode> { self.child.as_deref() } }
impl std::fmt::Display for RSyntaxNode { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.text) } }
/// what the linter reports for a piece of code: name, range, fix (text, start, end, to_skip)
#[derive(Clone, Debug)]
pub struct Found { pub name: String, pub at: (u32, u32), pub fix: (String, usize, usize, bool) }
pub struct World {
    pub broken: fn(&str) -> bool,
    /// by code: reported for its expressions, and for the document
    pub reports: fn(&str, &RuleSet) -> (Vec<Found>, Vec<Found>),
    pub suppressions: fn(&str) -> SuppressionManager,
}
thread_local! { pub static WORLD: RefCell<World> = RefCell::new(World { broken: |_| false, reports: |_, _| (vec![], vec![]), suppressions: |_| SuppressionManager::default() }); }
#[derive(Clone, Debug)]
pub struct FileSuppression { pub rule: Rule, pub comment_range: TextRange }
#[derive(Clone, Debug, Default)]
pub struct SuppressionManager { pub code: String, pub file_suppressions: Vec<FileSuppression>, pub misplaced_file_suppressions: Vec<TextRange> }
impl SuppressionManager {
    pub fn from_node(_s: &RSyntaxNode, text: &str) -> Self { let mut m = WORLD.with(|w| (w.borrow().suppressions)(text)); m.code = text.to_string(); m }
}
pub struct Checker { pub suppression: SuppressionManager, pub rule_options: ResolvedRuleOptions, pub rule_set: RuleSet, pub minimum_r_version: Option<(u32, u32, u32)>, pub diagnostics: Vec<Diagnostic> }
impl Checker { pub fn new(suppression: SuppressionManager, rule_options: ResolvedRuleOptions) -> Self { Checker { suppression, rule_options, rule_set: RuleSet::empty(), minimum_r_version: None, diagnostics: vec![] } } }
pub fn diagnostic(f: &Found) -> Diagnostic {
    Diagnostic { message: ViolationData::new(f.name.clone(), format!("body of {}", f.name), Some("do it".into())), filename: PathBuf::new(), range: TextRange::new(TextSize(f.at.0), TextSize(f.at.1)), location: None, fix: Fix { content: f.fix.0.clone(), start: f.fix.1, end: f.fix.2, to_skip: f.fix.3 } }
}
pub fn check_expression(code: &String, c: &mut Checker) -> anyhow::Result<()> {
    let r = WORLD.with(|w| (w.borrow().reports)(code, &c.rule_set)).0;
    c.diagnostics.extend(r.iter().map(diagnostic));
    Ok(())
}
pub fn check_document(e: &air_r_parser::Expressions, c: &mut Checker, _d: &[(String, TextRange, String)], _u: &[(String, TextRange, String)]) -> anyhow::Result<()> {
    let r = WORLD.with(|w| (w.borrow().reports)(&e.text[0], &c.rule_set)).1;
    c.diagnostics.extend(r.iter().map(diagnostic));
    // what the real one reports for these
    for m in c.suppression.misplaced_file_suppressions.clone() { c.diagnostics.push(diagnostic(&Found { name: "misplaced_file_suppression".into(), at: (u32::from(m.start()), u32::from(m.end())), fix: ("".into(), 0, 0, true) })); }
    Ok(())
}
#[derive(Clone, Debug, Default)]
pub struct PackageAnalysis {
    pub duplicate_assignments: HashMap<PathBuf, Vec<(String, TextRange, String)>>,
    pub unused_functions: HashMap<PathBuf, Vec<(String, TextRange, String)>>,
}
