// ---- what is reported for a file ----
#[verifier::external_body]
pub struct Fix { e: () }
impl Fix {
    pub uninterp spec fn nothing(&self) -> bool;
    #[verifier::external_body]
    pub fn empty() -> (r: Fix) ensures r.nothing() { unimplemented!() }
}
pub struct ViolationData { pub name: String, pub body: String, pub suggestion: Option<String> }
impl ViolationData {
//@methods
//@fn crates/jarl-core/src/diagnostic.rs ViolationData::new
//@ret r
//@contract
    ensures r.name == name, r.body == body, r.suggestion == suggestion,
//@end
}
pub struct Diagnostic { pub message: ViolationData, pub range: TextRange, pub fix: Fix }
impl Diagnostic {
    /// Diagnostic::new with a ViolationData (`message.into()` is the identity there)
    #[verifier::external_body]
    pub fn new(message: ViolationData, range: TextRange, fix: Fix) -> (r: Diagnostic) ensures r.message == message, r.range == range, r.fix == fix { unimplemented!() }
}
//@require crates/jarl-core/src/diagnostic.rs `message: message.into(), range, location: None, fix, filename: "".into(),`
pub struct Checker { pub rule_set: RuleSet, pub diagnostics: Vec<Diagnostic> }
impl Checker {
//@fn crates/jarl-core/src/checker.rs Checker::is_rule_enabled
//@ret r
//@contract
    ensures r == old(self).rule_set.has(rule), *final(self) == *old(self),
//@end
//@fn crates/jarl-core/src/checker.rs Checker::report_diagnostic
//@contract
    ensures final(self).rule_set == old(self).rule_set, final(self).diagnostics@ == (match diagnostic { Some(d) => old(self).diagnostics@.push(d), None => old(self).diagnostics@ }),
//@end
}
pub open spec fn at_file(m: Found, f: Seq<char>) -> Items { if m.dom().contains(f) { items(m[f]@) } else { Seq::empty() } }
pub trait VxOrEmpty<T> { spec fn vx_oe(&self) -> Seq<T>; fn vx_or_empty(self) -> (r: Vec<T>) ensures r@ == self.vx_oe(); }
impl<'a, T> VxOrEmpty<T> for Option<&'a Vec<T>> {
    open spec fn vx_oe(&self) -> Seq<T> { match *self { Some(v) => v@, None => Seq::empty() } }
    #[verifier::external_body]
    fn vx_or_empty(self) -> (r: Vec<T>) { unimplemented!() }
}
//@fn crates/jarl-core/src/check.rs get_checks as=vx_looked_up
//@sig fn vx_looked_up(pkg: &PackageAnalysis, file: &Path) -> (Vec<(String, TextRange, String)>, Vec<(String, TextRange, String)>)
//@from `let duplicate_assignments =`
//@upto `for expr in expressions`
//@subst `.cloned().unwrap_or_default()` => `.vx_or_empty()`
//@ret r
//@contract
    ensures items(r.0@) == at_file(pkg.duplicate_assignments.m(), file.id()), items(r.1@) == at_file(pkg.unused_functions.m(), file.id()),
//@at end
    proof {
        assert(items(duplicate_assignments@) =~= at_file(pkg.duplicate_assignments.m(), file.id()));
        assert(items(unused_functions@) =~= at_file(pkg.unused_functions.m(), file.id()));
    }
    (duplicate_assignments, unused_functions)
//@end
//@require crates/jarl-core/src/check.rs `check_document( expressions, &mut checker, &duplicate_assignments, &unused_functions, )?;`
pub open spec fn is_report(d: Diagnostic, rule: Seq<char>, i: (Seq<char>, TextRange)) -> bool { d.message.name@ == rule && d.range == i.1 && d.fix.nothing() }
/// the reports of the first n items follow the first k diagnostics
pub open spec fn told(ds: Seq<Diagnostic>, k: int, rule: Seq<char>, l: Items, n: int) -> bool { forall|i: int| 0 <= i < n ==> is_report(#[trigger] ds[k + i], rule, l[i]) }
pub open spec fn before_same(a: Seq<Diagnostic>, b: Seq<Diagnostic>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
pub open spec fn if_on(c: Checker, r: Rule, l: Seq<(String, TextRange, String)>) -> Items { if c.rule_set.has(r) { items(l) } else { Seq::empty() } }
pub proof fn lemma_told(d: Seq<Diagnostic>, e: Seq<Diagnostic>, k: int, rule: Seq<char>, l: Items, n: int)
    requires told(d, k, rule, l, n), d.len() == k + n, 0 <= k, 0 <= n, e.len() == d.len() + 1, before_same(d, e), is_report(e.last(), rule, l[n]),
    ensures told(e, k, rule, l, n + 1),
{ assert forall|i: int| 0 <= i < n + 1 implies is_report(#[trigger] e[k + i], rule, l[i]) by { if i < n { assert(e[k + i] == d[k + i]); } } }
pub proof fn lemma_told_more(d: Seq<Diagnostic>, e: Seq<Diagnostic>, k: int, rule: Seq<char>, l: Items, n: int)
    requires told(d, k, rule, l, n), before_same(d, e), 0 <= k, k + n <= d.len(),
    ensures told(e, k, rule, l, n),
{ assert forall|i: int| 0 <= i < n implies is_report(#[trigger] e[k + i], rule, l[i]) by { assert(e[k + i] == d[k + i]); } }
//@fn crates/jarl-core/src/analyze/document.rs check_document as=vx_emit_package
//@sig fn vx_emit_package(checker: &mut Checker, duplicate_assignments: &Vec<(String, TextRange, String)>, unused_functions: &Vec<(String, TextRange, String)>)
//@from `if checker.is_rule_enabled(Rule::DuplicatedFunctionDefinition)`
//@upto `checker.diagnostics = checker.suppression.filter_diagnostics`
//@subst `for (name, range, help) in duplicate_assignments {` => `for vx_a in duplicate_assignments { let (name, range, help) = vx_a;`
//@subst `for (name, range, help) in unused_functions {` => `for vx_b in unused_functions { let (name, range, help) = vx_b;`
//@contract
    ensures ({
        let a = if_on(*old(checker), Rule::DuplicatedFunctionDefinition, duplicate_assignments@); let b = if_on(*old(checker), Rule::UnusedFunction, unused_functions@);
        let k = old(checker).diagnostics@.len() as int; let ds = final(checker).diagnostics@;
        &&& final(checker).rule_set == old(checker).rule_set && ds.len() == k + a.len() + b.len() && before_same(old(checker).diagnostics@, ds)
        &&& told(ds, k, "duplicated_function_definition"@, a, a.len() as int) && told(ds, k + a.len(), "unused_function"@, b, b.len() as int)
    }),
//@at start
    let ghost o = *checker;
    let ghost k = checker.diagnostics@.len() as int;
    let ghost a = if_on(o, Rule::DuplicatedFunctionDefinition, duplicate_assignments@);
    let ghost b = if_on(o, Rule::UnusedFunction, unused_functions@);
//@loop 0 it
    invariant
        it.seq().len() == duplicate_assignments@.len(), forall|i: int| 0 <= i < duplicate_assignments@.len() ==> *(#[trigger] it.seq()[i]) == duplicate_assignments@[i],
        checker.rule_set == o.rule_set, k == o.diagnostics@.len(), a == items(duplicate_assignments@),
        checker.diagnostics@.len() == k + it.index(), before_same(o.diagnostics@, checker.diagnostics@),
        told(checker.diagnostics@, k, "duplicated_function_definition"@, a, it.index() as int),
//@at loop 0 start
    let ghost d0 = checker.diagnostics@;
    let ghost j = it.index() as int;
//@at loop 0 end
    proof { lemma_told(d0, checker.diagnostics@, k, "duplicated_function_definition"@, a, j); }
//@loop 1 it
    invariant
        it.seq().len() == unused_functions@.len(), forall|i: int| 0 <= i < unused_functions@.len() ==> *(#[trigger] it.seq()[i]) == unused_functions@[i],
        checker.rule_set == o.rule_set, k == o.diagnostics@.len(), b == items(unused_functions@),
        checker.diagnostics@.len() == k + a.len() + it.index(), before_same(o.diagnostics@, checker.diagnostics@),
        told(checker.diagnostics@, k, "duplicated_function_definition"@, a, a.len() as int),
        told(checker.diagnostics@, k + a.len(), "unused_function"@, b, it.index() as int),
//@at loop 1 start
    let ghost d1 = checker.diagnostics@;
    let ghost j = it.index() as int;
//@at loop 1 end
    proof { lemma_told(d1, checker.diagnostics@, k + a.len(), "unused_function"@, b, j); lemma_told_more(d1, checker.diagnostics@, k, "duplicated_function_definition"@, a, a.len() as int); }
//@end
