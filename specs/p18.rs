// P18: option lists with extend- variants
use vstd::prelude::*;
verus! {
mod vx {
use vstd::prelude::*;
//@include vlib.rs
//@include vlib_str.rs
//@include vlib_iter.rs
//@include vlib_set.rs
}
use vx::*;
use vstd::string::*;
broadcast use vx_axioms;
//@methods iter map cloned

// ---- what the property says ----
pub open spec fn list(v: Option<&Vec<String>>) -> ISet<Seq<char>> { texts_of(v->0@) }
/// r is the list in force
pub open spec fn resolved(base: Option<&Vec<String>>, extend: Option<&Vec<String>>, defaults: Seq<&str>, r: Result<HashSet<String>>) -> bool {
    match r {
        Ok(s) => !(base is Some && extend is Some)
            && s.texts() == (if base is Some { list(base) } else if extend is Some { texts_of(defaults).union(list(extend)) } else { texts_of(defaults) }),
        Err(_) => base is Some && extend is Some,
    }
}
/// no default is lost by extending, replacing keeps none on its own account
pub proof fn p18_extending_keeps_defaults(e: Option<&Vec<String>>, d: Seq<&str>, s: HashSet<String>)
    requires e is Some, resolved(None, e, d, Ok(s)),
    ensures texts_of(d).subset_of(s.texts()), list(e).subset_of(s.texts()),
{ }
#[verifier::external_body]
pub fn vx_to_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }

//@fn crates/jarl-core/src/rule_options/mod.rs resolve_with_extend
//@subst `anyhow::Result<HashSet<String>>` => `Result<HashSet<String>>`
//@subst `let default_set: HashSet<String> = defaults.iter().map(|s| (*s).to_string()).collect();` => `let vx_d = defaults.iter().map(|s| vx_to_string(*s)); let default_set: HashSet<String> = HashSet::from_iter(vx_d); proof { assert forall|i: int| 0 <= i < defaults@.len() implies (#[trigger] defaults@[i]).t() == vx_d@[i].t() by { } lemma_same_texts(vx_d@, defaults@); }`
//@subst `values.iter().cloned().collect()` => `{ let vx_c = values.iter().cloned(); proof { lemma_same_texts(vx_c@, values@); } HashSet::from_iter(vx_c) }`
//@subst `set.extend(values.iter().cloned())` => `let vx_c = values.iter().cloned(); proof { lemma_same_texts(vx_c@, values@); } set.extend(vx_c)`
//@closure 0 (s: &&str) -> r: String
    ensures r@ == (*s)@
//@ret r
//@contract
    ensures resolved(base, extend, defaults@, r),
//@end

// ---- each rule's options ----
pub uninterp spec fn defaults_of(rule: int) -> Seq<&'static str>;
#[verifier::external_body]
pub fn vx_defaults(rule: u32) -> (r: &'static [&'static str]) ensures r@ == defaults_of(rule as int) { unimplemented!() }
pub open spec fn o1<T>(o: Option<&T>, f: spec_fn(&T) -> Option<Vec<String>>) -> Option<Vec<String>> { match o { Some(x) => f(x), None => None } }
//@item crates/jarl-core/src/rule_options/duplicated_arguments.rs struct DuplicatedArgumentsOptions
//@item crates/jarl-core/src/rule_options/duplicated_arguments.rs struct ResolvedDuplicatedArgumentsOptions
pub open spec fn duplicated_arguments_ok(o: Option<&DuplicatedArgumentsOptions>, r: ResolvedDuplicatedArgumentsOptions) -> bool {
    resolved(match o { Some(x) => (match x.skipped_functions { Some(ref v) => Some(v), None => None }), None => None }, match o { Some(x) => (match x.extend_skipped_functions { Some(ref v) => Some(v), None => None }), None => None }, defaults_of(0), Ok(r.skipped_functions))
}
pub open spec fn duplicated_arguments_both(o: Option<&DuplicatedArgumentsOptions>) -> bool { o is Some && o->0.skipped_functions is Some && o->0.extend_skipped_functions is Some }
impl ResolvedDuplicatedArgumentsOptions {
//@fn crates/jarl-core/src/rule_options/duplicated_arguments.rs ResolvedDuplicatedArgumentsOptions::resolve
//@subst `anyhow::Result<Self>` => `Result<Self>`
//@subst `DEFAULT_SKIPPED_FUNCTIONS` => `vx_defaults(0)`
//@ret r
//@contract
    ensures match r { Ok(x) => duplicated_arguments_ok(options, x), Err(_) => duplicated_arguments_both(options) },
//@end
}
//@item crates/jarl-core/src/rule_options/implicit_assignment.rs struct ImplicitAssignmentOptions
//@item crates/jarl-core/src/rule_options/implicit_assignment.rs struct ResolvedImplicitAssignmentOptions
pub open spec fn implicit_assignment_ok(o: Option<&ImplicitAssignmentOptions>, r: ResolvedImplicitAssignmentOptions) -> bool {
    resolved(match o { Some(x) => (match x.skipped_functions { Some(ref v) => Some(v), None => None }), None => None }, match o { Some(x) => (match x.extend_skipped_functions { Some(ref v) => Some(v), None => None }), None => None }, defaults_of(1), Ok(r.skipped_functions))
}
pub open spec fn implicit_assignment_both(o: Option<&ImplicitAssignmentOptions>) -> bool { o is Some && o->0.skipped_functions is Some && o->0.extend_skipped_functions is Some }
impl ResolvedImplicitAssignmentOptions {
//@fn crates/jarl-core/src/rule_options/implicit_assignment.rs ResolvedImplicitAssignmentOptions::resolve
//@subst `anyhow::Result<Self>` => `Result<Self>`
//@subst `DEFAULT_SKIPPED_FUNCTIONS` => `vx_defaults(1)`
//@ret r
//@contract
    ensures match r { Ok(x) => implicit_assignment_ok(options, x), Err(_) => implicit_assignment_both(options) },
//@end
}
//@item crates/jarl-core/src/rule_options/undesirable_function.rs struct UndesirableFunctionOptions
//@item crates/jarl-core/src/rule_options/undesirable_function.rs struct ResolvedUndesirableFunctionOptions
pub open spec fn undesirable_function_ok(o: Option<&UndesirableFunctionOptions>, r: ResolvedUndesirableFunctionOptions) -> bool {
    resolved(match o { Some(x) => (match x.functions { Some(ref v) => Some(v), None => None }), None => None }, match o { Some(x) => (match x.extend_functions { Some(ref v) => Some(v), None => None }), None => None }, defaults_of(2), Ok(r.functions))
}
pub open spec fn undesirable_function_both(o: Option<&UndesirableFunctionOptions>) -> bool { o is Some && o->0.functions is Some && o->0.extend_functions is Some }
impl ResolvedUndesirableFunctionOptions {
//@fn crates/jarl-core/src/rule_options/undesirable_function.rs ResolvedUndesirableFunctionOptions::resolve
//@subst `anyhow::Result<Self>` => `Result<Self>`
//@subst `DEFAULT_FUNCTIONS` => `vx_defaults(2)`
//@ret r
//@contract
    ensures match r { Ok(x) => undesirable_function_ok(options, x), Err(_) => undesirable_function_both(options) },
//@end
}
//@item crates/jarl-core/src/rule_options/unreachable_code.rs struct UnreachableCodeOptions
//@item crates/jarl-core/src/rule_options/unreachable_code.rs struct ResolvedUnreachableCodeOptions
pub open spec fn unreachable_code_ok(o: Option<&UnreachableCodeOptions>, r: ResolvedUnreachableCodeOptions) -> bool {
    resolved(match o { Some(x) => (match x.stopping_functions { Some(ref v) => Some(v), None => None }), None => None }, match o { Some(x) => (match x.extend_stopping_functions { Some(ref v) => Some(v), None => None }), None => None }, defaults_of(3), Ok(r.stopping_functions))
}
pub open spec fn unreachable_code_both(o: Option<&UnreachableCodeOptions>) -> bool { o is Some && o->0.stopping_functions is Some && o->0.extend_stopping_functions is Some }
impl ResolvedUnreachableCodeOptions {
//@fn crates/jarl-core/src/rule_options/unreachable_code.rs ResolvedUnreachableCodeOptions::resolve
//@subst `anyhow::Result<Self>` => `Result<Self>`
//@subst `DEFAULT_STOPPING_FUNCTIONS` => `vx_defaults(3)`
//@ret r
//@contract
    ensures match r { Ok(x) => unreachable_code_ok(options, x), Err(_) => unreachable_code_both(options) },
//@end
}
// ---- all of them together, and from jarl.toml to the settings ----
pub enum RSyntaxKind { ASSIGN, EQUAL }
//@item crates/jarl-core/src/rule_options/assignment.rs struct AssignmentOptions
//@item crates/jarl-core/src/rule_options/assignment.rs enum AssignmentConfig
//@item crates/jarl-core/src/rule_options/assignment.rs struct ResolvedAssignmentOptions
impl ResolvedAssignmentOptions {
    #[verifier::external_body]
    pub fn resolve(options: Option<&AssignmentOptions>) -> (r: Result<Self>) { unimplemented!() }
}
//@item crates/jarl-core/src/rule_options/unused_function.rs struct UnusedFunctionOptions
//@item crates/jarl-core/src/rule_options/unused_function.rs struct ResolvedUnusedFunctionOptions
impl ResolvedUnusedFunctionOptions {
    #[verifier::external_body]
    pub fn resolve(options: Option<&UnusedFunctionOptions>) -> (r: Result<Self>) { unimplemented!() }
}
//@item crates/jarl-core/src/rule_options/mod.rs struct ResolvedRuleOptions
pub open spec fn all_ok(d: Option<&DuplicatedArgumentsOptions>, i: Option<&ImplicitAssignmentOptions>, u: Option<&UndesirableFunctionOptions>, c: Option<&UnreachableCodeOptions>, r: ResolvedRuleOptions) -> bool {
    duplicated_arguments_ok(d, r.duplicated_arguments) && implicit_assignment_ok(i, r.implicit_assignment)
    && undesirable_function_ok(u, r.undesirable_function) && unreachable_code_ok(c, r.unreachable_code)
}
pub open spec fn any_both(d: Option<&DuplicatedArgumentsOptions>, i: Option<&ImplicitAssignmentOptions>, u: Option<&UndesirableFunctionOptions>, c: Option<&UnreachableCodeOptions>) -> bool {
    duplicated_arguments_both(d) || implicit_assignment_both(i) || undesirable_function_both(u) || unreachable_code_both(c)
}
impl ResolvedRuleOptions {
//@fn crates/jarl-core/src/rule_options/mod.rs ResolvedRuleOptions::resolve
//@subst `anyhow::Result<Self>` => `Result<Self>`
//@ret r
//@contract
    ensures
        r is Ok ==> all_ok(duplicated_arguments, implicit_assignment, undesirable_function, unreachable_code, r->Ok_0),
        any_both(duplicated_arguments, implicit_assignment, undesirable_function, unreachable_code) ==> r is Err,
//@end
}
/// HashMap<String, toml::Value> of the unknown keys (TRUSTED stub: only whether it has a key matters)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { k: core::marker::PhantomData<(K, V)> }
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn vx_first(&self) -> (r: Option<&K>) { unimplemented!() }
}
pub mod toml { pub struct Value { pub x: u8 } }
pub struct Regex { pub x: u8 }
//@item crates/jarl-core/src/toml.rs struct LinterTomlOptions
#[verifier::external_body]
pub fn vx_or_default(o: Option<LinterTomlOptions>) -> (r: LinterTomlOptions)
    ensures match o { Some(x) => r == x, None => r.duplicated_arguments is None && r.implicit_assignment is None && r.undesirable_function is None && r.unreachable_code is None
        && r.select is None && r.extend_select is None && r.ignore is None && r.fixable is None && r.unfixable is None && r.include is None && r.exclude is None && r.default_exclude is None }
{ unimplemented!() }
//@item crates/jarl-core/src/toml.rs struct GlobalTomlOptions
//@item crates/jarl-core/src/toml.rs struct TomlOptions
//@item crates/jarl-core/src/settings.rs struct LinterSettings
//@item crates/jarl-core/src/settings.rs struct Settings
pub struct Path { pub x: u8 }
impl TomlOptions {
//@fn crates/jarl-core/src/toml.rs TomlOptions::into_settings
//@subst `anyhow::Result<Settings>` => `Result<Settings>`
//@subst `self.lint.unwrap_or_default()` => `vx_or_default(self.lint)`
//@subst `linter.unknown_fields.keys().next()` => `linter.unknown_fields.vx_first()`
//@subst `value.clone()` => `vx_clone_text(value)`
//@subst `opts.clone()` => `vx_clone_opts(opts)`
//@ret r
//@contract
    ensures r is Ok ==> ({
        let l = r->Ok_0.linter;
        match self.lint {
            Some(t) => all_ok(vx_ref(&t.duplicated_arguments), vx_ref(&t.implicit_assignment), vx_ref(&t.undesirable_function), vx_ref(&t.unreachable_code), l.rule_options)
                && !any_both(vx_ref(&t.duplicated_arguments), vx_ref(&t.implicit_assignment), vx_ref(&t.undesirable_function), vx_ref(&t.unreachable_code))
                && l.select == t.select && l.extend_select == t.extend_select && l.ignore == t.ignore && l.fixable == t.fixable && l.unfixable == t.unfixable
                && l.include == t.include && l.exclude == t.exclude && l.default_exclude == t.default_exclude,
            None => all_ok(None, None, None, None, l.rule_options) && l.select is None && l.extend_select is None && l.ignore is None && l.fixable is None && l.unfixable is None,
        }
    }),
//@end
}
pub open spec fn vx_ref<T>(o: &Option<T>) -> Option<&T> { match o { Some(x) => Some(x), None => None } }
#[verifier::external_body]
pub fn vx_clone_text(s: &String) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_clone_opts(s: &AssignmentOptions) -> (r: AssignmentOptions) { unimplemented!() }
}
fn main() {}
