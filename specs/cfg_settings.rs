// jarl.toml's lists on their way into Settings (the options of single rules are the subject of P18 and left open here)
pub struct AssignmentOptions { pub operator: Option<String> }
//@item crates/jarl-core/src/rule_options/assignment.rs enum AssignmentConfig
pub struct DuplicatedArgumentsOptions { pub x: u8 }
pub struct ImplicitAssignmentOptions { pub x: u8 }
pub struct UndesirableFunctionOptions { pub x: u8 }
pub struct UnreachableCodeOptions { pub x: u8 }
pub struct UnusedFunctionOptions { pub x: u8 }
pub struct ResolvedAssignmentOptions { pub x: u8 }
pub struct ResolvedRuleOptions { pub assignment: ResolvedAssignmentOptions }
impl ResolvedRuleOptions {
    #[verifier::external_body]
    pub fn resolve(a: Option<&AssignmentOptions>, b: Option<&DuplicatedArgumentsOptions>, c: Option<&ImplicitAssignmentOptions>, d: Option<&UndesirableFunctionOptions>, e: Option<&UnreachableCodeOptions>, f: Option<&UnusedFunctionOptions>) -> (r: Result<Self>) { unimplemented!() }
}
/// HashMap<String, toml::Value> of the unknown keys (TRUSTED stub: only whether it has a key matters)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { k: core::marker::PhantomData<(K, V)> }
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn vx_first(&self) -> (r: Option<&K>) { unimplemented!() }
}
pub mod toml { pub struct Value { pub x: u8 } }
pub struct Regex { pub x: u8 }
//@item crates/jarl-core/src/toml.rs struct LinterTomlOptions
#[verifier::external_body]
pub fn vx_or_default(o: Option<LinterTomlOptions>) -> (r: LinterTomlOptions)
    ensures match o { Some(x) => r == x, None => r.select is None && r.extend_select is None && r.ignore is None && r.fixable is None && r.unfixable is None }
{ unimplemented!() }
//@item crates/jarl-core/src/toml.rs struct GlobalTomlOptions
//@item crates/jarl-core/src/toml.rs struct TomlOptions
//@item crates/jarl-core/src/settings.rs struct LinterSettings
//@item crates/jarl-core/src/settings.rs struct Settings
pub struct VxRoot { pub x: u8 }
impl TomlOptions {
//@fn crates/jarl-core/src/toml.rs TomlOptions::into_settings
//@subst `anyhow::Result<Settings>` => `Result<Settings>`
//@subst `&Path` => `&VxRoot`
//@subst `self.lint.unwrap_or_default()` => `vx_or_default(self.lint)`
//@subst `linter.unknown_fields.keys().next()` => `linter.unknown_fields.vx_first()`
//@subst `value.clone()` => `vx_clone_text(value)`
//@subst `opts.clone()` => `vx_clone_opts(opts)`
//@ret r
//@contract
    ensures r is Ok ==> ({
        let l = r->Ok_0.linter;
        match self.lint {
            Some(t) => l.select == t.select && l.extend_select == t.extend_select && l.ignore == t.ignore && l.fixable == t.fixable && l.unfixable == t.unfixable,
            None => l.select is None && l.extend_select is None && l.ignore is None && l.fixable is None && l.unfixable is None,
        }
    }),
//@end
}
#[verifier::external_body]
pub fn vx_clone_text(s: &String) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_clone_opts(s: &AssignmentOptions) -> (r: AssignmentOptions) { unimplemented!() }
