// P21: the exit status of `jarl check`
use vstd::prelude::*;
verus! {
mod vx {
use vstd::prelude::*;
//@include vlib.rs
}
use vx::*;

// ---- what the code works with ----
#[verifier::external_body]
pub struct Diagnostic { e: () }
#[verifier::external_body]
pub struct PathBuf { e: () }
#[verifier::external_body]
pub struct Stdout { e: () }
#[verifier::external_body]
pub fn vx_stdout() -> (r: Stdout) { unimplemented!() }
#[verifier::external_body]
pub struct CheckCommand { e: () }
#[verifier::external_body]
pub struct Resolver { e: () }
/// a process exit code (TRUSTED: ExitCode::from keeps the number)
pub struct ExitCode { pub code: u8 }
impl ExitCode { pub fn vx_of(c: u8) -> (r: ExitCode) ensures r.code == c { ExitCode { code: c } } }
//@item crates/jarl/src/status.rs enum ExitStatus derive=Clone,Copy
pub enum OutputFormat { Concise, Json, Github, Full }
pub struct ConciseEmitter; pub struct JsonEmitter; pub struct GithubEmitter; pub struct FullEmitter;
pub trait VxEmit: Sized { fn emit(self, w: &mut Stdout, d: &Vec<&Diagnostic>, e: &Vec<(String, Error)>) -> (r: Result<()>); }
impl VxEmit for ConciseEmitter { #[verifier::external_body] fn emit(self, w: &mut Stdout, d: &Vec<&Diagnostic>, e: &Vec<(String, Error)>) -> (r: Result<()>) { unimplemented!() } }
impl VxEmit for JsonEmitter { #[verifier::external_body] fn emit(self, w: &mut Stdout, d: &Vec<&Diagnostic>, e: &Vec<(String, Error)>) -> (r: Result<()>) { unimplemented!() } }
impl VxEmit for GithubEmitter { #[verifier::external_body] fn emit(self, w: &mut Stdout, d: &Vec<&Diagnostic>, e: &Vec<(String, Error)>) -> (r: Result<()>) { unimplemented!() } }
impl VxEmit for FullEmitter { #[verifier::external_body] fn emit(self, w: &mut Stdout, d: &Vec<&Diagnostic>, e: &Vec<(String, Error)>) -> (r: Result<()>) { unimplemented!() } }
pub type Groups = Vec<(String, Vec<Diagnostic>)>;
pub open spec fn left(g: Seq<(String, Vec<Diagnostic>)>) -> bool { exists|i: int| 0 <= i < g.len() && (#[trigger] g[i]).1@.len() > 0 }
pub open spec fn no_empty_group(g: Seq<(String, Vec<Diagnostic>)>) -> bool { forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]).1@.len() > 0 }
/// all diagnostics of all groups, sorted (TRUSTED: flat_map + sort only reorder)
#[verifier::external_body]
pub fn vx_flat_sorted(g: &Groups) -> (r: Vec<&Diagnostic>) ensures (r@.len() > 0) == left(g@) { unimplemented!() }
/// `for (_, d) in g.iter_mut() { d.retain(..) }` (TRUSTED: the groups stay, each loses some diagnostics)
#[verifier::external_body]
pub fn vx_retain_each(g: &mut Groups) ensures final(g)@.len() == old(g)@.len() { unimplemented!() }
/// `g.retain(|(_, d)| !d.is_empty())` (TRUSTED: exactly the nonempty groups stay)
#[verifier::external_body]
pub fn vx_drop_empty(g: &mut Groups)
    ensures no_empty_group(final(g)@), left(final(g)@) == left(old(g)@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_some_bool() -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn vx_some_number() -> (r: usize) { unimplemented!() }

// ---- status -> process exit code ----
pub open spec fn code_of(s: ExitStatus) -> int { match s { ExitStatus::Success => 0, ExitStatus::Failure => 1, ExitStatus::Error => 255 } }
pub proof fn p21_codes_differ(a: ExitStatus, b: ExitStatus) requires code_of(a) == code_of(b) ensures a == b { }
pub struct S2C;
impl S2C {
//@fn crates/jarl/src/status.rs ExitCode::from
//@subst `-> Self` => `-> ExitCode`
//@subst `ExitCode::from(` => `ExitCode::vx_of(`
//@ret r
//@contract
    ensures r.code == code_of(status),
//@end
}

// a run that fails as a whole ends with the code of Error
//@fn crates/jarl/src/main.rs main as=main_tail
//@sig fn main(vx_run: Result<ExitStatus>) -> ExitCode
//@from `match run(args)`
//@drop `use std::io::Write;` .. `ExitStatus::Error.into()`
//@subst `run(args)` => `vx_run`
//@subst `status.into()` => `S2C::from(status)`
//@subst `ExitStatus::Error.into()` => `S2C::from(ExitStatus::Error)`
//@ret r
//@contract
    ensures r.code == (match vx_run { Ok(s) => code_of(s), Err(_) => 255 }),
//@end

//@fn crates/jarl/src/statistics.rs print_statistics
//@subst `anyhow::Result<ExitStatus>` => `Result<ExitStatus>`
//@drop `let mut hm` .. `Ok(ExitStatus::Failure)`
//@ret r
//@contract
    ensures r == Ok::<ExitStatus, Error>(if diagnostics@.len() == 0 { ExitStatus::Success } else { ExitStatus::Failure }),
//@end

// after hiding, no empty group is left
//@fn crates/jarl/src/commands/check.rs hide_unused_function_if_needed
//@sig fn hide_unused_function_if_needed(all_diagnostics: &mut Groups, explicitly_selected: bool, unused_fn_count: usize, threshold_ignore: usize) -> (bool, usize)
//@from `let hidden =`
//@subst `for (_path, diagnostics) in all_diagnostics.iter_mut() { diagnostics.retain(|d| d.message.name != "unused_function"); }` => `vx_retain_each(all_diagnostics);`
//@subst `all_diagnostics.retain(|(_path, diagnostics)| !diagnostics.is_empty())` => `vx_drop_empty(all_diagnostics)`
//@ret r
//@contract
    requires no_empty_group(old(all_diagnostics)@),
    ensures no_empty_group(final(all_diagnostics)@), !r.0 ==> final(all_diagnostics)@ == old(all_diagnostics)@,
//@end

pub open spec fn any_failed(r: Seq<(String, Result<Vec<Diagnostic>>)>) -> bool { exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).1 is Err }
pub open spec fn any_left(r: Seq<(String, Result<Vec<Diagnostic>>)>) -> bool { exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).1 is Ok && r[i].1->Ok_0@.len() > 0 }

pub proof fn lemma_step(s: Seq<(String, Result<Vec<Diagnostic>>)>, i: int)
    requires 0 <= i < s.len(),
    ensures any_failed(s.take(i + 1)) == (any_failed(s.take(i)) || s[i].1 is Err),
        any_left(s.take(i + 1)) == (any_left(s.take(i)) || (s[i].1 is Ok && s[i].1->Ok_0@.len() > 0)),
{
    let a = s.take(i); let b = s.take(i + 1);
    assert(b[i] == s[i]);
    assert forall|k: int| 0 <= k < i implies a[k] == b[k] by { }
    if any_failed(a) { let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).1 is Err; assert(b[k].1 is Err); }
    if any_left(a) { let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).1 is Ok && a[k].1->Ok_0@.len() > 0; assert(b[k].1 is Ok); }
    if any_failed(b) { let k = choose|k: int| 0 <= k < b.len() && (#[trigger] b[k]).1 is Err; if k < i { assert(a[k].1 is Err); } }
    if any_left(b) { let k = choose|k: int| 0 <= k < b.len() && (#[trigger] b[k]).1 is Ok && b[k].1->Ok_0@.len() > 0; if k < i { assert(a[k].1 is Ok); } }
}
// the results of the files are split into failures and nonempty groups
//@fn crates/jarl/src/commands/check.rs check as=check_split
//@sig fn check(file_results: Vec<(String, Result<Vec<Diagnostic>>)>) -> (Vec<(String, Error)>, Groups)
//@from `let mut all_errors = Vec::new();`
//@upto `if let Some(reason) = &args.add_jarl_ignore`
//@ret r
//@contract
    ensures
        (r.0@.len() > 0) == any_failed(file_results@),
        no_empty_group(r.1@), (r.1@.len() > 0) == any_left(file_results@),
//@loop 0 it
    invariant
        it.seq() == file_results@,
        (all_errors@.len() > 0) == any_failed(file_results@.take(it.index@)),
        no_empty_group(all_diagnostics@), (all_diagnostics@.len() > 0) == any_left(file_results@.take(it.index@)),
//@at loop 0 start
    proof { lemma_step(file_results@, it.index@); }
//@at end
    ; proof { assert(file_results@.take(file_results@.len() as int) =~= file_results@); }
    (all_errors, all_diagnostics)
//@end

// what is returned, given what is left
//@fn crates/jarl/src/commands/check.rs check as=check_status
//@sig fn check(all_errors: Vec<(String, Error)>, all_diagnostics: Groups, args_statistics: bool, args_output_format: OutputFormat, parent_config_path: Option<PathBuf>) -> Result<ExitStatus>
//@from `let mut all_diagnostics_flat`
//@drop `let is_human_format` .. `if !all_errors.is_empty() { return Ok(ExitStatus::Error); } if all_diagnostics`
//@subst `let mut all_diagnostics_flat: Vec<&Diagnostic> = all_diagnostics.iter().flat_map(|(_path, diagnostics)| diagnostics.iter()).collect();` => `let all_diagnostics_flat = vx_flat_sorted(&all_diagnostics);`
//@subst `all_diagnostics_flat.sort();` => ``
//@subst `args.statistics` => `args_statistics`
//@subst `args.output_format` => `args_output_format`
//@subst `std::io::stdout()` => `vx_stdout()`
//@ret r
//@contract
    requires no_empty_group(all_diagnostics@),
    ensures match r { Ok(s) => s == (if all_errors@.len() > 0 { ExitStatus::Error } else if left(all_diagnostics@) { ExitStatus::Failure } else { ExitStatus::Success }), Err(_) => true },
//@at start
    proof { if all_diagnostics@.len() > 0 { assert(all_diagnostics@[0].1@.len() > 0); } }
//@end
}
fn main() {}
