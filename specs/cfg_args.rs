// the options of the command line as handed to the library
#[verifier::external_body]
pub struct PathBuf { e: () }
#[verifier::external_body]
pub fn vx_paths(f: &Vec<String>) -> (r: Vec<PathBuf>) { unimplemented!() }
pub struct OutputFormat { pub x: u8 }
//@item crates/jarl-core/src/config.rs struct ArgsConfig
//@item crates/jarl/src/args.rs struct CheckCommand
pub open spec fn same_text(a: Option<String>, b: Option<String>) -> bool { match a { None => b is None, Some(x) => b is Some && b->0@ == x@ } }
//@fn crates/jarl/src/commands/check.rs check as=vx_args_config
//@sig fn vx_args_config(args: &CheckCommand) -> ArgsConfig
//@from `let check_config = ArgsConfig {`
//@upto `let mut groups: HashMap`
//@subst `args.files.iter().map(|s| s.into()).collect()` => `vx_paths(&args.files)`
//@ret r
//@contract
    ensures r.fix == args.fix, r.unsafe_fixes == args.unsafe_fixes, r.fix_only == args.fix_only,
        r.select@ == args.select@, r.extend_select@ == args.extend_select@, r.ignore@ == args.ignore@,
        r.allow_dirty == args.allow_dirty, r.allow_no_vcs == args.allow_no_vcs,
        same_text(args.min_r_version, r.min_r_version),
//@at end
    check_config
//@end
