// P05: R chunks of Rmd/Qmd files
use vstd::prelude::*;
verus! {
mod vx {
use vstd::prelude::*;
//@include vlib.rs
//@include vlib_str.rs
}
use vx::*;
use vstd::utf8::*;
use vstd::string::*;
broadcast use vx_axioms;
//@methods split_inclusive trim

//@include chunks.rs
}
fn main() {}
