//! stand-in for the crate colored (not available here): no colours
use std::fmt;
#[derive(Clone, Debug)]
pub struct ColoredString(String);
impl fmt::Display for ColoredString { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.pad(&self.0) } }
macro_rules! c { ($($n:ident)*) => { pub trait Colorize { $(fn $n(self) -> ColoredString;)* } impl Colorize for &str { $(fn $n(self) -> ColoredString { ColoredString(self.to_string()) })* } impl Colorize for ColoredString { $(fn $n(self) -> ColoredString { self })* } } }
c!(bold dimmed italic underline red yellow white cyan green blue magenta purple black bright_black bright_red bright_green bright_yellow bright_blue bright_white normal clear);
impl std::ops::Deref for ColoredString { type Target = str; fn deref(&self) -> &str { &self.0 } }
pub mod control { pub fn set_override(_b: bool) {} pub fn unset_override() {} }
