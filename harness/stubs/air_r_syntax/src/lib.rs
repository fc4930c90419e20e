//! stand-in for air_r_syntax (not available here), as far as the code under test uses it
#[allow(non_camel_case_types)]
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum RSyntaxKind { ASSIGN, EQUAL }
