//! stand-in for air_r_syntax (not available here), as far as the code under test uses it

#![allow(dead_code, non_camel_case_types, clippy::all)]
use biome_rowan::*;
pub use biome_rowan::{TextRange, TextSize};
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u16)]
pub enum RSyntaxKind { EOF, IDENT, DOTS, DOTDOTI, INT, DOUBLE, COMPLEX, STRING, L_PAREN, R_PAREN, L_BRACK, R_BRACK, L_BRACK2, R_BRACK2, L_CURLY, R_CURLY, COMMA, SEMICOLON, NULL_KW, TRUE_KW, FALSE_KW, INF_KW, NAN_KW, NA_LOGICAL_KW, NA_INTEGER_KW, NA_DOUBLE_KW, NA_CHARACTER_KW, NA_COMPLEX_KW, IF_KW, ELSE_KW, FOR_KW, IN_KW, WHILE_KW, REPEAT_KW, FUNCTION_KW, BACKSLASH, NEXT_KW, BREAK_KW, RETURN_KW, WAT, TILDE, ASSIGN, SUPER_ASSIGN, ASSIGN_RIGHT, SUPER_ASSIGN_RIGHT, WALRUS, EQUAL, OR2, OR, AND2, AND, BANG, GREATER_THAN, GREATER_THAN_OR_EQUAL_TO, LESS_THAN, LESS_THAN_OR_EQUAL_TO, EQUAL2, NOT_EQUAL, PLUS, MINUS, MULTIPLY, DIVIDE, EXPONENTIATE, EXPONENTIATE2, COLON, COLON2, COLON3, DOLLAR, AT, PIPE, SPECIAL, R_ROOT, R_EXPRESSION_LIST, R_BRACED_EXPRESSIONS, R_PARENTHESIZED_EXPRESSION, R_BINARY_EXPRESSION, R_UNARY_EXPRESSION, R_CALL, R_CALL_ARGUMENTS, R_ARGUMENT_LIST, R_ARGUMENT, R_ARGUMENT_NAME_CLAUSE, R_SUBSET, R_SUBSET_ARGUMENTS, R_SUBSET2, R_SUBSET2_ARGUMENTS, R_IF_STATEMENT, R_ELSE_CLAUSE, R_FOR_STATEMENT, R_WHILE_STATEMENT, R_REPEAT_STATEMENT, R_FUNCTION_DEFINITION, R_PARAMETERS, R_PARAMETER_LIST, R_PARAMETER, R_PARAMETER_DEFAULT, R_NAMESPACE_EXPRESSION, R_EXTRACT_EXPRESSION, R_IDENTIFIER, R_DOTS, R_DOT_DOT_I, R_STRING_VALUE, R_INTEGER_VALUE, R_DOUBLE_VALUE, R_COMPLEX_VALUE, R_NULL_EXPRESSION, R_TRUE_EXPRESSION, R_FALSE_EXPRESSION, R_INF_EXPRESSION, R_NAN_EXPRESSION, R_NA_EXPRESSION, R_NEXT_EXPRESSION, R_BREAK_EXPRESSION, R_RETURN_EXPRESSION, R_BOGUS_EXPRESSION, LAST }
impl From<u16> for RSyntaxKind { fn from(k: u16) -> Self { assert!(k < RSyntaxKind::LAST as u16); unsafe { std::mem::transmute(k) } } }
impl From<RSyntaxKind> for u16 { fn from(k: RSyntaxKind) -> u16 { k as u16 } }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct RLanguage;
impl Language for RLanguage { type Kind = RSyntaxKind; fn is_list(k: u16) -> bool { matches!(RSyntaxKind::from(k), RSyntaxKind::R_EXPRESSION_LIST | RSyntaxKind::R_ARGUMENT_LIST | RSyntaxKind::R_PARAMETER_LIST) } }
pub type RSyntaxNode = biome_rowan::SyntaxNode<RLanguage>;
pub type RSyntaxToken = biome_rowan::SyntaxToken<RLanguage>;
pub type SyntaxToken = RSyntaxToken;
pub type RSyntaxElement = biome_rowan::SyntaxElement<RLanguage>;
fn need<T>(x: Option<T>) -> SyntaxResult<T> { x.ok_or(SyntaxError::MissingRequiredChild) }
fn node<T: AstNode<Language = RLanguage>>(s: &RSyntaxNode, k: usize) -> Option<T> { s.slot(k).and_then(|e| e.into_node()).and_then(T::cast) }
fn token(s: &RSyntaxNode, k: usize) -> Option<RSyntaxToken> { s.slot(k).and_then(|e| e.into_token()) }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RRoot { syntax: RSyntaxNode }
impl AstNode for RRoot { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_ROOT } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RRoot { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RRoot { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RRootFields { pub bom_token: Option<SyntaxToken>, pub expressions: RExpressionList, pub eof_token: SyntaxResult<SyntaxToken> }
impl RRoot { pub fn bom_token(&self) -> Option<SyntaxToken> { token(&self.syntax, 0) } pub fn expressions(&self) -> RExpressionList { node(&self.syntax, 1).unwrap() } pub fn eof_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 2)) } pub fn as_fields(&self) -> RRootFields { RRootFields { bom_token: self.bom_token(), expressions: self.expressions(), eof_token: self.eof_token() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RExpressionList { syntax: RSyntaxNode }
impl AstNode for RExpressionList { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_EXPRESSION_LIST } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RExpressionList { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RExpressionList { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
impl AstNodeList for RExpressionList { type Language = RLanguage; type Node = AnyRExpression; fn syntax_list(&self) -> &RSyntaxNode { &self.syntax } }
impl<'a> IntoIterator for &'a RExpressionList { type Item = AnyRExpression; type IntoIter = std::vec::IntoIter<AnyRExpression>; fn into_iter(self) -> Self::IntoIter { AstNodeList::iter(self) } }
impl IntoIterator for RExpressionList { type Item = AnyRExpression; type IntoIter = std::vec::IntoIter<AnyRExpression>; fn into_iter(self) -> Self::IntoIter { AstNodeList::iter(&self) } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RBracedExpressions { syntax: RSyntaxNode }
impl AstNode for RBracedExpressions { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_BRACED_EXPRESSIONS } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RBracedExpressions { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RBracedExpressions { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RBracedExpressionsFields { pub l_curly_token: SyntaxResult<SyntaxToken>, pub expressions: RExpressionList, pub r_curly_token: SyntaxResult<SyntaxToken> }
impl RBracedExpressions { pub fn l_curly_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 0)) } pub fn expressions(&self) -> RExpressionList { node(&self.syntax, 1).unwrap() } pub fn r_curly_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 2)) } pub fn as_fields(&self) -> RBracedExpressionsFields { RBracedExpressionsFields { l_curly_token: self.l_curly_token(), expressions: self.expressions(), r_curly_token: self.r_curly_token() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RParenthesizedExpression { syntax: RSyntaxNode }
impl AstNode for RParenthesizedExpression { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_PARENTHESIZED_EXPRESSION } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RParenthesizedExpression { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RParenthesizedExpression { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RParenthesizedExpressionFields { pub l_paren_token: SyntaxResult<SyntaxToken>, pub body: SyntaxResult<AnyRExpression>, pub r_paren_token: SyntaxResult<SyntaxToken> }
impl RParenthesizedExpression { pub fn l_paren_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 0)) } pub fn body(&self) -> SyntaxResult<AnyRExpression> { need(node(&self.syntax, 1)) } pub fn r_paren_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 2)) } pub fn as_fields(&self) -> RParenthesizedExpressionFields { RParenthesizedExpressionFields { l_paren_token: self.l_paren_token(), body: self.body(), r_paren_token: self.r_paren_token() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RBinaryExpression { syntax: RSyntaxNode }
impl AstNode for RBinaryExpression { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_BINARY_EXPRESSION } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RBinaryExpression { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RBinaryExpression { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RBinaryExpressionFields { pub left: SyntaxResult<AnyRExpression>, pub operator: SyntaxResult<SyntaxToken>, pub right: SyntaxResult<AnyRExpression> }
impl RBinaryExpression { pub fn left(&self) -> SyntaxResult<AnyRExpression> { need(node(&self.syntax, 0)) } pub fn operator(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 1)) } pub fn right(&self) -> SyntaxResult<AnyRExpression> { need(node(&self.syntax, 2)) } pub fn as_fields(&self) -> RBinaryExpressionFields { RBinaryExpressionFields { left: self.left(), operator: self.operator(), right: self.right() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RUnaryExpression { syntax: RSyntaxNode }
impl AstNode for RUnaryExpression { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_UNARY_EXPRESSION } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RUnaryExpression { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RUnaryExpression { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RUnaryExpressionFields { pub operator: SyntaxResult<SyntaxToken>, pub argument: SyntaxResult<AnyRExpression> }
impl RUnaryExpression { pub fn operator(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 0)) } pub fn argument(&self) -> SyntaxResult<AnyRExpression> { need(node(&self.syntax, 1)) } pub fn as_fields(&self) -> RUnaryExpressionFields { RUnaryExpressionFields { operator: self.operator(), argument: self.argument() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RCall { syntax: RSyntaxNode }
impl AstNode for RCall { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_CALL } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RCall { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RCall { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RCallFields { pub function: SyntaxResult<AnyRExpression>, pub arguments: SyntaxResult<RCallArguments> }
impl RCall { pub fn function(&self) -> SyntaxResult<AnyRExpression> { need(node(&self.syntax, 0)) } pub fn arguments(&self) -> SyntaxResult<RCallArguments> { need(node(&self.syntax, 1)) } pub fn as_fields(&self) -> RCallFields { RCallFields { function: self.function(), arguments: self.arguments() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RCallArguments { syntax: RSyntaxNode }
impl AstNode for RCallArguments { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_CALL_ARGUMENTS } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RCallArguments { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RCallArguments { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RCallArgumentsFields { pub l_paren_token: SyntaxResult<SyntaxToken>, pub items: RArgumentList, pub r_paren_token: SyntaxResult<SyntaxToken> }
impl RCallArguments { pub fn l_paren_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 0)) } pub fn items(&self) -> RArgumentList { node(&self.syntax, 1).unwrap() } pub fn r_paren_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 2)) } pub fn as_fields(&self) -> RCallArgumentsFields { RCallArgumentsFields { l_paren_token: self.l_paren_token(), items: self.items(), r_paren_token: self.r_paren_token() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RArgumentList { syntax: RSyntaxNode }
impl AstNode for RArgumentList { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_ARGUMENT_LIST } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RArgumentList { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RArgumentList { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
impl AstSeparatedList for RArgumentList { type Language = RLanguage; type Node = RArgument; fn syntax_list(&self) -> &RSyntaxNode { &self.syntax } }
impl<'a> IntoIterator for &'a RArgumentList { type Item = SyntaxResult<RArgument>; type IntoIter = std::vec::IntoIter<SyntaxResult<RArgument>>; fn into_iter(self) -> Self::IntoIter { AstSeparatedList::iter(self) } }
impl IntoIterator for RArgumentList { type Item = SyntaxResult<RArgument>; type IntoIter = std::vec::IntoIter<SyntaxResult<RArgument>>; fn into_iter(self) -> Self::IntoIter { AstSeparatedList::iter(&self) } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RArgument { syntax: RSyntaxNode }
impl AstNode for RArgument { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_ARGUMENT } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RArgument { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RArgument { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RArgumentFields { pub name_clause: Option<RArgumentNameClause>, pub value: Option<AnyRExpression> }
impl RArgument { pub fn name_clause(&self) -> Option<RArgumentNameClause> { node(&self.syntax, 0) } pub fn value(&self) -> Option<AnyRExpression> { node(&self.syntax, 1) } pub fn as_fields(&self) -> RArgumentFields { RArgumentFields { name_clause: self.name_clause(), value: self.value() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RArgumentNameClause { syntax: RSyntaxNode }
impl AstNode for RArgumentNameClause { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_ARGUMENT_NAME_CLAUSE } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RArgumentNameClause { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RArgumentNameClause { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RArgumentNameClauseFields { pub name: SyntaxResult<AnyRArgumentName>, pub eq_token: SyntaxResult<SyntaxToken> }
impl RArgumentNameClause { pub fn name(&self) -> SyntaxResult<AnyRArgumentName> { need(node(&self.syntax, 0)) } pub fn eq_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 1)) } pub fn as_fields(&self) -> RArgumentNameClauseFields { RArgumentNameClauseFields { name: self.name(), eq_token: self.eq_token() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RSubset { syntax: RSyntaxNode }
impl AstNode for RSubset { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_SUBSET } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RSubset { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RSubset { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RSubsetFields { pub function: SyntaxResult<AnyRExpression>, pub arguments: SyntaxResult<RSubsetArguments> }
impl RSubset { pub fn function(&self) -> SyntaxResult<AnyRExpression> { need(node(&self.syntax, 0)) } pub fn arguments(&self) -> SyntaxResult<RSubsetArguments> { need(node(&self.syntax, 1)) } pub fn as_fields(&self) -> RSubsetFields { RSubsetFields { function: self.function(), arguments: self.arguments() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RSubsetArguments { syntax: RSyntaxNode }
impl AstNode for RSubsetArguments { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_SUBSET_ARGUMENTS } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RSubsetArguments { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RSubsetArguments { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RSubsetArgumentsFields { pub l_brack_token: SyntaxResult<SyntaxToken>, pub items: RArgumentList, pub r_brack_token: SyntaxResult<SyntaxToken> }
impl RSubsetArguments { pub fn l_brack_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 0)) } pub fn items(&self) -> RArgumentList { node(&self.syntax, 1).unwrap() } pub fn r_brack_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 2)) } pub fn as_fields(&self) -> RSubsetArgumentsFields { RSubsetArgumentsFields { l_brack_token: self.l_brack_token(), items: self.items(), r_brack_token: self.r_brack_token() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RSubset2 { syntax: RSyntaxNode }
impl AstNode for RSubset2 { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_SUBSET2 } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RSubset2 { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RSubset2 { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RSubset2Fields { pub function: SyntaxResult<AnyRExpression>, pub arguments: SyntaxResult<RSubset2Arguments> }
impl RSubset2 { pub fn function(&self) -> SyntaxResult<AnyRExpression> { need(node(&self.syntax, 0)) } pub fn arguments(&self) -> SyntaxResult<RSubset2Arguments> { need(node(&self.syntax, 1)) } pub fn as_fields(&self) -> RSubset2Fields { RSubset2Fields { function: self.function(), arguments: self.arguments() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RSubset2Arguments { syntax: RSyntaxNode }
impl AstNode for RSubset2Arguments { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_SUBSET2_ARGUMENTS } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RSubset2Arguments { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RSubset2Arguments { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RSubset2ArgumentsFields { pub l_brack2_token: SyntaxResult<SyntaxToken>, pub items: RArgumentList, pub r_brack2_token: SyntaxResult<SyntaxToken> }
impl RSubset2Arguments { pub fn l_brack2_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 0)) } pub fn items(&self) -> RArgumentList { node(&self.syntax, 1).unwrap() } pub fn r_brack2_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 2)) } pub fn as_fields(&self) -> RSubset2ArgumentsFields { RSubset2ArgumentsFields { l_brack2_token: self.l_brack2_token(), items: self.items(), r_brack2_token: self.r_brack2_token() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RIfStatement { syntax: RSyntaxNode }
impl AstNode for RIfStatement { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_IF_STATEMENT } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RIfStatement { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RIfStatement { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RIfStatementFields { pub if_token: SyntaxResult<SyntaxToken>, pub l_paren_token: SyntaxResult<SyntaxToken>, pub condition: SyntaxResult<AnyRExpression>, pub r_paren_token: SyntaxResult<SyntaxToken>, pub consequence: SyntaxResult<AnyRExpression>, pub else_clause: Option<RElseClause> }
impl RIfStatement { pub fn if_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 0)) } pub fn l_paren_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 1)) } pub fn condition(&self) -> SyntaxResult<AnyRExpression> { need(node(&self.syntax, 2)) } pub fn r_paren_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 3)) } pub fn consequence(&self) -> SyntaxResult<AnyRExpression> { need(node(&self.syntax, 4)) } pub fn else_clause(&self) -> Option<RElseClause> { node(&self.syntax, 5) } pub fn as_fields(&self) -> RIfStatementFields { RIfStatementFields { if_token: self.if_token(), l_paren_token: self.l_paren_token(), condition: self.condition(), r_paren_token: self.r_paren_token(), consequence: self.consequence(), else_clause: self.else_clause() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RElseClause { syntax: RSyntaxNode }
impl AstNode for RElseClause { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_ELSE_CLAUSE } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RElseClause { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RElseClause { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RElseClauseFields { pub else_token: SyntaxResult<SyntaxToken>, pub alternative: SyntaxResult<AnyRExpression> }
impl RElseClause { pub fn else_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 0)) } pub fn alternative(&self) -> SyntaxResult<AnyRExpression> { need(node(&self.syntax, 1)) } pub fn as_fields(&self) -> RElseClauseFields { RElseClauseFields { else_token: self.else_token(), alternative: self.alternative() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RForStatement { syntax: RSyntaxNode }
impl AstNode for RForStatement { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_FOR_STATEMENT } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RForStatement { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RForStatement { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RForStatementFields { pub for_token: SyntaxResult<SyntaxToken>, pub l_paren_token: SyntaxResult<SyntaxToken>, pub variable: SyntaxResult<RIdentifier>, pub in_token: SyntaxResult<SyntaxToken>, pub sequence: SyntaxResult<AnyRExpression>, pub r_paren_token: SyntaxResult<SyntaxToken>, pub body: SyntaxResult<AnyRExpression> }
impl RForStatement { pub fn for_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 0)) } pub fn l_paren_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 1)) } pub fn variable(&self) -> SyntaxResult<RIdentifier> { need(node(&self.syntax, 2)) } pub fn in_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 3)) } pub fn sequence(&self) -> SyntaxResult<AnyRExpression> { need(node(&self.syntax, 4)) } pub fn r_paren_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 5)) } pub fn body(&self) -> SyntaxResult<AnyRExpression> { need(node(&self.syntax, 6)) } pub fn as_fields(&self) -> RForStatementFields { RForStatementFields { for_token: self.for_token(), l_paren_token: self.l_paren_token(), variable: self.variable(), in_token: self.in_token(), sequence: self.sequence(), r_paren_token: self.r_paren_token(), body: self.body() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RWhileStatement { syntax: RSyntaxNode }
impl AstNode for RWhileStatement { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_WHILE_STATEMENT } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RWhileStatement { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RWhileStatement { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RWhileStatementFields { pub while_token: SyntaxResult<SyntaxToken>, pub l_paren_token: SyntaxResult<SyntaxToken>, pub condition: SyntaxResult<AnyRExpression>, pub r_paren_token: SyntaxResult<SyntaxToken>, pub body: SyntaxResult<AnyRExpression> }
impl RWhileStatement { pub fn while_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 0)) } pub fn l_paren_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 1)) } pub fn condition(&self) -> SyntaxResult<AnyRExpression> { need(node(&self.syntax, 2)) } pub fn r_paren_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 3)) } pub fn body(&self) -> SyntaxResult<AnyRExpression> { need(node(&self.syntax, 4)) } pub fn as_fields(&self) -> RWhileStatementFields { RWhileStatementFields { while_token: self.while_token(), l_paren_token: self.l_paren_token(), condition: self.condition(), r_paren_token: self.r_paren_token(), body: self.body() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RRepeatStatement { syntax: RSyntaxNode }
impl AstNode for RRepeatStatement { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_REPEAT_STATEMENT } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RRepeatStatement { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RRepeatStatement { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RRepeatStatementFields { pub repeat_token: SyntaxResult<SyntaxToken>, pub body: SyntaxResult<AnyRExpression> }
impl RRepeatStatement { pub fn repeat_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 0)) } pub fn body(&self) -> SyntaxResult<AnyRExpression> { need(node(&self.syntax, 1)) } pub fn as_fields(&self) -> RRepeatStatementFields { RRepeatStatementFields { repeat_token: self.repeat_token(), body: self.body() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RFunctionDefinition { syntax: RSyntaxNode }
impl AstNode for RFunctionDefinition { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_FUNCTION_DEFINITION } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RFunctionDefinition { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RFunctionDefinition { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RFunctionDefinitionFields { pub name: SyntaxResult<SyntaxToken>, pub parameters: SyntaxResult<RParameters>, pub body: SyntaxResult<AnyRExpression> }
impl RFunctionDefinition { pub fn name(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 0)) } pub fn parameters(&self) -> SyntaxResult<RParameters> { need(node(&self.syntax, 1)) } pub fn body(&self) -> SyntaxResult<AnyRExpression> { need(node(&self.syntax, 2)) } pub fn as_fields(&self) -> RFunctionDefinitionFields { RFunctionDefinitionFields { name: self.name(), parameters: self.parameters(), body: self.body() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RParameters { syntax: RSyntaxNode }
impl AstNode for RParameters { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_PARAMETERS } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RParameters { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RParameters { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RParametersFields { pub l_paren_token: SyntaxResult<SyntaxToken>, pub items: RParameterList, pub r_paren_token: SyntaxResult<SyntaxToken> }
impl RParameters { pub fn l_paren_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 0)) } pub fn items(&self) -> RParameterList { node(&self.syntax, 1).unwrap() } pub fn r_paren_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 2)) } pub fn as_fields(&self) -> RParametersFields { RParametersFields { l_paren_token: self.l_paren_token(), items: self.items(), r_paren_token: self.r_paren_token() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RParameterList { syntax: RSyntaxNode }
impl AstNode for RParameterList { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_PARAMETER_LIST } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RParameterList { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RParameterList { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
impl AstSeparatedList for RParameterList { type Language = RLanguage; type Node = RParameter; fn syntax_list(&self) -> &RSyntaxNode { &self.syntax } }
impl<'a> IntoIterator for &'a RParameterList { type Item = SyntaxResult<RParameter>; type IntoIter = std::vec::IntoIter<SyntaxResult<RParameter>>; fn into_iter(self) -> Self::IntoIter { AstSeparatedList::iter(self) } }
impl IntoIterator for RParameterList { type Item = SyntaxResult<RParameter>; type IntoIter = std::vec::IntoIter<SyntaxResult<RParameter>>; fn into_iter(self) -> Self::IntoIter { AstSeparatedList::iter(&self) } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RParameter { syntax: RSyntaxNode }
impl AstNode for RParameter { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_PARAMETER } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RParameter { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RParameter { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RParameterFields { pub name: SyntaxResult<AnyRParameterName>, pub default: Option<RParameterDefault> }
impl RParameter { pub fn name(&self) -> SyntaxResult<AnyRParameterName> { need(node(&self.syntax, 0)) } pub fn default(&self) -> Option<RParameterDefault> { node(&self.syntax, 1) } pub fn as_fields(&self) -> RParameterFields { RParameterFields { name: self.name(), default: self.default() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RParameterDefault { syntax: RSyntaxNode }
impl AstNode for RParameterDefault { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_PARAMETER_DEFAULT } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RParameterDefault { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RParameterDefault { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RParameterDefaultFields { pub eq_token: SyntaxResult<SyntaxToken>, pub value: SyntaxResult<AnyRExpression> }
impl RParameterDefault { pub fn eq_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 0)) } pub fn value(&self) -> SyntaxResult<AnyRExpression> { need(node(&self.syntax, 1)) } pub fn as_fields(&self) -> RParameterDefaultFields { RParameterDefaultFields { eq_token: self.eq_token(), value: self.value() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RNamespaceExpression { syntax: RSyntaxNode }
impl AstNode for RNamespaceExpression { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_NAMESPACE_EXPRESSION } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RNamespaceExpression { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RNamespaceExpression { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RNamespaceExpressionFields { pub left: SyntaxResult<AnyRSelector>, pub operator: SyntaxResult<SyntaxToken>, pub right: SyntaxResult<AnyRSelector> }
impl RNamespaceExpression { pub fn left(&self) -> SyntaxResult<AnyRSelector> { need(node(&self.syntax, 0)) } pub fn operator(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 1)) } pub fn right(&self) -> SyntaxResult<AnyRSelector> { need(node(&self.syntax, 2)) } pub fn as_fields(&self) -> RNamespaceExpressionFields { RNamespaceExpressionFields { left: self.left(), operator: self.operator(), right: self.right() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RExtractExpression { syntax: RSyntaxNode }
impl AstNode for RExtractExpression { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_EXTRACT_EXPRESSION } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RExtractExpression { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RExtractExpression { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RExtractExpressionFields { pub left: SyntaxResult<AnyRExpression>, pub operator: SyntaxResult<SyntaxToken>, pub right: SyntaxResult<AnyRSelector> }
impl RExtractExpression { pub fn left(&self) -> SyntaxResult<AnyRExpression> { need(node(&self.syntax, 0)) } pub fn operator(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 1)) } pub fn right(&self) -> SyntaxResult<AnyRSelector> { need(node(&self.syntax, 2)) } pub fn as_fields(&self) -> RExtractExpressionFields { RExtractExpressionFields { left: self.left(), operator: self.operator(), right: self.right() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RIdentifier { syntax: RSyntaxNode }
impl AstNode for RIdentifier { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_IDENTIFIER } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RIdentifier { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RIdentifier { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RIdentifierFields { pub name_token: SyntaxResult<SyntaxToken> }
impl RIdentifier { pub fn name_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 0)) } pub fn as_fields(&self) -> RIdentifierFields { RIdentifierFields { name_token: self.name_token() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RDots { syntax: RSyntaxNode }
impl AstNode for RDots { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_DOTS } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RDots { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RDots { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RDotsFields { pub value_token: SyntaxResult<SyntaxToken> }
impl RDots { pub fn value_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 0)) } pub fn as_fields(&self) -> RDotsFields { RDotsFields { value_token: self.value_token() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RDotDotI { syntax: RSyntaxNode }
impl AstNode for RDotDotI { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_DOT_DOT_I } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RDotDotI { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RDotDotI { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RDotDotIFields { pub value_token: SyntaxResult<SyntaxToken> }
impl RDotDotI { pub fn value_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 0)) } pub fn as_fields(&self) -> RDotDotIFields { RDotDotIFields { value_token: self.value_token() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RStringValue { syntax: RSyntaxNode }
impl AstNode for RStringValue { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_STRING_VALUE } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RStringValue { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RStringValue { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RStringValueFields { pub value_token: SyntaxResult<SyntaxToken> }
impl RStringValue { pub fn value_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 0)) } pub fn as_fields(&self) -> RStringValueFields { RStringValueFields { value_token: self.value_token() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RIntegerValue { syntax: RSyntaxNode }
impl AstNode for RIntegerValue { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_INTEGER_VALUE } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RIntegerValue { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RIntegerValue { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RIntegerValueFields { pub value_token: SyntaxResult<SyntaxToken> }
impl RIntegerValue { pub fn value_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 0)) } pub fn as_fields(&self) -> RIntegerValueFields { RIntegerValueFields { value_token: self.value_token() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RDoubleValue { syntax: RSyntaxNode }
impl AstNode for RDoubleValue { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_DOUBLE_VALUE } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RDoubleValue { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RDoubleValue { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RDoubleValueFields { pub value_token: SyntaxResult<SyntaxToken> }
impl RDoubleValue { pub fn value_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 0)) } pub fn as_fields(&self) -> RDoubleValueFields { RDoubleValueFields { value_token: self.value_token() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RComplexValue { syntax: RSyntaxNode }
impl AstNode for RComplexValue { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_COMPLEX_VALUE } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RComplexValue { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RComplexValue { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RComplexValueFields { pub value_token: SyntaxResult<SyntaxToken> }
impl RComplexValue { pub fn value_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 0)) } pub fn as_fields(&self) -> RComplexValueFields { RComplexValueFields { value_token: self.value_token() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RNullExpression { syntax: RSyntaxNode }
impl AstNode for RNullExpression { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_NULL_EXPRESSION } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RNullExpression { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RNullExpression { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RNullExpressionFields { pub value_token: SyntaxResult<SyntaxToken> }
impl RNullExpression { pub fn value_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 0)) } pub fn as_fields(&self) -> RNullExpressionFields { RNullExpressionFields { value_token: self.value_token() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RTrueExpression { syntax: RSyntaxNode }
impl AstNode for RTrueExpression { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_TRUE_EXPRESSION } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RTrueExpression { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RTrueExpression { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RTrueExpressionFields { pub true_token: SyntaxResult<SyntaxToken> }
impl RTrueExpression { pub fn true_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 0)) } pub fn as_fields(&self) -> RTrueExpressionFields { RTrueExpressionFields { true_token: self.true_token() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RFalseExpression { syntax: RSyntaxNode }
impl AstNode for RFalseExpression { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_FALSE_EXPRESSION } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RFalseExpression { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RFalseExpression { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RFalseExpressionFields { pub false_token: SyntaxResult<SyntaxToken> }
impl RFalseExpression { pub fn false_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 0)) } pub fn as_fields(&self) -> RFalseExpressionFields { RFalseExpressionFields { false_token: self.false_token() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RInfExpression { syntax: RSyntaxNode }
impl AstNode for RInfExpression { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_INF_EXPRESSION } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RInfExpression { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RInfExpression { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RInfExpressionFields { pub inf_token: SyntaxResult<SyntaxToken> }
impl RInfExpression { pub fn inf_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 0)) } pub fn as_fields(&self) -> RInfExpressionFields { RInfExpressionFields { inf_token: self.inf_token() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RNanExpression { syntax: RSyntaxNode }
impl AstNode for RNanExpression { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_NAN_EXPRESSION } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RNanExpression { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RNanExpression { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RNanExpressionFields { pub nan_token: SyntaxResult<SyntaxToken> }
impl RNanExpression { pub fn nan_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 0)) } pub fn as_fields(&self) -> RNanExpressionFields { RNanExpressionFields { nan_token: self.nan_token() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RNaExpression { syntax: RSyntaxNode }
impl AstNode for RNaExpression { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_NA_EXPRESSION } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RNaExpression { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RNaExpression { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RNaExpressionFields { pub value_token: SyntaxResult<SyntaxToken> }
impl RNaExpression { pub fn value_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 0)) } pub fn as_fields(&self) -> RNaExpressionFields { RNaExpressionFields { value_token: self.value_token() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RNextExpression { syntax: RSyntaxNode }
impl AstNode for RNextExpression { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_NEXT_EXPRESSION } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RNextExpression { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RNextExpression { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RNextExpressionFields { pub next_token: SyntaxResult<SyntaxToken> }
impl RNextExpression { pub fn next_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 0)) } pub fn as_fields(&self) -> RNextExpressionFields { RNextExpressionFields { next_token: self.next_token() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RBreakExpression { syntax: RSyntaxNode }
impl AstNode for RBreakExpression { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_BREAK_EXPRESSION } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RBreakExpression { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RBreakExpression { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RBreakExpressionFields { pub break_token: SyntaxResult<SyntaxToken> }
impl RBreakExpression { pub fn break_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 0)) } pub fn as_fields(&self) -> RBreakExpressionFields { RBreakExpressionFields { break_token: self.break_token() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RReturnExpression { syntax: RSyntaxNode }
impl AstNode for RReturnExpression { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_RETURN_EXPRESSION } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RReturnExpression { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RReturnExpression { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RReturnExpressionFields { pub return_token: SyntaxResult<SyntaxToken> }
impl RReturnExpression { pub fn return_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 0)) } pub fn as_fields(&self) -> RReturnExpressionFields { RReturnExpressionFields { return_token: self.return_token() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RBogusExpression { syntax: RSyntaxNode }
impl AstNode for RBogusExpression { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { k == RSyntaxKind::R_BOGUS_EXPRESSION } fn cast(n: RSyntaxNode) -> Option<Self> { if Self::can_cast(n.kind()) { Some(RBogusExpression { syntax: n }) } else { None } } fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } }
impl std::fmt::Display for RBogusExpression { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
pub struct RBogusExpressionFields { pub value_token: SyntaxResult<SyntaxToken> }
impl RBogusExpression { pub fn value_token(&self) -> SyntaxResult<SyntaxToken> { need(token(&self.syntax, 0)) } pub fn as_fields(&self) -> RBogusExpressionFields { RBogusExpressionFields { value_token: self.value_token() } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum AnyRValue { RStringValue(RStringValue), RIntegerValue(RIntegerValue), RDoubleValue(RDoubleValue), RComplexValue(RComplexValue) }
impl AstNode for AnyRValue { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { RStringValue::can_cast(k) || RIntegerValue::can_cast(k) || RDoubleValue::can_cast(k) || RComplexValue::can_cast(k) } fn cast(n: RSyntaxNode) -> Option<Self> { if RStringValue::can_cast(n.kind()) { return RStringValue::cast(n).map(AnyRValue::RStringValue); } if RIntegerValue::can_cast(n.kind()) { return RIntegerValue::cast(n).map(AnyRValue::RIntegerValue); } if RDoubleValue::can_cast(n.kind()) { return RDoubleValue::cast(n).map(AnyRValue::RDoubleValue); } if RComplexValue::can_cast(n.kind()) { return RComplexValue::cast(n).map(AnyRValue::RComplexValue); } None } fn syntax(&self) -> &RSyntaxNode { match self { AnyRValue::RStringValue(x) => x.syntax(), AnyRValue::RIntegerValue(x) => x.syntax(), AnyRValue::RDoubleValue(x) => x.syntax(), AnyRValue::RComplexValue(x) => x.syntax() } } fn into_syntax(self) -> RSyntaxNode { match self { AnyRValue::RStringValue(x) => x.into_syntax(), AnyRValue::RIntegerValue(x) => x.into_syntax(), AnyRValue::RDoubleValue(x) => x.into_syntax(), AnyRValue::RComplexValue(x) => x.into_syntax() } } }
impl std::fmt::Display for AnyRValue { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
impl AnyRValue { pub fn as_r_string_value(&self) -> Option<&RStringValue> { match self { AnyRValue::RStringValue(x) => Some(x), _ => None } } pub fn as_r_integer_value(&self) -> Option<&RIntegerValue> { match self { AnyRValue::RIntegerValue(x) => Some(x), _ => None } } pub fn as_r_double_value(&self) -> Option<&RDoubleValue> { match self { AnyRValue::RDoubleValue(x) => Some(x), _ => None } } pub fn as_r_complex_value(&self) -> Option<&RComplexValue> { match self { AnyRValue::RComplexValue(x) => Some(x), _ => None } } }
impl From<RStringValue> for AnyRValue { fn from(x: RStringValue) -> Self { AnyRValue::RStringValue(x) } }
impl From<RIntegerValue> for AnyRValue { fn from(x: RIntegerValue) -> Self { AnyRValue::RIntegerValue(x) } }
impl From<RDoubleValue> for AnyRValue { fn from(x: RDoubleValue) -> Self { AnyRValue::RDoubleValue(x) } }
impl From<RComplexValue> for AnyRValue { fn from(x: RComplexValue) -> Self { AnyRValue::RComplexValue(x) } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum AnyRSelector { RIdentifier(RIdentifier), RStringValue(RStringValue), RDots(RDots), RDotDotI(RDotDotI) }
impl AstNode for AnyRSelector { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { RIdentifier::can_cast(k) || RStringValue::can_cast(k) || RDots::can_cast(k) || RDotDotI::can_cast(k) } fn cast(n: RSyntaxNode) -> Option<Self> { if RIdentifier::can_cast(n.kind()) { return RIdentifier::cast(n).map(AnyRSelector::RIdentifier); } if RStringValue::can_cast(n.kind()) { return RStringValue::cast(n).map(AnyRSelector::RStringValue); } if RDots::can_cast(n.kind()) { return RDots::cast(n).map(AnyRSelector::RDots); } if RDotDotI::can_cast(n.kind()) { return RDotDotI::cast(n).map(AnyRSelector::RDotDotI); } None } fn syntax(&self) -> &RSyntaxNode { match self { AnyRSelector::RIdentifier(x) => x.syntax(), AnyRSelector::RStringValue(x) => x.syntax(), AnyRSelector::RDots(x) => x.syntax(), AnyRSelector::RDotDotI(x) => x.syntax() } } fn into_syntax(self) -> RSyntaxNode { match self { AnyRSelector::RIdentifier(x) => x.into_syntax(), AnyRSelector::RStringValue(x) => x.into_syntax(), AnyRSelector::RDots(x) => x.into_syntax(), AnyRSelector::RDotDotI(x) => x.into_syntax() } } }
impl std::fmt::Display for AnyRSelector { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
impl AnyRSelector { pub fn as_r_identifier(&self) -> Option<&RIdentifier> { match self { AnyRSelector::RIdentifier(x) => Some(x), _ => None } } pub fn as_r_string_value(&self) -> Option<&RStringValue> { match self { AnyRSelector::RStringValue(x) => Some(x), _ => None } } pub fn as_r_dots(&self) -> Option<&RDots> { match self { AnyRSelector::RDots(x) => Some(x), _ => None } } pub fn as_r_dot_dot_i(&self) -> Option<&RDotDotI> { match self { AnyRSelector::RDotDotI(x) => Some(x), _ => None } } }
impl From<RIdentifier> for AnyRSelector { fn from(x: RIdentifier) -> Self { AnyRSelector::RIdentifier(x) } }
impl From<RStringValue> for AnyRSelector { fn from(x: RStringValue) -> Self { AnyRSelector::RStringValue(x) } }
impl From<RDots> for AnyRSelector { fn from(x: RDots) -> Self { AnyRSelector::RDots(x) } }
impl From<RDotDotI> for AnyRSelector { fn from(x: RDotDotI) -> Self { AnyRSelector::RDotDotI(x) } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum AnyRArgumentName { RIdentifier(RIdentifier), RStringValue(RStringValue), RDots(RDots), RDotDotI(RDotDotI) }
impl AstNode for AnyRArgumentName { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { RIdentifier::can_cast(k) || RStringValue::can_cast(k) || RDots::can_cast(k) || RDotDotI::can_cast(k) } fn cast(n: RSyntaxNode) -> Option<Self> { if RIdentifier::can_cast(n.kind()) { return RIdentifier::cast(n).map(AnyRArgumentName::RIdentifier); } if RStringValue::can_cast(n.kind()) { return RStringValue::cast(n).map(AnyRArgumentName::RStringValue); } if RDots::can_cast(n.kind()) { return RDots::cast(n).map(AnyRArgumentName::RDots); } if RDotDotI::can_cast(n.kind()) { return RDotDotI::cast(n).map(AnyRArgumentName::RDotDotI); } None } fn syntax(&self) -> &RSyntaxNode { match self { AnyRArgumentName::RIdentifier(x) => x.syntax(), AnyRArgumentName::RStringValue(x) => x.syntax(), AnyRArgumentName::RDots(x) => x.syntax(), AnyRArgumentName::RDotDotI(x) => x.syntax() } } fn into_syntax(self) -> RSyntaxNode { match self { AnyRArgumentName::RIdentifier(x) => x.into_syntax(), AnyRArgumentName::RStringValue(x) => x.into_syntax(), AnyRArgumentName::RDots(x) => x.into_syntax(), AnyRArgumentName::RDotDotI(x) => x.into_syntax() } } }
impl std::fmt::Display for AnyRArgumentName { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
impl AnyRArgumentName { pub fn as_r_identifier(&self) -> Option<&RIdentifier> { match self { AnyRArgumentName::RIdentifier(x) => Some(x), _ => None } } pub fn as_r_string_value(&self) -> Option<&RStringValue> { match self { AnyRArgumentName::RStringValue(x) => Some(x), _ => None } } pub fn as_r_dots(&self) -> Option<&RDots> { match self { AnyRArgumentName::RDots(x) => Some(x), _ => None } } pub fn as_r_dot_dot_i(&self) -> Option<&RDotDotI> { match self { AnyRArgumentName::RDotDotI(x) => Some(x), _ => None } } }
impl From<RIdentifier> for AnyRArgumentName { fn from(x: RIdentifier) -> Self { AnyRArgumentName::RIdentifier(x) } }
impl From<RStringValue> for AnyRArgumentName { fn from(x: RStringValue) -> Self { AnyRArgumentName::RStringValue(x) } }
impl From<RDots> for AnyRArgumentName { fn from(x: RDots) -> Self { AnyRArgumentName::RDots(x) } }
impl From<RDotDotI> for AnyRArgumentName { fn from(x: RDotDotI) -> Self { AnyRArgumentName::RDotDotI(x) } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum AnyRParameterName { RIdentifier(RIdentifier), RDots(RDots), RDotDotI(RDotDotI) }
impl AstNode for AnyRParameterName { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { RIdentifier::can_cast(k) || RDots::can_cast(k) || RDotDotI::can_cast(k) } fn cast(n: RSyntaxNode) -> Option<Self> { if RIdentifier::can_cast(n.kind()) { return RIdentifier::cast(n).map(AnyRParameterName::RIdentifier); } if RDots::can_cast(n.kind()) { return RDots::cast(n).map(AnyRParameterName::RDots); } if RDotDotI::can_cast(n.kind()) { return RDotDotI::cast(n).map(AnyRParameterName::RDotDotI); } None } fn syntax(&self) -> &RSyntaxNode { match self { AnyRParameterName::RIdentifier(x) => x.syntax(), AnyRParameterName::RDots(x) => x.syntax(), AnyRParameterName::RDotDotI(x) => x.syntax() } } fn into_syntax(self) -> RSyntaxNode { match self { AnyRParameterName::RIdentifier(x) => x.into_syntax(), AnyRParameterName::RDots(x) => x.into_syntax(), AnyRParameterName::RDotDotI(x) => x.into_syntax() } } }
impl std::fmt::Display for AnyRParameterName { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
impl AnyRParameterName { pub fn as_r_identifier(&self) -> Option<&RIdentifier> { match self { AnyRParameterName::RIdentifier(x) => Some(x), _ => None } } pub fn as_r_dots(&self) -> Option<&RDots> { match self { AnyRParameterName::RDots(x) => Some(x), _ => None } } pub fn as_r_dot_dot_i(&self) -> Option<&RDotDotI> { match self { AnyRParameterName::RDotDotI(x) => Some(x), _ => None } } }
impl From<RIdentifier> for AnyRParameterName { fn from(x: RIdentifier) -> Self { AnyRParameterName::RIdentifier(x) } }
impl From<RDots> for AnyRParameterName { fn from(x: RDots) -> Self { AnyRParameterName::RDots(x) } }
impl From<RDotDotI> for AnyRParameterName { fn from(x: RDotDotI) -> Self { AnyRParameterName::RDotDotI(x) } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum AnyRExpression { AnyRValue(AnyRValue), RBracedExpressions(RBracedExpressions), RParenthesizedExpression(RParenthesizedExpression), RBinaryExpression(RBinaryExpression), RUnaryExpression(RUnaryExpression), RCall(RCall), RSubset(RSubset), RSubset2(RSubset2), RIfStatement(RIfStatement), RForStatement(RForStatement), RWhileStatement(RWhileStatement), RRepeatStatement(RRepeatStatement), RFunctionDefinition(RFunctionDefinition), RNamespaceExpression(RNamespaceExpression), RExtractExpression(RExtractExpression), RIdentifier(RIdentifier), RDots(RDots), RDotDotI(RDotDotI), RNullExpression(RNullExpression), RTrueExpression(RTrueExpression), RFalseExpression(RFalseExpression), RInfExpression(RInfExpression), RNanExpression(RNanExpression), RNaExpression(RNaExpression), RNextExpression(RNextExpression), RBreakExpression(RBreakExpression), RReturnExpression(RReturnExpression), RBogusExpression(RBogusExpression) }
impl AstNode for AnyRExpression { type Language = RLanguage; fn can_cast(k: RSyntaxKind) -> bool { AnyRValue::can_cast(k) || RBracedExpressions::can_cast(k) || RParenthesizedExpression::can_cast(k) || RBinaryExpression::can_cast(k) || RUnaryExpression::can_cast(k) || RCall::can_cast(k) || RSubset::can_cast(k) || RSubset2::can_cast(k) || RIfStatement::can_cast(k) || RForStatement::can_cast(k) || RWhileStatement::can_cast(k) || RRepeatStatement::can_cast(k) || RFunctionDefinition::can_cast(k) || RNamespaceExpression::can_cast(k) || RExtractExpression::can_cast(k) || RIdentifier::can_cast(k) || RDots::can_cast(k) || RDotDotI::can_cast(k) || RNullExpression::can_cast(k) || RTrueExpression::can_cast(k) || RFalseExpression::can_cast(k) || RInfExpression::can_cast(k) || RNanExpression::can_cast(k) || RNaExpression::can_cast(k) || RNextExpression::can_cast(k) || RBreakExpression::can_cast(k) || RReturnExpression::can_cast(k) || RBogusExpression::can_cast(k) } fn cast(n: RSyntaxNode) -> Option<Self> { if AnyRValue::can_cast(n.kind()) { return AnyRValue::cast(n).map(AnyRExpression::AnyRValue); } if RBracedExpressions::can_cast(n.kind()) { return RBracedExpressions::cast(n).map(AnyRExpression::RBracedExpressions); } if RParenthesizedExpression::can_cast(n.kind()) { return RParenthesizedExpression::cast(n).map(AnyRExpression::RParenthesizedExpression); } if RBinaryExpression::can_cast(n.kind()) { return RBinaryExpression::cast(n).map(AnyRExpression::RBinaryExpression); } if RUnaryExpression::can_cast(n.kind()) { return RUnaryExpression::cast(n).map(AnyRExpression::RUnaryExpression); } if RCall::can_cast(n.kind()) { return RCall::cast(n).map(AnyRExpression::RCall); } if RSubset::can_cast(n.kind()) { return RSubset::cast(n).map(AnyRExpression::RSubset); } if RSubset2::can_cast(n.kind()) { return RSubset2::cast(n).map(AnyRExpression::RSubset2); } if RIfStatement::can_cast(n.kind()) { return RIfStatement::cast(n).map(AnyRExpression::RIfStatement); } if RForStatement::can_cast(n.kind()) { return RForStatement::cast(n).map(AnyRExpression::RForStatement); } if RWhileStatement::can_cast(n.kind()) { return RWhileStatement::cast(n).map(AnyRExpression::RWhileStatement); } if RRepeatStatement::can_cast(n.kind()) { return RRepeatStatement::cast(n).map(AnyRExpression::RRepeatStatement); } if RFunctionDefinition::can_cast(n.kind()) { return RFunctionDefinition::cast(n).map(AnyRExpression::RFunctionDefinition); } if RNamespaceExpression::can_cast(n.kind()) { return RNamespaceExpression::cast(n).map(AnyRExpression::RNamespaceExpression); } if RExtractExpression::can_cast(n.kind()) { return RExtractExpression::cast(n).map(AnyRExpression::RExtractExpression); } if RIdentifier::can_cast(n.kind()) { return RIdentifier::cast(n).map(AnyRExpression::RIdentifier); } if RDots::can_cast(n.kind()) { return RDots::cast(n).map(AnyRExpression::RDots); } if RDotDotI::can_cast(n.kind()) { return RDotDotI::cast(n).map(AnyRExpression::RDotDotI); } if RNullExpression::can_cast(n.kind()) { return RNullExpression::cast(n).map(AnyRExpression::RNullExpression); } if RTrueExpression::can_cast(n.kind()) { return RTrueExpression::cast(n).map(AnyRExpression::RTrueExpression); } if RFalseExpression::can_cast(n.kind()) { return RFalseExpression::cast(n).map(AnyRExpression::RFalseExpression); } if RInfExpression::can_cast(n.kind()) { return RInfExpression::cast(n).map(AnyRExpression::RInfExpression); } if RNanExpression::can_cast(n.kind()) { return RNanExpression::cast(n).map(AnyRExpression::RNanExpression); } if RNaExpression::can_cast(n.kind()) { return RNaExpression::cast(n).map(AnyRExpression::RNaExpression); } if RNextExpression::can_cast(n.kind()) { return RNextExpression::cast(n).map(AnyRExpression::RNextExpression); } if RBreakExpression::can_cast(n.kind()) { return RBreakExpression::cast(n).map(AnyRExpression::RBreakExpression); } if RReturnExpression::can_cast(n.kind()) { return RReturnExpression::cast(n).map(AnyRExpression::RReturnExpression); } if RBogusExpression::can_cast(n.kind()) { return RBogusExpression::cast(n).map(AnyRExpression::RBogusExpression); } None } fn syntax(&self) -> &RSyntaxNode { match self { AnyRExpression::AnyRValue(x) => x.syntax(), AnyRExpression::RBracedExpressions(x) => x.syntax(), AnyRExpression::RParenthesizedExpression(x) => x.syntax(), AnyRExpression::RBinaryExpression(x) => x.syntax(), AnyRExpression::RUnaryExpression(x) => x.syntax(), AnyRExpression::RCall(x) => x.syntax(), AnyRExpression::RSubset(x) => x.syntax(), AnyRExpression::RSubset2(x) => x.syntax(), AnyRExpression::RIfStatement(x) => x.syntax(), AnyRExpression::RForStatement(x) => x.syntax(), AnyRExpression::RWhileStatement(x) => x.syntax(), AnyRExpression::RRepeatStatement(x) => x.syntax(), AnyRExpression::RFunctionDefinition(x) => x.syntax(), AnyRExpression::RNamespaceExpression(x) => x.syntax(), AnyRExpression::RExtractExpression(x) => x.syntax(), AnyRExpression::RIdentifier(x) => x.syntax(), AnyRExpression::RDots(x) => x.syntax(), AnyRExpression::RDotDotI(x) => x.syntax(), AnyRExpression::RNullExpression(x) => x.syntax(), AnyRExpression::RTrueExpression(x) => x.syntax(), AnyRExpression::RFalseExpression(x) => x.syntax(), AnyRExpression::RInfExpression(x) => x.syntax(), AnyRExpression::RNanExpression(x) => x.syntax(), AnyRExpression::RNaExpression(x) => x.syntax(), AnyRExpression::RNextExpression(x) => x.syntax(), AnyRExpression::RBreakExpression(x) => x.syntax(), AnyRExpression::RReturnExpression(x) => x.syntax(), AnyRExpression::RBogusExpression(x) => x.syntax() } } fn into_syntax(self) -> RSyntaxNode { match self { AnyRExpression::AnyRValue(x) => x.into_syntax(), AnyRExpression::RBracedExpressions(x) => x.into_syntax(), AnyRExpression::RParenthesizedExpression(x) => x.into_syntax(), AnyRExpression::RBinaryExpression(x) => x.into_syntax(), AnyRExpression::RUnaryExpression(x) => x.into_syntax(), AnyRExpression::RCall(x) => x.into_syntax(), AnyRExpression::RSubset(x) => x.into_syntax(), AnyRExpression::RSubset2(x) => x.into_syntax(), AnyRExpression::RIfStatement(x) => x.into_syntax(), AnyRExpression::RForStatement(x) => x.into_syntax(), AnyRExpression::RWhileStatement(x) => x.into_syntax(), AnyRExpression::RRepeatStatement(x) => x.into_syntax(), AnyRExpression::RFunctionDefinition(x) => x.into_syntax(), AnyRExpression::RNamespaceExpression(x) => x.into_syntax(), AnyRExpression::RExtractExpression(x) => x.into_syntax(), AnyRExpression::RIdentifier(x) => x.into_syntax(), AnyRExpression::RDots(x) => x.into_syntax(), AnyRExpression::RDotDotI(x) => x.into_syntax(), AnyRExpression::RNullExpression(x) => x.into_syntax(), AnyRExpression::RTrueExpression(x) => x.into_syntax(), AnyRExpression::RFalseExpression(x) => x.into_syntax(), AnyRExpression::RInfExpression(x) => x.into_syntax(), AnyRExpression::RNanExpression(x) => x.into_syntax(), AnyRExpression::RNaExpression(x) => x.into_syntax(), AnyRExpression::RNextExpression(x) => x.into_syntax(), AnyRExpression::RBreakExpression(x) => x.into_syntax(), AnyRExpression::RReturnExpression(x) => x.into_syntax(), AnyRExpression::RBogusExpression(x) => x.into_syntax() } } }
impl std::fmt::Display for AnyRExpression { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
impl AnyRExpression { pub fn as_any_r_value(&self) -> Option<&AnyRValue> { match self { AnyRExpression::AnyRValue(x) => Some(x), _ => None } } pub fn as_r_braced_expressions(&self) -> Option<&RBracedExpressions> { match self { AnyRExpression::RBracedExpressions(x) => Some(x), _ => None } } pub fn as_r_parenthesized_expression(&self) -> Option<&RParenthesizedExpression> { match self { AnyRExpression::RParenthesizedExpression(x) => Some(x), _ => None } } pub fn as_r_binary_expression(&self) -> Option<&RBinaryExpression> { match self { AnyRExpression::RBinaryExpression(x) => Some(x), _ => None } } pub fn as_r_unary_expression(&self) -> Option<&RUnaryExpression> { match self { AnyRExpression::RUnaryExpression(x) => Some(x), _ => None } } pub fn as_r_call(&self) -> Option<&RCall> { match self { AnyRExpression::RCall(x) => Some(x), _ => None } } pub fn as_r_subset(&self) -> Option<&RSubset> { match self { AnyRExpression::RSubset(x) => Some(x), _ => None } } pub fn as_r_subset2(&self) -> Option<&RSubset2> { match self { AnyRExpression::RSubset2(x) => Some(x), _ => None } } pub fn as_r_if_statement(&self) -> Option<&RIfStatement> { match self { AnyRExpression::RIfStatement(x) => Some(x), _ => None } } pub fn as_r_for_statement(&self) -> Option<&RForStatement> { match self { AnyRExpression::RForStatement(x) => Some(x), _ => None } } pub fn as_r_while_statement(&self) -> Option<&RWhileStatement> { match self { AnyRExpression::RWhileStatement(x) => Some(x), _ => None } } pub fn as_r_repeat_statement(&self) -> Option<&RRepeatStatement> { match self { AnyRExpression::RRepeatStatement(x) => Some(x), _ => None } } pub fn as_r_function_definition(&self) -> Option<&RFunctionDefinition> { match self { AnyRExpression::RFunctionDefinition(x) => Some(x), _ => None } } pub fn as_r_namespace_expression(&self) -> Option<&RNamespaceExpression> { match self { AnyRExpression::RNamespaceExpression(x) => Some(x), _ => None } } pub fn as_r_extract_expression(&self) -> Option<&RExtractExpression> { match self { AnyRExpression::RExtractExpression(x) => Some(x), _ => None } } pub fn as_r_identifier(&self) -> Option<&RIdentifier> { match self { AnyRExpression::RIdentifier(x) => Some(x), _ => None } } pub fn as_r_dots(&self) -> Option<&RDots> { match self { AnyRExpression::RDots(x) => Some(x), _ => None } } pub fn as_r_dot_dot_i(&self) -> Option<&RDotDotI> { match self { AnyRExpression::RDotDotI(x) => Some(x), _ => None } } pub fn as_r_null_expression(&self) -> Option<&RNullExpression> { match self { AnyRExpression::RNullExpression(x) => Some(x), _ => None } } pub fn as_r_true_expression(&self) -> Option<&RTrueExpression> { match self { AnyRExpression::RTrueExpression(x) => Some(x), _ => None } } pub fn as_r_false_expression(&self) -> Option<&RFalseExpression> { match self { AnyRExpression::RFalseExpression(x) => Some(x), _ => None } } pub fn as_r_inf_expression(&self) -> Option<&RInfExpression> { match self { AnyRExpression::RInfExpression(x) => Some(x), _ => None } } pub fn as_r_nan_expression(&self) -> Option<&RNanExpression> { match self { AnyRExpression::RNanExpression(x) => Some(x), _ => None } } pub fn as_r_na_expression(&self) -> Option<&RNaExpression> { match self { AnyRExpression::RNaExpression(x) => Some(x), _ => None } } pub fn as_r_next_expression(&self) -> Option<&RNextExpression> { match self { AnyRExpression::RNextExpression(x) => Some(x), _ => None } } pub fn as_r_break_expression(&self) -> Option<&RBreakExpression> { match self { AnyRExpression::RBreakExpression(x) => Some(x), _ => None } } pub fn as_r_return_expression(&self) -> Option<&RReturnExpression> { match self { AnyRExpression::RReturnExpression(x) => Some(x), _ => None } } pub fn as_r_bogus_expression(&self) -> Option<&RBogusExpression> { match self { AnyRExpression::RBogusExpression(x) => Some(x), _ => None } } }
impl From<AnyRValue> for AnyRExpression { fn from(x: AnyRValue) -> Self { AnyRExpression::AnyRValue(x) } }
impl From<RBracedExpressions> for AnyRExpression { fn from(x: RBracedExpressions) -> Self { AnyRExpression::RBracedExpressions(x) } }
impl From<RParenthesizedExpression> for AnyRExpression { fn from(x: RParenthesizedExpression) -> Self { AnyRExpression::RParenthesizedExpression(x) } }
impl From<RBinaryExpression> for AnyRExpression { fn from(x: RBinaryExpression) -> Self { AnyRExpression::RBinaryExpression(x) } }
impl From<RUnaryExpression> for AnyRExpression { fn from(x: RUnaryExpression) -> Self { AnyRExpression::RUnaryExpression(x) } }
impl From<RCall> for AnyRExpression { fn from(x: RCall) -> Self { AnyRExpression::RCall(x) } }
impl From<RSubset> for AnyRExpression { fn from(x: RSubset) -> Self { AnyRExpression::RSubset(x) } }
impl From<RSubset2> for AnyRExpression { fn from(x: RSubset2) -> Self { AnyRExpression::RSubset2(x) } }
impl From<RIfStatement> for AnyRExpression { fn from(x: RIfStatement) -> Self { AnyRExpression::RIfStatement(x) } }
impl From<RForStatement> for AnyRExpression { fn from(x: RForStatement) -> Self { AnyRExpression::RForStatement(x) } }
impl From<RWhileStatement> for AnyRExpression { fn from(x: RWhileStatement) -> Self { AnyRExpression::RWhileStatement(x) } }
impl From<RRepeatStatement> for AnyRExpression { fn from(x: RRepeatStatement) -> Self { AnyRExpression::RRepeatStatement(x) } }
impl From<RFunctionDefinition> for AnyRExpression { fn from(x: RFunctionDefinition) -> Self { AnyRExpression::RFunctionDefinition(x) } }
impl From<RNamespaceExpression> for AnyRExpression { fn from(x: RNamespaceExpression) -> Self { AnyRExpression::RNamespaceExpression(x) } }
impl From<RExtractExpression> for AnyRExpression { fn from(x: RExtractExpression) -> Self { AnyRExpression::RExtractExpression(x) } }
impl From<RIdentifier> for AnyRExpression { fn from(x: RIdentifier) -> Self { AnyRExpression::RIdentifier(x) } }
impl From<RDots> for AnyRExpression { fn from(x: RDots) -> Self { AnyRExpression::RDots(x) } }
impl From<RDotDotI> for AnyRExpression { fn from(x: RDotDotI) -> Self { AnyRExpression::RDotDotI(x) } }
impl From<RNullExpression> for AnyRExpression { fn from(x: RNullExpression) -> Self { AnyRExpression::RNullExpression(x) } }
impl From<RTrueExpression> for AnyRExpression { fn from(x: RTrueExpression) -> Self { AnyRExpression::RTrueExpression(x) } }
impl From<RFalseExpression> for AnyRExpression { fn from(x: RFalseExpression) -> Self { AnyRExpression::RFalseExpression(x) } }
impl From<RInfExpression> for AnyRExpression { fn from(x: RInfExpression) -> Self { AnyRExpression::RInfExpression(x) } }
impl From<RNanExpression> for AnyRExpression { fn from(x: RNanExpression) -> Self { AnyRExpression::RNanExpression(x) } }
impl From<RNaExpression> for AnyRExpression { fn from(x: RNaExpression) -> Self { AnyRExpression::RNaExpression(x) } }
impl From<RNextExpression> for AnyRExpression { fn from(x: RNextExpression) -> Self { AnyRExpression::RNextExpression(x) } }
impl From<RBreakExpression> for AnyRExpression { fn from(x: RBreakExpression) -> Self { AnyRExpression::RBreakExpression(x) } }
impl From<RReturnExpression> for AnyRExpression { fn from(x: RReturnExpression) -> Self { AnyRExpression::RReturnExpression(x) } }
impl From<RBogusExpression> for AnyRExpression { fn from(x: RBogusExpression) -> Self { AnyRExpression::RBogusExpression(x) } }
impl From<RRoot> for RSyntaxNode { fn from(x: RRoot) -> Self { x.into_syntax() } }
impl From<RExpressionList> for RSyntaxNode { fn from(x: RExpressionList) -> Self { x.into_syntax() } }
impl From<RBracedExpressions> for RSyntaxNode { fn from(x: RBracedExpressions) -> Self { x.into_syntax() } }
impl From<RParenthesizedExpression> for RSyntaxNode { fn from(x: RParenthesizedExpression) -> Self { x.into_syntax() } }
impl From<RBinaryExpression> for RSyntaxNode { fn from(x: RBinaryExpression) -> Self { x.into_syntax() } }
impl From<RUnaryExpression> for RSyntaxNode { fn from(x: RUnaryExpression) -> Self { x.into_syntax() } }
impl From<RCall> for RSyntaxNode { fn from(x: RCall) -> Self { x.into_syntax() } }
impl From<RCallArguments> for RSyntaxNode { fn from(x: RCallArguments) -> Self { x.into_syntax() } }
impl From<RArgumentList> for RSyntaxNode { fn from(x: RArgumentList) -> Self { x.into_syntax() } }
impl From<RArgument> for RSyntaxNode { fn from(x: RArgument) -> Self { x.into_syntax() } }
impl From<RArgumentNameClause> for RSyntaxNode { fn from(x: RArgumentNameClause) -> Self { x.into_syntax() } }
impl From<RSubset> for RSyntaxNode { fn from(x: RSubset) -> Self { x.into_syntax() } }
impl From<RSubsetArguments> for RSyntaxNode { fn from(x: RSubsetArguments) -> Self { x.into_syntax() } }
impl From<RSubset2> for RSyntaxNode { fn from(x: RSubset2) -> Self { x.into_syntax() } }
impl From<RSubset2Arguments> for RSyntaxNode { fn from(x: RSubset2Arguments) -> Self { x.into_syntax() } }
impl From<RIfStatement> for RSyntaxNode { fn from(x: RIfStatement) -> Self { x.into_syntax() } }
impl From<RElseClause> for RSyntaxNode { fn from(x: RElseClause) -> Self { x.into_syntax() } }
impl From<RForStatement> for RSyntaxNode { fn from(x: RForStatement) -> Self { x.into_syntax() } }
impl From<RWhileStatement> for RSyntaxNode { fn from(x: RWhileStatement) -> Self { x.into_syntax() } }
impl From<RRepeatStatement> for RSyntaxNode { fn from(x: RRepeatStatement) -> Self { x.into_syntax() } }
impl From<RFunctionDefinition> for RSyntaxNode { fn from(x: RFunctionDefinition) -> Self { x.into_syntax() } }
impl From<RParameters> for RSyntaxNode { fn from(x: RParameters) -> Self { x.into_syntax() } }
impl From<RParameterList> for RSyntaxNode { fn from(x: RParameterList) -> Self { x.into_syntax() } }
impl From<RParameter> for RSyntaxNode { fn from(x: RParameter) -> Self { x.into_syntax() } }
impl From<RParameterDefault> for RSyntaxNode { fn from(x: RParameterDefault) -> Self { x.into_syntax() } }
impl From<RNamespaceExpression> for RSyntaxNode { fn from(x: RNamespaceExpression) -> Self { x.into_syntax() } }
impl From<RExtractExpression> for RSyntaxNode { fn from(x: RExtractExpression) -> Self { x.into_syntax() } }
impl From<RIdentifier> for RSyntaxNode { fn from(x: RIdentifier) -> Self { x.into_syntax() } }
impl From<RDots> for RSyntaxNode { fn from(x: RDots) -> Self { x.into_syntax() } }
impl From<RDotDotI> for RSyntaxNode { fn from(x: RDotDotI) -> Self { x.into_syntax() } }
impl From<RStringValue> for RSyntaxNode { fn from(x: RStringValue) -> Self { x.into_syntax() } }
impl From<RIntegerValue> for RSyntaxNode { fn from(x: RIntegerValue) -> Self { x.into_syntax() } }
impl From<RDoubleValue> for RSyntaxNode { fn from(x: RDoubleValue) -> Self { x.into_syntax() } }
impl From<RComplexValue> for RSyntaxNode { fn from(x: RComplexValue) -> Self { x.into_syntax() } }
impl From<RNullExpression> for RSyntaxNode { fn from(x: RNullExpression) -> Self { x.into_syntax() } }
impl From<RTrueExpression> for RSyntaxNode { fn from(x: RTrueExpression) -> Self { x.into_syntax() } }
impl From<RFalseExpression> for RSyntaxNode { fn from(x: RFalseExpression) -> Self { x.into_syntax() } }
impl From<RInfExpression> for RSyntaxNode { fn from(x: RInfExpression) -> Self { x.into_syntax() } }
impl From<RNanExpression> for RSyntaxNode { fn from(x: RNanExpression) -> Self { x.into_syntax() } }
impl From<RNaExpression> for RSyntaxNode { fn from(x: RNaExpression) -> Self { x.into_syntax() } }
impl From<RNextExpression> for RSyntaxNode { fn from(x: RNextExpression) -> Self { x.into_syntax() } }
impl From<RBreakExpression> for RSyntaxNode { fn from(x: RBreakExpression) -> Self { x.into_syntax() } }
impl From<RReturnExpression> for RSyntaxNode { fn from(x: RReturnExpression) -> Self { x.into_syntax() } }
impl From<RBogusExpression> for RSyntaxNode { fn from(x: RBogusExpression) -> Self { x.into_syntax() } }
impl From<AnyRValue> for RSyntaxNode { fn from(x: AnyRValue) -> Self { x.into_syntax() } }
impl From<AnyRSelector> for RSyntaxNode { fn from(x: AnyRSelector) -> Self { x.into_syntax() } }
impl From<AnyRArgumentName> for RSyntaxNode { fn from(x: AnyRArgumentName) -> Self { x.into_syntax() } }
impl From<AnyRParameterName> for RSyntaxNode { fn from(x: AnyRParameterName) -> Self { x.into_syntax() } }
impl From<AnyRExpression> for RSyntaxNode { fn from(x: AnyRExpression) -> Self { x.into_syntax() } }
