//! Signature stub of `ruff_python_parser`. Never executed.
use ruff_python_ast::{Expr, Mod, ModExpression, ModModule, Suite};
use ruff_text_size::{Ranged, TextRange};
use std::fmt;
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub enum Mode { Module, Expression, ParenthesizedExpression, Ipython }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct ParseOptions { mode: Mode }
impl From<Mode> for ParseOptions { fn from(mode: Mode) -> Self { Self { mode } } }
#[derive(Clone, Debug, PartialEq)]
pub struct ParseError { pub error: ParseErrorType, pub location: TextRange }
impl Ranged for ParseError { fn range(&self) -> TextRange { self.location } }
#[derive(Clone, Debug, PartialEq)]
pub enum ParseErrorType { OtherError(String) }
impl fmt::Display for ParseErrorType { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") } }
impl fmt::Display for ParseError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.error) } }
impl std::error::Error for ParseError {}
#[derive(Clone, Debug, PartialEq)]
pub struct Parsed<T> { syntax: T, errors: Vec<ParseError> }
impl<T> Parsed<T> {
    pub fn syntax(&self) -> &T { &self.syntax }
    pub fn into_syntax(self) -> T { self.syntax }
    pub fn errors(&self) -> &[ParseError] { &self.errors }
    pub fn into_errors(self) -> Vec<ParseError> { self.errors }
    pub fn is_valid(&self) -> bool { self.errors.is_empty() }
    pub fn has_valid_syntax(&self) -> bool { self.errors.is_empty() }
    pub fn has_invalid_syntax(&self) -> bool { !self.errors.is_empty() }
    pub fn into_result(self) -> Result<Parsed<T>, ParseError> { match self.errors.first() { None => Ok(self), Some(e) => Err(e.clone()) } }
}
impl Parsed<ModModule> { pub fn suite(&self) -> &Suite { &self.syntax.body } pub fn into_suite(self) -> Suite { self.syntax.body } }
impl Parsed<ModExpression> { pub fn expr(&self) -> &Expr { &self.syntax.body } pub fn into_expr(self) -> Expr { *self.syntax.body } }
impl Parsed<Mod> { pub fn try_into_module(self) -> Option<Parsed<ModModule>> { match self.syntax { Mod::Module(syntax) => Some(Parsed { syntax, errors: self.errors }), _ => None } } }
pub fn parse(_source: &str, _options: ParseOptions) -> Result<Parsed<Mod>, ParseError> { unimplemented!() }
pub fn parse_unchecked(_source: &str, _options: ParseOptions) -> Parsed<Mod> { unimplemented!() }
pub fn parse_module(_source: &str) -> Result<Parsed<ModModule>, ParseError> { unimplemented!() }
pub fn parse_expression(_source: &str) -> Result<Parsed<ModExpression>, ParseError> { unimplemented!() }
