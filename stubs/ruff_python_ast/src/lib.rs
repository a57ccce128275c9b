//! Signature stub of `ruff_python_ast` generated by gen_ast.py: data types only, never executed.
#![allow(clippy::all)]
use ruff_text_size::{Ranged, TextRange};
use std::fmt; use std::ops::Deref;
pub mod name { pub use super::Name; }
#[derive(Clone, Debug, PartialEq)] pub struct StmtFunctionDef { pub is_async: bool, pub decorator_list: Vec<Decorator>, pub name: Identifier, pub type_params: Option<Box<TypeParams>>, pub parameters: Box<Parameters>, pub returns: Option<Box<Expr>>, pub body: Vec<Stmt>, pub range: TextRange, }
impl Ranged for StmtFunctionDef { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct StmtClassDef { pub decorator_list: Vec<Decorator>, pub name: Identifier, pub type_params: Option<Box<TypeParams>>, pub arguments: Option<Box<Arguments>>, pub body: Vec<Stmt>, pub range: TextRange, }
impl Ranged for StmtClassDef { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct StmtReturn { pub value: Option<Box<Expr>>, pub range: TextRange, }
impl Ranged for StmtReturn { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct StmtDelete { pub targets: Vec<Expr>, pub range: TextRange, }
impl Ranged for StmtDelete { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct StmtTypeAlias { pub name: Box<Expr>, pub type_params: Option<Box<TypeParams>>, pub value: Box<Expr>, pub range: TextRange, }
impl Ranged for StmtTypeAlias { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct StmtAssign { pub targets: Vec<Expr>, pub value: Box<Expr>, pub range: TextRange, }
impl Ranged for StmtAssign { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct StmtAugAssign { pub target: Box<Expr>, pub op: Operator, pub value: Box<Expr>, pub range: TextRange, }
impl Ranged for StmtAugAssign { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct StmtAnnAssign { pub target: Box<Expr>, pub annotation: Box<Expr>, pub value: Option<Box<Expr>>, pub simple: bool, pub range: TextRange, }
impl Ranged for StmtAnnAssign { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct StmtFor { pub is_async: bool, pub target: Box<Expr>, pub iter: Box<Expr>, pub body: Vec<Stmt>, pub orelse: Vec<Stmt>, pub range: TextRange, }
impl Ranged for StmtFor { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct StmtWhile { pub test: Box<Expr>, pub body: Vec<Stmt>, pub orelse: Vec<Stmt>, pub range: TextRange, }
impl Ranged for StmtWhile { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct StmtIf { pub test: Box<Expr>, pub body: Vec<Stmt>, pub elif_else_clauses: Vec<ElifElseClause>, pub range: TextRange, }
impl Ranged for StmtIf { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct StmtWith { pub is_async: bool, pub items: Vec<WithItem>, pub body: Vec<Stmt>, pub range: TextRange, }
impl Ranged for StmtWith { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct StmtMatch { pub subject: Box<Expr>, pub cases: Vec<MatchCase>, pub range: TextRange, }
impl Ranged for StmtMatch { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct StmtRaise { pub exc: Option<Box<Expr>>, pub cause: Option<Box<Expr>>, pub range: TextRange, }
impl Ranged for StmtRaise { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct StmtTry { pub body: Vec<Stmt>, pub handlers: Vec<ExceptHandler>, pub orelse: Vec<Stmt>, pub finalbody: Vec<Stmt>, pub is_star: bool, pub range: TextRange, }
impl Ranged for StmtTry { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct StmtAssert { pub test: Box<Expr>, pub msg: Option<Box<Expr>>, pub range: TextRange, }
impl Ranged for StmtAssert { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct StmtImport { pub names: Vec<Alias>, pub range: TextRange, }
impl Ranged for StmtImport { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct StmtImportFrom { pub module: Option<Identifier>, pub names: Vec<Alias>, pub level: u32, pub range: TextRange, }
impl Ranged for StmtImportFrom { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct StmtGlobal { pub names: Vec<Identifier>, pub range: TextRange, }
impl Ranged for StmtGlobal { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct StmtNonlocal { pub names: Vec<Identifier>, pub range: TextRange, }
impl Ranged for StmtNonlocal { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct StmtExpr { pub value: Box<Expr>, pub range: TextRange, }
impl Ranged for StmtExpr { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct StmtPass { pub range: TextRange, }
impl Ranged for StmtPass { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct StmtBreak { pub range: TextRange, }
impl Ranged for StmtBreak { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct StmtContinue { pub range: TextRange, }
impl Ranged for StmtContinue { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct StmtIpyEscapeCommand { pub value: Box<str>, pub range: TextRange, }
impl Ranged for StmtIpyEscapeCommand { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExprBoolOp { pub op: BoolOp, pub values: Vec<Expr>, pub range: TextRange, }
impl Ranged for ExprBoolOp { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExprNamed { pub target: Box<Expr>, pub value: Box<Expr>, pub range: TextRange, }
impl Ranged for ExprNamed { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExprBinOp { pub left: Box<Expr>, pub op: Operator, pub right: Box<Expr>, pub range: TextRange, }
impl Ranged for ExprBinOp { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExprUnaryOp { pub op: UnaryOp, pub operand: Box<Expr>, pub range: TextRange, }
impl Ranged for ExprUnaryOp { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExprLambda { pub parameters: Option<Box<Parameters>>, pub body: Box<Expr>, pub range: TextRange, }
impl Ranged for ExprLambda { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExprIf { pub test: Box<Expr>, pub body: Box<Expr>, pub orelse: Box<Expr>, pub range: TextRange, }
impl Ranged for ExprIf { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExprDict { pub items: Vec<DictItem>, pub range: TextRange, }
impl Ranged for ExprDict { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExprSet { pub elts: Vec<Expr>, pub range: TextRange, }
impl Ranged for ExprSet { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExprListComp { pub elt: Box<Expr>, pub generators: Vec<Comprehension>, pub range: TextRange, }
impl Ranged for ExprListComp { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExprSetComp { pub elt: Box<Expr>, pub generators: Vec<Comprehension>, pub range: TextRange, }
impl Ranged for ExprSetComp { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExprDictComp { pub key: Box<Expr>, pub value: Box<Expr>, pub generators: Vec<Comprehension>, pub range: TextRange, }
impl Ranged for ExprDictComp { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExprGenerator { pub elt: Box<Expr>, pub generators: Vec<Comprehension>, pub parenthesized: bool, pub range: TextRange, }
impl Ranged for ExprGenerator { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExprAwait { pub value: Box<Expr>, pub range: TextRange, }
impl Ranged for ExprAwait { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExprYield { pub value: Option<Box<Expr>>, pub range: TextRange, }
impl Ranged for ExprYield { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExprYieldFrom { pub value: Box<Expr>, pub range: TextRange, }
impl Ranged for ExprYieldFrom { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExprCompare { pub left: Box<Expr>, pub ops: Box<[CmpOp]>, pub comparators: Box<[Expr]>, pub range: TextRange, }
impl Ranged for ExprCompare { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExprCall { pub func: Box<Expr>, pub arguments: Arguments, pub range: TextRange, }
impl Ranged for ExprCall { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExprFString { pub value: FStringValue, pub range: TextRange, }
impl Ranged for ExprFString { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExprTString { pub value: FStringValue, pub range: TextRange, }
impl Ranged for ExprTString { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExprStringLiteral { pub value: StringLiteralValue, pub range: TextRange, }
impl Ranged for ExprStringLiteral { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExprBytesLiteral { pub value: BytesLiteralValue, pub range: TextRange, }
impl Ranged for ExprBytesLiteral { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExprNumberLiteral { pub value: Number, pub range: TextRange, }
impl Ranged for ExprNumberLiteral { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExprBooleanLiteral { pub value: bool, pub range: TextRange, }
impl Ranged for ExprBooleanLiteral { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExprNoneLiteral { pub range: TextRange, }
impl Ranged for ExprNoneLiteral { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExprEllipsisLiteral { pub range: TextRange, }
impl Ranged for ExprEllipsisLiteral { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExprAttribute { pub value: Box<Expr>, pub attr: Identifier, pub ctx: ExprContext, pub range: TextRange, }
impl Ranged for ExprAttribute { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExprSubscript { pub value: Box<Expr>, pub slice: Box<Expr>, pub ctx: ExprContext, pub range: TextRange, }
impl Ranged for ExprSubscript { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExprStarred { pub value: Box<Expr>, pub ctx: ExprContext, pub range: TextRange, }
impl Ranged for ExprStarred { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExprName { pub id: Name, pub ctx: ExprContext, pub range: TextRange, }
impl Ranged for ExprName { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExprList { pub elts: Vec<Expr>, pub ctx: ExprContext, pub range: TextRange, }
impl Ranged for ExprList { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExprTuple { pub elts: Vec<Expr>, pub ctx: ExprContext, pub parenthesized: bool, pub range: TextRange, }
impl Ranged for ExprTuple { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExprSlice { pub lower: Option<Box<Expr>>, pub upper: Option<Box<Expr>>, pub step: Option<Box<Expr>>, pub range: TextRange, }
impl Ranged for ExprSlice { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExprIpyEscapeCommand { pub value: Box<str>, pub range: TextRange, }
impl Ranged for ExprIpyEscapeCommand { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ModModule { pub body: Vec<Stmt>, pub range: TextRange, }
impl Ranged for ModModule { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ModExpression { pub body: Box<Expr>, pub range: TextRange, }
impl Ranged for ModExpression { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct Decorator { pub expression: Expr, pub range: TextRange, }
impl Ranged for Decorator { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct Keyword { pub arg: Option<Identifier>, pub value: Expr, pub range: TextRange, }
impl Ranged for Keyword { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct Arguments { pub args: Box<[Expr]>, pub keywords: Box<[Keyword]>, pub range: TextRange, }
impl Ranged for Arguments { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct Alias { pub name: Identifier, pub asname: Option<Identifier>, pub range: TextRange, }
impl Ranged for Alias { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ElifElseClause { pub test: Option<Expr>, pub body: Vec<Stmt>, pub range: TextRange, }
impl Ranged for ElifElseClause { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct WithItem { pub context_expr: Expr, pub optional_vars: Option<Box<Expr>>, pub range: TextRange, }
impl Ranged for WithItem { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct MatchCase { pub pattern: Pattern, pub guard: Option<Box<Expr>>, pub body: Vec<Stmt>, pub range: TextRange, }
impl Ranged for MatchCase { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct Pattern { pub range: TextRange, }
impl Ranged for Pattern { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ExceptHandlerExceptHandler { pub r#type: Option<Box<Expr>>, pub name: Option<Identifier>, pub body: Vec<Stmt>, pub range: TextRange, }
impl Ranged for ExceptHandlerExceptHandler { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct Comprehension { pub target: Expr, pub iter: Expr, pub ifs: Vec<Expr>, pub is_async: bool, pub range: TextRange, }
impl Ranged for Comprehension { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct Parameter { pub name: Identifier, pub annotation: Option<Box<Expr>>, pub range: TextRange, }
impl Ranged for Parameter { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct ParameterWithDefault { pub parameter: Parameter, pub default: Option<Box<Expr>>, pub range: TextRange, }
impl Ranged for ParameterWithDefault { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct Parameters { pub posonlyargs: Vec<ParameterWithDefault>, pub args: Vec<ParameterWithDefault>, pub vararg: Option<Box<Parameter>>, pub kwonlyargs: Vec<ParameterWithDefault>, pub kwarg: Option<Box<Parameter>>, pub range: TextRange, }
impl Ranged for Parameters { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct TypeParams { pub range: TextRange, }
impl Ranged for TypeParams { fn range(&self) -> TextRange { self.range } }
#[derive(Clone, Debug, PartialEq)] pub struct DictItem { pub key: Option<Expr>, pub value: Expr, }
impl Ranged for DictItem { fn range(&self) -> TextRange { self.value.range() } }
#[derive(Clone, Debug, PartialEq)] pub enum Stmt { FunctionDef(StmtFunctionDef), ClassDef(StmtClassDef), Return(StmtReturn), Delete(StmtDelete), TypeAlias(StmtTypeAlias), Assign(StmtAssign), AugAssign(StmtAugAssign), AnnAssign(StmtAnnAssign), For(StmtFor), While(StmtWhile), If(StmtIf), With(StmtWith), Match(StmtMatch), Raise(StmtRaise), Try(StmtTry), Assert(StmtAssert), Import(StmtImport), ImportFrom(StmtImportFrom), Global(StmtGlobal), Nonlocal(StmtNonlocal), Expr(StmtExpr), Pass(StmtPass), Break(StmtBreak), Continue(StmtContinue), IpyEscapeCommand(StmtIpyEscapeCommand), }
impl Ranged for Stmt { fn range(&self) -> TextRange { match self { Self::FunctionDef(n) => n.range(), Self::ClassDef(n) => n.range(), Self::Return(n) => n.range(), Self::Delete(n) => n.range(), Self::TypeAlias(n) => n.range(), Self::Assign(n) => n.range(), Self::AugAssign(n) => n.range(), Self::AnnAssign(n) => n.range(), Self::For(n) => n.range(), Self::While(n) => n.range(), Self::If(n) => n.range(), Self::With(n) => n.range(), Self::Match(n) => n.range(), Self::Raise(n) => n.range(), Self::Try(n) => n.range(), Self::Assert(n) => n.range(), Self::Import(n) => n.range(), Self::ImportFrom(n) => n.range(), Self::Global(n) => n.range(), Self::Nonlocal(n) => n.range(), Self::Expr(n) => n.range(), Self::Pass(n) => n.range(), Self::Break(n) => n.range(), Self::Continue(n) => n.range(), Self::IpyEscapeCommand(n) => n.range(), } } }
impl From<StmtFunctionDef> for Stmt { fn from(n: StmtFunctionDef) -> Self { Self::FunctionDef(n) } }
impl From<StmtClassDef> for Stmt { fn from(n: StmtClassDef) -> Self { Self::ClassDef(n) } }
impl From<StmtReturn> for Stmt { fn from(n: StmtReturn) -> Self { Self::Return(n) } }
impl From<StmtDelete> for Stmt { fn from(n: StmtDelete) -> Self { Self::Delete(n) } }
impl From<StmtTypeAlias> for Stmt { fn from(n: StmtTypeAlias) -> Self { Self::TypeAlias(n) } }
impl From<StmtAssign> for Stmt { fn from(n: StmtAssign) -> Self { Self::Assign(n) } }
impl From<StmtAugAssign> for Stmt { fn from(n: StmtAugAssign) -> Self { Self::AugAssign(n) } }
impl From<StmtAnnAssign> for Stmt { fn from(n: StmtAnnAssign) -> Self { Self::AnnAssign(n) } }
impl From<StmtFor> for Stmt { fn from(n: StmtFor) -> Self { Self::For(n) } }
impl From<StmtWhile> for Stmt { fn from(n: StmtWhile) -> Self { Self::While(n) } }
impl From<StmtIf> for Stmt { fn from(n: StmtIf) -> Self { Self::If(n) } }
impl From<StmtWith> for Stmt { fn from(n: StmtWith) -> Self { Self::With(n) } }
impl From<StmtMatch> for Stmt { fn from(n: StmtMatch) -> Self { Self::Match(n) } }
impl From<StmtRaise> for Stmt { fn from(n: StmtRaise) -> Self { Self::Raise(n) } }
impl From<StmtTry> for Stmt { fn from(n: StmtTry) -> Self { Self::Try(n) } }
impl From<StmtAssert> for Stmt { fn from(n: StmtAssert) -> Self { Self::Assert(n) } }
impl From<StmtImport> for Stmt { fn from(n: StmtImport) -> Self { Self::Import(n) } }
impl From<StmtImportFrom> for Stmt { fn from(n: StmtImportFrom) -> Self { Self::ImportFrom(n) } }
impl From<StmtGlobal> for Stmt { fn from(n: StmtGlobal) -> Self { Self::Global(n) } }
impl From<StmtNonlocal> for Stmt { fn from(n: StmtNonlocal) -> Self { Self::Nonlocal(n) } }
impl From<StmtExpr> for Stmt { fn from(n: StmtExpr) -> Self { Self::Expr(n) } }
impl From<StmtPass> for Stmt { fn from(n: StmtPass) -> Self { Self::Pass(n) } }
impl From<StmtBreak> for Stmt { fn from(n: StmtBreak) -> Self { Self::Break(n) } }
impl From<StmtContinue> for Stmt { fn from(n: StmtContinue) -> Self { Self::Continue(n) } }
impl From<StmtIpyEscapeCommand> for Stmt { fn from(n: StmtIpyEscapeCommand) -> Self { Self::IpyEscapeCommand(n) } }
impl Stmt { pub const fn is_function_def_stmt(&self) -> bool { matches!(self, Self::FunctionDef(_)) } pub fn as_function_def_stmt(&self) -> Option<&StmtFunctionDef> { if let Self::FunctionDef(n) = self { Some(n) } else { None } } pub fn function_def_stmt(self) -> Option<StmtFunctionDef> { if let Self::FunctionDef(n) = self { Some(n) } else { None } } pub fn expect_function_def_stmt(self) -> StmtFunctionDef { if let Self::FunctionDef(n) = self { n } else { panic!() } } pub const fn is_class_def_stmt(&self) -> bool { matches!(self, Self::ClassDef(_)) } pub fn as_class_def_stmt(&self) -> Option<&StmtClassDef> { if let Self::ClassDef(n) = self { Some(n) } else { None } } pub fn class_def_stmt(self) -> Option<StmtClassDef> { if let Self::ClassDef(n) = self { Some(n) } else { None } } pub fn expect_class_def_stmt(self) -> StmtClassDef { if let Self::ClassDef(n) = self { n } else { panic!() } } pub const fn is_return_stmt(&self) -> bool { matches!(self, Self::Return(_)) } pub fn as_return_stmt(&self) -> Option<&StmtReturn> { if let Self::Return(n) = self { Some(n) } else { None } } pub fn return_stmt(self) -> Option<StmtReturn> { if let Self::Return(n) = self { Some(n) } else { None } } pub fn expect_return_stmt(self) -> StmtReturn { if let Self::Return(n) = self { n } else { panic!() } } pub const fn is_delete_stmt(&self) -> bool { matches!(self, Self::Delete(_)) } pub fn as_delete_stmt(&self) -> Option<&StmtDelete> { if let Self::Delete(n) = self { Some(n) } else { None } } pub fn delete_stmt(self) -> Option<StmtDelete> { if let Self::Delete(n) = self { Some(n) } else { None } } pub fn expect_delete_stmt(self) -> StmtDelete { if let Self::Delete(n) = self { n } else { panic!() } } pub const fn is_type_alias_stmt(&self) -> bool { matches!(self, Self::TypeAlias(_)) } pub fn as_type_alias_stmt(&self) -> Option<&StmtTypeAlias> { if let Self::TypeAlias(n) = self { Some(n) } else { None } } pub fn type_alias_stmt(self) -> Option<StmtTypeAlias> { if let Self::TypeAlias(n) = self { Some(n) } else { None } } pub fn expect_type_alias_stmt(self) -> StmtTypeAlias { if let Self::TypeAlias(n) = self { n } else { panic!() } } pub const fn is_assign_stmt(&self) -> bool { matches!(self, Self::Assign(_)) } pub fn as_assign_stmt(&self) -> Option<&StmtAssign> { if let Self::Assign(n) = self { Some(n) } else { None } } pub fn assign_stmt(self) -> Option<StmtAssign> { if let Self::Assign(n) = self { Some(n) } else { None } } pub fn expect_assign_stmt(self) -> StmtAssign { if let Self::Assign(n) = self { n } else { panic!() } } pub const fn is_aug_assign_stmt(&self) -> bool { matches!(self, Self::AugAssign(_)) } pub fn as_aug_assign_stmt(&self) -> Option<&StmtAugAssign> { if let Self::AugAssign(n) = self { Some(n) } else { None } } pub fn aug_assign_stmt(self) -> Option<StmtAugAssign> { if let Self::AugAssign(n) = self { Some(n) } else { None } } pub fn expect_aug_assign_stmt(self) -> StmtAugAssign { if let Self::AugAssign(n) = self { n } else { panic!() } } pub const fn is_ann_assign_stmt(&self) -> bool { matches!(self, Self::AnnAssign(_)) } pub fn as_ann_assign_stmt(&self) -> Option<&StmtAnnAssign> { if let Self::AnnAssign(n) = self { Some(n) } else { None } } pub fn ann_assign_stmt(self) -> Option<StmtAnnAssign> { if let Self::AnnAssign(n) = self { Some(n) } else { None } } pub fn expect_ann_assign_stmt(self) -> StmtAnnAssign { if let Self::AnnAssign(n) = self { n } else { panic!() } } pub const fn is_for_stmt(&self) -> bool { matches!(self, Self::For(_)) } pub fn as_for_stmt(&self) -> Option<&StmtFor> { if let Self::For(n) = self { Some(n) } else { None } } pub fn for_stmt(self) -> Option<StmtFor> { if let Self::For(n) = self { Some(n) } else { None } } pub fn expect_for_stmt(self) -> StmtFor { if let Self::For(n) = self { n } else { panic!() } } pub const fn is_while_stmt(&self) -> bool { matches!(self, Self::While(_)) } pub fn as_while_stmt(&self) -> Option<&StmtWhile> { if let Self::While(n) = self { Some(n) } else { None } } pub fn while_stmt(self) -> Option<StmtWhile> { if let Self::While(n) = self { Some(n) } else { None } } pub fn expect_while_stmt(self) -> StmtWhile { if let Self::While(n) = self { n } else { panic!() } } pub const fn is_if_stmt(&self) -> bool { matches!(self, Self::If(_)) } pub fn as_if_stmt(&self) -> Option<&StmtIf> { if let Self::If(n) = self { Some(n) } else { None } } pub fn if_stmt(self) -> Option<StmtIf> { if let Self::If(n) = self { Some(n) } else { None } } pub fn expect_if_stmt(self) -> StmtIf { if let Self::If(n) = self { n } else { panic!() } } pub const fn is_with_stmt(&self) -> bool { matches!(self, Self::With(_)) } pub fn as_with_stmt(&self) -> Option<&StmtWith> { if let Self::With(n) = self { Some(n) } else { None } } pub fn with_stmt(self) -> Option<StmtWith> { if let Self::With(n) = self { Some(n) } else { None } } pub fn expect_with_stmt(self) -> StmtWith { if let Self::With(n) = self { n } else { panic!() } } pub const fn is_match_stmt(&self) -> bool { matches!(self, Self::Match(_)) } pub fn as_match_stmt(&self) -> Option<&StmtMatch> { if let Self::Match(n) = self { Some(n) } else { None } } pub fn match_stmt(self) -> Option<StmtMatch> { if let Self::Match(n) = self { Some(n) } else { None } } pub fn expect_match_stmt(self) -> StmtMatch { if let Self::Match(n) = self { n } else { panic!() } } pub const fn is_raise_stmt(&self) -> bool { matches!(self, Self::Raise(_)) } pub fn as_raise_stmt(&self) -> Option<&StmtRaise> { if let Self::Raise(n) = self { Some(n) } else { None } } pub fn raise_stmt(self) -> Option<StmtRaise> { if let Self::Raise(n) = self { Some(n) } else { None } } pub fn expect_raise_stmt(self) -> StmtRaise { if let Self::Raise(n) = self { n } else { panic!() } } pub const fn is_try_stmt(&self) -> bool { matches!(self, Self::Try(_)) } pub fn as_try_stmt(&self) -> Option<&StmtTry> { if let Self::Try(n) = self { Some(n) } else { None } } pub fn try_stmt(self) -> Option<StmtTry> { if let Self::Try(n) = self { Some(n) } else { None } } pub fn expect_try_stmt(self) -> StmtTry { if let Self::Try(n) = self { n } else { panic!() } } pub const fn is_assert_stmt(&self) -> bool { matches!(self, Self::Assert(_)) } pub fn as_assert_stmt(&self) -> Option<&StmtAssert> { if let Self::Assert(n) = self { Some(n) } else { None } } pub fn assert_stmt(self) -> Option<StmtAssert> { if let Self::Assert(n) = self { Some(n) } else { None } } pub fn expect_assert_stmt(self) -> StmtAssert { if let Self::Assert(n) = self { n } else { panic!() } } pub const fn is_import_stmt(&self) -> bool { matches!(self, Self::Import(_)) } pub fn as_import_stmt(&self) -> Option<&StmtImport> { if let Self::Import(n) = self { Some(n) } else { None } } pub fn import_stmt(self) -> Option<StmtImport> { if let Self::Import(n) = self { Some(n) } else { None } } pub fn expect_import_stmt(self) -> StmtImport { if let Self::Import(n) = self { n } else { panic!() } } pub const fn is_import_from_stmt(&self) -> bool { matches!(self, Self::ImportFrom(_)) } pub fn as_import_from_stmt(&self) -> Option<&StmtImportFrom> { if let Self::ImportFrom(n) = self { Some(n) } else { None } } pub fn import_from_stmt(self) -> Option<StmtImportFrom> { if let Self::ImportFrom(n) = self { Some(n) } else { None } } pub fn expect_import_from_stmt(self) -> StmtImportFrom { if let Self::ImportFrom(n) = self { n } else { panic!() } } pub const fn is_global_stmt(&self) -> bool { matches!(self, Self::Global(_)) } pub fn as_global_stmt(&self) -> Option<&StmtGlobal> { if let Self::Global(n) = self { Some(n) } else { None } } pub fn global_stmt(self) -> Option<StmtGlobal> { if let Self::Global(n) = self { Some(n) } else { None } } pub fn expect_global_stmt(self) -> StmtGlobal { if let Self::Global(n) = self { n } else { panic!() } } pub const fn is_nonlocal_stmt(&self) -> bool { matches!(self, Self::Nonlocal(_)) } pub fn as_nonlocal_stmt(&self) -> Option<&StmtNonlocal> { if let Self::Nonlocal(n) = self { Some(n) } else { None } } pub fn nonlocal_stmt(self) -> Option<StmtNonlocal> { if let Self::Nonlocal(n) = self { Some(n) } else { None } } pub fn expect_nonlocal_stmt(self) -> StmtNonlocal { if let Self::Nonlocal(n) = self { n } else { panic!() } } pub const fn is_expr_stmt(&self) -> bool { matches!(self, Self::Expr(_)) } pub fn as_expr_stmt(&self) -> Option<&StmtExpr> { if let Self::Expr(n) = self { Some(n) } else { None } } pub fn expr_stmt(self) -> Option<StmtExpr> { if let Self::Expr(n) = self { Some(n) } else { None } } pub fn expect_expr_stmt(self) -> StmtExpr { if let Self::Expr(n) = self { n } else { panic!() } } pub const fn is_pass_stmt(&self) -> bool { matches!(self, Self::Pass(_)) } pub fn as_pass_stmt(&self) -> Option<&StmtPass> { if let Self::Pass(n) = self { Some(n) } else { None } } pub fn pass_stmt(self) -> Option<StmtPass> { if let Self::Pass(n) = self { Some(n) } else { None } } pub fn expect_pass_stmt(self) -> StmtPass { if let Self::Pass(n) = self { n } else { panic!() } } pub const fn is_break_stmt(&self) -> bool { matches!(self, Self::Break(_)) } pub fn as_break_stmt(&self) -> Option<&StmtBreak> { if let Self::Break(n) = self { Some(n) } else { None } } pub fn break_stmt(self) -> Option<StmtBreak> { if let Self::Break(n) = self { Some(n) } else { None } } pub fn expect_break_stmt(self) -> StmtBreak { if let Self::Break(n) = self { n } else { panic!() } } pub const fn is_continue_stmt(&self) -> bool { matches!(self, Self::Continue(_)) } pub fn as_continue_stmt(&self) -> Option<&StmtContinue> { if let Self::Continue(n) = self { Some(n) } else { None } } pub fn continue_stmt(self) -> Option<StmtContinue> { if let Self::Continue(n) = self { Some(n) } else { None } } pub fn expect_continue_stmt(self) -> StmtContinue { if let Self::Continue(n) = self { n } else { panic!() } } pub const fn is_ipy_escape_command_stmt(&self) -> bool { matches!(self, Self::IpyEscapeCommand(_)) } pub fn as_ipy_escape_command_stmt(&self) -> Option<&StmtIpyEscapeCommand> { if let Self::IpyEscapeCommand(n) = self { Some(n) } else { None } } pub fn ipy_escape_command_stmt(self) -> Option<StmtIpyEscapeCommand> { if let Self::IpyEscapeCommand(n) = self { Some(n) } else { None } } pub fn expect_ipy_escape_command_stmt(self) -> StmtIpyEscapeCommand { if let Self::IpyEscapeCommand(n) = self { n } else { panic!() } } }
#[derive(Clone, Debug, PartialEq)] pub enum Expr { BoolOp(ExprBoolOp), Named(ExprNamed), BinOp(ExprBinOp), UnaryOp(ExprUnaryOp), Lambda(ExprLambda), If(ExprIf), Dict(ExprDict), Set(ExprSet), ListComp(ExprListComp), SetComp(ExprSetComp), DictComp(ExprDictComp), Generator(ExprGenerator), Await(ExprAwait), Yield(ExprYield), YieldFrom(ExprYieldFrom), Compare(ExprCompare), Call(ExprCall), FString(ExprFString), TString(ExprTString), StringLiteral(ExprStringLiteral), BytesLiteral(ExprBytesLiteral), NumberLiteral(ExprNumberLiteral), BooleanLiteral(ExprBooleanLiteral), NoneLiteral(ExprNoneLiteral), EllipsisLiteral(ExprEllipsisLiteral), Attribute(ExprAttribute), Subscript(ExprSubscript), Starred(ExprStarred), Name(ExprName), List(ExprList), Tuple(ExprTuple), Slice(ExprSlice), IpyEscapeCommand(ExprIpyEscapeCommand), }
impl Ranged for Expr { fn range(&self) -> TextRange { match self { Self::BoolOp(n) => n.range(), Self::Named(n) => n.range(), Self::BinOp(n) => n.range(), Self::UnaryOp(n) => n.range(), Self::Lambda(n) => n.range(), Self::If(n) => n.range(), Self::Dict(n) => n.range(), Self::Set(n) => n.range(), Self::ListComp(n) => n.range(), Self::SetComp(n) => n.range(), Self::DictComp(n) => n.range(), Self::Generator(n) => n.range(), Self::Await(n) => n.range(), Self::Yield(n) => n.range(), Self::YieldFrom(n) => n.range(), Self::Compare(n) => n.range(), Self::Call(n) => n.range(), Self::FString(n) => n.range(), Self::TString(n) => n.range(), Self::StringLiteral(n) => n.range(), Self::BytesLiteral(n) => n.range(), Self::NumberLiteral(n) => n.range(), Self::BooleanLiteral(n) => n.range(), Self::NoneLiteral(n) => n.range(), Self::EllipsisLiteral(n) => n.range(), Self::Attribute(n) => n.range(), Self::Subscript(n) => n.range(), Self::Starred(n) => n.range(), Self::Name(n) => n.range(), Self::List(n) => n.range(), Self::Tuple(n) => n.range(), Self::Slice(n) => n.range(), Self::IpyEscapeCommand(n) => n.range(), } } }
impl From<ExprBoolOp> for Expr { fn from(n: ExprBoolOp) -> Self { Self::BoolOp(n) } }
impl From<ExprNamed> for Expr { fn from(n: ExprNamed) -> Self { Self::Named(n) } }
impl From<ExprBinOp> for Expr { fn from(n: ExprBinOp) -> Self { Self::BinOp(n) } }
impl From<ExprUnaryOp> for Expr { fn from(n: ExprUnaryOp) -> Self { Self::UnaryOp(n) } }
impl From<ExprLambda> for Expr { fn from(n: ExprLambda) -> Self { Self::Lambda(n) } }
impl From<ExprIf> for Expr { fn from(n: ExprIf) -> Self { Self::If(n) } }
impl From<ExprDict> for Expr { fn from(n: ExprDict) -> Self { Self::Dict(n) } }
impl From<ExprSet> for Expr { fn from(n: ExprSet) -> Self { Self::Set(n) } }
impl From<ExprListComp> for Expr { fn from(n: ExprListComp) -> Self { Self::ListComp(n) } }
impl From<ExprSetComp> for Expr { fn from(n: ExprSetComp) -> Self { Self::SetComp(n) } }
impl From<ExprDictComp> for Expr { fn from(n: ExprDictComp) -> Self { Self::DictComp(n) } }
impl From<ExprGenerator> for Expr { fn from(n: ExprGenerator) -> Self { Self::Generator(n) } }
impl From<ExprAwait> for Expr { fn from(n: ExprAwait) -> Self { Self::Await(n) } }
impl From<ExprYield> for Expr { fn from(n: ExprYield) -> Self { Self::Yield(n) } }
impl From<ExprYieldFrom> for Expr { fn from(n: ExprYieldFrom) -> Self { Self::YieldFrom(n) } }
impl From<ExprCompare> for Expr { fn from(n: ExprCompare) -> Self { Self::Compare(n) } }
impl From<ExprCall> for Expr { fn from(n: ExprCall) -> Self { Self::Call(n) } }
impl From<ExprFString> for Expr { fn from(n: ExprFString) -> Self { Self::FString(n) } }
impl From<ExprTString> for Expr { fn from(n: ExprTString) -> Self { Self::TString(n) } }
impl From<ExprStringLiteral> for Expr { fn from(n: ExprStringLiteral) -> Self { Self::StringLiteral(n) } }
impl From<ExprBytesLiteral> for Expr { fn from(n: ExprBytesLiteral) -> Self { Self::BytesLiteral(n) } }
impl From<ExprNumberLiteral> for Expr { fn from(n: ExprNumberLiteral) -> Self { Self::NumberLiteral(n) } }
impl From<ExprBooleanLiteral> for Expr { fn from(n: ExprBooleanLiteral) -> Self { Self::BooleanLiteral(n) } }
impl From<ExprNoneLiteral> for Expr { fn from(n: ExprNoneLiteral) -> Self { Self::NoneLiteral(n) } }
impl From<ExprEllipsisLiteral> for Expr { fn from(n: ExprEllipsisLiteral) -> Self { Self::EllipsisLiteral(n) } }
impl From<ExprAttribute> for Expr { fn from(n: ExprAttribute) -> Self { Self::Attribute(n) } }
impl From<ExprSubscript> for Expr { fn from(n: ExprSubscript) -> Self { Self::Subscript(n) } }
impl From<ExprStarred> for Expr { fn from(n: ExprStarred) -> Self { Self::Starred(n) } }
impl From<ExprName> for Expr { fn from(n: ExprName) -> Self { Self::Name(n) } }
impl From<ExprList> for Expr { fn from(n: ExprList) -> Self { Self::List(n) } }
impl From<ExprTuple> for Expr { fn from(n: ExprTuple) -> Self { Self::Tuple(n) } }
impl From<ExprSlice> for Expr { fn from(n: ExprSlice) -> Self { Self::Slice(n) } }
impl From<ExprIpyEscapeCommand> for Expr { fn from(n: ExprIpyEscapeCommand) -> Self { Self::IpyEscapeCommand(n) } }
impl Expr { pub const fn is_bool_op_expr(&self) -> bool { matches!(self, Self::BoolOp(_)) } pub fn as_bool_op_expr(&self) -> Option<&ExprBoolOp> { if let Self::BoolOp(n) = self { Some(n) } else { None } } pub fn bool_op_expr(self) -> Option<ExprBoolOp> { if let Self::BoolOp(n) = self { Some(n) } else { None } } pub fn expect_bool_op_expr(self) -> ExprBoolOp { if let Self::BoolOp(n) = self { n } else { panic!() } } pub const fn is_named_expr(&self) -> bool { matches!(self, Self::Named(_)) } pub fn as_named_expr(&self) -> Option<&ExprNamed> { if let Self::Named(n) = self { Some(n) } else { None } } pub fn named_expr(self) -> Option<ExprNamed> { if let Self::Named(n) = self { Some(n) } else { None } } pub fn expect_named_expr(self) -> ExprNamed { if let Self::Named(n) = self { n } else { panic!() } } pub const fn is_bin_op_expr(&self) -> bool { matches!(self, Self::BinOp(_)) } pub fn as_bin_op_expr(&self) -> Option<&ExprBinOp> { if let Self::BinOp(n) = self { Some(n) } else { None } } pub fn bin_op_expr(self) -> Option<ExprBinOp> { if let Self::BinOp(n) = self { Some(n) } else { None } } pub fn expect_bin_op_expr(self) -> ExprBinOp { if let Self::BinOp(n) = self { n } else { panic!() } } pub const fn is_unary_op_expr(&self) -> bool { matches!(self, Self::UnaryOp(_)) } pub fn as_unary_op_expr(&self) -> Option<&ExprUnaryOp> { if let Self::UnaryOp(n) = self { Some(n) } else { None } } pub fn unary_op_expr(self) -> Option<ExprUnaryOp> { if let Self::UnaryOp(n) = self { Some(n) } else { None } } pub fn expect_unary_op_expr(self) -> ExprUnaryOp { if let Self::UnaryOp(n) = self { n } else { panic!() } } pub const fn is_lambda_expr(&self) -> bool { matches!(self, Self::Lambda(_)) } pub fn as_lambda_expr(&self) -> Option<&ExprLambda> { if let Self::Lambda(n) = self { Some(n) } else { None } } pub fn lambda_expr(self) -> Option<ExprLambda> { if let Self::Lambda(n) = self { Some(n) } else { None } } pub fn expect_lambda_expr(self) -> ExprLambda { if let Self::Lambda(n) = self { n } else { panic!() } } pub const fn is_if_expr(&self) -> bool { matches!(self, Self::If(_)) } pub fn as_if_expr(&self) -> Option<&ExprIf> { if let Self::If(n) = self { Some(n) } else { None } } pub fn if_expr(self) -> Option<ExprIf> { if let Self::If(n) = self { Some(n) } else { None } } pub fn expect_if_expr(self) -> ExprIf { if let Self::If(n) = self { n } else { panic!() } } pub const fn is_dict_expr(&self) -> bool { matches!(self, Self::Dict(_)) } pub fn as_dict_expr(&self) -> Option<&ExprDict> { if let Self::Dict(n) = self { Some(n) } else { None } } pub fn dict_expr(self) -> Option<ExprDict> { if let Self::Dict(n) = self { Some(n) } else { None } } pub fn expect_dict_expr(self) -> ExprDict { if let Self::Dict(n) = self { n } else { panic!() } } pub const fn is_set_expr(&self) -> bool { matches!(self, Self::Set(_)) } pub fn as_set_expr(&self) -> Option<&ExprSet> { if let Self::Set(n) = self { Some(n) } else { None } } pub fn set_expr(self) -> Option<ExprSet> { if let Self::Set(n) = self { Some(n) } else { None } } pub fn expect_set_expr(self) -> ExprSet { if let Self::Set(n) = self { n } else { panic!() } } pub const fn is_list_comp_expr(&self) -> bool { matches!(self, Self::ListComp(_)) } pub fn as_list_comp_expr(&self) -> Option<&ExprListComp> { if let Self::ListComp(n) = self { Some(n) } else { None } } pub fn list_comp_expr(self) -> Option<ExprListComp> { if let Self::ListComp(n) = self { Some(n) } else { None } } pub fn expect_list_comp_expr(self) -> ExprListComp { if let Self::ListComp(n) = self { n } else { panic!() } } pub const fn is_set_comp_expr(&self) -> bool { matches!(self, Self::SetComp(_)) } pub fn as_set_comp_expr(&self) -> Option<&ExprSetComp> { if let Self::SetComp(n) = self { Some(n) } else { None } } pub fn set_comp_expr(self) -> Option<ExprSetComp> { if let Self::SetComp(n) = self { Some(n) } else { None } } pub fn expect_set_comp_expr(self) -> ExprSetComp { if let Self::SetComp(n) = self { n } else { panic!() } } pub const fn is_dict_comp_expr(&self) -> bool { matches!(self, Self::DictComp(_)) } pub fn as_dict_comp_expr(&self) -> Option<&ExprDictComp> { if let Self::DictComp(n) = self { Some(n) } else { None } } pub fn dict_comp_expr(self) -> Option<ExprDictComp> { if let Self::DictComp(n) = self { Some(n) } else { None } } pub fn expect_dict_comp_expr(self) -> ExprDictComp { if let Self::DictComp(n) = self { n } else { panic!() } } pub const fn is_generator_expr(&self) -> bool { matches!(self, Self::Generator(_)) } pub fn as_generator_expr(&self) -> Option<&ExprGenerator> { if let Self::Generator(n) = self { Some(n) } else { None } } pub fn generator_expr(self) -> Option<ExprGenerator> { if let Self::Generator(n) = self { Some(n) } else { None } } pub fn expect_generator_expr(self) -> ExprGenerator { if let Self::Generator(n) = self { n } else { panic!() } } pub const fn is_await_expr(&self) -> bool { matches!(self, Self::Await(_)) } pub fn as_await_expr(&self) -> Option<&ExprAwait> { if let Self::Await(n) = self { Some(n) } else { None } } pub fn await_expr(self) -> Option<ExprAwait> { if let Self::Await(n) = self { Some(n) } else { None } } pub fn expect_await_expr(self) -> ExprAwait { if let Self::Await(n) = self { n } else { panic!() } } pub const fn is_yield_expr(&self) -> bool { matches!(self, Self::Yield(_)) } pub fn as_yield_expr(&self) -> Option<&ExprYield> { if let Self::Yield(n) = self { Some(n) } else { None } } pub fn yield_expr(self) -> Option<ExprYield> { if let Self::Yield(n) = self { Some(n) } else { None } } pub fn expect_yield_expr(self) -> ExprYield { if let Self::Yield(n) = self { n } else { panic!() } } pub const fn is_yield_from_expr(&self) -> bool { matches!(self, Self::YieldFrom(_)) } pub fn as_yield_from_expr(&self) -> Option<&ExprYieldFrom> { if let Self::YieldFrom(n) = self { Some(n) } else { None } } pub fn yield_from_expr(self) -> Option<ExprYieldFrom> { if let Self::YieldFrom(n) = self { Some(n) } else { None } } pub fn expect_yield_from_expr(self) -> ExprYieldFrom { if let Self::YieldFrom(n) = self { n } else { panic!() } } pub const fn is_compare_expr(&self) -> bool { matches!(self, Self::Compare(_)) } pub fn as_compare_expr(&self) -> Option<&ExprCompare> { if let Self::Compare(n) = self { Some(n) } else { None } } pub fn compare_expr(self) -> Option<ExprCompare> { if let Self::Compare(n) = self { Some(n) } else { None } } pub fn expect_compare_expr(self) -> ExprCompare { if let Self::Compare(n) = self { n } else { panic!() } } pub const fn is_call_expr(&self) -> bool { matches!(self, Self::Call(_)) } pub fn as_call_expr(&self) -> Option<&ExprCall> { if let Self::Call(n) = self { Some(n) } else { None } } pub fn call_expr(self) -> Option<ExprCall> { if let Self::Call(n) = self { Some(n) } else { None } } pub fn expect_call_expr(self) -> ExprCall { if let Self::Call(n) = self { n } else { panic!() } } pub const fn is_f_string_expr(&self) -> bool { matches!(self, Self::FString(_)) } pub fn as_f_string_expr(&self) -> Option<&ExprFString> { if let Self::FString(n) = self { Some(n) } else { None } } pub fn f_string_expr(self) -> Option<ExprFString> { if let Self::FString(n) = self { Some(n) } else { None } } pub fn expect_f_string_expr(self) -> ExprFString { if let Self::FString(n) = self { n } else { panic!() } } pub const fn is_t_string_expr(&self) -> bool { matches!(self, Self::TString(_)) } pub fn as_t_string_expr(&self) -> Option<&ExprTString> { if let Self::TString(n) = self { Some(n) } else { None } } pub fn t_string_expr(self) -> Option<ExprTString> { if let Self::TString(n) = self { Some(n) } else { None } } pub fn expect_t_string_expr(self) -> ExprTString { if let Self::TString(n) = self { n } else { panic!() } } pub const fn is_string_literal_expr(&self) -> bool { matches!(self, Self::StringLiteral(_)) } pub fn as_string_literal_expr(&self) -> Option<&ExprStringLiteral> { if let Self::StringLiteral(n) = self { Some(n) } else { None } } pub fn string_literal_expr(self) -> Option<ExprStringLiteral> { if let Self::StringLiteral(n) = self { Some(n) } else { None } } pub fn expect_string_literal_expr(self) -> ExprStringLiteral { if let Self::StringLiteral(n) = self { n } else { panic!() } } pub const fn is_bytes_literal_expr(&self) -> bool { matches!(self, Self::BytesLiteral(_)) } pub fn as_bytes_literal_expr(&self) -> Option<&ExprBytesLiteral> { if let Self::BytesLiteral(n) = self { Some(n) } else { None } } pub fn bytes_literal_expr(self) -> Option<ExprBytesLiteral> { if let Self::BytesLiteral(n) = self { Some(n) } else { None } } pub fn expect_bytes_literal_expr(self) -> ExprBytesLiteral { if let Self::BytesLiteral(n) = self { n } else { panic!() } } pub const fn is_number_literal_expr(&self) -> bool { matches!(self, Self::NumberLiteral(_)) } pub fn as_number_literal_expr(&self) -> Option<&ExprNumberLiteral> { if let Self::NumberLiteral(n) = self { Some(n) } else { None } } pub fn number_literal_expr(self) -> Option<ExprNumberLiteral> { if let Self::NumberLiteral(n) = self { Some(n) } else { None } } pub fn expect_number_literal_expr(self) -> ExprNumberLiteral { if let Self::NumberLiteral(n) = self { n } else { panic!() } } pub const fn is_boolean_literal_expr(&self) -> bool { matches!(self, Self::BooleanLiteral(_)) } pub fn as_boolean_literal_expr(&self) -> Option<&ExprBooleanLiteral> { if let Self::BooleanLiteral(n) = self { Some(n) } else { None } } pub fn boolean_literal_expr(self) -> Option<ExprBooleanLiteral> { if let Self::BooleanLiteral(n) = self { Some(n) } else { None } } pub fn expect_boolean_literal_expr(self) -> ExprBooleanLiteral { if let Self::BooleanLiteral(n) = self { n } else { panic!() } } pub const fn is_none_literal_expr(&self) -> bool { matches!(self, Self::NoneLiteral(_)) } pub fn as_none_literal_expr(&self) -> Option<&ExprNoneLiteral> { if let Self::NoneLiteral(n) = self { Some(n) } else { None } } pub fn none_literal_expr(self) -> Option<ExprNoneLiteral> { if let Self::NoneLiteral(n) = self { Some(n) } else { None } } pub fn expect_none_literal_expr(self) -> ExprNoneLiteral { if let Self::NoneLiteral(n) = self { n } else { panic!() } } pub const fn is_ellipsis_literal_expr(&self) -> bool { matches!(self, Self::EllipsisLiteral(_)) } pub fn as_ellipsis_literal_expr(&self) -> Option<&ExprEllipsisLiteral> { if let Self::EllipsisLiteral(n) = self { Some(n) } else { None } } pub fn ellipsis_literal_expr(self) -> Option<ExprEllipsisLiteral> { if let Self::EllipsisLiteral(n) = self { Some(n) } else { None } } pub fn expect_ellipsis_literal_expr(self) -> ExprEllipsisLiteral { if let Self::EllipsisLiteral(n) = self { n } else { panic!() } } pub const fn is_attribute_expr(&self) -> bool { matches!(self, Self::Attribute(_)) } pub fn as_attribute_expr(&self) -> Option<&ExprAttribute> { if let Self::Attribute(n) = self { Some(n) } else { None } } pub fn attribute_expr(self) -> Option<ExprAttribute> { if let Self::Attribute(n) = self { Some(n) } else { None } } pub fn expect_attribute_expr(self) -> ExprAttribute { if let Self::Attribute(n) = self { n } else { panic!() } } pub const fn is_subscript_expr(&self) -> bool { matches!(self, Self::Subscript(_)) } pub fn as_subscript_expr(&self) -> Option<&ExprSubscript> { if let Self::Subscript(n) = self { Some(n) } else { None } } pub fn subscript_expr(self) -> Option<ExprSubscript> { if let Self::Subscript(n) = self { Some(n) } else { None } } pub fn expect_subscript_expr(self) -> ExprSubscript { if let Self::Subscript(n) = self { n } else { panic!() } } pub const fn is_starred_expr(&self) -> bool { matches!(self, Self::Starred(_)) } pub fn as_starred_expr(&self) -> Option<&ExprStarred> { if let Self::Starred(n) = self { Some(n) } else { None } } pub fn starred_expr(self) -> Option<ExprStarred> { if let Self::Starred(n) = self { Some(n) } else { None } } pub fn expect_starred_expr(self) -> ExprStarred { if let Self::Starred(n) = self { n } else { panic!() } } pub const fn is_name_expr(&self) -> bool { matches!(self, Self::Name(_)) } pub fn as_name_expr(&self) -> Option<&ExprName> { if let Self::Name(n) = self { Some(n) } else { None } } pub fn name_expr(self) -> Option<ExprName> { if let Self::Name(n) = self { Some(n) } else { None } } pub fn expect_name_expr(self) -> ExprName { if let Self::Name(n) = self { n } else { panic!() } } pub const fn is_list_expr(&self) -> bool { matches!(self, Self::List(_)) } pub fn as_list_expr(&self) -> Option<&ExprList> { if let Self::List(n) = self { Some(n) } else { None } } pub fn list_expr(self) -> Option<ExprList> { if let Self::List(n) = self { Some(n) } else { None } } pub fn expect_list_expr(self) -> ExprList { if let Self::List(n) = self { n } else { panic!() } } pub const fn is_tuple_expr(&self) -> bool { matches!(self, Self::Tuple(_)) } pub fn as_tuple_expr(&self) -> Option<&ExprTuple> { if let Self::Tuple(n) = self { Some(n) } else { None } } pub fn tuple_expr(self) -> Option<ExprTuple> { if let Self::Tuple(n) = self { Some(n) } else { None } } pub fn expect_tuple_expr(self) -> ExprTuple { if let Self::Tuple(n) = self { n } else { panic!() } } pub const fn is_slice_expr(&self) -> bool { matches!(self, Self::Slice(_)) } pub fn as_slice_expr(&self) -> Option<&ExprSlice> { if let Self::Slice(n) = self { Some(n) } else { None } } pub fn slice_expr(self) -> Option<ExprSlice> { if let Self::Slice(n) = self { Some(n) } else { None } } pub fn expect_slice_expr(self) -> ExprSlice { if let Self::Slice(n) = self { n } else { panic!() } } pub const fn is_ipy_escape_command_expr(&self) -> bool { matches!(self, Self::IpyEscapeCommand(_)) } pub fn as_ipy_escape_command_expr(&self) -> Option<&ExprIpyEscapeCommand> { if let Self::IpyEscapeCommand(n) = self { Some(n) } else { None } } pub fn ipy_escape_command_expr(self) -> Option<ExprIpyEscapeCommand> { if let Self::IpyEscapeCommand(n) = self { Some(n) } else { None } } pub fn expect_ipy_escape_command_expr(self) -> ExprIpyEscapeCommand { if let Self::IpyEscapeCommand(n) = self { n } else { panic!() } } }
#[derive(Clone, Debug, PartialEq)] pub enum Mod { Module(ModModule), Expression(ModExpression), }
impl Ranged for Mod { fn range(&self) -> TextRange { match self { Self::Module(n) => n.range(), Self::Expression(n) => n.range(), } } }
impl From<ModModule> for Mod { fn from(n: ModModule) -> Self { Self::Module(n) } }
impl From<ModExpression> for Mod { fn from(n: ModExpression) -> Self { Self::Expression(n) } }
impl Mod { pub const fn is_module(&self) -> bool { matches!(self, Self::Module(_)) } pub fn as_module(&self) -> Option<&ModModule> { if let Self::Module(n) = self { Some(n) } else { None } } pub fn module(self) -> Option<ModModule> { if let Self::Module(n) = self { Some(n) } else { None } } pub fn expect_module(self) -> ModModule { if let Self::Module(n) = self { n } else { panic!() } } pub const fn is_expression(&self) -> bool { matches!(self, Self::Expression(_)) } pub fn as_expression(&self) -> Option<&ModExpression> { if let Self::Expression(n) = self { Some(n) } else { None } } pub fn expression(self) -> Option<ModExpression> { if let Self::Expression(n) = self { Some(n) } else { None } } pub fn expect_expression(self) -> ModExpression { if let Self::Expression(n) = self { n } else { panic!() } } }
#[derive(Clone, Debug, PartialEq)] pub enum ExceptHandler { ExceptHandler(ExceptHandlerExceptHandler), }
impl Ranged for ExceptHandler { fn range(&self) -> TextRange { match self { Self::ExceptHandler(n) => n.range(), } } }
impl From<ExceptHandlerExceptHandler> for ExceptHandler { fn from(n: ExceptHandlerExceptHandler) -> Self { Self::ExceptHandler(n) } }
impl ExceptHandler { pub const fn is_except_handler(&self) -> bool { matches!(self, Self::ExceptHandler(_)) } pub fn as_except_handler(&self) -> Option<&ExceptHandlerExceptHandler> { if let Self::ExceptHandler(n) = self { Some(n) } else { None } } pub fn except_handler(self) -> Option<ExceptHandlerExceptHandler> { if let Self::ExceptHandler(n) = self { Some(n) } else { None } } pub fn expect_except_handler(self) -> ExceptHandlerExceptHandler { if let Self::ExceptHandler(n) = self { n } else { panic!() } } }

pub type Suite = Vec<Stmt>;
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)] pub struct Name(Box<str>);
impl Name { pub fn new(s: impl AsRef<str>) -> Self { Self(s.as_ref().into()) } pub fn new_static(s: &'static str) -> Self { Self(s.into()) } pub fn as_str(&self) -> &str { &self.0 } pub fn empty() -> Self { Self::default() } }
impl Deref for Name { type Target = str; fn deref(&self) -> &str { &self.0 } }
impl AsRef<str> for Name { fn as_ref(&self) -> &str { &self.0 } }
impl std::borrow::Borrow<str> for Name { fn borrow(&self) -> &str { &self.0 } }
impl fmt::Display for Name { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl PartialEq<str> for Name { fn eq(&self, o: &str) -> bool { &*self.0 == o } }
impl PartialEq<&str> for Name { fn eq(&self, o: &&str) -> bool { &*self.0 == *o } }
impl PartialEq<String> for Name { fn eq(&self, o: &String) -> bool { &*self.0 == o.as_str() } }
impl From<String> for Name { fn from(s: String) -> Self { Self(s.into()) } }
impl From<&str> for Name { fn from(s: &str) -> Self { Self(s.into()) } }
impl From<Name> for String { fn from(s: Name) -> String { s.0.into() } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)] pub struct Identifier { pub id: Name, pub range: TextRange }
impl Identifier { pub fn new(id: impl Into<Name>, range: TextRange) -> Self { Self { id: id.into(), range } } pub fn id(&self) -> &Name { &self.id } pub fn is_valid(&self) -> bool { !self.id.is_empty() } pub fn as_str(&self) -> &str { self.id.as_str() } }
impl Ranged for Identifier { fn range(&self) -> TextRange { self.range } }
impl Deref for Identifier { type Target = str; fn deref(&self) -> &str { self.id.as_str() } }
impl AsRef<str> for Identifier { fn as_ref(&self) -> &str { self.id.as_str() } }
impl fmt::Display for Identifier { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(self.id.as_str()) } }
impl PartialEq<str> for Identifier { fn eq(&self, o: &str) -> bool { self.as_str() == o } }
impl PartialEq<&str> for Identifier { fn eq(&self, o: &&str) -> bool { self.as_str() == *o } }
impl PartialEq<String> for Identifier { fn eq(&self, o: &String) -> bool { self.as_str() == o } }
impl From<Identifier> for Name { fn from(i: Identifier) -> Name { i.id } }
#[derive(Clone, Debug, PartialEq)] pub enum Number { Int(Int), Float(f64), Complex { real: f64, imag: f64 } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)] pub struct Int(Box<str>);
impl Int { pub fn as_u8(&self) -> Option<u8> { self.0.parse().ok() } pub fn as_u16(&self) -> Option<u16> { self.0.parse().ok() } pub fn as_u32(&self) -> Option<u32> { self.0.parse().ok() } pub fn as_u64(&self) -> Option<u64> { self.0.parse().ok() } pub fn as_usize(&self) -> Option<usize> { self.0.parse().ok() } pub fn as_i8(&self) -> Option<i8> { self.0.parse().ok() } pub fn as_i16(&self) -> Option<i16> { self.0.parse().ok() } pub fn as_i32(&self) -> Option<i32> { self.0.parse().ok() } pub fn as_i64(&self) -> Option<i64> { self.0.parse().ok() } }
impl fmt::Display for Int { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
#[derive(Clone, Debug, PartialEq)] pub struct StringLiteral { pub value: Box<str>, pub range: TextRange }
impl StringLiteral { pub fn as_str(&self) -> &str { &self.value } }
#[derive(Clone, Debug, PartialEq)] pub struct StringLiteralValue { parts: Vec<StringLiteral>, s: String }
impl StringLiteralValue { pub fn to_str(&self) -> &str { &self.s } pub fn is_empty(&self) -> bool { self.s.is_empty() } pub fn len(&self) -> usize { self.s.len() } pub fn is_implicit_concatenated(&self) -> bool { self.parts.len() > 1 } pub fn iter(&self) -> std::slice::Iter<'_, StringLiteral> { self.parts.iter() } pub fn chars(&self) -> impl Iterator<Item = char> + '_ { self.s.chars() } }
impl fmt::Display for StringLiteralValue { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.s) } }
impl PartialEq<str> for StringLiteralValue { fn eq(&self, o: &str) -> bool { self.s == o } }
impl PartialEq<&str> for StringLiteralValue { fn eq(&self, o: &&str) -> bool { self.s == *o } }
#[derive(Clone, Debug, PartialEq)] pub struct BytesLiteralValue { parts: Vec<u8> }
impl BytesLiteralValue { pub fn bytes(&self) -> impl Iterator<Item = u8> + '_ { self.parts.iter().copied() } pub fn is_empty(&self) -> bool { self.parts.is_empty() } pub fn len(&self) -> usize { self.parts.len() } }
#[derive(Clone, Debug, PartialEq)] pub struct FStringValue { parts: Vec<StringLiteral> }
impl FStringValue { pub fn iter(&self) -> std::slice::Iter<'_, StringLiteral> { self.parts.iter() } }
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)] pub enum BoolOp { And, Or }
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)] pub enum Operator { Add, Sub, Mult, MatMult, Div, Mod, Pow, LShift, RShift, BitOr, BitXor, BitAnd, FloorDiv }
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)] pub enum UnaryOp { Invert, Not, UAdd, USub }
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)] pub enum CmpOp { Eq, NotEq, Lt, LtE, Gt, GtE, Is, IsNot, In, NotIn }
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)] pub enum ExprContext { Load, Store, Del, Invalid }
impl Expr { pub const fn is_literal_expr(&self) -> bool { matches!(self, Self::StringLiteral(_) | Self::BytesLiteral(_) | Self::NumberLiteral(_) | Self::BooleanLiteral(_) | Self::NoneLiteral(_) | Self::EllipsisLiteral(_)) } }
impl Arguments { pub fn find_keyword(&self, n: &str) -> Option<&Keyword> { self.keywords.iter().find(|k| k.arg.as_ref().is_some_and(|a| a.as_str() == n)) } pub fn find_positional(&self, i: usize) -> Option<&Expr> { self.args.get(i) } pub fn find_argument_value(&self, n: &str, i: usize) -> Option<&Expr> { self.find_keyword(n).map(|k| &k.value).or_else(|| self.find_positional(i)) } pub fn len(&self) -> usize { self.args.len() + self.keywords.len() } pub fn is_empty(&self) -> bool { self.len() == 0 } }
impl StmtClassDef { pub fn bases(&self) -> &[Expr] { match &self.arguments { Some(a) => &a.args, None => &[] } } pub fn keywords(&self) -> &[Keyword] { match &self.arguments { Some(a) => &a.keywords, None => &[] } } }
impl Deref for TypeParams { type Target = TextRange; fn deref(&self) -> &TextRange { &self.range } }
macro_rules! seq { ($($t:ident),*) => { $( impl $t { pub fn len(&self) -> usize { self.elts.len() } pub fn is_empty(&self) -> bool { self.elts.is_empty() } pub fn iter(&self) -> std::slice::Iter<'_, Expr> { self.elts.iter() } } impl<'a> IntoIterator for &'a $t { type Item = &'a Expr; type IntoIter = std::slice::Iter<'a, Expr>; fn into_iter(self) -> Self::IntoIter { self.elts.iter() } } )* } }
seq!(ExprList, ExprTuple, ExprSet);
impl ExprDict { pub fn len(&self) -> usize { self.items.len() } pub fn is_empty(&self) -> bool { self.items.is_empty() } pub fn iter(&self) -> std::slice::Iter<'_, DictItem> { self.items.iter() } }

