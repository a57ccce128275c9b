//! Signature stub of `ruff_python_semantic`. Never executed.
use ruff_python_ast::Stmt;
use std::path::Path;
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum ModuleKind { Module, Package }
impl ModuleKind { pub const fn is_package(self) -> bool { matches!(self, ModuleKind::Package) } }
#[derive(Copy, Clone, Debug)]
pub enum ModuleSource<'a> { Path(&'a [String]), File(&'a Path) }
#[derive(Copy, Clone, Debug)]
pub struct Module<'a> { pub kind: ModuleKind, pub source: ModuleSource<'a>, pub python_ast: &'a [Stmt], pub name: Option<&'a str> }
pub struct SemanticModel<'a> { _module: Module<'a> }
impl<'a> SemanticModel<'a> { pub fn new(_typing_modules: &'a [String], _path: &Path, module: Module<'a>) -> Self { Self { _module: module } } }
