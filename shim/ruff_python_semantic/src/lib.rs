//! Stand-in for ruff_python_semantic: rtest builds a model and asks it nothing.
use ruff_python_ast::Stmt;
use std::path::Path;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ModuleKind {
    Module,
    Package,
}

#[derive(Debug, Clone, Copy)]
pub enum ModuleSource<'a> {
    Path(&'a [String]),
    File(&'a Path),
}

#[derive(Debug, Clone, Copy)]
pub struct Module<'a> {
    pub kind: ModuleKind,
    pub source: ModuleSource<'a>,
    pub python_ast: &'a [Stmt],
    pub name: Option<&'a str>,
}

#[derive(Debug)]
pub struct SemanticModel<'a> {
    pub typing_modules: &'a [String],
    pub path: &'a Path,
    pub module: Module<'a>,
}

impl<'a> SemanticModel<'a> {
    pub fn new(typing_modules: &'a [String], path: &'a Path, module: Module<'a>) -> Self {
        Self { typing_modules, path, module }
    }
}
