//! The self-hosted front end and what the autonibble command does with it.
use chewed::{IterWrapper, Parser};
use chomp::chomp::ast::NamedExpression;
use chomp::nibble::convert::{self, Convert};

pub fn lower(ast: autonibble::Ast) -> Result<NamedExpression, String> {
    ast.convert(&mut convert::Context::default()).map_err(|e| e.to_string())
}

pub fn front(text: &str) -> Result<NamedExpression, String> {
    lower(IterWrapper::new(text.chars()).parse::<autonibble::Ast>().map_err(|e| e.to_string())?)
}

pub fn compile(text: &str) -> Result<String, String> {
    pipeline::back(front(text)?)
}
