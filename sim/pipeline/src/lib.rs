//! The compilation pipeline, stage by stage, exactly as the command runs it.
use chomp::chomp::ast::substitute::Reduce;
use chomp::chomp::ast::NamedExpression;
use chomp::chomp::typed::context::Context;
use chomp::chomp::typed::lower::{Backend, GenerateCode};
use chomp::chomp::typed::TypeInfer;
use chomp::chomp::visit::Visitable;
use chomp::lower::RustBackend;
use chomp::nibble::convert::{self, Convert};
use chomp::nibble::Statement;
use proc_macro2::Span;

pub use chomp;

pub const STAGES: [&str; 6] = ["parse", "convert", "reduce", "infer", "gen", "emit"];

/// Text to abstract grammar.
pub fn front(text: &str) -> Result<NamedExpression, String> {
    let st: Statement = syn::parse_str(text).map_err(|e| e.to_string())?;
    st.convert(&mut convert::Context::default()).map_err(|e| e.to_string())
}

/// `after` is told the number of finished stages and may abandon the rest.
pub fn compile_watched(text: &str, mut after: impl FnMut(usize) -> bool) -> Option<Result<String, String>> {
    macro_rules! step {
        ($n:expr, $e:expr) => {{
            let v = $e;
            if !after($n) {
                return None;
            }
            match v {
                Ok(v) => v,
                Err(e) => return Some(Err(e)),
            }
        }};
    }
    let st = step!(1, syn::parse_str::<Statement>(text).map_err(|e| e.to_string()));
    let ex = step!(2, st.convert(&mut convert::Context::default()).map_err(|e| e.to_string()));
    let ex = step!(3, ex.fold(&mut Reduce).map_err(|e| e.to_string()));
    let mut context = Context::default();
    let ty = step!(4, ex.fold(&mut TypeInfer { context: &mut context }).map_err(|e| e.to_string()));
    let mut backend = RustBackend::default();
    let id = step!(5, Ok::<_, String>(ty.gen(&mut backend)));
    let code = step!(6, Ok::<_, String>(backend.emit_code(None, Span::call_site(), id)));
    Some(Ok(format!("{:#}", code)))
}

pub fn compile(text: &str) -> Result<String, String> {
    compile_watched(text, |_| true).unwrap()
}

/// The stages behind the front end.
pub fn back(ex: NamedExpression) -> Result<String, String> {
    let ex = ex.fold(&mut Reduce).map_err(|e| e.to_string())?;
    let mut context = Context::default();
    let ty = ex.fold(&mut TypeInfer { context: &mut context }).map_err(|e| e.to_string())?;
    let mut backend = RustBackend::default();
    let id = ty.gen(&mut backend);
    Ok(format!("{:#}", backend.emit_code(None, Span::call_site(), id)))
}
