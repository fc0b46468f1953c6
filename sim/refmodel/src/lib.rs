//! Independent reference model of the nibble language. Shares no code with /repo:
//! surface syntax, evaluation by closures, typing rules, two recognisers,
//! sentences, positions.
pub mod alpha;
pub mod blame;
pub mod eval;
pub mod earley;
pub mod gen;
pub mod machine;
pub mod pos;
pub mod syntax;
pub mod text;
pub mod texts;
pub mod typing;

pub use eval::{Core, EvalError, Node};
pub use syntax::{Ex, Let, Prog};
