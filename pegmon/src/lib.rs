//! Runtime monitor for parsers generated by rust-peg: grammar generator,
//! reference model, input generator and online judge. Has no dependencies and
//! knows nothing of rust-peg's code.
#![allow(clippy::all)]
pub mod ast;
pub mod emit;
pub mod gen;
pub mod input;
pub mod json;
pub mod model;
pub mod print;
pub mod raw;
pub mod rng;
pub mod run;
pub mod val;
pub mod wf;

pub mod pre {
    //! what generated programs import
    pub use crate::run::{Fun, MonData, Out, Program};
    pub use crate::val::{cond, condu, gd, mk, tick, MonSlice, Tok, Val, V};
    /// operand of a precedence rule (pins the type for inference)
    pub fn vl(v: Val) -> Val {
        v
    }
    /// position label as a value
    pub fn vn(n: usize) -> Val {
        Val::N(n as u64)
    }
}
