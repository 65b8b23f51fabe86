//! Symbolic runtime: numbers that may be solver terms, and the path explorer that runs code over
//! them. `U128`/`U256`/`U512` stand in for the primitive and bnum integers under cosmwasm-std's
//! `Uint128`, `Uint256` and `Uint512`; everything above them is the unmodified library and contract.
#![feature(core_intrinsics, const_eval_select, const_trait_impl)]
#![allow(internal_features)]
pub mod big;
pub mod engine;
pub mod solver;
pub mod hook;
mod prim;
mod wide;
pub use big::Big;
pub use engine::*;
pub use prim::*;
pub use wide::*;
