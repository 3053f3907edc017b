//! Entry points of the static analysis. This crate is compiled to MIR and never executed: the
//! functions of `lt` are meaningful to the analyser only.
#![allow(clippy::all)]
#[macro_use]
mod types;
#[macro_use]
mod accept;
pub mod lt;
pub mod seg;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c20;
pub mod c23;
pub mod c26;
#[cfg(feature = "c18")]
pub mod c18;
#[cfg(feature = "c21")]
pub mod c21;
