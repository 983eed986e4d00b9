//! Property-based checks for graphbench. See /verif/DESIGN.md.
#![allow(non_snake_case)]

pub mod engine;
pub mod gens;
pub mod props;
pub mod refgraph;
