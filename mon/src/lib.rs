//! Runtime monitors for the `starling` (merkle_bit) crate.

#![allow(clippy::too_many_arguments, clippy::type_complexity)]

pub mod blind;
pub mod db;
pub mod engine;
pub mod gen;
pub mod intern;
pub mod model;
pub mod nodes;
pub mod props_a;
pub mod props_b;
pub mod props_c;
pub mod props_d;
pub mod report;
pub mod rng;
pub mod threads;
pub mod tree;
