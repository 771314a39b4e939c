#![allow(dead_code, clippy::all)]
pub mod rv;
pub mod hf;
pub mod chf;
pub mod ctr;
pub mod reg;
pub mod pm;
pub mod ras;
pub mod conv;
pub mod mesh;
