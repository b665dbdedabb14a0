//! The same harness code against cinereus built with its diagnostics features.
#![allow(dead_code)]
pub use cinereus_instr as ci;
#[path = "model.rs"]
pub mod model;
#[path = "oracle.rs"]
pub mod oracle;
