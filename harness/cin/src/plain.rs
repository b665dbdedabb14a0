//! The harness code against cinereus built with its default features.
pub use cinereus as ci;
#[path = "model.rs"]
pub mod model;
#[path = "oracle.rs"]
pub mod oracle;
