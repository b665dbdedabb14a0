//! Stand-in for wasm-bindgen-futures: tasks of the simulation.
pub use roam_session::sim::spawn_local;
