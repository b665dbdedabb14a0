//! Checks for the hotmeal and hotmeal-server crates, built against stand-ins
//! for the dependencies that are not in the offline cargo cache.
mod checks;
mod dom;
mod effect;
mod model;
mod opaque;
mod parse;
mod real;
mod wild;
#[cfg(feature = "live")]
mod live;
#[cfg(feature = "server")]
mod server;
#[cfg(feature = "wasm")]
mod wasm;

fn main() {
    let ctx = engine::Ctx::from_env();
    checks::run(&ctx);
    ctx.finish();
}
