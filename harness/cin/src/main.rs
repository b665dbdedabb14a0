//! Checks for the cinereus crate (generic tree diff).
mod checks;
#[cfg(feature = "instr")]
mod diag;
mod stateful;

pub mod plain;
#[cfg(feature = "instr")]
pub mod instr;

fn main() {
    let ctx = engine::Ctx::from_env();
    match ctx.id.as_str() {
        "C12" => stateful::tree(&ctx),
        "C13" => stateful::matching(&ctx),
        _ => checks::run(&ctx),
    }
    ctx.finish();
}
