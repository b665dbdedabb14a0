//! Stand-in for wasm-tracing: no subscriber.
#[derive(Default)]
pub struct WasmLayerConfig;
impl WasmLayerConfig {
    pub fn set_max_level(&mut self, _: tracing::Level) {}
}
pub fn set_as_global_default_with_config(_: WasmLayerConfig) -> Result<(), ()> {
    Ok(())
}
