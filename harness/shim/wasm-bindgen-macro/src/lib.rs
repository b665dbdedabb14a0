//! `#[wasm_bindgen]` without bindings: the item itself. What the live client
//! exports to JavaScript can be called under the name `js_<name>`.
use proc_macro::{TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn wasm_bindgen(_: TokenStream, item: TokenStream) -> TokenStream {
    if std::env::var("CARGO_PKG_NAME").as_deref() != Ok("hotmeal-wasm-live") {
        return item;
    }
    let mut words = item.clone().into_iter().filter_map(|t| match t {
        TokenTree::Ident(i) => Some(i.to_string()),
        _ => None,
    });
    let mut before = words.by_ref().take_while(|w| w != "fn");
    let plain = before.all(|w| w == "pub" || w == "doc");
    match words.next() {
        Some(name) if plain => {
            let mut out: TokenStream = format!("#[unsafe(export_name = \"js_{name}\")]").parse().unwrap();
            out.extend(item);
            out
        }
        _ => item,
    }
}
