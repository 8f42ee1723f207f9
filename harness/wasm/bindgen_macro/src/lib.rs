use proc_macro::TokenStream;
/// Leaves the item as it is: it is called from Rust, not from JavaScript.
#[proc_macro_attribute]
pub fn wasm_bindgen(_options: TokenStream, item: TokenStream) -> TokenStream {
    item
}
