//! Stand-in: `debug_handler` only improves compiler messages.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn debug_handler(_a: TokenStream, item: TokenStream) -> TokenStream { item }
