//! Offline stand-in: the derive is named in the code under test but its methods are never called.
use proc_macro::TokenStream;
#[proc_macro_derive(GetSize, attributes(get_size))]
pub fn get_size(_: TokenStream) -> TokenStream { TokenStream::new() }
