//! Offline stand-in for `mockall_double`: never substitutes the mock.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn double(_attr: TokenStream, item: TokenStream) -> TokenStream { item }
