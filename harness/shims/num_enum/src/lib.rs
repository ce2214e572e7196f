//! Offline stand-in for `num_enum`'s FromPrimitive derive.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, ItemEnum};
#[proc_macro_derive(FromPrimitive, attributes(num_enum))]
pub fn from_primitive(item: TokenStream) -> TokenStream {
    let e = parse_macro_input!(item as ItemEnum);
    let name = &e.ident;
    let mut repr = format_ident!("u8");
    for a in &e.attrs {
        if a.path().is_ident("repr") {
            repr = a.parse_args().unwrap();
        }
    }
    let dfl = e.variants.iter().find(|v| v.attrs.iter().any(|a| a.path().is_ident("num_enum")))
        .map(|v| v.ident.clone()).expect("need a default");
    let arms = e.variants.iter().map(|v| { let id = &v.ident;
        quote!{ x if x == #name::#id as #repr => #name::#id, } });
    quote! {
        impl ::core::convert::From<#repr> for #name {
            fn from(x: #repr) -> Self { match x { #(#arms)* _ => #name::#dfl } }
        }
        #[allow(dead_code)]
        impl #name {
            pub fn from_primitive(x: #repr) -> Self { Self::from(x) }
        }
    }.into()
}
