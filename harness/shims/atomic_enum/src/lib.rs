//! Offline stand-in for the `atomic_enum` crate.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, ItemEnum};

#[proc_macro_attribute]
pub fn atomic_enum(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let e = parse_macro_input!(item as ItemEnum);
    let name = &e.ident;
    let vis = &e.vis;
    let aname = format_ident!("Atomic{}", name);
    let arms = e.variants.iter().map(|v| {
        let id = &v.ident;
        let attrs = &v.attrs;
        quote! { #(#attrs)* x if x == #name::#id as usize => #name::#id, }
    });
    quote! {
        #[derive(Clone, Copy, Debug, Eq, PartialEq, Hash)]
        #e
        #vis struct #aname(::core::sync::atomic::AtomicUsize);
        #[allow(dead_code)]
        impl #aname {
            #vis const fn new(v: #name) -> Self {
                #aname(::core::sync::atomic::AtomicUsize::new(v as usize))
            }
            #vis fn load(&self, o: ::core::sync::atomic::Ordering) -> #name {
                match self.0.load(o) { #(#arms)* _ => unreachable!() }
            }
            #vis fn store(&self, v: #name, o: ::core::sync::atomic::Ordering) {
                self.0.store(v as usize, o)
            }
        }
        impl ::core::fmt::Debug for #aname {
            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                self.load(::core::sync::atomic::Ordering::SeqCst).fmt(f)
            }
        }
    }.into()
}
