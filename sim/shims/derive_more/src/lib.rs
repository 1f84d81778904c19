//! Stands in for derive_more 0.99: `Display` of enums with `#[display(fmt = "..")]`.

use proc_macro::TokenStream;
use quote::quote;
use syn::{Data, DeriveInput, Fields, LitStr, parse_macro_input};

#[proc_macro_derive(Display, attributes(display))]
pub fn display(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let n = &input.ident;
    let Data::Enum(e) = &input.data else { panic!("enums only") };
    let arms = e.variants.iter().map(|v| {
        let name = &v.ident;
        let mut fmt = v.ident.to_string();
        for a in v.attrs.iter().filter(|a| a.path().is_ident("display")) {
            a.parse_nested_meta(|m| {
                fmt = m.value()?.parse::<LitStr>()?.value();
                Ok(())
            })
            .expect("display(fmt = ..)");
        }
        match &v.fields {
            Fields::Named(f) => {
                let names = f.named.iter().map(|f| f.ident.as_ref().unwrap());
                quote!(#n::#name { #(#names),* } => write!(f, #fmt))
            }
            Fields::Unnamed(_) => quote!(#n::#name(..) => write!(f, #fmt)),
            Fields::Unit => quote!(#n::#name => write!(f, #fmt)),
        }
    });
    quote! {
        impl ::core::fmt::Display for #n {
            #[allow(unused_variables)]
            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                match self { #(#arms),* }
            }
        }
    }
    .into()
}
