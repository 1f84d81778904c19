//! Stands in for num_enum's derives.

use proc_macro::TokenStream;
use quote::quote;
use syn::{Data, DeriveInput, parse_macro_input};

fn repr(input: &DeriveInput) -> syn::Ident {
    let mut r = None;
    for a in input.attrs.iter().filter(|a| a.path().is_ident("repr")) {
        let _ = a.parse_nested_meta(|m| {
            r = m.path.get_ident().cloned();
            Ok(())
        });
    }
    r.expect("a repr")
}

#[proc_macro_derive(IntoPrimitive, attributes(num_enum))]
pub fn into_primitive(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let (n, r) = (&input.ident, repr(&input));
    quote! { impl ::std::convert::From<#n> for #r { fn from(x: #n) -> #r { x as #r } } }.into()
}

#[proc_macro_derive(TryFromPrimitive, attributes(num_enum))]
pub fn try_from_primitive(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let (n, r) = (&input.ident, repr(&input));
    let Data::Enum(e) = &input.data else { panic!("enums only") };
    let v: Vec<_> = e.variants.iter().map(|v| &v.ident).collect();
    let name = n.to_string();
    quote! {
        impl ::num_enum::TryFromPrimitive for #n {
            type Primitive = #r;
            const NAME: &'static str = #name;
            fn try_from_primitive(number: #r) -> ::std::result::Result<Self, ::num_enum::TryFromPrimitiveError<Self>> {
                #(if number == #n::#v as #r { return Ok(#n::#v); })*
                Err(::num_enum::TryFromPrimitiveError { number })
            }
        }
        impl ::std::convert::TryFrom<#r> for #n {
            type Error = ::num_enum::TryFromPrimitiveError<Self>;
            fn try_from(number: #r) -> ::std::result::Result<Self, Self::Error> {
                ::num_enum::TryFromPrimitive::try_from_primitive(number)
            }
        }
    }
    .into()
}
