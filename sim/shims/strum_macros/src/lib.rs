//! Stands in for strum_macros: the derives /repo uses, for enums without fields.

use heck::{ToSnakeCase, ToTitleCase};
use proc_macro::TokenStream;
use quote::quote;
use syn::{Data, DeriveInput, LitStr, parse_macro_input};

fn variants(input: &DeriveInput) -> Vec<(syn::Ident, String)> {
    let mut style = None;
    for a in input.attrs.iter().filter(|a| a.path().is_ident("strum")) {
        let _ = a.parse_nested_meta(|m| {
            if m.path.is_ident("serialize_all") {
                style = Some(m.value()?.parse::<LitStr>()?.value());
            }
            Ok(())
        });
    }
    let Data::Enum(e) = &input.data else { panic!("enums only") };
    e.variants
        .iter()
        .map(|v| {
            assert!(v.fields.is_empty(), "variants without fields only");
            let n = v.ident.to_string();
            let s = match style.as_deref() {
                Some("snake_case") => n.to_snake_case(),
                Some("lowercase") => n.to_lowercase(),
                Some("UPPERCASE") => n.to_uppercase(),
                Some("title_case") => n.to_title_case(),
                Some(x) => panic!("style {x}"),
                None => n,
            };
            (v.ident.clone(), s)
        })
        .collect()
}

#[proc_macro_derive(EnumIter, attributes(strum))]
pub fn enum_iter(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let n = &input.ident;
    let v = variants(&input).into_iter().map(|(i, _)| quote!(#n::#i));
    quote! {
        impl ::strum::IntoEnumIterator for #n {
            type Iterator = ::std::vec::IntoIter<#n>;
            fn iter() -> Self::Iterator { ::std::vec![#(#v),*].into_iter() }
        }
    }
    .into()
}

#[proc_macro_derive(Display, attributes(strum))]
pub fn display(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let n = &input.ident;
    let v = variants(&input).into_iter().map(|(i, s)| quote!(#n::#i => #s));
    quote! {
        impl ::std::fmt::Display for #n {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.pad(match self { #(#v),* }) }
        }
    }
    .into()
}

#[proc_macro_derive(EnumString, attributes(strum))]
pub fn enum_string(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let n = &input.ident;
    let v = variants(&input).into_iter().map(|(i, s)| quote!(#s => Ok(#n::#i)));
    quote! {
        impl ::std::str::FromStr for #n {
            type Err = ::strum::ParseError;
            fn from_str(s: &str) -> ::std::result::Result<Self, Self::Err> {
                match s { #(#v,)* _ => Err(::strum::ParseError::VariantNotFound) }
            }
        }
        impl ::std::convert::TryFrom<&str> for #n {
            type Error = ::strum::ParseError;
            fn try_from(s: &str) -> ::std::result::Result<Self, Self::Error> { s.parse() }
        }
    }
    .into()
}

#[proc_macro_derive(IntoStaticStr, attributes(strum))]
pub fn into_static_str(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let n = &input.ident;
    let v: Vec<_> = variants(&input).into_iter().map(|(i, s)| quote!(#n::#i => #s)).collect();
    quote! {
        impl ::std::convert::From<#n> for &'static str { fn from(x: #n) -> Self { match x { #(#v),* } } }
        impl ::std::convert::From<&#n> for &'static str { fn from(x: &#n) -> Self { match x { #(#v),* } } }
    }
    .into()
}
