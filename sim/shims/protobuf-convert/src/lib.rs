//! Stands in for protobuf-convert 0.4: the derive that maps a struct or enum to its generated message.

use heck::ToSnakeCase;
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{Attribute, Data, DeriveInput, Fields, LitStr, Path, parse_macro_input};

struct Attrs {
    source: Option<Path>,
    oneof: String,
    skip: bool,
}

fn attrs(list: &[Attribute]) -> Attrs {
    let mut a = Attrs { source: None, oneof: "kind".into(), skip: false };
    for at in list.iter().filter(|a| a.path().is_ident("protobuf_convert")) {
        at.parse_nested_meta(|m| {
            if m.path.is_ident("source") {
                a.source = Some(m.value()?.parse::<LitStr>()?.parse()?);
            } else if m.path.is_ident("oneof_field") {
                a.oneof = m.value()?.parse::<LitStr>()?.value();
            } else if m.path.is_ident("skip") {
                a.skip = true;
            } else if m.input.peek(syn::Token![=]) {
                let _: syn::Lit = m.value()?.parse()?;
            }
            Ok(())
        })
        .expect("protobuf_convert attribute");
    }
    a
}

#[proc_macro_derive(ProtobufConvert, attributes(protobuf_convert))]
pub fn derive(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let at = attrs(&input.attrs);
    let src = at.source.expect("source of the message");
    let _ = at.skip;
    match &input.data {
        Data::Struct(s) => {
            let fields: Vec<_> = match &s.fields {
                Fields::Named(f) => f.named.iter().collect(),
                Fields::Unit => vec![],
                Fields::Unnamed(_) => panic!("named fields only"),
            };
            let mut to = vec![];
            let mut from = vec![];
            for f in fields {
                let id = f.ident.as_ref().unwrap();
                if attrs(&f.attrs).skip {
                    from.push(quote! { #id: Default::default() });
                    continue;
                }
                let (set, get) = (format_ident!("set_{}", id), format_ident!("get_{}", id));
                to.push(quote! { msg.#set(ProtobufConvert::to_pb(&self.#id).into()); });
                from.push(quote! { #id: ProtobufConvert::from_pb(pb.#get().to_owned().into())? });
            }
            quote! {
                impl ProtobufConvert for #name {
                    type ProtoStruct = #src;
                    fn to_pb(&self) -> Self::ProtoStruct {
                        let mut msg = Self::ProtoStruct::default();
                        #(#to)*
                        msg
                    }
                    fn from_pb(pb: Self::ProtoStruct) -> std::result::Result<Self, ::anyhow::Error> {
                        Ok(Self { #(#from,)* })
                    }
                }
            }
            .into()
        }
        Data::Enum(e) => {
            let mut src_enum = src.clone();
            let last = src_enum.segments.last_mut().unwrap();
            last.ident = format_ident!("{}_oneof_{}", last.ident, at.oneof);
            let field = format_ident!("{}", at.oneof);
            let mut to = vec![];
            let mut from = vec![];
            for v in &e.variants {
                let id = &v.ident;
                let set = format_ident!("set_{}", id);
                let _ = id.to_string().to_snake_case();
                to.push(quote! { #name::#id(m) => msg.#set(ProtobufConvert::to_pb(m).into()), });
                from.push(quote! { Some(#src_enum::#id(m)) => ProtobufConvert::from_pb(m.into()).map(#name::#id), });
            }
            quote! {
                impl ProtobufConvert for #name {
                    type ProtoStruct = #src;
                    fn to_pb(&self) -> Self::ProtoStruct {
                        let mut msg = Self::ProtoStruct::default();
                        match self { #(#to)* }
                        msg
                    }
                    fn from_pb(pb: Self::ProtoStruct) -> std::result::Result<Self, ::anyhow::Error> {
                        match pb.#field {
                            #(#from)*
                            None => ::anyhow::bail!("Failed to decode {} from protobuf", stringify!(#name)),
                        }
                    }
                }
            }
            .into()
        }
        Data::Union(_) => panic!("not for unions"),
    }
}
