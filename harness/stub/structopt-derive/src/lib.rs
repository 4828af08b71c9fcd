//! Every field of the options comes from the host, by its name.
use proc_macro::TokenStream;
use quote::quote;
use syn::*;

#[proc_macro_derive(StructOpt, attributes(structopt))]
pub fn derive(item: TokenStream) -> TokenStream {
    let d = parse_macro_input!(item as DeriveInput);
    let name = d.ident;
    let fields: Vec<_> = match d.data {
        Data::Struct(s) => s.fields.into_iter().map(|f| f.ident.expect("named field")).collect(),
        _ => panic!("only structs"),
    };
    let names: Vec<_> = fields.iter().map(|f| f.to_string()).collect();
    quote!(impl ::structopt::StructOpt for #name {
        fn from_args() -> Self { #name { #(#fields: ::structopt::host::FromHost::get(#names)),* } }
    }).into()
}
