use proc_macro::TokenStream;
use quote::quote;
#[proc_macro_derive(EnumString, attributes(strum))]
pub fn enum_string(i: TokenStream) -> TokenStream {
    let d: syn::DeriveInput = syn::parse(i).unwrap();
    let n = &d.ident;
    let vs = match &d.data {
        syn::Data::Enum(e) => e.variants.iter().map(|v| v.ident.clone()).collect::<Vec<_>>(),
        _ => panic!("enum expected"),
    };
    let ss: Vec<String> = vs.iter().map(|v| v.to_string()).collect();
    quote! {
        impl ::std::str::FromStr for #n {
            type Err = ::strum::ParseError;
            fn from_str(s: &str) -> ::std::result::Result<Self, Self::Err> {
                match s { #( #ss => Ok(Self::#vs), )* _ => Err(::strum::ParseError::VariantNotFound) }
            }
        }
        impl ::std::convert::TryFrom<&str> for #n {
            type Error = ::strum::ParseError;
            fn try_from(s: &str) -> ::std::result::Result<Self, Self::Error> { <Self as ::std::str::FromStr>::from_str(s) }
        }
    }
    .into()
}
