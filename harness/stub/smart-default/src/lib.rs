use proc_macro::TokenStream;
use proc_macro2::TokenStream as T2;
use quote::quote;
fn value(attrs: &[syn::Attribute]) -> Option<T2> {
    for a in attrs {
        if a.path.is_ident("default") {
            if a.tokens.is_empty() {
                return None;
            }
            let e: syn::Expr = match a.parse_args() {
                Ok(e) => e,
                Err(_) => {
                    // #[default = expr]
                    match a.parse_meta() {
                        Ok(syn::Meta::NameValue(v)) => {
                            let l = v.lit;
                            return Some(quote!(#l));
                        }
                        _ => panic!("unsupported default attribute"),
                    }
                }
            };
            return Some(quote!(#e));
        }
    }
    None
}
fn fields(f: &syn::Fields) -> T2 {
    match f {
        syn::Fields::Unit => quote!(),
        syn::Fields::Named(n) => {
            let x = n.named.iter().map(|f| {
                let i = &f.ident;
                let v = value(&f.attrs).unwrap_or_else(|| quote!(::std::default::Default::default()));
                quote!(#i: #v)
            });
            quote!({ #(#x),* })
        }
        syn::Fields::Unnamed(n) => {
            let x = n.unnamed.iter().map(|f| value(&f.attrs).unwrap_or_else(|| quote!(::std::default::Default::default())));
            quote!(( #(#x),* ))
        }
    }
}
#[proc_macro_derive(SmartDefault, attributes(default))]
pub fn smart_default(i: TokenStream) -> TokenStream {
    let d: syn::DeriveInput = syn::parse(i).unwrap();
    let n = &d.ident;
    let (ig, tg, wh) = d.generics.split_for_impl();
    let body = match &d.data {
        syn::Data::Struct(s) => {
            let f = fields(&s.fields);
            quote!(Self #f)
        }
        syn::Data::Enum(e) => {
            let v = e.variants.iter().find(|v| v.attrs.iter().any(|a| a.path.is_ident("default"))).expect("no default variant");
            let (vi, f) = (&v.ident, fields(&v.fields));
            quote!(Self::#vi #f)
        }
        _ => panic!("union"),
    };
    quote!(impl #ig ::std::default::Default for #n #tg #wh { fn default() -> Self { #body } }).into()
}
