//! Every imported function becomes one that asks the host what the JavaScript side answers.
use proc_macro::TokenStream;
use quote::quote;
use syn::*;

#[proc_macro_attribute]
pub fn wasm_bindgen(_: TokenStream, item: TokenStream) -> TokenStream {
    let m = match parse::<ItemForeignMod>(item.clone()) {
        Ok(m) => m,
        Err(_) => return item,
    };
    let fns = m.items.iter().map(|i| match i {
        ForeignItem::Fn(f) => {
            let (vis, mut sig) = (&f.vis, f.sig.clone());
            sig.unsafety = None;
            let name = sig.ident.to_string();
            let args: Vec<_> = sig.inputs.iter().map(|a| match a {
                FnArg::Typed(t) => t.pat.clone(),
                _ => panic!("receiver"),
            }).collect();
            quote!(#vis #sig { ::wasm_bindgen::host::call(#name, ::std::vec![#(::wasm_bindgen::host::ToArg::arg(#args)),*]).await })
        }
        _ => panic!("only functions"),
    });
    quote!(#(#fns)*).into()
}
