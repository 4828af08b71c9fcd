//! Stand-in for async-trait: `async fn` in traits and impls becomes a function that returns a
//! boxed future which borrows its arguments.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// gives every elided lifetime in an argument the name 'life
struct Name;
impl VisitMut for Name {
    fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
        if r.lifetime.is_none() {
            r.lifetime = Some(parse_quote!('life));
        }
        visit_mut::visit_type_reference_mut(self, r);
    }
    fn visit_lifetime_mut(&mut self, l: &mut Lifetime) {
        if l.ident == "_" {
            *l = parse_quote!('life);
        }
    }
}

fn rewrite(sig: &mut Signature, body: Option<&mut Block>, send: bool) {
    if sig.asyncness.take().is_none() {
        return;
    }
    let out = match &sig.output {
        ReturnType::Default => quote!(()),
        ReturnType::Type(_, t) => quote!(#t),
    };
    let mut outer = vec![];
    for (i, a) in sig.inputs.iter_mut().enumerate() {
        match a {
            FnArg::Receiver(r) => {
                if let Some((_, l)) = &mut r.reference {
                    *l = Some(parse_quote!('life));
                }
            }
            FnArg::Typed(t) => {
                Name.visit_type_mut(&mut t.ty);
                if body.is_some() {
                    // patterns are taken apart inside
                    let (p, n) = (t.pat.clone(), format_ident!("arg{}", i));
                    outer.push(quote!(let #p = #n;));
                    t.pat = parse_quote!(#n);
                }
            }
        }
    }
    let given: Vec<Lifetime> = sig.generics.lifetimes().map(|l| l.lifetime.clone()).collect();
    sig.generics.params.insert(0, parse_quote!('life));
    let w = sig.generics.make_where_clause();
    w.predicates.push(parse_quote!(Self: 'life));
    for l in given {
        w.predicates.push(parse_quote!(#l: 'life));
    }
    let extra = if send { quote!(+ ::core::marker::Send) } else { quote!() };
    sig.output = parse_quote!(-> ::core::pin::Pin<::std::boxed::Box<dyn ::core::future::Future<Output = #out> #extra + 'life>>);
    if let Some(b) = body {
        let stmts = &b.stmts;
        *b = parse_quote!({ ::std::boxed::Box::pin(async move { if let ::core::option::Option::Some(x) = ::core::option::Option::None::<#out> { return x; } let out: #out = { #(#outer)* #(#stmts)* }; #[allow(unreachable_code)] out }) });
    }
}

#[proc_macro_attribute]
pub fn async_trait(args: TokenStream, item: TokenStream) -> TokenStream {
    let send = !args.to_string().replace(' ', "").contains("?Send");
    match parse_macro_input!(item as Item) {
        Item::Trait(mut t) => {
            for i in &mut t.items {
                if let TraitItem::Method(m) = i {
                    rewrite(&mut m.sig, m.default.as_mut(), send);
                }
            }
            quote!(#t).into()
        }
        Item::Impl(mut t) => {
            for i in &mut t.items {
                if let ImplItem::Method(m) = i {
                    rewrite(&mut m.sig, Some(&mut m.block), send);
                }
            }
            quote!(#t).into()
        }
        _ => panic!("async_trait"),
    }
}
