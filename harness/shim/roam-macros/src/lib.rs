//! `#[roam::service]`: the trait with a context argument, a dispatcher for the
//! side that implements it and a client for the side that calls it.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{FnArg, ItemTrait, Pat, ReturnType, TraitItem, parse_macro_input};

#[proc_macro_attribute]
pub fn service(_: TokenStream, item: TokenStream) -> TokenStream {
    let t = parse_macro_input!(item as ItemTrait);
    let (vis, name) = (&t.vis, &t.ident);
    let (dispatcher, client) = (format_ident!("{name}Dispatcher"), format_ident!("{name}Client"));
    let (mut methods, mut arms, mut calls) = (vec![], vec![], vec![]);
    for i in &t.items {
        let TraitItem::Fn(f) = i else { continue };
        let m = &f.sig.ident;
        let s = m.to_string();
        let ret = match &f.sig.output {
            ReturnType::Default => quote!(()),
            ReturnType::Type(_, t) => quote!(#t),
        };
        let (mut names, mut types) = (vec![], vec![]);
        for a in &f.sig.inputs {
            if let FnArg::Typed(a) = a
                && let Pat::Ident(p) = &*a.pat
            {
                names.push(p.ident.clone());
                types.push((*a.ty).clone());
            }
        }
        methods.push(quote!(fn #m(&self, cx: &::roam::Context, #(#names: #types),*) -> impl ::core::future::Future<Output = #ret>;));
        arms.push(quote! {
            #s => {
                let (#(#names,)*) = *args.downcast::<(#(#types,)*)>().ok()?;
                let cx = ::roam::Context::default();
                Some(Box::new(self.0.#m(&cx, #(#names),*).await) as Box<dyn ::core::any::Any>)
            }
        });
        calls.push(quote! {
            pub async fn #m(&self, #(#names: #types),*) -> ::core::result::Result<#ret, ::roam::CallError> {
                let out = self.0.call(#s, Box::new((#(#names,)*))).await?;
                Ok(*out.downcast::<#ret>().expect("the declared return type"))
            }
        });
    }
    quote! {
        #vis trait #name { #(#methods)* }
        #[derive(Clone)]
        #vis struct #dispatcher<H>(H);
        impl<H> #dispatcher<H> {
            pub fn new(handler: H) -> Self { Self(handler) }
        }
        impl<H: #name> ::roam::Dispatch for #dispatcher<H> {
            fn dispatch<'x>(&'x self, method: &'x str, args: Box<dyn ::core::any::Any>) -> ::roam::LocalBoxFuture<'x, Option<Box<dyn ::core::any::Any>>> {
                Box::pin(async move {
                    match method {
                        #(#arms)*
                        _ => None,
                    }
                })
            }
        }
        #[derive(Clone)]
        #vis struct #client(::roam::Handle);
        impl #client {
            pub fn new(handle: impl Into<::roam::Handle>) -> Self { Self(handle.into()) }
            #(#calls)*
        }
    }
    .into()
}
