//! Stand-in for facet's derive: a plain structural encoding to `facet::Value`,
//! honouring the attributes hotmeal uses (transparent, cow, proxy, derive(Error)).
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{Data, DeriveInput, Fields, Meta, Type, parse_macro_input};

#[derive(Default)]
struct Opts {
    transparent: bool,
    cow: bool,
    error: bool,
    proxy: Option<Type>,
}

fn opts(attrs: &[syn::Attribute]) -> Opts {
    let mut o = Opts::default();
    for a in attrs.iter().filter(|a| a.path().is_ident("facet")) {
        let _ = a.parse_nested_meta(|m| {
            if m.path.is_ident("transparent") {
                o.transparent = true;
            } else if m.path.is_ident("cow") {
                o.cow = true;
            } else if m.path.is_ident("proxy") {
                o.proxy = Some(m.value()?.parse()?);
            } else if m.path.is_ident("derive") {
                m.parse_nested_meta(|d| {
                    if d.path.is_ident("Error") {
                        o.error = true;
                    }
                    Ok(())
                })?;
            } else if m.input.peek(syn::Token![=]) {
                let _: proc_macro2::TokenStream = m.value()?.parse()?;
            } else if m.input.peek(syn::token::Paren) {
                let c;
                syn::parenthesized!(c in m.input);
                let _: proc_macro2::TokenStream = c.parse()?;
            }
            Ok(())
        });
    }
    o
}

fn doc(attrs: &[syn::Attribute]) -> String {
    let mut s = vec![];
    for a in attrs {
        if let Meta::NameValue(nv) = &a.meta
            && nv.path.is_ident("doc")
            && let syn::Expr::Lit(l) = &nv.value
            && let syn::Lit::Str(t) = &l.lit
        {
            s.push(t.value().trim().to_string());
        }
    }
    s.join("\n")
}

fn put(expr: proc_macro2::TokenStream, f: &syn::Field) -> proc_macro2::TokenStream {
    match opts(&f.attrs).proxy {
        Some(p) => quote!(::facet::Facet::to_value(&<#p as ::core::convert::From<_>>::from(#expr))),
        None => quote!(::facet::Facet::to_value(#expr)),
    }
}

fn get(expr: proc_macro2::TokenStream, f: &syn::Field) -> proc_macro2::TokenStream {
    match opts(&f.attrs).proxy {
        Some(p) => quote!(::core::convert::From::from(<#p as ::facet::Facet>::from_value(#expr)?)),
        None => quote!(::facet::Facet::from_value(#expr)?),
    }
}

#[proc_macro_derive(Facet, attributes(facet))]
pub fn derive(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let o = opts(&d.attrs);
    let name = &d.ident;
    let (ig, tg, wc) = d.generics.split_for_impl();
    let name_s = name.to_string();
    let (to, from) = match &d.data {
        Data::Struct(s) => match &s.fields {
            Fields::Unnamed(u) if u.unnamed.len() == 1 => {
                let f = &u.unnamed[0];
                let (p, g) = (put(quote!(&self.0), f), get(quote!(v), f));
                (p, quote!(Ok(#name(#g))))
            }
            Fields::Named(n) => {
                let puts = n.named.iter().map(|f| {
                    let i = f.ident.as_ref().unwrap();
                    let s = i.to_string();
                    let p = put(quote!(&self.#i), f);
                    quote!((#s.to_string(), #p))
                });
                let gets = n.named.iter().map(|f| {
                    let i = f.ident.as_ref().unwrap();
                    let s = i.to_string();
                    let g = get(quote!(m.take(#s)?), f);
                    quote!(#i: #g)
                });
                (
                    quote!(::facet::Value::Map(vec![#(#puts),*])),
                    quote!({ let mut m = v.into_fields()?; Ok(#name { #(#gets),* }) }),
                )
            }
            _ => (quote!(::facet::Value::Unit), quote!(Err(::facet::Bad::new(#name_s)))),
        },
        Data::Enum(e) if o.cow => {
            let arms = e.variants.iter().map(|v| {
                let vi = &v.ident;
                quote!(#name::#vi(x) => ::facet::Value::Str(x.to_string()))
            });
            (
                quote!(match self { #(#arms),* }),
                quote!(Ok(#name::Owned(::facet::Facet::from_value(v)?))),
            )
        }
        Data::Enum(e) => {
            let puts = e.variants.iter().enumerate().map(|(k, v)| {
                let vi = &v.ident;
                let vs = vi.to_string();
                let k = k as u32;
                match &v.fields {
                    Fields::Unit => quote!(#name::#vi => ::facet::Value::Variant(#k, #vs.to_string(), Box::new(::facet::Value::Unit))),
                    Fields::Unnamed(u) => {
                        let ids: Vec<_> = (0..u.unnamed.len()).map(|i| format_ident!("f{i}")).collect();
                        let ps = u.unnamed.iter().zip(&ids).map(|(f, i)| put(quote!(#i), f));
                        quote!(#name::#vi(#(#ids),*) => ::facet::Value::Variant(#k, #vs.to_string(), Box::new(::facet::Value::List(vec![#(#ps),*]))))
                    }
                    Fields::Named(n) => {
                        let ids: Vec<_> = n.named.iter().map(|f| f.ident.clone().unwrap()).collect();
                        let ps = n.named.iter().map(|f| {
                            let i = f.ident.as_ref().unwrap();
                            let s = i.to_string();
                            let p = put(quote!(#i), f);
                            quote!((#s.to_string(), #p))
                        });
                        quote!(#name::#vi { #(#ids),* } => ::facet::Value::Variant(#k, #vs.to_string(), Box::new(::facet::Value::Map(vec![#(#ps),*]))))
                    }
                }
            });
            let gets = e.variants.iter().enumerate().map(|(k, v)| {
                let vi = &v.ident;
                let k = k as u32;
                match &v.fields {
                    Fields::Unit => quote!(#k => Ok(#name::#vi)),
                    Fields::Unnamed(u) => {
                        let gs = u.unnamed.iter().map(|f| get(quote!(l.next().ok_or_else(|| ::facet::Bad::new("variant arity"))?), f));
                        quote!(#k => { let mut l = body.into_list()?.into_iter(); Ok(#name::#vi(#(#gs),*)) })
                    }
                    Fields::Named(n) => {
                        let gs = n.named.iter().map(|f| {
                            let i = f.ident.as_ref().unwrap();
                            let s = i.to_string();
                            let g = get(quote!(m.take(#s)?), f);
                            quote!(#i: #g)
                        });
                        quote!(#k => { let mut m = body.into_fields()?; Ok(#name::#vi { #(#gs),* }) })
                    }
                }
            });
            let names = e.variants.iter().map(|v| v.ident.to_string());
            (
                quote!(match self { #(#puts),* }),
                quote!({
                    let (k, body) = v.into_variant(&[#(#names),*])?;
                    match k { #(#gets,)* _ => Err(::facet::Bad::new(#name_s)) }
                }),
            )
        }
        Data::Union(_) => (quote!(::facet::Value::Unit), quote!(Err(::facet::Bad::new(#name_s)))),
    };
    let mut out = quote! {
        #[allow(unused_variables, unused_mut)]
        impl #ig ::facet::Facet for #name #tg #wc {
            fn to_value(&self) -> ::facet::Value { #to }
            fn from_value(v: ::facet::Value) -> ::core::result::Result<Self, ::facet::Bad> { #from }
        }
    };
    if o.error && let Data::Enum(e) = &d.data {
        let arms = e.variants.iter().map(|v| {
            let vi = &v.ident;
            let msg = doc(&v.attrs);
            match &v.fields {
                Fields::Unit => quote!(#name::#vi => write!(f, #msg)),
                Fields::Named(n) => {
                    let ids = n.named.iter().map(|f| f.ident.clone().unwrap());
                    quote!(#name::#vi { #(#ids),* } => write!(f, #msg))
                }
                Fields::Unnamed(_) => quote!(#name::#vi(..) => f.write_str(#msg)),
            }
        });
        out.extend(quote! {
            #[allow(unused_variables)]
            impl #ig ::core::fmt::Display for #name #tg #wc {
                fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                    match self { #(#arms),* }
                }
            }
            impl #ig ::std::error::Error for #name #tg #wc {}
        });
    }
    out.into()
}
