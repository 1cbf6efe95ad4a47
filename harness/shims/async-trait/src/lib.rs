//! #[async_trait]: async methods of a trait return boxed futures. All references of a call share one lifetime.
use proc_macro::TokenStream;
use quote::quote;
use syn::*;

fn elided(t: &mut Type) {
    match t {
        Type::Reference(r) => {
            if r.lifetime.is_none() {
                r.lifetime = Some(parse_quote!('async_trait));
            }
            elided(&mut r.elem);
        }
        Type::Slice(s) => elided(&mut s.elem),
        Type::Array(s) => elided(&mut s.elem),
        Type::Paren(s) => elided(&mut s.elem),
        Type::Tuple(s) => s.elems.iter_mut().for_each(elided),
        Type::Path(p) => {
            for s in p.path.segments.iter_mut() {
                if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                    for g in a.args.iter_mut() {
                        if let GenericArgument::Type(t) = g {
                            elided(t);
                        }
                    }
                }
            }
        }
        _ => {}
    }
}

fn sig(s: &mut Signature) -> bool {
    if s.asyncness.take().is_none() {
        return false;
    }
    for a in s.inputs.iter_mut() {
        match a {
            FnArg::Typed(t) => elided(&mut t.ty),
            FnArg::Receiver(r) => {
                if let Some((_, l)) = &mut r.reference {
                    *l = Some(parse_quote!('async_trait));
                }
            }
        }
    }
    s.generics.params.insert(0, parse_quote!('async_trait));
    let out = match &s.output {
        ReturnType::Default => quote!(()),
        ReturnType::Type(_, t) => quote!(#t),
    };
    s.output = parse_quote!(-> ::std::pin::Pin<Box<dyn ::std::future::Future<Output = #out> + Send + 'async_trait>>);
    s.generics.make_where_clause().predicates.push(parse_quote!(Self: 'async_trait));
    true
}

#[proc_macro_attribute]
pub fn async_trait(_: TokenStream, input: TokenStream) -> TokenStream {
    if let Ok(mut t) = parse::<ItemTrait>(input.clone()) {
        for i in t.items.iter_mut() {
            if let TraitItem::Method(m) = i {
                if sig(&mut m.sig) {
                    if let Some(b) = m.default.take() {
                        m.default = Some(parse_quote!({ Box::pin(async move #b) }));
                    }
                }
            }
        }
        return quote!(#t).into();
    }
    let mut t = parse_macro_input!(input as ItemImpl);
    for i in t.items.iter_mut() {
        if let ImplItem::Method(m) = i {
            if sig(&mut m.sig) {
                let b = m.block.clone();
                m.block = parse_quote!({ Box::pin(async move #b) });
            }
        }
    }
    quote!(#t).into()
}
