//! Stand-in for the attribute which exports to JavaScript: the item stays what it is, so that the
//! library can be called on this machine. Imported functions do nothing. A constructor can also be
//! called through an instance, under the name `construct_like`.
use proc_macro::TokenStream;
use quote::quote;

fn strip(attributes: &mut Vec<syn::Attribute>) -> bool {
    let mut constructor = false;
    attributes.retain(|attribute| {
        let ours = attribute.path().segments.last().map_or(false, |s| s.ident == "wasm_bindgen");
        if ours {
            if let syn::Meta::List(list) = &attribute.meta {
                constructor |= list.tokens.to_string().contains("constructor");
            }
        }
        !ours
    });
    constructor
}

#[proc_macro_attribute]
pub fn wasm_bindgen(_arguments: TokenStream, item: TokenStream) -> TokenStream {
    let mut item = match syn::parse::<syn::Item>(item) {
        Ok(item) => item,
        Err(error) => return error.to_compile_error().into(),
    };
    match &mut item {
        syn::Item::Impl(block) => {
            let mut more: Vec<syn::ImplItem> = vec![];
            for member in &mut block.items {
                match member {
                    syn::ImplItem::Fn(function) => {
                        if strip(&mut function.attrs) {
                            let name = function.sig.ident.clone();
                            let inputs = function.sig.inputs.clone();
                            let names: Vec<_> = inputs
                                .iter()
                                .map(|input| match input {
                                    syn::FnArg::Typed(typed) => {
                                        let pattern = &typed.pat;
                                        quote!(#pattern)
                                    }
                                    _ => quote!(self),
                                })
                                .collect();
                            let output = function.sig.output.clone();
                            more.push(syn::parse_quote!(
                                pub fn construct_like(&self, #inputs) #output { Self::#name(#(#names),*) }
                            ));
                        }
                    }
                    syn::ImplItem::Const(c) => {
                        strip(&mut c.attrs);
                    }
                    _ => (),
                }
            }
            block.items.extend(more);
            quote!(#block).into()
        }
        syn::Item::Struct(s) => {
            strip(&mut s.attrs);
            for field in s.fields.iter_mut() {
                strip(&mut field.attrs);
            }
            quote!(#s).into()
        }
        syn::Item::Enum(e) => {
            strip(&mut e.attrs);
            quote!(#e).into()
        }
        syn::Item::Fn(f) => {
            strip(&mut f.attrs);
            quote!(#f).into()
        }
        syn::Item::ForeignMod(foreign) => {
            let mut out = proc_macro2::TokenStream::new();
            for member in &mut foreign.items {
                if let syn::ForeignItem::Fn(function) = member {
                    let visibility = &function.vis;
                    let mut signature = function.sig.clone();
                    for (i, input) in signature.inputs.iter_mut().enumerate() {
                        if let syn::FnArg::Typed(typed) = input {
                            let name = quote::format_ident!("_argument{}", i);
                            *typed.pat = syn::parse_quote!(#name);
                        }
                    }
                    let body = match &signature.output {
                        syn::ReturnType::Default => quote!({}),
                        _ => quote!({ Default::default() }),
                    };
                    out.extend(quote!(#[allow(dead_code)] #visibility #signature #body));
                }
            }
            out.into()
        }
        other => quote!(#other).into(),
    }
}
