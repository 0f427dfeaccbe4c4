//! `#[marine]` for the simulator.
//! * record: serde derives, so that the simulator can pass it as JSON (as Marine does)
//! * exported function: unchanged, plus a JSON shim with a fixed symbol name
//! * import block: functions provided by the simulator (`tgsim_host_*`)
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, FnArg, ForeignItem, Item};

#[proc_macro_attribute]
pub fn marine(_attr: TokenStream, input: TokenStream) -> TokenStream {
    let item = parse_macro_input!(input as Item);
    expand(item).into()
}

#[proc_macro_attribute]
pub fn fce(_attr: TokenStream, input: TokenStream) -> TokenStream {
    let item = parse_macro_input!(input as Item);
    expand(item).into()
}

fn expand(item: Item) -> proc_macro2::TokenStream {
    match item {
        Item::Struct(s) => quote! {
            #[derive(::marine_rs_sdk::__sim::serde::Serialize, ::marine_rs_sdk::__sim::serde::Deserialize)]
            #[serde(crate = "::marine_rs_sdk::__sim::serde")]
            #s
        },
        Item::Fn(f) => {
            let name = &f.sig.ident;
            let shim = format_ident!("__tgsim_shim_{}", name);
            let symbol = format!("tgsim_export_{}", name);
            let n = f.sig.inputs.len();
            let mut lets = vec![];
            let mut args = vec![];
            for (i, a) in f.sig.inputs.iter().enumerate() {
                if let FnArg::Typed(t) = a {
                    let ty = &t.ty;
                    let v = format_ident!("__a{}", i);
                    lets.push(quote! {
                        let #v: #ty = match ::marine_rs_sdk::__sim::serde_json::from_value(args[#i].take()) {
                            Ok(v) => v,
                            Err(e) => return Err(format!("argument {}: {}", #i, e)),
                        };
                    });
                    args.push(v);
                }
            }
            quote! {
                #f
                #[doc(hidden)]
                #[export_name = #symbol]
                #[allow(unused_mut, unused_variables, clippy::all)]
                pub fn #shim(mut args: ::std::vec::Vec<::marine_rs_sdk::__sim::serde_json::Value>)
                    -> ::std::result::Result<::marine_rs_sdk::__sim::serde_json::Value, ::std::string::String> {
                    if args.len() != #n {
                        return Err(format!("expected {} arguments, got {}", #n, args.len()));
                    }
                    #(#lets)*
                    let r = #name(#(#args),*);
                    ::marine_rs_sdk::__sim::serde_json::to_value(r).map_err(|e| e.to_string())
                }
            }
        }
        Item::ForeignMod(m) => {
            let mut fns = vec![];
            for i in m.items {
                if let ForeignItem::Fn(f) = i {
                    let attrs = f.attrs.iter().filter(|a| !a.path().is_ident("link_name"));
                    let vis = &f.vis;
                    let sig = &f.sig;
                    let link = format!("tgsim_host_{}", f.sig.ident);
                    fns.push(quote! { #(#attrs)* #[link_name = #link] #vis #sig; });
                }
            }
            quote! { #[allow(improper_ctypes)] extern "Rust" { #(#fns)* } }
        }
        other => quote! { #other },
    }
}
