//! The attributes of pyo3 that the Python module uses, over the C interface
//! of Python itself.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{Expr, FnArg, Ident, ImplItem, ItemFn, ItemImpl, ItemStruct, Pat, Token, Type, parse::Parser, parse_macro_input};

/// The parameters of `#[pyo3(signature = (a, b=None))]`, each with its default.
fn signature(attrs: &mut Vec<syn::Attribute>) -> Option<(Option<String>, Option<Vec<(String, Option<Expr>)>>)> {
    let at = attrs.iter().position(|a| a.path().is_ident("pyo3"))?;
    let a = attrs.remove(at);
    let (mut name, mut params) = (None, None);
    a.parse_nested_meta(|m| {
        if m.path.is_ident("signature") {
            m.input.parse::<Token![=]>()?;
            let inside;
            syn::parenthesized!(inside in m.input);
            let mut list = vec![];
            while !inside.is_empty() {
                let n: Ident = inside.parse()?;
                let d = if inside.peek(Token![=]) {
                    inside.parse::<Token![=]>()?;
                    Some(inside.parse::<Expr>()?)
                } else {
                    None
                };
                list.push((n.to_string(), d));
                if inside.is_empty() {
                    break;
                }
                inside.parse::<Token![,]>()?;
            }
            params = Some(list);
        } else {
            m.input.parse::<Token![=]>()?;
            let v: syn::LitStr = m.input.parse()?;
            if m.path.is_ident("name") {
                name = Some(v.value());
            }
        }
        Ok(())
    })
    .expect("shim: an attribute it knows");
    Some((name, params))
}

fn is_python(t: &Type) -> bool {
    matches!(t, Type::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == "Python"))
}
fn is_option(t: &Type) -> bool {
    matches!(t, Type::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == "Option"))
}

#[proc_macro_attribute]
pub fn pyfunction(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut f = parse_macro_input!(item as ItemFn);
    let (mut name, mut sig) = (None, None);
    while let Some((n, s)) = signature(&mut f.attrs) {
        name = n.or(name);
        sig = s.or(sig);
    }
    let vis = &f.vis;
    let id = &f.sig.ident;
    let shown = name.unwrap_or_else(|| id.to_string());
    let mut calls = vec![];
    let mut names = vec![];
    let mut needed = vec![];
    for a in &f.sig.inputs {
        let FnArg::Typed(t) = a else { panic!("shim: a method") };
        if is_python(&t.ty) {
            calls.push(quote!(py));
            continue;
        }
        let Pat::Ident(p) = &*t.pat else { panic!("shim: a pattern") };
        let n = p.ident.to_string();
        let n = n.trim_start_matches('_').to_string();
        let at = names.len();
        let ty = &t.ty;
        let default = match &sig {
            Some(s) => s.iter().find(|(m, _)| *m == n || *m == p.ident.to_string()).expect("shim: in the signature").1.clone(),
            None if is_option(ty) => None,
            None => None,
        };
        needed.push(default.is_none());
        names.push(n.clone());
        calls.push(match default {
            Some(d) => quote!(match given[#at] {
                Some(x) => <#ty as ::pyo3::FromPyObject>::extract(x).map_err(|e| e.argument(#n))?,
                None => #d,
            }),
            None => quote!(<#ty as ::pyo3::FromPyObject>::extract(given[#at].expect("shim: given")).map_err(|e| e.argument(#n))?),
        });
    }
    if let Some(s) = &sig {
        assert!(s.iter().map(|x| &x.0).eq(names.iter()), "shim: parameters in another order than in the signature");
    }
    quote!(
        #f
        #[doc(hidden)]
        #vis mod #id {
            use super::*;
            pub(crate) const NAME: &::std::ffi::CStr = unsafe { ::std::ffi::CStr::from_bytes_with_nul_unchecked(concat!(#shown, "\0").as_bytes()) };
            pub(crate) unsafe extern "C" fn wrapped(_: *mut ::pyo3::ffi::PyObject, args: *mut ::pyo3::ffi::PyObject, kwargs: *mut ::pyo3::ffi::PyObject)
                -> *mut ::pyo3::ffi::PyObject
            {
                ::pyo3::guarded(|py| {
                    let given = unsafe { ::pyo3::arguments(#shown, &[#(#names),*], &[#(#needed),*], args, kwargs)? };
                    let _ = (&given, py);
                    let r = super::#id(#(#calls),*);
                    ::pyo3::IntoResult::into_result(r)
                })
            }
        }
    )
    .into()
}

#[proc_macro_attribute]
pub fn pyclass(options: TokenStream, item: TokenStream) -> TokenStream {
    let s = parse_macro_input!(item as ItemStruct);
    let id = &s.ident;
    let mut name = id.to_string();
    let parser = syn::punctuated::Punctuated::<syn::Meta, Token![,]>::parse_terminated;
    for m in parser.parse(options).expect("shim: options of a class") {
        if let syn::Meta::NameValue(v) = &m
            && v.path.is_ident("name")
            && let Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(t), .. }) = &v.value
        {
            name = t.value();
        }
    }
    quote!(
        #s
        impl ::pyo3::IntoPy for #id {
            fn into_py(self) -> *mut ::pyo3::ffi::PyObject {
                ::pyo3::Python::attach(|py| ::pyo3::Py::new(py, self).expect("shim: a new object").into_ptr())
            }
        }
        impl ::pyo3::PyClass for #id {
            const NAME: &'static str = #name;
            fn cell() -> &'static ::std::sync::OnceLock<usize> {
                static CELL: ::std::sync::OnceLock<usize> = ::std::sync::OnceLock::new();
                &CELL
            }
        }
    )
    .into()
}

#[proc_macro_attribute]
pub fn pymethods(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut i = parse_macro_input!(item as ItemImpl);
    let ty = i.self_ty.clone();
    let mut slots = vec![];
    let mut wraps = vec![];
    for m in &mut i.items {
        let ImplItem::Fn(f) = m else { continue };
        let mut name = f.sig.ident.to_string();
        while let Some((n, _)) = signature(&mut f.attrs) {
            name = n.unwrap_or(name);
        }
        let id = &f.sig.ident;
        let wrap = format_ident!("__wrapped_{}", id);
        let own = f.sig.inputs.iter().skip(1).map(|a| match a {
            FnArg::Typed(t) if is_python(&t.ty) => quote!(py),
            _ => panic!("shim: a method with parameters"),
        });
        wraps.push(quote!(
            unsafe extern "C" fn #wrap(this: *mut ::pyo3::ffi::PyObject, _: *mut ::pyo3::ffi::PyObject) -> *mut ::pyo3::ffi::PyObject {
                ::pyo3::guarded(|py| {
                    let _ = py;
                    let r = unsafe { ::pyo3::inside::<#ty>(this) }.#id(#(#own),*);
                    ::pyo3::IntoResult::into_result(r)
                })
            }
        ));
        slots.push(quote!((#name, #wrap as ::pyo3::Method)));
    }
    quote!(
        #i
        const _: () = {
            #(#wraps)*
            impl ::pyo3::PyMethods for #ty {
                fn methods() -> Vec<(&'static str, ::pyo3::Method)> {
                    vec![#(#slots),*]
                }
            }
        };
    )
    .into()
}

#[proc_macro_attribute]
pub fn pymodule(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut f = parse_macro_input!(item as ItemFn);
    while signature(&mut f.attrs).is_some() {}
    let id = &f.sig.ident;
    let init = format_ident!("PyInit_{}", id);
    let name = id.to_string();
    let args = f.sig.inputs.iter().map(|a| match a {
        FnArg::Typed(t) if is_python(&t.ty) => quote!(py),
        _ => quote!(&module),
    });
    quote!(
        #f
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn #init() -> *mut ::pyo3::ffi::PyObject {
            ::pyo3::guarded(|py| {
                let module = ::pyo3::module(py, #name)?;
                #id(#(#args),*)?;
                Ok(module.into_ptr())
            })
        }
    )
    .into()
}
