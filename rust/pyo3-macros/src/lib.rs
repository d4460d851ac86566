use proc_macro::TokenStream;
use proc_macro2::TokenStream as TS;
use quote::{format_ident, quote};
use syn::{
    parse::{Parse, ParseStream}, parse_macro_input, punctuated::Punctuated, visit_mut::VisitMut,
    Attribute, Expr, FnArg, Ident, ImplItem, Item, ItemFn, ItemImpl, ItemMod, Pat, ReturnType,
    Signature, Token, Type, UseTree,
};

struct Arg { name: Ident, default: Option<Expr> }
impl Parse for Arg {
    fn parse(i: ParseStream) -> syn::Result<Self> {
        let name: Ident = i.parse()?;
        let default = if i.peek(Token![=]) { i.parse::<Token![=]>()?; Some(i.parse()?) } else { None };
        Ok(Arg { name, default })
    }
}
enum Opt { Sig(Vec<Arg>), Name(String), Other }
impl Parse for Opt {
    fn parse(i: ParseStream) -> syn::Result<Self> {
        let k: Ident = i.parse()?;
        if k == "signature" {
            i.parse::<Token![=]>()?;
            let c; syn::parenthesized!(c in i);
            let p: Punctuated<Arg, Token![,]> = Punctuated::parse_terminated(&c)?;
            return Ok(Opt::Sig(p.into_iter().collect()));
        }
        if i.peek(Token![=]) {
            i.parse::<Token![=]>()?;
            let e: Expr = i.parse()?;
            if let (true, Expr::Lit(l)) = (k == "name", &e) {
                if let syn::Lit::Str(s) = &l.lit { return Ok(Opt::Name(s.value())); }
            }
        }
        Ok(Opt::Other)
    }
}
#[derive(Default)]
struct Opts { sig: Option<Vec<Arg>>, name: Option<String> }
impl Opts {
    fn add(&mut self, t: TS) {
        let parse = |i: ParseStream| Punctuated::<Opt, Token![,]>::parse_terminated(i);
        if let Ok(p) = syn::parse::Parser::parse2(parse, t) {
            for o in p { match o {
                Opt::Sig(s) => self.sig = Some(s),
                Opt::Name(n) => self.name = Some(n),
                Opt::Other => {}
            } }
        }
    }
    fn take(&mut self, attrs: &mut Vec<Attribute>) {
        attrs.retain(|a| {
            if !a.path().is_ident("pyo3") { return true; }
            if let syn::Meta::List(l) = &a.meta { self.add(l.tokens.clone()); }
            false
        });
    }
}

fn is_ref_str(t: &Type) -> bool {
    matches!(t, Type::Reference(r) if matches!(&*r.elem, Type::Path(p) if p.path.is_ident("str")))
}

struct SelfTy<'a>(&'a Type);
impl VisitMut for SelfTy<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if matches!(t, Type::Path(p) if p.path.is_ident("Self")) { *t = self.0.clone(); return; }
        syn::visit_mut::visit_type_mut(self, t);
    }
}

/// Statements that bind the call's arguments, and the argument expressions.
fn binding(pyname: &str, sig: &Signature, opts: &Opts) -> (TS, Vec<TS>) {
    let mut names = vec![]; let mut lets = vec![]; let mut args = vec![];
    let mut ix = 0usize;
    for a in &sig.inputs {
        let FnArg::Typed(p) = a else { continue };
        let Pat::Ident(id) = &*p.pat else { panic!("argument pattern") };
        let id = &id.ident;
        let n = id.to_string();
        let ty = &p.ty;
        let v = format_ident!("__a{}", ix);
        let default = opts.sig.as_ref().and_then(|s| s.iter().find(|x| x.name == *id))
            .and_then(|x| x.default.clone());
        let conv_ty: TS = if is_ref_str(ty) { quote!(String) } else if let Type::Reference(r) = &**ty {
            let e = &r.elem; quote!(#e) } else { quote!(#ty) };
        lets.push(match default {
            Some(Expr::Path(p)) if p.path.is_ident("None") => quote! {
                let #v: #conv_ty = match &__b[#ix] {
                    Some(x) => ::pyo3::FromVal::from_val(x)?, None => None };
            },
            Some(d) => quote! {
                let #v: #conv_ty = match &__b[#ix] {
                    Some(x) => ::pyo3::FromVal::from_val(x)?, None => #d };
            },
            None => quote! {
                let #v: #conv_ty = ::pyo3::FromVal::from_val(&::pyo3::need(#pyname, #n, &__b[#ix])?)?;
            },
        });
        args.push(if matches!(&**ty, Type::Reference(_)) { quote!(&#v) } else { quote!(#v) });
        names.push(n);
        ix += 1;
    }
    (quote! {
        let __b = ::pyo3::bind(#pyname, &[#(#names),*], __args, __kw)?;
        #(#lets)*
    }, args)
}

#[proc_macro_attribute]
pub fn pyfunction(attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut f = parse_macro_input!(item as ItemFn);
    let mut o = Opts::default();
    o.add(attr.into());
    o.take(&mut f.attrs);
    let id = &f.sig.ident;
    let vis = &f.vis;
    let name = o.name.clone().unwrap_or_else(|| id.to_string());
    let thunk = format_ident!("__py_thunk_{}", id);
    let (lets, args) = binding(&name, &f.sig, &o);
    quote! {
        #f
        #[doc(hidden)]
        #[allow(warnings, clippy::all, clippy::pedantic, clippy::nursery)]
        fn #thunk(__args: &[::pyo3::Value], __kw: &[(String, ::pyo3::Value)])
            -> ::pyo3::PyResult<::pyo3::Value> {
            #lets
            ::pyo3::IntoVal::into_val(#id(#(#args),*))
        }
        #[doc(hidden)]
        #[allow(warnings, clippy::all, clippy::pedantic, clippy::nursery)]
        #vis mod #id {
            pub fn __py_def() -> ::pyo3::Def {
                ::pyo3::Def::Func { name: #name, call: super::#thunk }
            }
        }
    }.into()
}

#[proc_macro_attribute]
pub fn pyclass(attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut o = Opts::default();
    o.add(attr.into());
    let mut it = parse_macro_input!(item as Item);
    let strip = |attrs: &mut Vec<Attribute>| attrs.retain(|a| !a.path().is_ident("pyo3"));
    match it {
        Item::Enum(ref mut e) => {
            strip(&mut e.attrs);
            for v in &mut e.variants { strip(&mut v.attrs); }
            let id = &e.ident;
            let name = o.name.unwrap_or_else(|| id.to_string());
            let vs: Vec<_> = e.variants.iter().map(|v| v.ident.clone()).collect();
            let ns: Vec<_> = vs.iter().map(|v| v.to_string()).collect();
            let ix: Vec<u64> = (0..vs.len() as u64).collect();
            quote! {
                #e
                #[allow(warnings, clippy::all, clippy::pedantic, clippy::nursery)]
                const _: () = {
                    impl #id {
                        pub fn __py_def() -> ::pyo3::Def {
                            use ::pyo3::NoMethods as _;
                            ::pyo3::Def::Class { name: #name, enums: &[#((#ns, #ix)),*],
                                methods: #id::__py_methods() }
                        }
                    }
                    impl ::pyo3::IntoVal for #id {
                        fn into_val(self) -> ::pyo3::PyResult<::pyo3::Value> {
                            Ok(::pyo3::Value::Enum(#name.into(), match self { #(#id::#vs => #ix),* }))
                        }
                    }
                    impl ::pyo3::FromVal for #id {
                        fn from_val(v: &::pyo3::Value) -> ::pyo3::PyResult<Self> {
                            match v {
                                #(::pyo3::Value::Enum(c, #ix) if c == #name => Ok(#id::#vs),)*
                                _ => ::pyo3::type_err(#name, v),
                            }
                        }
                    }
                };
            }.into()
        }
        Item::Struct(ref mut s) => {
            strip(&mut s.attrs);
            let mut getters = vec![];
            for f in s.fields.iter_mut() {
                let mut get = false;
                f.attrs.retain(|a| {
                    if !a.path().is_ident("pyo3") { return true; }
                    if let syn::Meta::List(l) = &a.meta { get |= l.tokens.to_string().contains("get"); }
                    false
                });
                if get { getters.push(f.ident.clone().unwrap()); }
            }
            let id = &s.ident;
            let name = o.name.unwrap_or_else(|| id.to_string());
            let gn: Vec<_> = getters.iter().map(|g| g.to_string()).collect();
            quote! {
                #s
                #[allow(warnings, clippy::all, clippy::pedantic, clippy::nursery)]
                const _: () = {
                    impl #id {
                        pub fn __py_def() -> ::pyo3::Def {
                            use ::pyo3::NoMethods as _;
                            let mut methods = #id::__py_methods();
                            #(methods.push(::pyo3::Method { name: #gn, kind: "get",
                                call: |a, _| ::pyo3::with_obj::<#id, _>(&a[0],
                                    |s| ::pyo3::IntoVal::into_val(s.#getters.clone()))? });)*
                            ::pyo3::Def::Class { name: #name, enums: &[], methods }
                        }
                    }
                    impl ::pyo3::IntoVal for #id {
                        fn into_val(self) -> ::pyo3::PyResult<::pyo3::Value> {
                            Ok(::pyo3::put_obj(#name, self))
                        }
                    }
                };
            }.into()
        }
        _ => panic!("pyclass on an unsupported item"),
    }
}

#[proc_macro_attribute]
pub fn pymethods(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut im = parse_macro_input!(item as ItemImpl);
    let ty = (*im.self_ty).clone();
    let mut thunks = vec![];
    for it in &mut im.items {
        let ImplItem::Fn(f) = it else { continue };
        let mut o = Opts::default();
        o.take(&mut f.attrs);
        let mut kind = "method";
        let mut gname = None;
        f.attrs.retain(|a| {
            let p = a.path();
            if p.is_ident("new") { kind = "new"; false }
            else if p.is_ident("getter") {
                kind = "get";
                if let syn::Meta::List(l) = &a.meta { gname = Some(l.tokens.to_string()); }
                false
            }
            else if p.is_ident("staticmethod") { kind = "static"; false }
            else { true }
        });
        let id = &f.sig.ident;
        let mut name = o.name.clone().or(gname).unwrap_or_else(|| id.to_string());
        if kind == "get" && name.starts_with("get_") && o.name.is_none() { name = name[4..].into(); }
        let recv = f.sig.receiver().is_some();
        let mut sig = f.sig.clone();
        SelfTy(&ty).visit_signature_mut(&mut sig);
        let (lets, args) = binding(&name, &sig, &o);
        let body = if recv {
            quote! {
                let (__me, __args) = __args.split_first().expect("self");
                #lets
                ::pyo3::with_obj::<#ty, _>(__me, |__s| ::pyo3::IntoVal::into_val(__s.#id(#(#args),*)))?
            }
        } else {
            quote! { #lets ::pyo3::IntoVal::into_val(<#ty>::#id(#(#args),*)) }
        };
        let _ = matches!(f.sig.output, ReturnType::Default);
        thunks.push(quote! {
            ::pyo3::Method { name: #name, kind: #kind, call: {
                fn t(__args: &[::pyo3::Value], __kw: &[(String, ::pyo3::Value)])
                    -> ::pyo3::PyResult<::pyo3::Value> { #body }
                t
            } }
        });
    }
    quote! {
        #im
        #[allow(warnings, clippy::all, clippy::pedantic, clippy::nursery)]
        const _: () = {
            impl #ty {
                pub fn __py_methods() -> Vec<::pyo3::Method> { vec![#(#thunks),*] }
            }
        };
    }.into()
}

fn flatten(t: &UseTree, pre: &[Ident], out: &mut Vec<Vec<Ident>>) {
    match t {
        UseTree::Path(p) => { let mut q = pre.to_vec(); q.push(p.ident.clone()); flatten(&p.tree, &q, out) }
        UseTree::Name(n) => { let mut q = pre.to_vec(); q.push(n.ident.clone()); out.push(q) }
        UseTree::Rename(n) => { let mut q = pre.to_vec(); q.push(n.ident.clone()); out.push(q) }
        UseTree::Group(g) => for x in &g.items { flatten(x, pre, out) },
        UseTree::Glob(_) => panic!("glob export"),
    }
}

#[proc_macro_attribute]
pub fn pymodule(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let m = parse_macro_input!(item as ItemMod);
    let name = m.ident.to_string();
    let vis = &m.vis; let id = &m.ident;
    let mut paths = vec![];
    let mut rest = vec![];
    for mut it in m.content.map(|c| c.1).unwrap_or_default() {
        let mut export = false;
        let mut clean = |attrs: &mut Vec<Attribute>| attrs.retain(|a| {
            if a.path().is_ident("pymodule_export") { export = true; false } else { true } });
        match &mut it {
            Item::Use(u) => {
                clean(&mut u.attrs);
                if export { flatten(&u.tree, &[], &mut paths); } else { rest.push(it); }
            }
            Item::Fn(f) => {
                if f.attrs.iter().any(|a| a.path().is_ident("pyfunction")) { paths.push(vec![f.sig.ident.clone()]); }
                rest.push(it);
            }
            Item::Struct(s) => {
                if s.attrs.iter().any(|a| a.path().is_ident("pyclass")) { paths.push(vec![s.ident.clone()]); }
                rest.push(it);
            }
            _ => rest.push(it),
        }
    }
    quote! {
        #[allow(warnings, clippy::all, clippy::pedantic, clippy::nursery)]
        #vis mod #id {
            #(#rest)*
            #[no_mangle]
            pub unsafe extern "C" fn mini_describe(out: *mut *mut u8, len: *mut usize) {
                ::pyo3::describe(#name, vec![#(#(#paths)::*::__py_def()),*], out, len);
            }
        }
    }.into()
}
