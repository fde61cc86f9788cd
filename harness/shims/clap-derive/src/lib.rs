//! The part of clap's derive macros that linkspace uses.
use proc_macro2::TokenStream;
use quote::quote;
use syn::*;

#[derive(Default)]
struct At {
    long: Option<String>,
    is_arg: bool,
    short: Option<char>,
    alias: Vec<String>,
    env: Option<String>,
    default: Option<TokenStream>,
    last: bool,
    global: bool,
    skip: bool,
    flatten: bool,
    subcommand: bool,
    external: bool,
    count: bool,
    conflicts: Vec<String>,
    requires: Vec<String>,
    unless: Option<String>,
}
fn kebab(s: &str) -> String {
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        if c == '_' {
            o.push('-')
        } else if c.is_uppercase() {
            if i > 0 {
                o.push('-')
            }
            o.extend(c.to_lowercase())
        } else {
            o.push(c)
        }
    }
    o
}
fn text(e: &Expr) -> Vec<String> {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => vec![s.value()],
        Expr::Lit(ExprLit { lit: Lit::Char(s), .. }) => vec![s.value().to_string()],
        Expr::Array(a) => a.elems.iter().flat_map(text).collect(),
        _ => vec![],
    }
}
fn attrs(a: &[Attribute], name: &str, ty: Option<&Type>) -> At {
    let mut o = At::default();
    for a in a {
        if !["arg", "command", "clap"].iter().any(|n| a.path().is_ident(n)) {
            continue;
        }
        a.parse_nested_meta(|m| {
            let k = m.path.get_ident().expect("ident").to_string();
            let v: Option<Expr> = if m.input.peek(Token![=]) {
                Some(m.value()?.parse()?)
            } else if m.input.peek(token::Paren) {
                let c;
                parenthesized!(c in m.input);
                Some(c.parse()?)
            } else {
                None
            };
            let t = v.as_ref().map(text).unwrap_or_default();
            match k.as_str() {
                "long" => o.long = Some(t.first().cloned().unwrap_or_else(|| kebab(name))),
                "short" => o.short = Some(t.first().map(|s| s.chars().next().unwrap()).unwrap_or_else(|| name.chars().next().unwrap())),
                "alias" | "aliases" => o.alias.extend(t),
                "env" => o.env = t.first().cloned(),
                "default_value" => {
                    let v = v.unwrap();
                    o.default = Some(quote!(String::from(#v)))
                }
                "default_value_t" => {
                    o.default = Some(match v {
                        Some(v) => quote!({ let v: #ty = #v; v.to_string() }),
                        None => quote!({ let v: #ty = Default::default(); v.to_string() }),
                    })
                }
                "last" => o.last = true,
                "global" => o.global = true,
                "skip" => o.skip = true,
                "flatten" => o.flatten = true,
                "subcommand" => o.subcommand = true,
                "external_subcommand" => o.external = true,
                "action" => o.count = quote!(#v).to_string().contains("Count"),
                "conflicts_with" | "conflicts_with_all" => o.conflicts.extend(t),
                "requires" => o.requires.extend(t),
                "required_unless_present" => o.unless = t.first().cloned(),
                _ => {}
            }
            Ok(())
        })
        .expect("attribute");
    }
    o
}
fn inner<'a>(t: &'a Type, name: &str) -> Option<&'a Type> {
    if let Type::Path(p) = t {
        let s = p.path.segments.last()?;
        if s.ident == name {
            if let PathArguments::AngleBracketed(a) = &s.arguments {
                if let Some(GenericArgument::Type(t)) = a.args.first() {
                    return Some(t);
                }
            }
        }
    }
    None
}
fn is(t: &Type, name: &str) -> bool {
    matches!(t, Type::Path(p) if p.path.is_ident(name))
}
/// (specs, subcommand resolver or nothing, field initialisers)
fn fields(f: &Fields) -> (TokenStream, TokenStream, TokenStream) {
    let (mut specs, mut sub, mut init) = (quote!(), quote!(), quote!());
    for (i, f) in f.iter().enumerate() {
        let id = f.ident.as_ref().map(|i| i.to_string()).unwrap_or(format!("_{i}"));
        let ty = &f.ty;
        let a = attrs(&f.attrs, &id, Some(ty));
        let set = |v: TokenStream| match &f.ident {
            Some(i) => quote!(#i: #v,),
            None => quote!(#v,),
        };
        if a.skip {
            init.extend(set(quote!(Default::default())));
            continue;
        }
        if a.flatten || f.ident.is_none() {
            specs.extend(quote!(<#ty as clap::Args>::specs(out);));
            sub.extend(quote!(if let ::std::option::Option::Some(s) = <#ty as clap::Args>::subs() { return ::std::option::Option::Some(s); }));
            init.extend(set(quote!(<#ty as clap::Args>::build(m)?)));
            continue;
        }
        if a.subcommand {
            let (t, opt) = match inner(ty, "Option") {
                Some(t) => (t, true),
                None => (ty, false),
            };
            sub.extend(quote!(return ::std::option::Option::Some(clap::Subs { find: <#t as clap::Subcommand>::find, specs: <#t as clap::Subcommand>::sub_specs, subs: <#t as clap::Subcommand>::sub_subs, required: !#opt });));
            init.extend(set(if opt { quote!(match m.sub.take() { ::std::option::Option::Some(mut s) => ::std::option::Option::Some(<#t as clap::Subcommand>::build(s.0, &mut s.1)?), ::std::option::Option::None => ::std::option::Option::None }) } else { quote!(match m.sub.take() { ::std::option::Option::Some(mut s) => <#t as clap::Subcommand>::build(s.0, &mut s.1)?, ::std::option::Option::None => return ::std::result::Result::Err(clap::Error::new("a subcommand is required")) }) }));
            continue;
        }
        let positional = a.long.is_none() && a.short.is_none();
        let (kind, val, required) = if is(ty, "bool") {
            (quote!(Flag), quote!(m.flag(#id)), false)
        } else if a.count {
            (quote!(Count), quote!(m.count(#id) as #ty), false)
        } else if let Some(t) = inner(ty, "Option") {
            (quote!(Single), quote!(match m.single(#id) { ::std::option::Option::Some(s) => ::std::option::Option::Some(clap::parse_value!(#t, #id, s)), ::std::option::Option::None => ::std::option::Option::None }), false)
        } else if let Some(t) = inner(ty, "Vec") {
            (quote!(Multi), quote!({ let mut v = vec![]; for s in m.all(#id) { v.push(clap::parse_value!(#t, #id, s)); } v }), false)
        } else {
            (quote!(Single), quote!(match m.single(#id) { ::std::option::Option::Some(s) => clap::parse_value!(#ty, #id, s), ::std::option::Option::None => return ::std::result::Result::Err(clap::Error::new(concat!("missing ", #id))) }), a.default.is_none())
        };
        init.extend(set(val));
        let opt = |s: &Option<String>| match s {
            Some(s) => quote!(::std::option::Option::Some(#s)),
            None => quote!(::std::option::Option::None),
        };
        let (long, env, unless) = (opt(&a.long), opt(&a.env), opt(&a.unless));
        let short = match a.short {
            Some(c) => quote!(::std::option::Option::Some(#c)),
            None => quote!(::std::option::Option::None),
        };
        let (alias, conf, req, last, global) = (&a.alias, &a.conflicts, &a.requires, a.last, a.global);
        // a flag's default is that it is not set
        let def = match (&a.default, is(ty, "bool")) {
            (Some(d), false) => quote!(::std::option::Option::Some(#d)),
            _ => quote!(::std::option::Option::None),
        };
        specs.extend(quote!(out.push(clap::Spec { id: #id, long: #long, short: #short, alias: vec![#(#alias),*], env: #env, default: #def, kind: clap::Kind::#kind, positional: #positional, last: #last, global: #global, required: #required, conflicts: vec![#(#conf),*], requires: vec![#(#req),*], unless: #unless });));
    }
    (specs, sub, init)
}
fn make_struct(d: &DeriveInput, s: &DataStruct) -> TokenStream {
    let n = &d.ident;
    let (specs, sub, init) = fields(&s.fields);
    quote! {
        impl clap::Args for #n {
            fn specs(out: &mut Vec<clap::Spec>) { let _ = &out; #specs }
            #[allow(unreachable_code)]
            fn subs() -> ::std::option::Option<clap::Subs> { #sub ::std::option::Option::None }
            fn build(m: &mut clap::Matches) -> ::std::result::Result<Self, clap::Error> { let _ = &m; ::std::result::Result::Ok(#n { #init }) }
        }
        impl clap::Parser for #n {}
    }
}
fn make_enum(d: &DeriveInput, e: &DataEnum) -> TokenStream {
    let n = &d.ident;
    let (mut find, mut specs, mut subs, mut build) = (quote!(), quote!(), quote!(), quote!());
    for (i, v) in e.variants.iter().enumerate() {
        let vn = &v.ident;
        let a = attrs(&v.attrs, &vn.to_string(), None);
        if a.external {
            find.extend(quote!(_ => ::std::option::Option::Some((#i, true)),));
            build.extend(quote!(#i => #n::#vn(m.all("").into_iter().map(Into::into).collect()),));
            continue;
        }
        let name = kebab(&vn.to_string());
        let al = &a.alias;
        find.extend(quote!(#name #(| #al)* => ::std::option::Option::Some((#i, false)),));
        if a.subcommand {
            panic!("not supported")
        }
        let (s, u, init) = fields(&v.fields);
        specs.extend(quote!(#i => { #s }));
        subs.extend(quote!(#i => { #u ::std::option::Option::None }));
        build.extend(match v.fields {
            Fields::Named(_) => quote!(#i => #n::#vn { #init },),
            Fields::Unnamed(_) => quote!(#i => #n::#vn(#init),),
            Fields::Unit => quote!(#i => #n::#vn,),
        });
    }
    quote! {
        impl clap::Subcommand for #n {
            #[allow(unreachable_patterns)]
            fn find(name: &str) -> ::std::option::Option<(usize, bool)> { match name { #find _ => ::std::option::Option::None } }
            fn sub_specs(i: usize, out: &mut Vec<clap::Spec>) { let _ = &out; match i { #specs _ => {} } }
            #[allow(unreachable_code)]
            fn sub_subs(i: usize) -> ::std::option::Option<clap::Subs> { match i { #subs _ => ::std::option::Option::None } }
            fn build(i: usize, m: &mut clap::Matches) -> ::std::result::Result<Self, clap::Error> { let _ = &m; ::std::result::Result::Ok(match i { #build _ => unreachable!() }) }
        }
    }
}
fn make(t: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let d: DeriveInput = parse_macro_input!(t);
    match &d.data {
        Data::Struct(s) => make_struct(&d, s),
        Data::Enum(e) => make_enum(&d, e),
        _ => panic!("union"),
    }
    .into()
}
#[proc_macro_derive(Parser, attributes(arg, command, clap, group))]
pub fn parser(t: proc_macro::TokenStream) -> proc_macro::TokenStream {
    make(t)
}
#[proc_macro_derive(Args, attributes(arg, command, clap, group))]
pub fn args(t: proc_macro::TokenStream) -> proc_macro::TokenStream {
    make(t)
}
#[proc_macro_derive(Subcommand, attributes(arg, command, clap, group))]
pub fn subcommand(t: proc_macro::TokenStream) -> proc_macro::TokenStream {
    make(t)
}
#[proc_macro_derive(ValueEnum, attributes(value, clap))]
pub fn value_enum(t: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let d: DeriveInput = parse_macro_input!(t);
    let n = &d.ident;
    let e = match &d.data {
        Data::Enum(e) => e,
        _ => panic!("enum"),
    };
    let names = e.variants.iter().map(|v| kebab(&v.ident.to_string()));
    let vs = e.variants.iter().map(|v| &v.ident);
    quote!(impl clap::ValueEnum for #n { fn from_name(s: &str) -> ::std::option::Option<Self> { match s { #(#names => ::std::option::Option::Some(#n::#vs),)* _ => ::std::option::Option::None } } }).into()
}
