//! `#[derive(Display, FromStr)]` with `#[display("fmt")]` and `#[display(style = "..")]`.
//! Formats are literals with `{0}` or `{name}` fields (a subset of what parse-display accepts).
use proc_macro2::TokenStream;
use quote::quote;
use syn::*;

enum Part {
    Lit(String),
    Field(String),
}
fn parts(fmt: &str) -> Vec<Part> {
    let mut out = vec![];
    let mut rest = fmt;
    while let Some(i) = rest.find('{') {
        if i > 0 {
            out.push(Part::Lit(rest[..i].to_string()));
        }
        let j = rest[i..].find('}').expect("closing brace") + i;
        out.push(Part::Field(rest[i + 1..j].to_string()));
        rest = &rest[j + 1..];
    }
    if !rest.is_empty() {
        out.push(Part::Lit(rest.to_string()));
    }
    out
}
fn attr(attrs: &[Attribute]) -> (Option<String>, Option<String>) {
    let (mut fmt, mut style) = (None, None);
    for a in attrs {
        if !a.path().is_ident("display") {
            continue;
        }
        if let Ok(l) = a.parse_args::<LitStr>() {
            fmt = Some(l.value());
        } else if let Ok(MetaNameValue { path, value: Expr::Lit(ExprLit { lit: Lit::Str(s), .. }), .. }) = a.parse_args::<MetaNameValue>() {
            assert!(path.is_ident("style"));
            style = Some(s.value());
        } else {
            panic!("unsupported display attribute");
        }
    }
    (fmt, style)
}
fn styled(name: &str, style: Option<&str>) -> String {
    match style {
        None => name.to_string(),
        Some("lowercase") => name.to_lowercase(),
        Some("kebab-case") => {
            let mut s = String::new();
            for (i, c) in name.chars().enumerate() {
                if c.is_uppercase() && i > 0 {
                    s.push('-');
                }
                s.extend(c.to_lowercase());
            }
            s
        }
        Some(o) => panic!("unsupported style {o}"),
    }
}
/// (format, constructor given parsed field variables, field list)
struct Alt {
    fmt: Vec<Part>,
    path: TokenStream,
    fields: Vec<(String, Type)>,
    named: bool,
}
fn alts(input: &DeriveInput) -> Vec<Alt> {
    let (tfmt, style) = attr(&input.attrs);
    let name = &input.ident;
    let fields = |f: &Fields| -> (Vec<(String, Type)>, bool) {
        (
            f.iter().enumerate().map(|(i, f)| (f.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string()), f.ty.clone())).collect(),
            matches!(f, Fields::Named(_)),
        )
    };
    match &input.data {
        Data::Struct(s) => {
            let (fields, named) = fields(&s.fields);
            vec![Alt { fmt: parts(&tfmt.expect("struct needs a display format")), path: quote!(#name), fields, named }]
        }
        Data::Enum(e) => e
            .variants
            .iter()
            .map(|v| {
                let (vf, _) = attr(&v.attrs);
                let id = &v.ident;
                let (fields, named) = fields(&v.fields);
                let text = vf.unwrap_or_else(|| styled(&id.to_string(), style.as_deref()));
                Alt { fmt: parts(&text), path: quote!(#name::#id), fields, named }
            })
            .collect(),
        _ => panic!("union"),
    }
}
fn var(f: &str) -> Ident {
    quote::format_ident!("f_{}", f)
}
fn shape(a: &Alt) -> TokenStream {
    let path = &a.path;
    let vars: Vec<_> = a.fields.iter().map(|(n, _)| var(n)).collect();
    if a.fields.is_empty() {
        quote!(#path)
    } else if a.named {
        let names: Vec<_> = a.fields.iter().map(|(n, _)| quote::format_ident!("{}", n)).collect();
        quote!(#path { #(#names: #vars),* })
    } else {
        quote!(#path ( #(#vars),* ))
    }
}
#[proc_macro_derive(Display, attributes(display))]
pub fn display(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let arms = alts(&input).into_iter().map(|a| {
        let pat = shape(&a);
        let writes = a.fmt.iter().map(|p| match p {
            Part::Lit(l) => quote!(f.write_str(#l)?;),
            Part::Field(n) => {
                let v = var(n);
                quote!(::std::fmt::Display::fmt(#v, f)?;)
            }
        });
        quote!(#pat => { #(#writes)* })
    });
    quote! {
        impl ::std::fmt::Display for #name {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                match self { #(#arms),* }
                Ok(())
            }
        }
    }
    .into()
}
#[proc_macro_derive(FromStr, attributes(display))]
pub fn from_str(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let tries = alts(&input).into_iter().map(|a| {
        let ctor = shape(&a);
        // literal, field literal, field ... : a field extends to the next literal (first occurrence) or to the end
        let mut code = vec![];
        let n = a.fmt.len();
        for (i, p) in a.fmt.iter().enumerate() {
            match p {
                Part::Lit(l) => code.push(quote!(rest = rest.strip_prefix(#l)?;)),
                Part::Field(nm) => {
                    let v = var(nm);
                    let ty = &a.fields.iter().find(|(k, _)| k == nm).expect("field").1;
                    if i + 1 < n {
                        let Part::Lit(l) = &a.fmt[i + 1] else { panic!("adjacent fields") };
                        code.push(quote!(let (h, t) = rest.split_at(rest.find(#l)?); rest = t;));
                    } else {
                        code.push(quote!(let h = rest; rest = "";));
                    }
                    code.push(quote!(let #v: #ty = h.parse().ok()?;));
                }
            }
        }
        quote! {
            #[allow(unused_assignments)]
            let got = (|| -> Option<Self> { let mut rest: &str = s; #(#code)* if !rest.is_empty() { return None; } Some(#ctor) })();
            if let Some(v) = got { return Ok(v); }
        }
    });
    quote! {
        impl ::std::str::FromStr for #name {
            type Err = ::parse_display::ParseError;
            fn from_str(s: &str) -> ::std::result::Result<Self, Self::Err> {
                #(#tries)*
                Err(::parse_display::ParseError("parse failed"))
            }
        }
    }
    .into()
}
