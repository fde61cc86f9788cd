//! Stand-in for clap: the command line grammar linkspace uses, no help texts.
pub use clap_derive::*;
use std::collections::HashMap;
use std::marker::PhantomData;

#[derive(Debug)]
pub struct Error(String);
impl Error {
    pub fn new(s: impl Into<String>) -> Self {
        Error(s.into())
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl std::error::Error for Error {}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Flag,
    Count,
    Single,
    Multi,
}
pub enum ArgAction {
    Count,
    Append,
}
pub struct Spec {
    pub id: &'static str,
    pub long: Option<&'static str>,
    pub short: Option<char>,
    pub alias: Vec<&'static str>,
    pub env: Option<&'static str>,
    pub default: Option<String>,
    pub kind: Kind,
    pub positional: bool,
    pub last: bool,
    pub global: bool,
    pub required: bool,
    pub conflicts: Vec<&'static str>,
    pub requires: Vec<&'static str>,
    pub unless: Option<&'static str>,
}
#[derive(Default)]
pub struct Matches {
    given: HashMap<&'static str, Vec<String>>,
    rest: HashMap<&'static str, Vec<String>>,
    pub sub: Option<(usize, Box<Matches>)>,
}
impl Matches {
    pub fn all(&mut self, id: &str) -> Vec<String> {
        self.given.get(id).or(self.rest.get(id)).cloned().unwrap_or_default()
    }
    pub fn single(&mut self, id: &str) -> Option<String> {
        self.all(id).pop()
    }
    pub fn flag(&mut self, id: &str) -> bool {
        match self.single(id) {
            None => false,
            Some(s) => !["", "0", "n", "no", "f", "false", "off"].contains(&s.to_lowercase().as_str()),
        }
    }
    pub fn count(&mut self, id: &str) -> usize {
        self.all(id).len()
    }
}
pub struct Subs {
    pub find: fn(&str) -> Option<(usize, bool)>,
    pub specs: fn(usize, &mut Vec<Spec>),
    pub subs: fn(usize) -> Option<Subs>,
    pub required: bool,
}
pub trait Args: Sized {
    fn specs(out: &mut Vec<Spec>);
    fn subs() -> Option<Subs>;
    fn build(m: &mut Matches) -> Result<Self, Error>;
}
pub trait Subcommand: Sized {
    fn find(name: &str) -> Option<(usize, bool)>;
    fn sub_specs(i: usize, out: &mut Vec<Spec>);
    fn sub_subs(i: usize) -> Option<Subs>;
    fn build(i: usize, m: &mut Matches) -> Result<Self, Error>;
}
pub trait ValueEnum: Sized {
    fn from_name(s: &str) -> Option<Self>;
}
pub trait Parser: Args {
    fn try_parse_from<I: IntoIterator<Item = String>>(args: I) -> Result<Self, Error> {
        let mut specs = vec![];
        Self::specs(&mut specs);
        let args: Vec<String> = args.into_iter().skip(1).collect();
        let mut m = level(specs, Self::subs(), &args, &mut vec![])?;
        Self::build(&mut m)
    }
    fn parse() -> Self {
        match Self::try_parse_from(std::env::args()) {
            Ok(s) => s,
            Err(e) => {
                eprintln!("error: {e}");
                std::process::exit(2)
            }
        }
    }
}
pub struct Via<T>(pub PhantomData<T>);
pub trait ViaEnum<T> {
    fn go(&self, s: &str) -> Result<T, String>;
}
pub trait ViaStr<T> {
    fn go(&self, s: &str) -> Result<T, String>;
}
impl<T: ValueEnum> ViaEnum<T> for &Via<T> {
    fn go(&self, s: &str) -> Result<T, String> {
        T::from_name(s).ok_or_else(|| "not one of the possible values".into())
    }
}
impl<T: std::str::FromStr> ViaStr<T> for Via<T>
where
    T::Err: std::fmt::Display,
{
    fn go(&self, s: &str) -> Result<T, String> {
        s.parse().map_err(|e: T::Err| format!("{e:#}"))
    }
}
#[macro_export]
macro_rules! parse_value {
    ($t:ty, $id:expr, $s:expr) => {{
        #[allow(unused_imports)]
        use $crate::{ViaEnum, ViaStr};
        let s: String = $s;
        match (&$crate::Via::<$t>(std::marker::PhantomData)).go(&s) {
            ::std::result::Result::Ok(v) => v,
            ::std::result::Result::Err(e) => return ::std::result::Result::Err($crate::Error::new(format!("invalid value {s:?} for {}: {e}", $id))),
        }
    }};
}
/// the values of global arguments given below the level that defines them
type Globals = Vec<(&'static str, Option<&'static str>, Option<char>, Kind, Vec<String>)>;
fn level(specs: Vec<Spec>, subs: Option<Subs>, args: &[String], up: &mut Globals) -> Result<Matches, Error> {
    let base = up.len();
    for s in specs.iter().filter(|s| s.global) {
        up.push((s.id, s.long, s.short, s.kind, vec![]));
    }
    let mut m = Matches::default();
    let mut pos = specs.iter().filter(|s| s.positional && !s.last).peekable();
    let mut i = 0;
    while i < args.len() {
        let a = &args[i];
        i += 1;
        if a == "--" {
            let last = specs.iter().find(|s| s.last);
            for v in &args[i..] {
                let s = match last {
                    Some(l) => l,
                    None => match pos.peek() {
                        Some(p) => {
                            let p: &Spec = p;
                            if p.kind != Kind::Multi {
                                pos.next().unwrap()
                            } else {
                                p
                            }
                        }
                        None => return Err(Error(format!("unexpected argument {v:?}"))),
                    },
                };
                m.given.entry(s.id).or_default().push(v.clone());
            }
            break;
        }
        let mut take = |id: &'static str, kind: Kind, inline: Option<String>, i: &mut usize, out: &mut Vec<String>, given: bool| -> Result<(), Error> {
            match kind {
                Kind::Flag | Kind::Count => {
                    if inline.is_some() {
                        return Err(Error(format!("{id} takes no value")));
                    }
                    if kind == Kind::Flag && given {
                        return Err(Error(format!("{id} given twice")));
                    }
                    out.push("true".into());
                }
                Kind::Single | Kind::Multi => {
                    if kind == Kind::Single && given {
                        return Err(Error(format!("{id} given twice")));
                    }
                    let v = match inline {
                        Some(v) => v,
                        None => {
                            let v = args.get(*i).filter(|v| *v == "-" || !v.starts_with('-')).cloned().ok_or_else(|| Error(format!("{id} needs a value")))?;
                            *i += 1;
                            v
                        }
                    };
                    out.push(v);
                }
            }
            Ok(())
        };
        if let Some(l) = a.strip_prefix("--") {
            let (name, inline) = match l.split_once('=') {
                Some((n, v)) => (n, Some(v.to_string())),
                None => (l, None),
            };
            if let Some(s) = specs.iter().find(|s| s.long == Some(name) || (s.long.is_some() && s.alias.contains(&name))) {
                let given = m.given.contains_key(s.id);
                take(s.id, s.kind, inline, &mut i, m.given.entry(s.id).or_default(), given)?;
            } else if let Some(g) = up.iter_mut().find(|g| g.1 == Some(name)) {
                let given = !g.4.is_empty();
                let mut v = std::mem::take(&mut g.4);
                take(g.0, g.3, inline, &mut i, &mut v, given)?;
                g.4 = v;
            } else {
                return Err(Error(format!("unexpected argument {a:?}")));
            }
            continue;
        }
        if a.len() > 1 && a.starts_with('-') {
            let mut cs = a[1..].char_indices();
            while let Some((at, c)) = cs.next() {
                let s = specs.iter().find(|s| s.short == Some(c)).ok_or_else(|| Error(format!("unexpected argument {a:?}")))?;
                let rest = &a[1 + at + c.len_utf8()..];
                let given = m.given.contains_key(s.id);
                if matches!(s.kind, Kind::Single | Kind::Multi) && !rest.is_empty() {
                    let v = rest.strip_prefix('=').unwrap_or(rest).to_string();
                    take(s.id, s.kind, Some(v), &mut i, m.given.entry(s.id).or_default(), given)?;
                    break;
                }
                take(s.id, s.kind, None, &mut i, m.given.entry(s.id).or_default(), given)?;
            }
            continue;
        }
        if let Some(s) = &subs {
            if let Some((n, external)) = (s.find)(a) {
                // (an external command only where no argument could be)
                if !external || pos.peek().is_none() {
                    let mut sp = vec![];
                    (s.specs)(n, &mut sp);
                    let sub = if external {
                        let mut e = Matches::default();
                        e.given.insert("", args[i - 1..].to_vec());
                        e
                    } else {
                        level(sp, (s.subs)(n), &args[i..], up)?
                    };
                    m.sub = Some((n, Box::new(sub)));
                    break;
                }
            }
        }
        match pos.peek() {
            Some(s) => {
                let s: &Spec = s;
                m.given.entry(s.id).or_default().push(a.clone());
                if s.kind != Kind::Multi {
                    pos.next();
                }
            }
            None => return Err(Error(format!("unexpected argument {a:?}"))),
        }
    }
    for g in up.drain(base..) {
        if !g.4.is_empty() && !m.given.contains_key(g.0) {
            m.given.insert(g.0, g.4);
        }
    }
    m.given.retain(|_, v| !v.is_empty());
    for s in &specs {
        if m.given.contains_key(s.id) {
            for c in &s.conflicts {
                if m.given.contains_key(c) && *c != s.id {
                    return Err(Error(format!("{} cannot be used with {c}", s.id)));
                }
            }
            continue;
        }
        if let Some(v) = s.env.and_then(|e| std::env::var(e).ok()) {
            m.rest.insert(s.id, vec![v]);
        } else if let Some(d) = &s.default {
            m.rest.insert(s.id, vec![d.clone()]);
        }
    }
    for s in &specs {
        let present = m.given.contains_key(s.id);
        if present {
            for r in &s.requires {
                if !m.given.contains_key(r) && !m.rest.contains_key(r) {
                    return Err(Error(format!("{} requires {r}", s.id)));
                }
            }
        }
        if (s.required || s.unless.map(|u| !m.given.contains_key(u)) == Some(true)) && !present && !m.rest.contains_key(s.id) {
            return Err(Error(format!("the argument {} is required", s.id)));
        }
    }
    if let Some(s) = &subs {
        if s.required && m.sub.is_none() {
            return Err(Error::new("a subcommand is required"));
        }
    }
    Ok(m)
}
