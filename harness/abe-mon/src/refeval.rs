//! Independent reference evaluator for expressions over the basic scope (+ user arguments).
use crate::refabe::{self, A};

#[derive(Debug, Clone, PartialEq)]
pub enum E {
    NoFunc(Vec<u8>),
    Func(Vec<u8>),
    NoMacro(Vec<u8>),
    Macro(Vec<u8>),
    Other,
    /// a result beyond the size bound
    Big,
    /// outside what the reference models
    Unk,
}
pub type List = Vec<(Option<u8>, Vec<u8>)>;
#[derive(Clone, Default)]
pub struct Env {
    /// (live bracket expressions, evaluated bracket expressions)
    pub depth: std::cell::Cell<(usize, u64)>,
    /// [0]..[7] of ArgV
    pub argv: Option<Vec<Vec<u8>>>,
    /// [n] and [argv:..] of ArgList
    pub arglist: Option<Vec<Vec<u8>>>,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Fe {
    Bad,
    Big,
    Unk,
}
pub type FR = Result<Vec<u8>, Fe>;
const BAD: FR = Err(Fe::Bad);

pub fn uint(b: &[u8], max: u128) -> Option<u128> {
    let d = b.strip_prefix(b"+").unwrap_or(b);
    radix(d, 10, max)
}
fn radix(d: &[u8], base: u128, max: u128) -> Option<u128> {
    if d.is_empty() {
        return None;
    }
    let mut v: u128 = 0;
    for c in d {
        let x = (*c as char).to_digit(base as u32)? as u128;
        v = v.checked_mul(base)?.checked_add(x)?;
    }
    (v <= max).then_some(v)
}
/// what may follow: the biggest length the reference allocates
const LIM: u128 = 1 << 20;

pub fn pad(a: &[&[u8]], left: bool, dflt: u8, strict: bool, fixed: bool) -> FR {
    let n = match a.get(1) {
        None => 16,
        Some(x) if x.is_empty() => 16,
        Some(x) => uint(x, u64::MAX as u128).ok_or(Fe::Bad)?,
    };
    let mut b = a[0].to_vec();
    if fixed && (b.len() as u128) > n {
        let n = n as usize;
        b = if left { b[..n].to_vec() } else { b[b.len() - n..].to_vec() };
    }
    if n < b.len() as u128 {
        return if strict { BAD } else { Ok(b) };
    }
    let p = match a.get(2) {
        None => dflt,
        Some([x]) => *x,
        Some(_) => return BAD,
    };
    if n > LIM {
        return Err(Fe::Big);
    }
    let fill = vec![p; n as usize - b.len()];
    Ok(if left { [fill, b].concat() } else { [b, fill].concat() })
}
pub fn cut(a: &[&[u8]], left: bool, strict: bool) -> FR {
    let n = match a.get(1) {
        None => 16,
        Some(x) => uint(x, u64::MAX as u128).ok_or(Fe::Bad)?,
    };
    let b = a[0];
    if n > b.len() as u128 {
        return if strict { BAD } else { Ok(b.to_vec()) };
    }
    let n = n as usize;
    Ok(if left { b[..n].to_vec() } else { b[b.len() - n..].to_vec() })
}
/// python slicing, index by index; `-0` counts from the end here, unlike python
pub fn slice_idx(len: usize, a: &[&[u8]]) -> Result<Vec<usize>, Fe> {
    let len = len as i128;
    let bound = |x: Option<&&[u8]>| -> Result<Option<i128>, Fe> {
        match x {
            None => Ok(None),
            Some(x) if x.is_empty() => Ok(None),
            Some(x) => {
                let (neg, d) = match x.strip_prefix(b"-") {
                    Some(d) => (true, d),
                    None => (false, *x),
                };
                let v = uint(d, u64::MAX as u128).ok_or(Fe::Bad)? as i128;
                Ok(Some(if neg { len - v } else { v }))
            }
        }
    };
    let s = bound(a.first())?;
    let e = bound(a.get(1))?;
    let step: i128 = match a.get(2) {
        None => 1,
        Some(x) => match x.strip_prefix(b"-") {
            Some(d) => -(radix(d, 10, 1 << 63).ok_or(Fe::Bad)? as i128),
            None => uint(x, i64::MAX as u128).ok_or(Fe::Bad)? as i128,
        },
    };
    let (lo, hi) = if step >= 0 { (0, len) } else { (-1, len - 1) };
    let (ds, de) = if step >= 0 { (0, len) } else { (len - 1, -1) };
    let cl = |v: i128| if hi < lo { lo.min(hi).max(v.min(lo.max(hi))) } else { v.max(lo).min(hi) };
    let mut i = s.map(cl).unwrap_or(ds);
    let e = e.map(cl).unwrap_or(de);
    let mut out = vec![];
    if step == 0 {
        return Ok(out);
    }
    while if step > 0 { i < e } else { i > e } {
        if i < 0 || i >= len {
            break;
        }
        out.push(i as usize);
        i += step;
    }
    Ok(out)
}
pub fn replace(b: &[u8], from: &[u8], to: &[u8]) -> Vec<u8> {
    if from.is_empty() {
        return b.to_vec();
    }
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b.len() - i >= from.len() && &b[i..i + from.len()] == from {
            out.extend_from_slice(to);
            i += from.len()
        } else {
            out.push(b[i]);
            i += 1
        }
    }
    out
}
/// big endian add/sub with saturation, on a wide value
pub fn addsub(a: &[&[u8]], sub: bool) -> FR {
    let n = a[0].len();
    if a.iter().any(|x| x.len() != n) {
        return BAD;
    }
    let mut acc = a[0].to_vec();
    for x in &a[1..] {
        let mut out = vec![0u8; n];
        let mut carry = 0i32;
        for k in (0..n).rev() {
            let t = acc[k] as i32 + if sub { -(x[k] as i32) } else { x[k] as i32 } + carry;
            out[k] = t.rem_euclid(256) as u8;
            carry = t.div_euclid(256);
        }
        if carry != 0 {
            return Ok(vec![if sub { 0 } else { 255 }; n]);
        }
        acc = out;
    }
    Ok(acc)
}
fn be(v: u128, n: usize) -> Vec<u8> {
    (0..n).rev().map(|k| (v >> (8 * k)) as u8).collect()
}
fn le(v: u128, n: usize) -> Vec<u8> {
    (0..n).map(|k| (v >> (8 * k)) as u8).collect()
}
fn nmax(n: usize) -> u128 {
    if n == 16 {
        u128::MAX
    } else {
        (1u128 << (8 * n)) - 1
    }
}
const B64U: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
const B64S: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64enc(b: &[u8], std: bool) -> String {
    let t = if std { B64S } else { B64U };
    let mut s = String::new();
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            if k <= c.len() {
                s.push(t[(v >> (18 - 6 * k)) as usize & 63] as char)
            } else if std {
                s.push('=')
            }
        }
    }
    s
}
pub fn b64dec(t: &[u8], std: bool) -> Option<Vec<u8>> {
    let tb = if std { B64S } else { B64U };
    let mut d = t;
    if std {
        if t.len() % 4 != 0 {
            return None;
        }
        d = d.strip_suffix(b"==").or_else(|| d.strip_suffix(b"=")).unwrap_or(d);
    }
    if d.len() % 4 == 1 {
        return None;
    }
    if std && (t.len() - d.len()) != (4 - d.len() % 4) % 4 {
        return None;
    }
    let mut out = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for c in d {
        let v = tb.iter().position(|x| x == c)? as u32;
        acc = (acc << 6) | v;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    // unused trailing bits have to be zero
    (acc == 0).then_some(out)
}
pub fn mini(b: &[u8]) -> String {
    let s = b64enc(b, false);
    if b.len() <= 12 {
        return s;
    }
    let pairs = b.len() / 8;
    format!("{}{}{}{}", &s[..6], ":".repeat(pairs / 2), if pairs % 2 == 1 { "." } else { "" }, &s[s.len() - 2..])
}
fn trim_front(b: &[u8]) -> &[u8] {
    let k = b.iter().take_while(|x| **x == 0).count();
    &b[k..]
}
fn bin(t: &[u8], base: u128) -> FR {
    let v = radix(t.strip_prefix(b"+").unwrap_or(t), base, u128::MAX).ok_or(Fe::Bad)?;
    Ok(if v == 0 { vec![0] } else { trim_front(&be(v, 16)).to_vec() })
}
/// inverse functions: None = not applicable
pub fn encode1(id: &[u8], opts: &[A], b: &[u8]) -> Result<Option<String>, ()> {
    let lens = |strict: bool| -> Result<Vec<u128>, ()> {
        let mut v = vec![];
        for o in opts {
            match o {
                A::B(x) => v.push(uint(x, if strict { u64::MAX as u128 } else { u32::MAX as u128 }).ok_or(())?),
                _ if strict => return Err(()),
                _ => {}
            }
        }
        Ok(v)
    };
    let fixed = |n: usize| -> Result<Option<String>, ()> {
        Ok((b.len() == n).then(|| {
            let v = b.iter().fold(0u128, |a, x| a << 8 | *x as u128);
            format!("[u{}:{v}]", n * 8)
        }))
    };
    match id {
        b"a" => {
            let t = refabe::enc(trim_front(b));
            Ok(Some(if b.len() == 16 { format!("[a:{t}]") } else { format!("[a:{t}:{}]", b.len()) }))
        }
        b"u8" => fixed(1),
        b"u16" => fixed(2),
        b"u32" => fixed(4),
        b"u64" => fixed(8),
        b"u128" => fixed(16),
        b"b" => {
            let t = format!("[b:{}]", b64enc(b, false));
            if opts.is_empty() {
                return Ok(Some(t));
            }
            // lengths are tried left to right: a match before a malformed one wins
            for o in opts {
                if let A::B(x) = o {
                    if uint(x, u32::MAX as u128).ok_or(())? == b.len() as u128 {
                        return Ok(Some(t));
                    }
                }
            }
            Ok(None)
        }
        b"bs" => Ok(Some(format!("[bs:{}]", b64enc(b, true).replace('/', "\\/")))),
        b"b2" | b"b16" => {
            let l = lens(true)?;
            if !l.is_empty() && !l.contains(&(b.len() as u128)) {
                return Ok(None);
            }
            // only what decoding gives back
            if b.is_empty() || b.len() > 16 || (b.len() > 1 && b[0] == 0) {
                return Ok(None);
            }
            let d: String = if id == b"b2" { b.iter().map(|x| format!("{x:08b}")).collect() } else { b.iter().map(|x| format!("{x:02X}")).collect() };
            Ok(Some(format!("[{}:{d}]", std::str::from_utf8(id).unwrap())))
        }
        _ => Ok(None),
    }
}
pub enum EncErr {
    Options,
    Failed,
    None,
}
pub fn encode(b: &[u8], opts: &[A], ignore: bool) -> Result<String, EncErr> {
    if opts.is_empty() {
        return Err(EncErr::None);
    }
    for seg in opts.split(|x| *x == A::C(b'/')) {
        let (id, args): (&[u8], &[A]) = match seg {
            [A::C(b':')] => (&[], &[]),
            [] => return Ok(refabe::enc(b)),
            [A::B(id)] => (id, &[]),
            [A::B(id), A::C(b':'), rest @ ..] => (id, rest),
            _ => return Err(EncErr::Options),
        };
        match encode1(id, args, b) {
            Ok(Some(s)) => return Ok(s),
            Ok(None) => {}
            Err(()) if ignore => {}
            Err(()) => return Err(EncErr::Failed),
        }
    }
    Err(EncErr::None)
}
fn argc(id: &[u8]) -> Option<std::ops::RangeInclusive<usize>> {
    if id == b"help" {
        return Some(0..=16);
    }
    crate::gen::FUNCS.iter().find(|f| f.0.as_bytes() == id).map(|f| f.1..=f.2)
}
/// None: unknown function
pub fn func(env: &Env, id: &[u8], a: &[&[u8]], init: bool) -> Option<FR> {
    if let Some(r) = argc(id) {
        if !r.contains(&a.len()) {
            return Some(BAD);
        }
        return Some(basic(env, id, a));
    }
    if let Some(v) = &env.argv {
        if let [d @ b'0'..=b'7'] = id {
            if !init || !a.is_empty() {
                return Some(BAD);
            }
            return Some(v.get((*d - b'0') as usize).cloned().ok_or(Fe::Bad));
        }
    }
    if let Some(v) = &env.arglist {
        if id == b"argv" {
            return Some(slice_idx(v.len(), a).map(|i| i.into_iter().flat_map(|i| v[i].clone()).collect()));
        }
        if let Some(n) = uint(id, u64::MAX as u128) {
            if !init || !a.is_empty() {
                return Some(BAD);
            }
            return Some(usize::try_from(n).ok().and_then(|n| v.get(n)).cloned().ok_or(Fe::Bad));
        }
    }
    None
}
fn basic(env: &Env, id: &[u8], a: &[&[u8]]) -> FR {
    let num = |n: usize, little: bool| -> FR {
        let v = uint(a[0], nmax(n)).ok_or(Fe::Bad)?;
        Ok(if little { le(v, n) } else { be(v, n) })
    };
    match id {
        b"?a" => Ok(refabe::enc(a[0]).into_bytes()),
        b"?a0" => Ok(refabe::enc(trim_front(a[0])).into_bytes()),
        b"a" | b"lpad" => pad(a, true, 0, true, false),
        b"f" => pad(a, true, 255, true, false),
        b"rpad" => pad(a, false, 0, true, false),
        b"~lpad" => pad(a, true, 0, false, false),
        b"~rpad" => pad(a, false, 0, false, false),
        b"lfixed" => pad(a, true, 0, false, true),
        b"rfixed" => pad(a, false, 0, false, true),
        b"lcut" => cut(a, true, true),
        b"rcut" => cut(a, false, true),
        b"~lcut" => cut(a, true, false),
        b"~rcut" => cut(a, false, false),
        b"replace" => {
            let r = replace(a[0], a[1], a[2]);
            if r.len() as u128 > LIM {
                return Err(Fe::Big);
            }
            Ok(r)
        }
        b"slice" => slice_idx(a[0].len(), &a[1..]).map(|i| i.into_iter().map(|i| a[0][i]).collect()),
        b"~utf8" => Ok(String::from_utf8_lossy(a[0]).into_owned().into_bytes()),
        b"+" => addsub(a, false),
        b"-" => addsub(a, true),
        b"u8" => num(1, false),
        b"u16" => num(2, false),
        b"u32" => num(4, false),
        b"u64" => num(8, false),
        b"u128" => num(16, false),
        b"lu8" => num(1, true),
        b"lu16" => num(2, true),
        b"lu32" => num(4, true),
        b"lu64" => num(8, true),
        b"lu128" => num(16, true),
        b"lu" => {
            let mut v = num(16, true)?;
            while v.last() == Some(&0) {
                v.pop();
            }
            Ok(v)
        }
        b"?u" | b"?lu" => {
            if a[0].len() > 16 {
                return BAD;
            }
            let mut v = a[0].to_vec();
            if id == b"?lu" {
                v.reverse()
            }
            Ok(v.iter().fold(0u128, |s, x| s << 8 | *x as u128).to_string().into_bytes())
        }
        b"b2" => bin(a[0], 2),
        b"b8" => bin(a[0], 8),
        b"b16" => bin(a[0], 16),
        b"?b" => Ok(b64enc(a[0], false).into_bytes()),
        b"2mini" => Ok(mini(a[0]).into_bytes()),
        b"b" => b64dec(a[0], false).ok_or(Fe::Bad),
        b"?bs" => Ok(b64enc(a[0], true).into_bytes()),
        b"bs" => b64dec(a[0], true).ok_or(Fe::Bad),
        b"size?" => {
            if a[1] == b"=" && uint(a[2], u64::MAX as u128) == Some(a[0].len() as u128) {
                Ok(a[0].to_vec())
            } else {
                BAD
            }
        }
        b"val?" => {
            if a[1] == b"=" && a[0] == a[2] {
                Ok(a[0].to_vec())
            } else {
                BAD
            }
        }
        b"C" => Ok(vec![]),
        b"eval" => match refabe::parse(a[0], false) {
            Err(refabe::PErr::Deep) => Err(Fe::Unk),
            Err(_) => BAD,
            Ok(x) => match eval(env, &x) {
                Ok(l) => Ok(concat(&l)),
                Err(E::Big) => Err(Fe::Big),
                Err(E::Unk) => Err(Fe::Unk),
                Err(_) => BAD,
            },
        },
        b"?" | b"??" | b"???" => {
            if a.len() != 2 || std::str::from_utf8(a[1]).is_err() {
                return BAD;
            }
            let o = refabe::parse(a[1], false).map_err(|_| Fe::Bad)?;
            let s = encode(a[0], &o, false).map_err(|_| Fe::Bad)?;
            let inner = s.strip_prefix('[').and_then(|x| x.strip_suffix(']'));
            Ok(match (id, inner) {
                (b"??", Some(x)) => x.as_bytes().to_vec(),
                (b"???", Some(x)) => x.split_once(':').map(|x| x.1).unwrap_or("").as_bytes().to_vec(),
                _ => s.into_bytes(),
            })
        }
        _ => Err(Fe::Unk),
    }
}
pub fn concat(l: &List) -> Vec<u8> {
    l.iter().flat_map(|(c, b)| c.iter().cloned().chain(b.iter().cloned()).collect::<Vec<u8>>()).collect()
}
fn dump(a: &[A], o: &mut Vec<u8>) {
    for x in a {
        match x {
            A::C(c) => o.push(*c),
            A::B(b) => o.extend_from_slice(b),
            A::L(l) => {
                o.push(b'[');
                dump(l, o);
                o.push(b']')
            }
        }
    }
}
pub fn eval(env: &Env, ast: &[A]) -> Result<List, E> {
    let mut out: List = vec![];
    for x in ast {
        let b = match x {
            A::C(c) => {
                out.push((Some(*c), vec![]));
                continue;
            }
            A::B(b) => b.clone(),
            A::L(l) => expr(env, l)?,
        };
        match out.last_mut() {
            Some(l) => l.1.extend(b),
            None => out.push((None, b)),
        }
    }
    Ok(out)
}
/// an implementation has to allow DEEP live expressions
fn expr(env: &Env, l: &[A]) -> Result<Vec<u8>, E> {
    let (d, n) = env.depth.get();
    if n > 20_000 {
        return Err(E::Big);
    }
    env.depth.set((d + 1, n + 1));
    if d >= refabe::DEEP {
        env.depth.set((d, n + 1));
        return Err(E::Unk);
    }
    let r = expr_inner(env, l);
    let (_, n) = env.depth.get();
    env.depth.set((d, n));
    r
}
fn expr_inner(env: &Env, l: &[A]) -> Result<Vec<u8>, E> {
    if let [A::C(b'/'), tail @ ..] = l {
        let (id, rest): (&[u8], &[A]) = match tail {
            [] | [A::L(_), ..] => return Err(E::Other),
            [A::C(b':'), rest @ ..] => {
                let mut o = vec![];
                dump(rest, &mut o);
                return Ok(o);
            }
            [A::C(_), ..] => (b"", tail),
            [A::B(id), rest @ ..] => (id, rest),
        };
        return mac(env, id, rest);
    }
    if matches!(l, [A::L(_), ..] | [A::B(_), A::L(_)]) {
        return Err(E::Other);
    }
    let parts = eval(env, l)?;
    let mut carry: Vec<u8> = vec![];
    let mut i = 0;
    while i < parts.len() {
        let mut j = i + 1;
        while j < parts.len() && parts[j].0 != Some(b'/') {
            j += 1
        }
        let seg = &parts[i..j];
        if seg.len() > 16 {
            return Err(E::Other);
        }
        if seg[0].0 == Some(b':') {
            carry = seg.iter().flat_map(|x| x.1.clone()).collect();
        } else {
            let id = seg[0].1.clone();
            let init = seg[0].0.is_none();
            let mut args: Vec<&[u8]> = vec![];
            if !init {
                args.push(&carry)
            }
            args.extend(seg[1..].iter().map(|x| x.1.as_slice()));
            carry = match func(env, &id, &args, init) {
                None => return Err(E::NoFunc(id)),
                Some(Ok(v)) => v,
                Some(Err(Fe::Bad)) => return Err(E::Func(id)),
                Some(Err(Fe::Big)) => return Err(E::Big),
                Some(Err(Fe::Unk)) => return Err(E::Unk),
            };
        }
        i = j;
    }
    Ok(carry)
}
fn mac(env: &Env, id: &[u8], rest: &[A]) -> Result<Vec<u8>, E> {
    let bad = || Err(E::Macro(id.to_vec()));
    let sub = |x: &[A]| match eval(env, x) {
        Ok(l) => Ok(concat(&l)),
        Err(e @ (E::Big | E::Unk)) => Err(e),
        Err(_) => Err(E::Macro(id.to_vec())),
    };
    match id {
        b"or" => {
            let mut it = rest.split(|x| *x == A::C(b':'));
            if !it.next().unwrap().is_empty() {
                return bad();
            }
            for e in it {
                match sub(e) {
                    Ok(v) => return Ok(v),
                    Err(e @ (E::Big | E::Unk)) => return Err(e),
                    _ => {}
                }
            }
            bad()
        }
        b"e" => match rest {
            [A::C(b':'), x @ ..] => sub(x),
            _ => bad(),
        },
        b"?" | b"~?" => match rest {
            [A::C(b':'), x @ ..] => {
                let k = x.iter().position(|y| *y == A::C(b'/'));
                let (e, opts) = match k {
                    None => (x, &[] as &[A]),
                    Some(k) => (&x[..k], &x[k + 1..]),
                };
                let b = sub(e)?;
                encode(&b, opts, id == b"~?").map(|s| s.into_bytes()).or_else(|_| bad())
            }
            _ => bad(),
        },
        b"help" => Err(E::Unk),
        _ => Err(E::NoMacro(id.to_vec())),
    }
}
