//! B04 typed expressions
use crate::{gen as g, refabe::*, refeval};
use abe::eval::ABList;
use abe::scope::BASIC_SCOPE;
use abe::ast::ABEError;
use abe::{ABEValidator, TypedABE};
use byte_fmt::endian_types::*;
use byte_fmt::{AB, B64};
use std::str::FromStr;
use vmlib::*;

/// expected value from the evaluated list
type Want = fn(&refeval::List) -> Option<Vec<u8>>;
fn exact(l: &refeval::List) -> Option<Vec<u8>> {
    match &l[..] {
        [] => Some(vec![]),
        [(None, b)] => Some(b.clone()),
        _ => None,
    }
}
fn pad_left(b: Vec<u8>, n: usize) -> Option<Vec<u8>> {
    (b.len() <= n).then(|| [vec![0; n - b.len()], b].concat())
}
fn one<T>(name: &str, t: &[u8], ast: &[A], valid: bool, want: Want, bytes: fn(&T) -> Vec<u8>, dflt: fn() -> T, o: &mut Obs) -> Res
where
    T: ABEValidator,
    <T as TryFrom<ABList>>::Error: std::fmt::Debug + std::fmt::Display + 'static,
{
    let w = || format!("{name} {}", show(t));
    let a = no_panic("typed-parse", &w, || TypedABE::<T>::try_from(t))?;
    ensure!(a.is_ok() == valid, "typed-check", "{}: {:?} expected to be {}", w(), a.map(|x| x.0).map_err(|_| "refused"), if valid { "accepted" } else { "refused" });
    if let Ok(s) = std::str::from_utf8(t) {
        ensure!(TypedABE::<T>::from_str(s).is_ok() == valid, "typed-check", "{}: from_str", w());
    }
    let real = to_real(ast);
    ensure!(TypedABE::<T>::from(real.clone()).is_ok() == valid && TypedABE::<T>::try_from(&real[..]).is_ok() == valid, "typed-check", "{}: from expressions", w());
    ensure!(TypedABE::<Vec<u8>>::from_unchecked(real.clone()).try_as::<T>().is_ok() == valid, "typed-check", "{}: try_as", w());
    let Ok(a) = a else {
        o.count("refused");
        return Ok(());
    };
    o.count("accepted");
    // printing and reading
    let p = a.to_string();
    ensure!(*a == real && p == print(ast), "typed-print", "{}: prints {p:?}", w());
    let b = TypedABE::<T>::from_str(&p);
    ensure!(matches!(&b, Ok(b) if **b == *a), "typed-print", "{}: {p:?} does not read back", w());
    // evaluation
    let list = refeval::eval(&Default::default(), ast);
    if matches!(&list, Err(refeval::E::Unk | refeval::E::Big)) {
        inconclusive!(o, "not modelled")
    }
    let got = no_panic("typed-eval", &w, || a.eval(&BASIC_SCOPE))?;
    let got_d = no_panic("typed-eval", &w, || a.eval_default(dflt(), &BASIC_SCOPE))?;
    match list {
        Err(_) => {
            o.count("eval_failed");
            ensure!(matches!((&got, &got_d), (Err(ABEError::Eval(_)), Err(ABEError::Eval(_)))), "typed-eval-error", "{}: an expression without a value is not an evaluation error", w());
        }
        Ok(l) => {
            let v = want(&l);
            ensure!(got.as_ref().ok().map(bytes) == v, "typed-eval", "{}: {:?} expected {v:?}", w(), got.as_ref().ok().map(bytes));
            if got.is_err() {
                o.count("conversion_refused");
                ensure!(!matches!(got, Err(ABEError::Eval(_) | ABEError::Parse(_))), "typed-eval-error", "{}: wrong kind of error", w());
            } else {
                o.count("evaluated");
            }
            let empty = matches!(&l[..], []) || matches!(&l[..], [(None, b)] if b.is_empty());
            let wd = if empty { Some(bytes(&dflt())) } else { v };
            if empty {
                o.count("defaulted")
            }
            ensure!(got_d.as_ref().ok().map(bytes) == wd, "typed-default", "{}: {:?} expected {wd:?}", w(), got_d.as_ref().ok().map(bytes));
        }
    }
    o.distinct((name, t));
    Ok(())
}
pub(crate) fn b04(r: &mut Rng, i: u64, o: &mut Obs) -> Res {
    o.eval();
    // values that often fit the types
    let mut ast = match r.below(6) {
        0 => g::seq(r, 2),
        1 => g::ast(r, 2, 3),
        2 => vec![],
        3 => vec![A::L(g::canon(vec![A::B(r.pick(&["u8", "u16", "u32", "u64", "u128", "lu", "lu16", "a", "a2", "b", "f", "rpad"]).as_bytes().to_vec()), A::C(b':'), A::B(r.below(300).to_string().into_bytes())]))],
        4 => vec![A::B(match r.below(3) { 0 => refeval::b64enc(&r.bytes(3), false).into_bytes(), 1 => r.bytes(3), _ => vmlib::gen::bytes(r, 20) })],
        _ => vec![A::B(vmlib::gen::bytes(r, 20)), A::C(*r.pick(b":/")), A::B(vmlib::gen::bytes(r, 3))],
    };
    if r.chance(1, 5) {
        let at = r.usize(ast.len() + 1);
        ast.insert(at, if r.bool() { A::C(*r.pick(b":/")) } else { A::L(vec![]) });
    }
    let mut t = print(&g::canon(ast)).into_bytes();
    if r.chance(1, 12) {
        vmlib::gen::mutate(r, &mut t, b"[]:/\\x0a")
    }
    let parsed = parse(&t, false);
    if matches!(&parsed, Err(PErr::Deep)) {
        return Ok(());
    }
    let Ok(ast) = parsed else {
        let got = no_panic("typed-parse", &|| show(&t), || TypedABE::<Vec<u8>>::try_from(&t[..]))?;
        ensure!(matches!(got, Err(ABEError::Parse(_))), "typed-malformed", "{} accepted", show(&t));
        o.count("malformed");
        return Ok(());
    };
    let flat = !ast.iter().any(|x| matches!(x, A::C(_)));
    let single = ast.len() == 1;
    match i % 11 {
        0 => one::<Vec<u8>>("bytes", &t, &ast, true, |l| Some(refeval::concat(l)), |v| v.clone(), || b"dflt".to_vec(), o),
        1 => one::<String>("string", &t, &ast, single, |l| exact(l).filter(|b| std::str::from_utf8(b).is_ok()), |v| v.clone().into_bytes(), || "dflt".into(), o),
        2 => one::<AB<[u8; 8]>>("ab8", &t, &ast, flat, |l| exact(l).and_then(|b| pad_left(b, 8)), |v| v.0.to_vec(), || AB([9; 8]), o),
        3 => one::<AB<[u8; 16]>>("ab16", &t, &ast, flat, |l| exact(l).and_then(|b| pad_left(b, 16)), |v| v.0.to_vec(), || AB([9; 16]), o),
        4 => one::<B64<[u8; 3]>>("b64-3", &t, &ast, flat, |l| exact(l).and_then(|b| refeval::b64dec(&b, false).filter(|x| x.len() == 3).or((b.len() == 3).then_some(b))), |v| v.0.to_vec(), || B64([9; 3]), o),
        5 => one::<U16>("u16", &t, &ast, flat, |l| exact(l).filter(|b| b.len() == 2), |v| v.0.to_vec(), || U16::new(7), o),
        6 => one::<U64>("u64", &t, &ast, flat, |l| exact(l).filter(|b| b.len() == 8), |v| v.0.to_vec(), || U64::new(7), o),
        7 => one::<LU64>("lu64", &t, &ast, flat, |l| exact(l).filter(|b| b.len() <= 8).map(|b| { let n = 8 - b.len(); [b, vec![0; n]].concat() }), |v| v.0.to_vec(), || LU64::new(7), o),
        8 => one::<U8>("u8", &t, &ast, flat, |l| exact(l).filter(|b| b.len() == 1), |v| vec![v.0], || U8(7), o),
        9 => one::<LU16>("lu16", &t, &ast, flat, |l| exact(l).filter(|b| b.len() <= 2).map(|b| { let n = 2 - b.len(); [b, vec![0; n]].concat() }), |v| v.0.to_vec(), || LU16::new(7), o),
        _ => one::<ABList>("list", &t, &ast, true, |l| Some(format!("{:?}", norm(l)).into_bytes()), |v| format!("{:?}", norm(&v.as_slice().iter().map(|(c, b)| (c.map(|c| c as u8), b.clone())).collect())).into_bytes(), || vec![9u8].into(), o),
    }
}
fn norm(l: &refeval::List) -> refeval::List {
    match &l[..] {
        [(None, b)] if b.is_empty() => vec![],
        _ => l.clone(),
    }
}
pub static B04: Prop = Prop {
    id: "B04",
    stages: &[Stage { name: "typed", quick: 1100000, thorough: 30000000, run: b04 }],
    rule: "random expressions (literals, calls, nesting, delimiters, malformed text) read as 11 result types; the shape check, printing, evaluation, the conversion and the default compared with the reference evaluator and the size rule of the type. Non-trivial: distinct (type, text) that is accepted.",
    assumptions: &["expressions the reference evaluator does not model are counted inconclusive"],
    floors: &["accepted", "refused", "evaluated", "eval_failed", "conversion_refused", "defaulted", "malformed"],
    opts: OPTS,
};
