//! B01 AB / B64 text and expression forms, B03 exact sizes
use crate::{refabe::*, refeval};
use abe::ast::Ctr;
use abe::eval::ABList;
use abe::scope::BASIC_SCOPE;
use abe::{ABEValidator, ToABE, TypedABE, ABE};
use byte_fmt::endian_types::*;
use byte_fmt::*;
use std::str::FromStr;
use vmlib::*;

fn trim0(b: &[u8]) -> &[u8] {
    &b[b.iter().take_while(|x| **x == 0).count()..]
}
/// the documented expression form of an AB
fn ab_expr(b: &[u8]) -> String {
    let (f, rest) = if b.first() == Some(&255) {
        ("f", &b[b.iter().take_while(|x| **x == 255).count()..])
    } else {
        ("a", trim0(b))
    };
    if b.len() == 16 {
        format!("[{f}:{}]", enc(rest))
    } else {
        format!("[{f}:{}:{}]", enc(rest), b.len())
    }
}
/// every expression form evaluates back to the value
fn expr_form<T>(v: &T, want: Option<&str>, bytes: &[u8]) -> Res
where
    T: ToABE + ABEValidator + PartialEq + std::fmt::Debug,
    <T as TryFrom<ABList>>::Error: std::fmt::Debug,
{
    let w = || show(bytes);
    let s = no_panic("to_abe_str", &w, || v.to_abe_str())?;
    let list = no_panic("to_abe", &w, || v.to_abe())?;
    let printed: String = list.iter().map(|x| x.to_string()).collect();
    ensure!(printed == s, "expr-forms-differ", "{}: to_abe {printed:?} to_abe_str {s:?}", w());
    let mut written: Vec<ABE> = vec![];
    v.write_abe(&mut |a| written.push(a));
    ensure!(written == list, "expr-forms-differ", "{}: write_abe {written:?}", w());
    if let Some(want) = want {
        ensure!(s == want, "expr-text", "{}: {s:?} expected {want:?}", w());
    }
    let t: TypedABE<T> = match s.parse() {
        Ok(t) => t,
        Err(_) => return viol("expr-parse", format!("{}: {s:?} does not parse as its own type", w())),
    };
    let back = no_panic("expr-eval", &w, || t.eval(&BASIC_SCOPE))?;
    ensure!(matches!(&back, Ok(b) if b == v), "expr-eval", "{}: {s:?} evaluates to {:?}", w(), back.ok());
    let t2 = TypedABE::<T>::from(list).ok();
    let ok = t2.is_some_and(|t| matches!(t.eval(&BASIC_SCOPE), Ok(b) if &b == v));
    ensure!(ok, "expr-eval", "{}: to_abe does not evaluate back", w());
    Ok(())
}
fn sized<const N: usize>(r: &mut Rng, o: &mut Obs) -> Res
where
    [(); std::mem::size_of::<B64<[u8; N]>>()]:,
{
    let mut b = vmlib::gen::bytes(r, N);
    if b.len() < N {
        let fill = *r.pick(&[0u8, 0, 255, 7]);
        let mut v = vec![fill; N - b.len()];
        if r.bool() {
            v.extend(&b);
            b = v;
        } else {
            b.extend(v);
        }
    }
    let a: [u8; N] = b.clone().try_into().unwrap();
    let x = AB(a);
    let w = || show(&b);
    o.eval();
    o.distinct(("ab", &b));
    // text
    let t = enc(&b);
    ensure!(x.to_string() == t && format!("{x:?}") == t && x.as_str(false) == t, "ab-text", "{} prints {x}", w());
    ensure!(AB::<[u8; N]>::from_str(&t).ok() == Some(x), "ab-text-back", "{} {t:?} reads back as {:?}", w(), AB::<[u8; N]>::from_str(&t));
    ensure!(AB(b.clone()).to_string() == t && AB::<Vec<u8>>::from_str(&t).ok().map(|x| x.0) == Some(b.clone()), "ab-text-back", "{} as a vec", w());
    ensure!(x.as_str(true) == enc(trim0(&b)) && x.cut_prefix_nulls() == trim0(&b) && x.as_ref_cut(true) == trim0(&b) && x.as_ref_cut(false) == &b[..], "ab-cut", "{}: {:?}", w(), x.as_str(true));
    ensure!(as_abtxt_c(&b, true) == enc(trim0(&b)) && as_abtxt_c(&b, false) == t, "ab-cut", "{} as_abtxt_c", w());
    // a short text is padded on the left with nulls
    let cut = enc(trim0(&b));
    ensure!(AB::<[u8; N]>::from_str(&cut).ok() == Some(x) && AB::<[u8; N]>::parse_abtxt(&cut).ok() == Some(x), "ab-text-pad", "{} {cut:?}", w());
    let utf = std::str::from_utf8(trim0(&b));
    ensure!(x.utf8().ok() == utf.ok() && x.try_utf8() == utf.map(|x| x.to_string()).unwrap_or(cut), "ab-utf8", "{}: {:?}", w(), x.try_utf8());
    // views
    ensure!(AB::from_ref(&a) == &x && <&AB<[u8]>>::from(&b[..]).0 == b[..] && ab_slice(&[a, a]) == &[x, x] && &*x == &a, "ab-views", "{}", w());
    ensure!(ABList::from(x).as_exact_bytes() == Ok(&b[..]) && AB::try_from(ABList::from(x)).ok() == Some(x) && AB::<[u8; N]>::try_from(&b[..]).ok() == Some(x), "ab-views", "{} through a list", w());
    if N > 0 {
        expr_form(&x, Some(&ab_expr(&b)), &b)?;
    }
    // b64
    let y = B64(a);
    let t = refeval::b64enc(&b, false);
    ensure!(y.to_string() == t && format!("{y:?}") == t && y.b64() == t && b64(&b, false) == t, "b64-text", "{} prints {y}", w());
    let mut s = String::from("pre");
    y.b64_into(&mut s);
    ensure!(s == format!("pre{t}"), "b64-text", "{} b64_into {s}", w());
    ensure!(y.b64_mini() == refeval::mini(&b) && b64(&b, true) == refeval::mini(&b), "b64-mini", "{}: {}", w(), y.b64_mini());
    let back = B64::<[u8; N]>::from_str(&t);
    ensure!(back == Ok(y), "b64-text-back", "{} {t:?} reads back as {back:?}", w());
    ensure!(B64::<Vec<u8>>::parse_str(&t).map(|x| x.0) == Ok(b.clone()) && base64_decode(&t) == Ok(b.clone()), "b64-text-back", "{} as a vec", w());
    ensure!(B64::<[u8; N]>::try_fit_bytes_or_b64(t.as_bytes()) == Ok(y), "b64-text-back", "{} try_fit_bytes_or_b64", w());
    ensure!(y.into_bytes()[..] == b[..] && y.inner() == a && B64::from_ref(&a) == &y && B64::<[u8; N]>::try_from(&b[..]).ok() == Some(y), "b64-views", "{}", w());
    ensure!(ABList::from(y).as_exact_bytes() == Ok(&b[..]), "b64-views", "{} list", w());
    // raw bytes of the right size are taken as they are, unless they also are b64 text of that size
    let want = if b.len() == (4 * N + 2) / 3 { refeval::b64dec(&b, false).unwrap_or(b.clone()) } else { b.clone() };
    ensure!(B64::<[u8; N]>::try_fit_bytes_or_b64(&b).map(|x| x.0.to_vec()) == Ok(want), "b64-raw", "{}", w());
    expr_form(&y, Some(&format!("[b:{t}]")), &b)?;
    o.sample(|| format!("{} {} {}", w(), ab_expr(&b), t));
    Ok(())
}
pub(crate) fn b01(r: &mut Rng, i: u64, o: &mut Obs) -> Res {
    match i % 14 {
        0 => sized::<0>(r, o),
        1 => sized::<1>(r, o),
        2 => sized::<2>(r, o),
        3 => sized::<3>(r, o),
        4 => sized::<4>(r, o),
        5 => sized::<5>(r, o),
        6 => sized::<7>(r, o),
        7 => sized::<8>(r, o),
        8 => sized::<15>(r, o),
        9 => sized::<16>(r, o),
        10 => sized::<17>(r, o),
        11 => sized::<32>(r, o),
        12 => sized::<33>(r, o),
        _ => sized::<64>(r, o),
    }
}
/// conversions between wide numbers and bytes; xor
pub(crate) fn b01_wide(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let (mut a, mut b): ([u8; 32], [u8; 32]) = (r.array(), r.array());
    let n = r.usize(33);
    a[..n].fill(*r.pick(&[0, 255]));
    if r.chance(1, 8) {
        b = a;
    }
    o.distinct((a, b));
    let w = || format!("{} {}", show(&a), show(&b));
    let x = (B64(a) ^ B64(b)).0;
    ensure!((0..32).all(|i| x[i] == a[i] ^ b[i]), "xor", "{} gives {}", w(), show(&x));
    // U256 limbs are little endian u64
    let u = B64(a).to_u256();
    let limbs = u.as_limbs();
    for k in 0..4 {
        let want = a[32 - 8 * (k + 1)..32 - 8 * k].iter().fold(0u64, |v, x| v << 8 | *x as u64);
        ensure!(limbs[k] == want, "u256", "{}: limb {k} is {:x}", w(), limbs[k]);
    }
    ensure!(B64::from_u256(u).0 == a && Into::<U256>::into(B64(a)) == u && B64::<[u8; 32]>::from(u).0 == a, "u256", "{} back", w());
    let (ua, ub) = (B64(a).to_u256(), B64(b).to_u256());
    ensure!(ua.cmp(&ub) == a.cmp(&b), "u256-order", "{}", w());
    let mut w64 = [0u8; 64];
    w64[..32].copy_from_slice(&a);
    w64[32..].copy_from_slice(&b);
    let u: U512 = B64(w64).into();
    for k in 0..8 {
        let want = w64[64 - 8 * (k + 1)..64 - 8 * k].iter().fold(0u64, |v, x| v << 8 | *x as u64);
        ensure!(u.as_limbs()[k] == want, "u512", "{}: limb {k}", w());
    }
    ensure!(B64::<[u8; 64]>::from(u).0 == w64, "u512", "{} back", w());
    let s: [u8; 16] = a[16..].try_into().unwrap();
    let want = s.iter().fold(0u128, |v, x| v << 8 | *x as u128);
    ensure!(AB(s).to_u128() == want && AB::from_u128(want).0 == s && u128::from(AB(s)) == want && AB::<[u8; 16]>::from(want).0 == s, "u128", "{}", w());
    let pair: [u128; 2] = [u128::from_ne_bytes(a[..16].try_into().unwrap()), u128::from_ne_bytes(s)];
    let q = B64(pair);
    let rf: &[u8; 32] = q.as_ref();
    let rf = *rf;
    ensure!(rf == a && B64(pair).into_bytes() == a, "u128-pair", "{}", w());
    Ok(())
}
pub static B01: Prop = Prop {
    id: "B01",
    stages: &[
        Stage { name: "sized", quick: 1400000, thorough: 42000000, run: b01 },
        Stage { name: "wide", quick: 600000, thorough: 12000000, run: b01_wide },
    ],
    rule: "byte strings of 14 sizes between 0 and 64 (random, text, runs and 00/ff prefixes and suffixes) put through every text, expression and view of AB and B64 and back, compared with an independent codec; the 128/256/512 bit number views compared digit by digit. Non-trivial: distinct byte string.",
    assumptions: &["AB of zero bytes has no expression form"],
    floors: &[],
    opts: OPTS,
};

/// any text or bytes against the size rules
fn b64_text(r: &mut Rng, n: usize) -> Vec<u8> {
    let len = match r.below(6) {
        0 => r.usize(n + 3),
        1 => n + 1,
        2 => n.saturating_sub(1),
        _ => n,
    };
    let b = vmlib::gen::bytes(r, len);
    let mut b = if b.len() < len { [b.clone(), vec![0; len - b.len()]].concat() } else { b };
    match r.below(4) {
        0 => {}
        1 => b = refeval::b64enc(&b, r.chance(1, 6)).into_bytes(),
        _ => {
            b = refeval::b64enc(&b, false).into_bytes();
            if r.chance(1, 3) {
                if let Some(l) = b.last_mut() {
                    *l = *r.pick(b"ABCDEFGHwxyz0189-_=")
                }
            } else {
                vmlib::gen::mutate(r, &mut b, b"AZaz09-_+/= \n\xff\0")
            }
        }
    }
    b
}
fn list_of(r: &mut Rng, bytes: &[u8]) -> (ABList, Option<Vec<u8>>) {
    match r.below(6) {
        0 => (ABList::default().push_ctr(Ctr::Colon).push_bytes(bytes), None),
        1 => (ABList::default().push_bytes(bytes).push_ctr(Ctr::FSlash), None),
        2 => (ABList::default().push_bytes(bytes).push_ctr(Ctr::Colon).push_bytes(b"x"), None),
        3 if bytes.is_empty() => (ABList::default(), Some(vec![])),
        _ => (bytes.to_vec().into(), Some(bytes.to_vec())),
    }
}
fn sizes<const N: usize>(r: &mut Rng, o: &mut Obs) -> Res {
    o.eval();
    // B64 from text
    let t = b64_text(r, N);
    let w = || format!("{} for {N} bytes", show(&t));
    o.distinct((N, &t));
    let as_text = refeval::b64dec(&t, false).filter(|x| x.len() == N && t.len() == (4 * N + 2) / 3);
    let got = no_panic("b64-parse", &w, || B64::<[u8; N]>::parse_str(&t))?;
    ensure!(got.as_ref().ok().map(|x| x.0.to_vec()) == as_text, "b64-accept", "{}: {got:?} expected {as_text:?}", w());
    o.count(if as_text.is_some() { "b64_accepted" } else { "b64_refused" });
    if let Ok(s) = std::str::from_utf8(&t) {
        ensure!(s.parse::<B64<[u8; N]>>().ok() == got.ok(), "b64-accept", "{} from_str", w());
    }
    let vec = no_panic("b64-parse-vec", &w, || B64::<Vec<u8>>::parse_str(&t))?;
    ensure!(vec.as_ref().ok().map(|x| x.0.clone()) == refeval::b64dec(&t, false), "b64-vec", "{}: {vec:?}", w());
    let any = as_text.clone().or((t.len() == N).then(|| t.clone()));
    let got = no_panic("b64-either", &w, || B64::<[u8; N]>::try_fit_bytes_or_b64(&t))?;
    ensure!(got.as_ref().ok().map(|x| x.0.to_vec()) == any, "b64-either", "{}: {got:?} expected {any:?}", w());
    let got = B64::<[u8; N]>::try_from(&t[..]);
    ensure!(got.as_ref().ok().map(|x| x.0.to_vec()) == (t.len() == N).then(|| t.clone()), "b64-exact", "{}: {got:?}", w());
    let (l, exact) = list_of(r, &t);
    let wl = || format!("{l:?} for {N} bytes");
    let got = no_panic("b64-list", &wl, || B64::<[u8; N]>::try_from(l.clone()))?;
    let want = exact.as_ref().and(any.clone());
    ensure!(got.as_ref().ok().map(|x| x.0.to_vec()) == want, "b64-list", "{}: {got:?} expected {want:?}", wl());
    // AB from bytes, text and list
    let len = *r.pick(&[0, 1, N.saturating_sub(1), N, N, N + 1, N + 7]);
    let mut b = vmlib::gen::bytes(r, len);
    b.resize(len, 3);
    let w = || format!("{} for {N} bytes", show(&b));
    let want = (b.len() <= N).then(|| [vec![0; N - b.len()], b.clone()].concat());
    o.count(if want.is_some() { "ab_accepted" } else { "ab_refused" });
    let got = [AB::<[u8; N]>::try_from(&b[..]), AB::try_fit_byte_slice(&b), try_ab(&b)];
    for g in got {
        ensure!(g.as_ref().ok().map(|x| x.0.to_vec()) == want, "ab-accept", "{}: {g:?} expected {want:?}", w());
    }
    if want.is_some() {
        ensure!(ab::<N>(&b).0.to_vec() == want.clone().unwrap(), "ab-accept", "{}: ab()", w());
    } else {
        ensure!(catch(|| ab::<N>(&b)).is_err(), "ab-accept", "{}: ab() accepts too many bytes", w());
    }
    let wf = (b.len() <= N).then(|| [vec![255; N - b.len()], b.clone()].concat());
    let g = AB::<[u8; N]>::try_fit_slice_filled::<255>(&b);
    ensure!(g.as_ref().ok().map(|x| x.0.to_vec()) == wf, "ab-fill", "{}: {g:?}", w());
    if let Some(wf) = wf {
        ensure!(abx::<N>(&b).0.to_vec() == wf, "ab-fill", "{}: abx", w());
    }
    let (l, exact) = list_of(r, &b);
    let wl = || format!("{l:?} for {N} bytes");
    let got = no_panic("ab-list", &wl, || AB::<[u8; N]>::try_from(l.clone()))?;
    let wantl = exact.as_ref().and(want.clone());
    ensure!(got.as_ref().ok().map(|x| x.0.to_vec()) == wantl, "ab-list", "{}: {got:?} expected {wantl:?}", wl());
    // text: possibly malformed
    let mut t = enc(&b).into_bytes();
    if r.chance(1, 2) {
        vmlib::gen::mutate(r, &mut t, b"\\xf0a:/[]\n\x7f\xc3")
    }
    let want = dec(&t).ok().filter(|x| x.len() <= N).map(|b| [vec![0; N - b.len()], b].concat());
    let w = || format!("text {} for {N} bytes", show(&t));
    let got = no_panic("ab-text", &w, || AB::<[u8; N]>::parse_abtxt(&t))?;
    ensure!(got.as_ref().ok().map(|x| x.0.to_vec()) == want, "ab-text-accept", "{}: {got:?} expected {want:?}", w());
    o.count(if want.is_some() { "text_accepted" } else { "text_refused" });
    // integers
    macro_rules! be { ($($t:ident $n:literal),*) => {$(
        let g = $t::try_from(&b[..]);
        ensure!(g.as_ref().ok().map(|x| x.0.to_vec()) == (b.len() == $n).then(|| b.clone()), "be-exact", "{} {}: {g:?}", stringify!($t), w());
        let g = no_panic("be-list", &wl, || $t::try_from(l.clone()))?;
        ensure!(g.as_ref().ok().map(|x| x.0.to_vec()) == exact.clone().filter(|b| b.len() == $n), "be-list", "{} {}: {g:?}", stringify!($t), wl());
    )*}}
    be!(U16 2, U32 4, U64 8, U128 16);
    macro_rules! le { ($($t:ident $n:literal),*) => {$(
        let g = $t::try_from(&b[..]);
        ensure!(g.as_ref().ok().map(|x| x.0.to_vec()) == (b.len() == $n).then(|| b.clone()), "le-exact", "{} {}: {g:?}", stringify!($t), w());
        let padded = |b: &Vec<u8>| (b.len() <= $n).then(|| [b.clone(), vec![0; $n - b.len()]].concat());
        let g = $t::try_fit_slice(&b);
        ensure!(g.as_ref().ok().map(|x| x.0.to_vec()) == padded(&b), "le-fit", "{} {}: {g:?}", stringify!($t), w());
        let g = no_panic("le-list", &wl, || $t::try_from(l.clone()))?;
        ensure!(g.as_ref().ok().map(|x| x.0.to_vec()) == exact.as_ref().and_then(|b| padded(b)), "le-list", "{} {}: {g:?}", stringify!($t), wl());
    )*}}
    le!(LU16 2, LU32 4, LU64 8, LU128 16);
    let g = no_panic("u8-list", &wl, || U8::try_from(l.clone()))?;
    ensure!(g.as_ref().ok().map(|x| vec![x.0]) == exact.clone().filter(|b| b.len() == 1), "u8-list", "{}: {g:?}", wl());
    Ok(())
}
pub(crate) fn b03(r: &mut Rng, i: u64, o: &mut Obs) -> Res {
    match i % 12 {
        0 => sizes::<0>(r, o),
        1 => sizes::<1>(r, o),
        2 => sizes::<2>(r, o),
        3 => sizes::<3>(r, o),
        4 => sizes::<4>(r, o),
        5 => sizes::<5>(r, o),
        6 => sizes::<6>(r, o),
        7 => sizes::<8>(r, o),
        8 => sizes::<16>(r, o),
        9 => sizes::<32>(r, o),
        10 => sizes::<33>(r, o),
        _ => sizes::<64>(r, o),
    }
}
pub static B03: Prop = Prop {
    id: "B03",
    stages: &[Stage { name: "sizes", quick: 1800000, thorough: 50000000, run: b03 }],
    rule: "byte strings, base64 texts (right and wrong length, wrong alphabet, padding, non-canonical last digit, mutated) and abtxt texts offered to 12 sizes of AB and B64 and to every integer type, as slice, text and delimited list; accepted exactly when the size rule holds, with exactly the padded value. Non-trivial: distinct (size, text).",
    assumptions: &[],
    floors: &["b64_accepted", "b64_refused", "ab_accepted", "ab_refused", "text_accepted", "text_refused"],
    opts: OPTS,
};
