//! B02 fixed-endian integers
use abe::eval::ABList;
use abe::scope::BASIC_SCOPE;
use abe::{ToABE, TypedABE};
use byte_fmt::endian_types::*;
use byte_fmt::AB;
use vmlib::*;

fn be(mut v: u128, n: usize) -> Vec<u8> {
    let mut o = vec![0; n];
    for k in (0..n).rev() {
        o[k] = v as u8;
        v >>= 8;
    }
    o
}
fn dectxt(r: &mut Rng, max: u128) -> String {
    let v = vmlib::gen::u128b(r);
    let v = if r.bool() && max < u128::MAX { v % (max + 2) } else { v };
    let mut s = format!("{}{v}", "0".repeat(r.usize(3)));
    match r.below(8) {
        0 => s.insert(0, '+'),
        1 => s.insert(0, '-'),
        2 => s.push(*r.pick(&['0', 'x', ' ', '_'])),
        3 => s.clear(),
        _ => {}
    }
    s
}
fn parse(s: &str, max: u128) -> Option<u128> {
    let d = s.strip_prefix('+').unwrap_or(s);
    if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let mut v = 0u128;
    for c in d.bytes() {
        v = v.checked_mul(10)?.checked_add((c - b'0') as u128)?;
    }
    (v <= max).then_some(v)
}
macro_rules! checks {
    ($f:ident, $t:ident, $alt:ident, $n:ty, $size:literal, $little:literal, $name:literal) => {
        fn $f(r: &mut Rng, o: &mut Obs) -> Res {
            o.eval();
            let a = vmlib::gen::u128b(r) as $n;
            let b = match r.below(5) { 0 => a, 1 => a.wrapping_add(1), 2 => a.wrapping_sub(1), 3 => a.swap_bytes(), _ => vmlib::gen::u128b(r) as $n };
            let w = || format!("{} {a} {b}", $name);
            o.distinct(($name, a, b));
            let bytes = |v: $n| { let mut x = be(v as u128, $size); if $little { x.reverse() } x };
            let (x, y) = ($t::new(a), $t::new(b));
            ensure!(x.0.to_vec() == bytes(a) && x.to_bytes() == x.0 && x.as_ref() == &bytes(a)[..] && *x == x.0, "bytes", "{}: {:?}", w(), x.0);
            ensure!(x.get() == a && <$n>::from_ne_bytes(x.0) == x.align()[0] && Into::<$n>::into(x) == a && Into::<[u8; $size]>::into(x) == x.0, "value", "{}: {}", w(), x.get());
            ensure!($t::from(a) == x && $t::from(x.0) == x && $t::try_from(&x.0[..]).ok() == Some(x), "value", "{}: from", w());
            let mut z = y;
            z.set(a);
            ensure!(z == x, "set", "{}: {z:?}", w());
            ensure!(($t::from($alt::from(x)) == x) && $alt::from(x).get() == a, "alt", "{}", w());
            ensure!(x.cmp(&y) == a.cmp(&b) && x.partial_cmp(&y) == Some(a.cmp(&b)) && (x == y) == (a == b) && (x < y) == (a < b), "order", "{}: {:?}", w(), x.cmp(&y));
            if !$little { ensure!(x.0.cmp(&y.0) == a.cmp(&b), "byte-order", "{}", w()); }
            let add = if a > <$n>::MAX - b { <$n>::MAX } else { a + b };
            let sub = if a < b { 0 } else { a - b };
            ensure!(x.saturating_add(y).get() == add && x.saturating_sub(y).get() == sub, "saturate", "{}: {} {}", w(), x.saturating_add(y), x.saturating_sub(y));
            ensure!(x.incr().get() == if a == <$n>::MAX { a } else { a + 1 }, "incr", "{}: {}", w(), x.incr());
            ensure!($t::MAX.get() == <$n>::MAX && $t::ZERO.get() == 0 && $t::default().get() == 0, "consts", "{}", w());
            ensure!((x & y).get() == a & b && (x | y).get() == a | b && (!x).get() == !a, "bits", "{}: {} {} {}", w(), x & y, x | y, !x);
            ensure!(x.to_string() == (a as u128).to_string(), "text", "{}: {x}", w());
            let bin: String = x.0.iter().map(|b| format!("_{}", (0..8).rev().map(|k| if b >> k & 1 == 1 { '1' } else { '0' }).collect::<String>())).collect();
            ensure!(format!("{x:b}") == format!("0b{bin}") && binary_str(&x.0) == format!("0b{bin}"), "binary", "{}: {x:b}", w());
            // text in
            let s = dectxt(r, <$n>::MAX as u128);
            let got = no_panic("from_str", &|| s.clone(), || s.parse::<$t>())?;
            let want = parse(&s, <$n>::MAX as u128);
            ensure!(got.as_ref().ok().map(|x| x.get() as u128) == want, "parse", "{} {s:?}: {got:?} expected {want:?}", $name);
            o.count(if want.is_some() { "parsed" } else { "refused" });
            // expression
            let e = x.to_abe();
            let t: String = e.iter().map(|x| x.to_string()).collect();
            ensure!(t == format!("[{}:{a}]", $name) && x.to_abe_str() == t, "expr", "{}: {t}", w());
            let back = TypedABE::<$t>::from(e).ok().and_then(|e| e.eval(&BASIC_SCOPE).ok());
            ensure!(back == Some(x), "expr-eval", "{}: {t} evaluates to {back:?}", w());
            let l: ABList = x.into();
            let mut want = bytes(a);
            if $little { while want.last() == Some(&0) { want.pop(); } }
            ensure!(l.as_exact_bytes() == Ok(&want[..]) && $t::try_from(l.clone()).ok() == Some(x), "list", "{}: {l:?}", w());
            Ok(())
        }
    };
}
checks!(u16_, U16, LU16, u16, 2, false, "u16");
checks!(u32_, U32, LU32, u32, 4, false, "u32");
checks!(u64_, U64, LU64, u64, 8, false, "u64");
checks!(u128_, U128, LU128, u128, 16, false, "u128");
checks!(lu16_, LU16, U16, u16, 2, true, "lu16");
checks!(lu32_, LU32, U32, u32, 4, true, "lu32");
checks!(lu64_, LU64, U64, u64, 8, true, "lu64");
checks!(lu128_, LU128, U128, u128, 16, true, "lu128");
pub(crate) fn b02(r: &mut Rng, i: u64, o: &mut Obs) -> Res {
    [u16_, u32_, u64_, u128_, lu16_, lu32_, lu64_, lu128_][(i % 8) as usize](r, o)
}
pub(crate) fn b02_small(_r: &mut Rng, i: u64, o: &mut Obs) -> Res {
    o.eval();
    o.distinct(i);
    if i < 256 {
        let u = U8::new(i as u8);
        let e = u.abe_bits();
        let t: String = e.iter().map(|x| x.to_string()).collect();
        ensure!(t == format!("[b2:{i:08b}]"), "u8-bits", "{i}: {t}");
        ensure!(TypedABE::<U8>::from(e).ok().and_then(|e| e.eval(&BASIC_SCOPE).ok()) == Some(u), "u8-bits", "{i}: {t} evaluates to something else");
        ensure!(u.to_abe_str() == format!("[u8:{i}]") && u8::from(u) == i as u8, "u8", "{i}");
        ensure!(u.to_abe_str().parse::<TypedABE<U8>>().ok().and_then(|e| e.eval(&BASIC_SCOPE).ok()) == Some(u), "u8", "{i}: expression");
        ensure!(U8::try_from(ABList::from(u)).ok() == Some(u), "u8", "{i}: list");
    }
    // every u16, with the next one
    let a = i as u16;
    let (x, l) = (U16::new(a), LU16::new(a));
    ensure!(x.0 == [(a >> 8) as u8, a as u8] && l.0 == [a as u8, (a >> 8) as u8], "u16", "{a}: {:?} {:?}", x.0, l.0);
    ensure!(x.incr().get() as u32 == (a as u32 + 1).min(65535) && l.incr().get() as u32 == (a as u32 + 1).min(65535), "u16", "{a} incr");
    ensure!(AB(x.0).uint() == x, "uint", "{a}");
    let e = l.lu_abe();
    let back = TypedABE::<LU16>::from(e).ok().and_then(|e| e.eval(&BASIC_SCOPE).ok());
    ensure!(back == Some(l), "lu_abe", "{a}: {back:?}");
    let big = (a as u128) << ((i >> 3) % 112);
    let q = LU128::new(big);
    let back = TypedABE::<LU128>::from(q.lu_abe()).ok().and_then(|e| e.eval(&BASIC_SCOPE).ok());
    ensure!(back == Some(q), "lu_abe", "{big}: {back:?}");
    let q = LU64::new(big as u64);
    let back = TypedABE::<LU64>::from(q.lu_abe()).ok().and_then(|e| e.eval(&BASIC_SCOPE).ok());
    ensure!(back == Some(q), "lu_abe", "{big}: {back:?}");
    let q = LU32::new(big as u32);
    let back = TypedABE::<LU32>::from(q.lu_abe()).ok().and_then(|e| e.eval(&BASIC_SCOPE).ok());
    ensure!(back == Some(q), "lu_abe", "{big}: {back:?}");
    let b = big.to_be_bytes();
    ensure!(AB(b).uint().get() == big && AB([b[8], b[9], b[10], b[11], b[12], b[13], b[14], b[15]]).uint().get() == big as u64 && AB([b[12], b[13], b[14], b[15]]).uint().get() == big as u32, "uint", "{big}");
    Ok(())
}
pub static B02: Prop = Prop {
    id: "B02",
    stages: &[
        Stage { name: "pairs", quick: 2400000, thorough: 80000000, run: b02 },
        Stage { name: "u16", quick: 65536, thorough: 65536, run: b02_small },
    ],
    rule: "pairs of integers around every power of two, the type bounds, neighbours and byte-swapped twins for the eight endian types: bytes, value, order, saturating arithmetic, bit operations, decimal and binary text, parsing, expression form and list form against definitions spelled out here; every u8 and every u16. Non-trivial: distinct (type, pair).",
    assumptions: &["the Debug form is not specified"],
    floors: &["parsed", "refused"],
    opts: OPTS,
};
