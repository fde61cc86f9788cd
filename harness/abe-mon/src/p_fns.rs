//! A06 byte functions, A07 integer functions, A08 base-n and logic functions, A09 encodings
use crate::{gen as g, p_eval::real_list, refabe::*, refeval::{self, Env, Fe}};
use abe::eval::EvalError;
use abe::scope::BASIC_SCOPE;
use vmlib::*;

const OPTS_A: Opts = Opts { as_mib: 1024, ..OPTS };

/// [f:a0:a1..] or [:a0/f:a1..]
fn expr(f: &str, a: &[Vec<u8>], chained: bool) -> Vec<A> {
    let mut v = vec![];
    if chained && !a.is_empty() {
        v.extend([A::C(b':'), A::B(a[0].clone()), A::C(b'/'), A::B(f.into())]);
    } else {
        v.push(A::B(f.into()));
        if let Some(x) = a.first() {
            v.extend([A::C(b':'), A::B(x.clone())])
        }
    }
    for x in a.iter().skip(1) {
        v.extend([A::C(b':'), A::B(x.clone())])
    }
    vec![A::L(g::canon(v))]
}
fn real(f: &str, a: &[Vec<u8>], chained: bool) -> Result<Result<Vec<u8>, EvalError>, Viol> {
    let e = expr(f, a, chained);
    let abe = to_real(&e);
    no_panic(&format!("func {f}"), &|| print(&e), || abe::eval::eval(&BASIC_SCOPE, &abe).map(|l| l.concat()))
}
/// one call against the reference; the value if there is one
fn call(r: &mut Rng, f: &str, a: &[Vec<u8>], o: &mut Obs) -> Result<Option<Vec<u8>>, Viol> {
    let s: Vec<&[u8]> = a.iter().map(|x| x.as_slice()).collect();
    let chained = r.bool();
    let want = refeval::func(&Env::default(), f.as_bytes(), &s, true).expect("known");
    if matches!(want, Err(Fe::Big | Fe::Unk)) {
        o.count("skipped_too_big");
        return Ok(None);
    }
    o.eval();
    let got = real(f, a, chained)?;
    let txt = || print(&expr(f, a, chained));
    o.distinct((f, a));
    match (want, got) {
        (Ok(w), Ok(v)) => {
            ensure!(w == v, format!("func:{f}"), "{} = {} expected {}", txt(), show(&v), show(&w));
            o.count(&format!("ok:{f}"));
            Ok(Some(v))
        }
        (Err(_), Err(EvalError::Func(i, _))) if i == f.as_bytes() => {
            o.count(&format!("err:{f}"));
            Ok(None)
        }
        (w, g) => viol(format!("func:{f}"), format!("{} = {:?} expected {w:?}", txt(), g.map(|v| show(&v)))),
    }
}
fn num(r: &mut Rng, near: usize) -> Vec<u8> {
    match r.below(12) {
        0 => vec![],
        1 => b"+3".to_vec(),
        2 => (*r.pick(&["x", "-1", " 1", "1 ", "0x1", "1.0", "٣", "00", "+", "-"])).as_bytes().to_vec(),
        3 => format!("{}", gen::u128b(r)).into_bytes(),
        4..=7 => format!("{}", (near + r.usize(4)).saturating_sub(2)).into_bytes(),
        8 => format!("00{}", r.usize(30)).into_bytes(),
        _ => format!("{}", r.usize(40)).into_bytes(),
    }
}
pub(crate) fn a06(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let b = gen::bytes(r, 60);
    let n = b.len();
    match r.below(8) {
        0..=2 => {
            let f = *r.pick(&["a", "f", "lpad", "rpad", "~lpad", "~rpad", "lfixed", "rfixed"]);
            let mut a = vec![b.clone()];
            if r.chance(5, 6) {
                a.push(num(r, n));
                if r.bool() {
                    let l = *r.pick(&[1, 1, 1, 1, 0, 2]);
                    a.push(r.bytes(l))
                }
            }
            if let Some(v) = call(r, f, &a, o)? {
                // the bytes are still there, on the right side, unless a fixed size cut them
                let want = a.get(1).filter(|x| !x.is_empty()).and_then(|x| refeval::uint(x, u64::MAX as u128)).unwrap_or(16) as usize;
                let right = f == "rpad" || f == "~rpad" || f == "rfixed";
                if v.len() >= n {
                    ensure!(if right { v.starts_with(&b) } else { v.ends_with(&b) }, "pad-keeps", "{f} lost {} in {}", show(&b), show(&v));
                }
                ensure!(v.len() == want || (f.starts_with('~') && v.len() == n && n > want), "pad-length", "{f} to {want} gives {}", v.len());
                o.count("pad_laws");
            }
        }
        3..=4 => {
            let f = *r.pick(&["lcut", "rcut", "~lcut", "~rcut"]);
            let mut a = vec![b.clone()];
            if r.chance(5, 6) {
                a.push(num(r, n))
            }
            if let Some(v) = call(r, f, &a, o)? {
                ensure!(if f.ends_with("lcut") { b.starts_with(&v) } else { b.ends_with(&v) }, "cut-part", "{f} {} gives {}", show(&b), show(&v));
                o.count("cut_laws");
            }
        }
        5 => {
            let part = |r: &mut Rng| {
                if n > 0 && r.chance(2, 3) {
                    let i = r.usize(n);
                    b[i..(i + 1 + r.usize(3)).min(n)].to_vec()
                } else {
                    let k = r.usize(4);
                    r.bytes(k)
                }
            };
            let from = if r.chance(1, 8) { vec![] } else { part(r) };
            let to = match r.below(4) {
                0 => vec![],
                1 => from.clone(),
                _ => part(r),
            };
            let src = if r.bool() { b.repeat(1 + r.usize(3)) } else { b.clone() };
            if let Some(v) = call(r, "replace", &[src.clone(), from.clone(), to.clone()], o)? {
                if from == to {
                    ensure!(v == src, "replace-self", "replacing {} by itself in {} gives {}", show(&from), show(&src), show(&v));
                    o.count("replace_laws");
                }
            }
        }
        6 => {
            let bound = |r: &mut Rng| match r.below(9) {
                0 => vec![],
                1 => num(r, n),
                2..=4 => format!("-{}", 1 + r.usize(n + 4)).into_bytes(),
                5 => format!("-{}", 1 + gen::u64b(r) / 2).into_bytes(),
                _ => format!("{}", r.usize(n + 4)).into_bytes(),
            };
            let mut a = vec![b.clone()];
            for k in 0..r.usize(4) {
                a.push(if k < 2 {
                    bound(r)
                } else {
                    match r.below(6) {
                        0 => num(r, n),
                        1 => format!("{}", gen::u64b(r) as i64).into_bytes(),
                        _ => (*r.pick(&["1", "2", "3", "-1", "-2", "-3", "0", "-9223372036854775808", "9223372036854775807"])).as_bytes().to_vec(),
                    }
                })
            }
            // '-0' counts from the end here, unlike in python: not claimed
            if a[1..].iter().any(|x| x.starts_with(b"-") && x[1..].iter().all(|c| *c == b'0')) {
                return Ok(());
            }
            call(r, "slice", &a, o)?;
        }
        _ => {
            let f = *r.pick(&["?a", "?a0", "~utf8", "C"]);
            if let Some(v) = call(r, f, &[b.clone()], o)? {
                match f {
                    "?a" => ensure!(dec(&v).as_deref() == Ok(&b[..]), "escape", "?a of {} is {}", show(&b), show(&v)),
                    "~utf8" => ensure!(std::str::from_utf8(&v).is_ok() && (std::str::from_utf8(&b).is_err() || v == b), "utf8", "~utf8 of {} is {}", show(&b), show(&v)),
                    _ => {}
                }
            }
        }
    }
    Ok(())
}
/// every window of a small list
pub(crate) fn a06_slices(_r: &mut Rng, i: u64, o: &mut Obs) -> Res {
    let n = (i % 6) as usize;
    let s = (i / 6 % 15) as i64 - 7;
    let e = (i / 90 % 15) as i64 - 7;
    let st = (i / 1350 % 9) as i64 - 4;
    let b: Vec<u8> = (0..n as u8).map(|x| b'a' + x).collect();
    o.eval();
    // python: indices clamp, then walk
    let (len, lo, hi) = (n as i64, if st < 0 { -1 } else { 0 }, if st < 0 { n as i64 - 1 } else { n as i64 });
    let fix = |v: i64| (if v < 0 { v + len } else { v }).clamp(lo.min(hi), hi.max(lo));
    let mut want = vec![];
    let (mut k, end) = (fix(s), fix(e));
    while st != 0 && (if st > 0 { k < end } else { k > end }) {
        want.push(b[k as usize]);
        k += st
    }
    let a: Vec<Vec<u8>> = vec![b, s.to_string().into_bytes(), e.to_string().into_bytes(), st.to_string().into_bytes()];
    let got = real("slice", &a, false)?;
    ensure!(got.as_ref().ok() == Some(&want), "slice-python", "{} = {got:?}, python says {}", print(&expr("slice", &a, false)), show(&want));
    o.count("slice_windows");
    o.distinct(i);
    Ok(())
}
pub static A06: Prop = Prop {
    id: "A06",
    stages: &[
        Stage { name: "calls", quick: 2100000, thorough: 60000000, run: a06 },
        Stage { name: "slice-windows", quick: 12_150, thorough: 12_150, run: a06_slices },
    ],
    rule: "direct and chained calls of every padding, cutting, replacing, slicing and escaping function with boundary lengths, malformed numbers and patterns taken from the subject; compared with a reference and with laws (length, containment, self-replacement, escape inverse). All slices with bounds -7..7 and steps -4..4 of lists of 0-5 bytes. Non-trivial: each distinct (function, arguments).",
    assumptions: &["'-0' as a slice bound is not exercised", "results over 1 MiB are left to A04"],
    floors: &["pad_laws", "cut_laws", "replace_laws", "ok:slice", "err:slice", "ok:replace", "err:lcut", "err:a", "slice_windows"],
    opts: OPTS_A,
};

const WIDTHS: &[(&str, usize, bool)] = &[
    ("u8", 1, false), ("u16", 2, false), ("u32", 4, false), ("u64", 8, false), ("u128", 16, false),
    ("lu8", 1, true), ("lu16", 2, true), ("lu32", 4, true), ("lu64", 8, true), ("lu128", 16, true), ("lu", 16, true),
];
pub(crate) fn a07(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    match r.below(4) {
        0 | 1 => {
            let (f, n, little) = *r.pick(WIDTHS);
            let t = match r.below(8) {
                0 => num(r, 255),
                1 => {
                    // around the maximum
                    let max = if n == 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                    match r.below(4) {
                        0 => max.to_string().into_bytes(),
                        1 if n < 16 => (max + 1).to_string().into_bytes(),
                        1 => b"340282366920938463463374607431768211456".to_vec(),
                        2 => (max - 1).to_string().into_bytes(),
                        _ => format!("{max}0").into_bytes(),
                    }
                }
                2 => gen::bytes(r, 6),
                _ => (gen::u128b(r) >> (128 - 8 * r.range(1, n))).to_string().into_bytes(),
            };
            if let Some(v) = call(r, f, &[t.clone()], o)? {
                ensure!(f == "lu" || v.len() == n, "int-width", "{f} of {} has {} bytes", show(&t), v.len());
                // back to decimal, whatever spelling the number had
                let back = call(r, if little { "?lu" } else { "?u" }, &[v], o)?;
                let canon = refeval::uint(&t, u128::MAX).expect("accepted").to_string().into_bytes();
                ensure!(back.as_deref() == Some(&canon[..]), "int-roundtrip", "{f} of {} reads back as {back:?}", show(&t));
                o.count("int_roundtrips");
            }
        }
        2 => {
            let k = r.len(20);
            let v = if r.bool() { gen::bytes(r, 20) } else { r.bytes(k) };
            let f = if r.bool() { "?u" } else { "?lu" };
            if let Some(t) = call(r, f, &[v.clone()], o)? {
                ensure!(!t.is_empty() && t.iter().all(|c| c.is_ascii_digit()) && (t == b"0" || t[0] != b'0'), "int-decimal", "{} prints as {}", show(&v), show(&t));
            }
        }
        _ => {
            let n = r.len(24);
            let k = 1 + r.usize(5);
            let val = |r: &mut Rng| match r.below(5) {
                0 => vec![0xff; n],
                1 => vec![0; n],
                2 => {
                    let mut v = vec![0; n];
                    if n > 0 {
                        v[n - 1] = 1 + r.u8() % 3
                    }
                    v
                }
                3 => {
                    let mut v = vec![0xff; n];
                    if n > 0 {
                        let i = r.usize(n);
                        v[i] = r.u8()
                    }
                    v
                }
                _ => r.bytes(n),
            };
            let mut a: Vec<Vec<u8>> = (0..k).map(|_| val(r)).collect();
            if r.chance(1, 12) {
                let i = r.usize(k);
                a[i].push(0)
            }
            let f = if r.bool() { "+" } else { "-" };
            if let (Some(v), true) = (call(r, f, &a, o)?, k == 2) {
                // monotonic: sums do not go below, differences not above
                ensure!(if f == "+" { v >= a[0] && v >= a[1] } else { v <= a[0] }, "addsub-monotone", "{f} of {a:?} is {v:?}");
                o.count("addsub_laws");
            }
        }
    }
    Ok(())
}
pub static A07: Prop = Prop {
    id: "A07",
    stages: &[Stage { name: "calls", quick: 2700000, thorough: 72000000, run: a07 }],
    rule: "decimal texts around every type's bounds, malformed and padded numbers, byte strings of 0-24 bytes; parsing, printing, saturating addition and subtraction compared with a reference and with round-trip, width and monotonicity laws. Non-trivial: each distinct (function, arguments).",
    assumptions: &[],
    floors: &["int_roundtrips", "addsub_laws", "ok:+", "ok:-", "err:+", "ok:?u", "err:?u", "ok:?lu", "err:u8", "err:u128", "ok:lu"],
    opts: OPTS_A,
};
pub(crate) fn a08(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    match r.below(5) {
        0 => {
            let (f, base) = *r.pick(&[("b2", 2u32), ("b8", 8), ("b16", 16)]);
            let v = gen::u128b(r);
            let mut t = match f {
                "b2" => format!("{v:b}"),
                "b8" => format!("{v:o}"),
                _ if r.bool() => format!("{v:x}"),
                _ => format!("{v:X}"),
            }
            .into_bytes();
            match r.below(8) {
                0 => t.splice(0..0, b"000".iter().copied()).for_each(drop),
                1 => t.push(b'0'),
                2 => t.insert(0, b'+'),
                3 => gen::mutate(r, &mut t, b"0179fFgG -+_"),
                _ => {}
            }
            if let Some(x) = call(r, f, &[t.clone()], o)? {
                ensure!(!x.is_empty() && (x.len() == 1 || x[0] != 0) && x.len() <= 16, "radix-minimal", "{f} of {} is {}", show(&t), show(&x));
                let _ = base;
                o.count("radix");
            }
        }
        1 | 2 => {
            let b = gen::bytes(r, 80);
            let std = r.bool();
            let (e, d) = if std { ("?bs", "bs") } else { ("?b", "b") };
            let t = call(r, e, &[b.clone()], o)?.expect("always encodes");
            let mut m = t.clone();
            if r.chance(2, 3) {
                gen::mutate(r, &mut m, b"AZaz09-_+/= ")
            }
            let back = call(r, d, &[m.clone()], o)?;
            if m == t {
                ensure!(back.as_deref() == Some(&b[..]), "base64-roundtrip", "{d} of {} is {back:?}", show(&t));
                o.count("base64_roundtrips");
            } else if let Some(x) = back {
                // canonical: a text that is accepted is what its bytes encode to
                let again = call(r, e, &[x.clone()], o)?.expect("encodes");
                ensure!(again == m, "base64-canonical", "{d} accepts {} for {} which encodes to {}", show(&m), show(&x), show(&again));
                o.count("base64_mutants_accepted");
            }
        }
        3 => {
            let b = gen::bytes(r, 70);
            call(r, "2mini", &[b], o)?;
        }
        _ => {
            let b = gen::bytes(r, 12);
            let op: Vec<u8> = if r.chance(1, 6) { (*r.pick(&["<", ">", "", "==", "!"])).into() } else { b"=".to_vec() };
            if r.bool() {
                let n = num(r, b.len());
                call(r, "size?", &[b, op, n], o)?;
            } else {
                let mut c = b.clone();
                if r.bool() {
                    gen::mutate(r, &mut c, b"\0a")
                }
                call(r, "val?", &[b, op, c], o)?;
            }
        }
    }
    Ok(())
}
pub static A08: Prop = Prop {
    id: "A08",
    stages: &[Stage { name: "calls", quick: 2100000, thorough: 60000000, run: a08 }],
    rule: "binary/octal/hex texts with leading zeros, signs, overflows and mutations; base64 of both alphabets encoded, mutated and decoded (accepted texts must be canonical); abbreviations; size?/val? tests. Non-trivial: each distinct (function, arguments).",
    assumptions: &[],
    floors: &["radix", "base64_roundtrips", "base64_mutants_accepted", "err:b", "err:bs", "err:b2", "ok:2mini", "ok:size?", "err:size?", "ok:val?", "err:val?"],
    opts: OPTS_A,
};
pub(crate) fn a09(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let mut b = gen::bytes(r, 40);
    if r.bool() {
        let n = *r.pick(&[1, 2, 4, 8, 16, 15, 17]);
        b.resize(n, 7);
    }
    let opts = g::encopts(r);
    let txt = print(&opts);
    let ignore = r.bool();
    o.eval();
    let want = refeval::encode(&b, &opts, ignore);
    let got = no_panic("encode", &|| format!("{} as {txt}", show(&b)), || abe::eval::encode(&BASIC_SCOPE, &b, &txt, ignore))?;
    use abe::eval::EncodeError as EE;
    o.sample(|| format!("{} as {txt} -> {got:?}", show(&b)));
    match (&want, &got) {
        (Ok(w), Ok(s)) => {
            ensure!(w == s, "encode-value", "{} as {txt} is {s} expected {w}", show(&b));
            // the inverse: evaluating gives exactly the bytes back
            let p = abe::parse_abe_strict_b(s.as_bytes());
            let e = p.as_ref().ok().and_then(|p| abe::eval::eval(&BASIC_SCOPE, p).ok());
            let back = e.map(|l| real_list(&l));
            ensure!(back == Some(vec![(None, b.clone())]) || (b.is_empty() && back == Some(vec![])), "encode-inverse", "{} as {txt} is {s} which evaluates to {back:?}", show(&b));
            o.count("encoded");
            if s.starts_with('[') {
                o.count(&format!("enc{}", &s[..s.find(':').expect("call")]));
            }
            o.distinct((&b, &txt));
            // the same through functions and macros
            if !ignore {
                let lit = A::B(b.clone());
                let q = |f: &str| {
                    let v = g::canon(vec![A::C(b':'), lit.clone(), A::C(b'/'), A::B(f.into()), A::C(b':'), A::B(txt.clone().into_bytes())]);
                    abe::eval::eval(&BASIC_SCOPE, &to_real(&[A::L(v)])).map(|l| l.concat()).ok()
                };
                let (q1, q2, q3) = (q("?"), q("??"), q("???"));
                ensure!(q1.as_deref() == Some(s.as_bytes()), "encode-func", "[:{}/?:{txt}] is {q1:?}", show(&b));
                let inner = s.strip_prefix('[').and_then(|x| x.strip_suffix(']'));
                ensure!(q2.as_deref() == Some(inner.unwrap_or(s).as_bytes()), "encode-func2", "[:{}/??:{txt}] is {q2:?}", show(&b));
                let arg = inner.map(|x| x.split_once(':').map(|x| x.1).unwrap_or("")).unwrap_or(s);
                ensure!(q3.as_deref() == Some(arg.as_bytes()), "encode-func3", "[:{}/???:{txt}] is {q3:?}", show(&b));
                o.count("encode_funcs");
            }
            let name = if ignore { "~?" } else { "?" };
            let v = g::canon([vec![A::C(b'/'), A::B(name.into()), A::C(b':'), A::L(vec![A::C(b':'), A::B(b.clone())]), A::C(b'/')], opts.clone()].concat());
            let m = abe::eval::eval(&BASIC_SCOPE, &to_real(&[A::L(v)])).map(|l| l.concat()).ok();
            ensure!(m.as_deref() == Some(s.as_bytes()), "encode-macro", "[/{name}:../{txt}] is {m:?} expected {s}");
        }
        (Err(w), Err(e)) => {
            let ok = matches!((w, e), (refeval::EncErr::Options, EE::OptionError(_)) | (refeval::EncErr::Failed, EE::ScopeEncode(..)) | (refeval::EncErr::None, EE::NoneFound));
            ensure!(ok, "encode-error", "{} as {txt} fails with {e}", show(&b));
            o.count("refused")
        }
        (w, e) => return viol("encode-result", format!("{} as {txt} is {e:?} expected {:?}", show(&b), w.as_ref().ok())),
    }
    Ok(())
}
pub static A09: Prop = Prop {
    id: "A09",
    stages: &[Stage { name: "encode", quick: 2400000, thorough: 60000000, run: a09 }],
    rule: "byte strings (all widths, leading nulls, 0xff) encoded with random option lists (unknown names, lengths, fallbacks, malformed) by the function, by ?/??/??? and by the ?/~? macros; the text must equal the reference's and evaluate to exactly the original bytes. Non-trivial: a text was produced.",
    assumptions: &["the empty byte string may evaluate to the empty list"],
    floors: &["encoded", "refused", "encode_funcs", "enc[a", "enc[u8", "enc[u16", "enc[u32", "enc[u64", "enc[u128", "enc[b", "enc[bs", "enc[b2", "enc[b16"],
    opts: OPTS_A,
};
