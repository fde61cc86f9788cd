//! D06: durations, stamps and partial hashes as text; D07: ranges of stamps, and packet header mutations
use crate::clock;
use abe::eval::eval;
use linkspace_core::eval::core_scope;
use linkspace_core::mut_header::{MutFieldExpr, NetHeaderMutate};
use linkspace_core::partial_hash::PartialHash;
use linkspace_core::prelude::*;
use linkspace_core::stamp_fmt::*;
use linkspace_core::stamp_range::*;
use linkspace_pkt::NetPktHeader;
use std::time::Duration;
use vmlib::{ensure, no_panic, show, viol, Obs, Prop, Res, Rng, Stage, OPTS};

pub static D06: Prop = Prop {
    id: "D06",
    stages: &[
        Stage { name: "durations", quick: 480_000, thorough: 12_000_000, run: durations },
        Stage { name: "duration-text", quick: 480_000, thorough: 12_000_000, run: duration_text },
        Stage { name: "stamps", quick: 240_000, thorough: 6_000_000, run: stamps },
        Stage { name: "eval", quick: 160_000, thorough: 3_600_000, run: evals },
        Stage { name: "partial", quick: 320_000, thorough: 6_000_000, run: partial },
    ],
    rule: "durations print greedily by unit and read back exactly; only digits-and-unit in order are durations; stamps read as digits, limits or distances from a given now; '+' and '-' in an expression fail on overflow where '++' and '--' stop at the limits; a partial hash is 4 to 43 base64 characters and matches the hashes that start with it",
    assumptions: &["the date form of a stamp (str) is not compared: its formatting crate is replaced by a stand-in here"],
    floors: &["duration-accepted", "duration-refused", "round-trips", "overflow", "saturates", "relative-refused", "relative", "digits", "stamp-refused", "partial-refused", "partial-matches", "partial-other", "partial-greater"],
    opts: OPTS,
};
pub static D07: Prop = Prop {
    id: "D07",
    stages: &[
        Stage { name: "ranges", quick: 480_000, thorough: 12_000_000, run: ranges },
        Stage { name: "mutate", quick: 160_000, thorough: 3_600_000, run: mutate },
    ],
    rule: "a range of stamps holds what lies between its ends, in either direction, and tells what comes before and after it; it prints as text that reads back the same; header mutations set exactly the named variable fields of a header at any address, the latest rule for a field counting, and are refused for any other field, operator or length",
    assumptions: &[],
    floors: &["pre", "in", "post", "text", "set", "kept", "overwritten", "mutation-refused"],
    opts: OPTS,
};
struct Real;
impl Drop for Real {
    fn drop(&mut self) {
        clock::real();
    }
}
const UNITS: [(u8, u64); 9] = [
    (b'Y', 31_557_600_000_000),
    (b'M', 2_592_000_000_000),
    (b'W', 604_800_000_000),
    (b'D', 86_400_000_000),
    (b'h', 3_600_000_000),
    (b'm', 60_000_000),
    (b's', 1_000_000),
    (b'l', 1000),
    (b'u', 1),
];
/// micros of a duration text; None if it isn't one
fn ref_duration(mut b: &[u8]) -> Option<u128> {
    let (mut sum, mut next) = (0u128, 0);
    while !b.is_empty() {
        let n = b.iter().take_while(|c| c.is_ascii_digit()).count();
        let (d, rest) = b.split_at(n);
        let (unit, rest) = rest.split_first()?;
        if d.is_empty() || d.len() > 30 {
            return None;
        }
        let count: u32 = std::str::from_utf8(d).unwrap().parse::<u128>().ok()?.try_into().ok()?;
        let k = next + UNITS[next..].iter().position(|u| u.0 == *unit)?;
        sum += count as u128 * UNITS[k].1 as u128;
        next = k + 1;
        b = rest;
    }
    Some(sum)
}
fn ref_print(mut us: u64, precision: usize, units: usize, zeros: bool, delim: &str) -> String {
    let parts: Vec<_> = UNITS[..precision].iter().filter(|u| u.1 <= us).take(units).collect();
    if parts.is_empty() {
        return format!("0{}", UNITS[precision - 1].0 as char);
    }
    let mut s = String::new();
    for (c, v) in parts {
        let n = us / v;
        us %= v;
        if zeros || n != 0 {
            s += &format!("{delim}{n}{}", *c as char)
        }
    }
    s
}
fn ref_delta(now: u64, at: u64, precision: usize, units: usize) -> String {
    format!("{}{}", if at > now { "+" } else { "-" }, ref_print(at.abs_diff(now), precision, units, true, " "))
}
fn some_us(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => r.next(),
        1 => {
            let u = UNITS[r.usize(9)].1;
            (u as u128 * r.below(1000) as u128).min(u64::MAX as u128) as u64
        }
        2 => {
            let u = UNITS[r.usize(9)].1;
            let n = if r.bool() { r.below(30) } else { u64::MAX / u - r.below(300).min(u64::MAX / u) };
            (u.saturating_mul(n)).saturating_sub(1 + r.below(3))
        }
        3 => r.below(100),
        4 => u64::MAX - r.below(4),
        _ => r.next() >> r.below(64),
    }
}
fn durations(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let us = some_us(r);
    let d = Duration::from_micros(us);
    let inp = || format!("{us} microseconds");
    let t = no_panic("duration_as_stamp_dfmt", &inp, || duration_as_stamp_dfmt(d))?;
    let want = ref_print(us, 9, 10, false, "");
    ensure!(t == want, "duration-print", "{us}us prints as {t}, expected {want}");
    let b = no_panic("parse_duration_str", &|| t.clone(), || parse_duration_str(&t).map_err(|e| e.to_string()))?;
    ensure!(b.as_ref().ok() == Some(&d), "duration-read", "{us}us prints as {t}, which reads as {b:?}");
    let s = t.parse::<DurationStr>().map(|d| d.stamp().get());
    ensure!(s.as_ref().ok() == Some(&us), "duration-stamp", "{t} as a stamp is {s:?}");
    o.count("round-trips");
    let (p, u, z, dl) = (r.range(1, 9) as usize, r.below(11) as usize, r.bool(), *r.pick(&["", " ", ":"]));
    let t = no_panic("duration_to_string", &inp, || duration_to_string(d, p, u, z, dl))?;
    let want = if u == 0 { format!("0{}", UNITS[p - 1].0 as char) } else { ref_print(us, p, u, z, dl) };
    ensure!(t == want, "duration-to-string", "{us}us by {p} units, at most {u}, zeros {z} is {t:?}, expected {want:?}");
    let (a, b) = (some_us(r), some_us(r));
    let u = u.max(1);
    let t = no_panic("delta_stamp_p", &|| format!("{a} {b}"), || (delta_stamp_p(a.into(), b.into(), p, u), delta_stamp(a.into(), b.into()), StampFmt::Delta { from: a.into(), percision: p, units: u }.stringify(b.into()), StampFmt::U64.stringify(b.into())))?;
    let want = (ref_delta(a, b, p, u), ref_delta(a, b, 9, 2), ref_delta(a, b, p, u), b.to_string());
    ensure!(t == want, "delta", "from {a} to {b} is {t:?}, expected {want:?}");
    o.distinct((us, a, b));
    Ok(())
}
fn some_duration(r: &mut Rng) -> Vec<u8> {
    let mut t = String::new();
    for (c, _) in UNITS {
        if r.chance(1, 4) {
            let n = match r.below(6) {
                0 => 0,
                1 => u32::MAX as u64,
                2 => (r.next() as u32) as u64,
                _ => r.below(40),
            };
            t += &format!("{n}{}", c as char)
        }
    }
    t.into_bytes()
}
fn spoil(r: &mut Rng, t: &mut Vec<u8>) {
    for _ in 0..r.range(1, 3) {
        let k = r.usize(t.len() + 1);
        match r.below(5) {
            0 if k < t.len() => {
                t.remove(k);
            }
            1 if k < t.len() => t[k] = r.u8(),
            2 => t.insert(k, *r.pick(b"YMWDhmslu0123456789 -.:yd\xff\xc3")),
            3 if k < t.len() => {
                let j = r.usize(t.len());
                t.swap(k, j)
            }
            _ => t.extend_from_slice(&(r.next()).to_string().into_bytes()[..1]),
        }
    }
}
fn duration_text(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let mut t = some_duration(r);
    if r.bool() {
        spoil(r, &mut t)
    }
    let want = ref_duration(&t);
    let got = no_panic("parse_duration_str", &|| show(&t), || parse_duration_str(&t).map_err(|e| e.to_string()))?;
    o.distinct(&t);
    if t.contains(&b'+') {
        return Ok(());
    }
    ensure!(got.as_ref().ok().map(|d| (d.as_micros(), d.subsec_nanos() % 1000)) == want.map(|w| (w, 0)), "duration-text", "{} reads as {got:?}, expected {want:?} microseconds", show(&t));
    o.count(if want.is_some() { "duration-accepted" } else { "duration-refused" });
    if let (Some(w), Ok(s)) = (want, std::str::from_utf8(&t)) {
        let got = s.parse::<DurationStr>().map(|d| d.stamp().get());
        let w = w.min(u64::MAX as u128) as u64;
        ensure!(got.as_ref().ok() == Some(&w), "duration-stamp", "{s} as a stamp is {got:?}, expected {w}");
    }
    Ok(())
}
/// a stamp as text, and what it is with a now
fn stamp_text(r: &mut Rng, now: u64) -> (Vec<u8>, Option<u64>, bool) {
    match r.below(10) {
        0 => (b"++".to_vec(), Some(u64::MAX), false),
        1 => (if r.bool() { b"--".to_vec() } else { b"0".to_vec() }, Some(0), false),
        2 => (b"now".to_vec(), Some(now), true),
        3 | 4 => {
            let v = some_us(r);
            (v.to_string().into_bytes(), Some(v), false)
        }
        5 => {
            let v = format!("{}{}", u64::MAX, r.below(10));
            (v.into_bytes(), None, false)
        }
        6 => {
            let mut t = vec![];
            t.resize_with(r.usize(4), || *r.pick(b"a.-+n0\xff "));
            t.insert(0, *r.pick(b"a.\xff n"));
            (t, None, false)
        }
        _ => {
            let d = some_duration(r);
            let n = ref_duration(&d).unwrap();
            let plus = r.bool();
            let v = if plus { (now as u128 + n).min(u64::MAX as u128) as u64 } else { (now as u128).saturating_sub(n) as u64 };
            ([if plus { &b"+"[..] } else { b"-" }, &d].concat(), Some(v), true)
        }
    }
}
fn stamps(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let now = some_us(r);
    let (t, want, relative) = stamp_text(r, now);
    let inp = || format!("{} at {now}", show(&t));
    let (with, without) = no_panic("stamp_from_str", &inp, || {
        (stamp_from_str(&t, Some(now.into())).map(|s| s.get()).map_err(|e| e.to_string()), stamp_from_str(&t, None).map(|s| s.get()).map_err(|e| e.to_string()))
    })?;
    ensure!(with.as_ref().ok() == want.as_ref(), "stamp-text", "{} is {with:?}, expected {want:?}", inp());
    let want = if relative { None } else { want };
    ensure!(without.as_ref().ok() == want.as_ref(), "stamp-text", "{}, without a now, is {without:?}, expected {want:?}", show(&t));
    o.count(match (with.is_ok(), relative) {
        (true, true) => "relative",
        (true, false) => "digits",
        _ => "stamp-refused",
    });
    if relative {
        o.count("relative-refused")
    }
    o.distinct((&t, now));
    Ok(())
}
fn evals(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let _real = Real;
    o.eval();
    let now = r.below(3_000_000_000_000_000);
    clock::set(now);
    let base = some_us(r);
    let (mut s, mut e) = match r.below(5) {
        0 => (0u64, "[epoch".to_string()),
        1 => (u64::MAX, "[us++".to_string()),
        2 => (0, "[us".to_string()),
        3 => (base, format!("[u64:{base}/us")),
        _ => (now, "[now".to_string()),
    };
    let mut ok = true;
    let mut sat = false;
    for _ in 0..r.below(4) {
        let d = some_duration(r);
        let n = ref_duration(&d).unwrap();
        let op = *r.pick(&["+", "-", "++", "--", ""]);
        e += &format!(":{op}{}", if op.is_empty() { "" } else { std::str::from_utf8(&d).unwrap() });
        let (add, sub) = (s as u128 + n, (s as u128).checked_sub(n));
        match op {
            "+" if add > u64::MAX as u128 => ok = false,
            "-" if sub.is_none() => ok = false,
            "+" | "++" => {
                sat |= add > u64::MAX as u128;
                s = add.min(u64::MAX as u128) as u64
            }
            "-" | "--" => {
                sat |= sub.is_none();
                s = sub.unwrap_or(0) as u64
            }
            _ => {}
        }
        if !ok {
            break;
        }
    }
    let want = match r.below(8) {
        0 => {
            e += ":ticks";
            ref_delta(0, s, 9, 2).into_bytes()
        }
        1 => {
            e += ":val";
            ref_delta(0, s, 9, 9).into_bytes()
        }
        2 => {
            e += ":delta";
            ref_delta(now, s, 9, 2).into_bytes()
        }
        3 => {
            e += r.pick::<&str>(&[":x", ":1D", ":ticks:1", ":val:+1D", ":*1D"]);
            ok = false;
            vec![]
        }
        _ => s.to_be_bytes().to_vec(),
    };
    e += "]";
    let a = match abe::parse_abe_strict_b(e.as_bytes()) {
        Ok(a) => a,
        Err(x) => return viol("eval-parse", format!("{e} is no expression: {x}")),
    };
    let got = no_panic("eval", &|| e.clone(), || eval(&core_scope(), &a).map_err(|e| format!("{e:#}")))?;
    let got = got.map(|l| l.concat());
    ensure!(got.as_ref().ok() == ok.then_some(&want), "eval", "{e} at {now} is {:?}, expected {:?}", got.map(|v| show(&v)), ok.then(|| show(&want)));
    o.count(if !ok { "overflow" } else if sat { "saturates" } else { "eval-ok" });
    o.distinct((&e, now));
    Ok(())
}
const B64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
fn val(c: u8) -> Option<usize> {
    B64.iter().position(|x| *x == c)
}
fn partial(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let mut h = r.array::<32>();
    if r.chance(1, 4) {
        h[..r.usize(33)].fill(*r.pick(&[0, 255]))
    }
    let mut text = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for b in h {
        acc = acc << 8 | b as u32;
        bits += 8;
        while bits >= 6 {
            bits -= 6;
            text.push(B64[(acc >> bits) as usize & 63]);
        }
    }
    text.push(B64[(acc << (6 - bits)) as usize & 63]);
    let full = text.clone();
    text.truncate(*r.pick(&[0, 1, 3, 4, 5, 6, 7, 8, 20, 41, 42, 43, 43, 43]));
    match r.below(4) {
        0 => {}
        1 if !text.is_empty() => {
            let k = r.usize(text.len());
            text[k] = if r.bool() { r.u8() } else { *r.pick(B64) };
        }
        2 => {
            text.push(*r.pick(b"A=_+ \xff"));
        }
        _ if !text.is_empty() => {
            let k = text.len() - 1;
            text[k] = *r.pick(B64);
        }
        _ => {}
    }
    let valid = (4..=43).contains(&text.len()) && text.iter().all(|c| val(*c).is_some()) && (text.len() < 43 || val(text[42]).unwrap() & 3 == 0);
    let inp = || show(&text);
    let p = no_panic("PartialHash", &inp, || PartialHash::try_from_strlike(&text).map_err(|e| e.to_string()))?;
    ensure!(p.is_ok() == valid, "partial", "{} is accepted: {p:?}, expected {valid}", inp());
    let Ok(p) = p else {
        o.count("partial-refused");
        return Ok(());
    };
    ensure!(p.as_str().as_bytes() == &text[..] && std::str::from_utf8(&text).unwrap().parse::<PartialHash>().ok() == Some(p), "partial-str", "{} is kept as {p:?}", inp());
    let hash = LkHash::from(h);
    let m = no_panic("str_matches", &inp, || p.str_matches(&hash))?;
    ensure!(m == full.starts_with(&text), "partial-match", "{} matches {}: {m}", inp(), show(&full));
    o.count(if m { "partial-matches" } else { "partial-other" });
    let gr = no_panic("str_greater_then", &inp, || p.str_greater_then(&hash))?;
    ensure!(gr == (&text[..] > &full[..text.len()]), "partial-greater", "{} is greater than {}: {gr}", inp(), show(&full));
    if gr {
        o.count("partial-greater")
    }
    // where to start looking: the least hash that can match
    let idx = no_panic("aprox_btree_idx", &inp, || p.aprox_btree_idx())?;
    let mut want = [0u8; 32];
    for (i, c) in text.iter().enumerate() {
        for b in 0..6 {
            let at = i * 6 + b;
            if at < 256 && val(*c).unwrap() >> (5 - b) & 1 == 1 {
                want[at / 8] |= 0x80 >> (at % 8)
            }
        }
    }
    ensure!(idx == want, "partial-start", "{} starts at {idx:?}, expected {want:?}", inp());
    let c = no_panic("complete_try_into", &inp, || p.complete_try_into())?;
    ensure!(c == (text.len() == 43).then(|| LkHash::from(want)), "partial-complete", "{} is the hash {c:?}", inp());
    let f = PartialHash::from(hash);
    ensure!(f.as_str().as_bytes() == &full[..] && f.complete_try_into() == Some(hash), "partial-from", "of the hash {} is {f:?}", show(&full));
    o.distinct(&text);
    Ok(())
}

fn ranges(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let some = |r: &mut Rng| *r.pick(&[0, 1, 2, 3, u64::MAX, u64::MAX - 1, 1 << 63, 1000]);
    let a = if r.bool() { some(r) } else { some_us(r) };
    let b = match r.below(4) {
        0 => a,
        1 => a.saturating_add(1),
        2 => some(r),
        _ => some_us(r),
    };
    let v = match r.below(4) {
        0 => a.wrapping_add(r.below(3)).wrapping_sub(1),
        1 => b.wrapping_add(r.below(3)).wrapping_sub(1),
        2 => some(r),
        _ => a / 2 + b / 2,
    };
    let g = if r.bool() { StampRange::new_u64s(a, b) } else { StampRange::new(a.into(), b.into()) };
    let inp = || format!("{a}..{b} and {v}");
    let (lo, hi) = (a.min(b), a.max(b));
    let inside = lo <= v && v <= hi;
    let got = no_panic("StampRange", &inp, || (g.contains(v.into()), g.contains_u64(v), g.lower_bound().get(), g.upper_bound().get(), g.is_ascending(), g.is_new_first()))?;
    let asc = a < b;
    ensure!(got == (inside, inside, lo, hi, asc, !asc), "range", "{}: {got:?}", inp());
    // one point is a range in ascending order
    let want = if inside {
        IterCmp::In
    } else if (v < lo) == (a <= b) {
        IterCmp::Pre
    } else {
        IterCmp::Post
    };
    let got = no_panic("iter_cmp", &inp, || (g.iter_cmp(v.into()), g.iter_cmp_u64(v)))?;
    ensure!(got == (want, want), "iter-cmp", "{}: {got:?}, expected {want:?}", inp());
    o.count(match want {
        IterCmp::Pre => "pre",
        IterCmp::In => "in",
        IterCmp::Post => "post",
    });
    ensure!(g.rev() == StampRange::new_u64s(b, a) && g.as_bound() == (a..=b), "range-ends", "{}", inp());
    let (af, fr) = no_panic("after", &inp, || (StampRange::after(a.into()), StampRange::asc_from(a.into())))?;
    ensure!(fr.contains_u64(v) == (v >= a) && (a == u64::MAX || af.contains_u64(v) == (v > a)), "range-after", "{}: after {af:?}, from {fr:?}", inp());
    let t = g.to_string();
    let back = no_panic("read", &|| t.clone(), || t.parse::<StampRange>().map_err(|e| e.to_string()))?;
    ensure!(back.as_ref().ok() == Some(&g), "range-text", "{} prints as {t}, which reads as {back:?}", inp());
    // any text for the ends
    let now = some_us(r);
    let (t1, v1, rel1) = stamp_text(r, now);
    let (t2, v2, rel2) = stamp_text(r, now);
    let (omit1, omit2) = (r.chance(1, 5), r.chance(1, 5));
    let t = [if omit1 { &b""[..] } else { &t1 }, b"..", if omit2 { b"" } else { &t2 }].concat();
    if let Ok(t) = String::from_utf8(t) {
        if t.matches("..").count() == 1 {
            let v1 = if omit1 { Some(u64::MAX) } else { v1 };
            let v2 = if omit2 { Some(0) } else { v2 };
            let want = v1.zip(v2).map(|(a, b)| StampRange::new_u64s(a, b));
            let got = no_panic("from_str_at", &|| t.clone(), || (StampRange::from_str_at(&t, Some(now.into())).ok(), StampRange::from_str_at(&t, None).ok()))?;
            let fixed = want.filter(|_| !(rel1 && !omit1) && !(rel2 && !omit2));
            ensure!(got == (want, fixed), "range-text", "{t} at {now} reads as {got:?}, expected {want:?} and {fixed:?}");
            o.count("text");
        }
    }
    o.distinct((a, b, v));
    Ok(())
}
const MUT: [(&str, usize, usize); 7] = [("netflags", 3, 1), ("hop", 4, 4), ("stamp", 8, 8), ("ubits0", 16, 4), ("ubits1", 20, 4), ("ubits2", 24, 4), ("ubits3", 28, 4)];
fn mutate(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let mut rules: Vec<MutFieldExpr> = vec![];
    let mut txt = String::new();
    let mut want: [Option<u8>; 32] = [None; 32];
    let mut ok = true;
    for _ in 0..r.below(5) {
        let (name, at, len) = *r.pick(&MUT);
        let v: Vec<u8> = (0..len).map(|_| if r.bool() { *r.pick(&[0, 1, 255, 0x80]) } else { r.u8() }).collect();
        let mut val: String = v.iter().map(|b| format!("\\x{b:02x}")).collect();
        let (mut n, mut op) = (name, "=");
        match r.below(20) {
            0 => {
                n = *r.pick(&["group", "domain", "hash", "data", "size", "pubkey", "create", "recv", "i", "type"]);
                ok = false
            }
            1 => {
                op = *r.pick(&["<", ">", "0", "1", ">=", "<=", "=*", "*="]);
                ok = false
            }
            2 => {
                val = "\\x01".repeat(9 + r.usize(3));
                ok = false
            }
            _ => {}
        }
        let t = format!("{n}:{op}:{val}");
        match no_panic("MutFieldExpr", &|| t.clone(), || t.parse::<MutFieldExpr>().map_err(|e| format!("{e}")))? {
            Ok(e) => rules.push(e),
            Err(e) => {
                ensure!(!ok, "rule", "{t} is no mutation: {e}");
                o.count("mutation-refused");
                return Ok(());
            }
        }
        txt += &t;
        txt.push('\n');
        for (k, b) in v.iter().enumerate() {
            if want[at + k].is_some() {
                o.count("overwritten")
            }
            want[at + k] = Some(*b)
        }
    }
    let m = no_panic("from_lst", &|| txt.clone(), || NetHeaderMutate::from_lst(&rules, &core_scope()).map_err(|e| format!("{e:#}")))?;
    let m = match m {
        Err(e) => {
            ensure!(!ok, "rules", "refused with {e}\n{txt}");
            o.count("mutation-refused");
            return Ok(());
        }
        Ok(m) => m,
    };
    ensure!(ok, "rules", "accepted\n{txt}");
    // at any address
    let off = r.usize(16);
    let before: [u8; 32] = r.array();
    let mut buf = vec![0xEEu8; 64 + 16];
    buf[off + 16..off + 48].copy_from_slice(&before);
    let h: &mut NetPktHeader = unsafe { &mut *(buf[off + 16..].as_mut_ptr() as *mut NetPktHeader) };
    no_panic("mutate", &|| txt.clone(), || m.mutate(h))?;
    for (k, b) in buf.iter().enumerate() {
        let w = if k < off + 16 || k >= off + 48 {
            0xEE
        } else {
            let k = k - off - 16;
            o.count(if want[k].is_some() { "set" } else { "kept" });
            want[k].unwrap_or(before[k])
        };
        ensure!(*b == w, "mutate", "byte {} of the header is {b}, expected {w}, after\n{txt}", k as i64 - off as i64 - 16);
    }
    o.distinct((before, off, &txt));
    Ok(())
}
