//! A01 abtxt codec, A02 parser/printer, A03 tokenizer
use crate::{gen as g, refabe::*};
use abe::abtxt::{as_abtxt, parse_abtxt_into, parse_abtxt_upto_max, ABTxtError};
use vmlib::*;

const OPTS_A: Opts = Opts { as_mib: 1024, ..OPTS };

fn check_enc(b: &[u8], o: &mut Obs) -> Res {
    o.eval();
    let s = as_abtxt(b);
    let want = enc(b);
    ensure!(s == want.as_str(), "abtxt-encode", "as_abtxt({}) = {s:?}, the format says {want:?}", show(b));
    ensure!(s.bytes().all(|c| (0x20..=0x7e).contains(&c)), "abtxt-not-printable", "as_abtxt({}) = {s:?} is not clean ascii", show(b));
    let back = parse_abtxt_upto_max(s.as_bytes(), b.len());
    ensure!(back.as_ref().ok().map(|v| v.as_slice()) == Some(b), "abtxt-roundtrip", "as_abtxt({}) = {s:?} decodes to {back:?}", show(b));
    // exact buffer, bigger buffer, one byte short
    let mut buf = vec![0xAA; b.len() + 3];
    let n = parse_abtxt_into(s.as_bytes(), &mut buf[..b.len()]);
    ensure!(n.as_ref().ok() == Some(&b.len()) && &buf[..b.len()] == b, "abtxt-into", "parse_abtxt_into exact buffer: {n:?} {} for {}", show(&buf), show(b));
    ensure!(buf[b.len()..] == [0xAA; 3], "abtxt-into", "wrote past the buffer");
    let mut buf = vec![0xAA; b.len() + 3];
    let n = parse_abtxt_into(s.as_bytes(), &mut buf);
    ensure!(n.as_ref().ok() == Some(&b.len()) && &buf[..b.len()] == b && buf[b.len()..] == [0xAA; 3], "abtxt-into", "parse_abtxt_into big buffer: {n:?} {} for {}", show(&buf), show(b));
    if !b.is_empty() {
        let short = parse_abtxt_upto_max(s.as_bytes(), b.len() - 1);
        ensure!(matches!(short, Err(ABTxtError::FitSlice(_))), "abtxt-max", "max {} but decoded {short:?} from {s:?}", b.len() - 1);
        let mut buf = vec![0xAA; b.len()];
        let l = b.len() - 1;
        let n = parse_abtxt_into(s.as_bytes(), &mut buf[..l]);
        ensure!(n.is_err(), "abtxt-into-short", "buffer of {l} accepted {s:?}: {n:?}");
    }
    if s != *String::from_utf8_lossy(b) {
        o.count("encodings_with_escapes");
        o.distinct(b);
    }
    o.max("bytes", b.len() as u64);
    Ok(())
}
fn check_dec(t: &[u8], o: &mut Obs) -> Res {
    o.eval();
    let want = dec(t);
    let got = parse_abtxt_upto_max(t, 1 << 20);
    match (&want, &got) {
        (Ok(w), Ok(v)) => {
            ensure!(w == v, "abtxt-decode", "decode {} = {} the format says {}", show(t), show(v), show(w));
            o.count("decoded");
            // canonical form is a fixpoint: re-encoding and decoding gives the same bytes
            let mut buf = vec![0; v.len()];
            let n = parse_abtxt_into(t, &mut buf);
            ensure!(n.as_ref().ok() == Some(&w.len()) && buf == *w, "abtxt-decode-into", "decode_into {} = {n:?} {}", show(t), show(&buf));
        }
        (Err(e), Err(f)) => {
            match (e, f) {
                (TokErr::At(i), ABTxtError::ParseError { idx, byte }) => {
                    ensure!(i == idx && t[*i] == *byte, "abtxt-error-pos", "{}: reported byte {byte} at {idx}, the offending one is {} at {i}", show(t), t[*i])
                }
                (TokErr::Hex, ABTxtError::InvalidHex) => {}
                _ => return viol("abtxt-error-kind", format!("{}: expected {e:?} got {f:?}", show(t))),
            }
            o.count("rejected");
        }
        _ => return viol("abtxt-decode", format!("decode {}: got {got:?}, the format says {want:?}", show(t))),
    }
    o.distinct(t);
    Ok(())
}
pub(crate) fn a01_random(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let b = vmlib::gen::bytes(r, 300);
    o.sample(|| format!("{} -> {}", show(&b), as_abtxt(&b)));
    check_enc(&b, o)?;
    // injective: a different string has a different text
    let mut c = b.clone();
    vmlib::gen::mutate(r, &mut c, b"\0\xff\\:/[]\nf0x");
    ensure!((as_abtxt(&b) == as_abtxt(&c)) == (b == c), "abtxt-injective", "{} and {} have the same text", show(&b), show(&c));
    Ok(())
}
pub(crate) fn a01_decode(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let mut t = if r.bool() { enc(&vmlib::gen::bytes(r, 40)).into_bytes() } else { g::text(r) };
    if r.bool() {
        vmlib::gen::mutate(r, &mut t, g::ALPHA)
    }
    o.sample(|| format!("{} -> {:?}", show(&t), dec(&t)));
    check_dec(&t, o)
}
/// every string of 0..=2 bytes, and every \x?? escape
pub(crate) fn a01_exhaustive(_r: &mut Rng, i: u64, o: &mut Obs) -> Res {
    let (a, b) = ((i >> 8) as u8, i as u8);
    if i == 0 {
        check_enc(&[], o)?;
        check_dec(&[], o)?;
        for x in 0..=255u8 {
            check_enc(&[x], o)?;
            check_dec(&[x], o)?;
            check_dec(&[b'\\', x], o)?;
        }
    }
    check_enc(&[a, b], o)?;
    check_dec(&[a, b], o)?;
    check_dec(&[b'\\', b'x', a, b], o)?;
    o.count("exhaustive_pairs");
    Ok(())
}
pub static A01: Prop = Prop {
    id: "A01",
    stages: &[
        Stage { name: "exhaustive-2-bytes", quick: 65536, thorough: 65536, run: a01_exhaustive },
        Stage { name: "random-encode", quick: 1200000, thorough: 36000000, run: a01_random },
        Stage { name: "random-decode", quick: 1800000, thorough: 48000000, run: a01_decode },
    ],
    rule: "byte strings biased to escapes, nulls, 0xff and delimiters; texts from a mutating generator; every 1- and 2-byte string and \\x escape exhaustively. Each real result is judged by an independent codec. Non-trivial: the encoding needed an escape, or the text was decoded/rejected by the real decoder.",
    assumptions: &[],
    floors: &["decoded", "rejected", "encodings_with_escapes"],
    opts: OPTS_A,
};

fn same_perr(want: PErr, got: &abe::ast::ASTParseError) -> bool {
    use abe::ast::ASTParseError as P;
    match (want, got) {
        (PErr::At(i), P::AB(ABTxtError::ParseError { idx, .. })) => i == *idx,
        (PErr::Hex, P::AB(ABTxtError::InvalidHex)) => true,
        (PErr::Open, P::UnmatchedOpen) => true,
        (PErr::Close, P::UnmatchedClose) => true,
        (PErr::Deep, _) => true,
        _ => false,
    }
}
fn check_parse(t: &[u8], o: &mut Obs) -> Res {
    for lenient in [false, true] {
        o.eval();
        let want = parse(t, lenient);
        let got = abe::parse_abe_b(t, lenient);
        match (&want, &got) {
            (Err(PErr::Deep), _) => o.count("beyond_nesting_bound"),
            (Ok(w), Ok(v)) => {
                let v = from_real(v);
                ensure!(*w == v, "parse-ast", "parse({}, unencoded={lenient}) = {v:?}, expected {w:?}", show(t));
                let printed = abe::print_abe(got.as_ref().unwrap());
                ensure!(printed == print(w), "print", "print of {w:?} = {printed:?}");
                let again = abe::parse_abe_strict_b(printed.as_bytes());
                ensure!(again.as_ref().ok() == got.as_ref().ok(), "parse-print-parse", "{} parses to {v:?}, prints as {printed:?}, parses to {again:?}", show(t));
                o.count(if lenient { "accepted_unencoded" } else { "accepted_strict" });
                if w.iter().any(|x| matches!(x, A::L(_))) {
                    o.count("with_brackets");
                    o.distinct((lenient, t));
                }
            }
            (Err(w), Err(g)) => {
                ensure!(same_perr(*w, g), "parse-error", "parse({}, unencoded={lenient}): expected {w:?}, got {g:?}", show(t));
                o.count("rejected");
                o.distinct((lenient, t));
            }
            _ => return viol("parse-accept", format!("parse({}, unencoded={lenient}): got {got:?}, expected {want:?}", show(t))),
        }
    }
    Ok(())
}
pub(crate) fn a02_ast(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let a = g::ast(r, 5, 6);
    let real = to_real(&a);
    let s = abe::print_abe(&real);
    o.sample(|| s.clone());
    o.eval();
    ensure!(s == print(&a), "print", "print_abe({a:?}) = {s:?}");
    ensure!(s.bytes().all(|c| (0x20..=0x7e).contains(&c)), "print-not-ascii", "{s:?}");
    for lenient in [false, true] {
        let back = abe::parse_abe(&s, lenient);
        ensure!(back.as_ref().ok() == Some(&real), "print-parse", "{a:?} prints as {s:?} which parses (unencoded={lenient}) to {back:?}");
    }
    let disp: String = real.iter().map(|x| x.to_string()).collect();
    ensure!(disp == s, "print", "Display {disp:?} and print_abe {s:?} differ");
    if a.len() > 1 {
        o.distinct(&s);
        o.count("asts");
    }
    Ok(())
}
pub(crate) fn a02_text(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let t = g::text(r);
    o.sample(|| show(&t));
    check_parse(&t, o)
}
const EX: &[u8] = b"a[]:/\\\nx0";
pub(crate) fn a02_exhaustive(_r: &mut Rng, i: u64, o: &mut Obs) -> Res {
    // all strings over EX of length 0..=6: i encodes one of length 6, shorter ones via the prefix
    let mut x = i;
    let mut t = vec![];
    for _ in 0..6 {
        let d = (x % (EX.len() as u64 + 1)) as usize;
        x /= EX.len() as u64 + 1;
        if d == EX.len() {
            break;
        }
        t.push(EX[d])
    }
    o.count("exhaustive_small");
    check_parse(&t, o)
}
pub(crate) fn a02_deep(r: &mut Rng, i: u64, o: &mut Obs) -> Res {
    o.eval();
    let n = match i {
        0..=20 => i as usize * 6,
        _ => *r.pick(&[100usize, 120, 127, 128, 129, 130, 200, 256, 1000, 5000, 20_000, 60_000, 200_000]),
    };
    let mut t = vec![];
    let kind = r.below(4);
    for k in 0..n {
        t.extend_from_slice(match kind {
            0 => b"[",
            1 => b"[/or:",
            2 => b"[:",
            _ => {
                if k % 2 == 0 {
                    b"[a:"
                } else {
                    b"x["
                }
            }
        })
    }
    let opens = t.iter().filter(|c| **c == b'[').count();
    if r.chance(3, 4) {
        t.extend(std::iter::repeat(b']').take(opens));
    }
    if r.chance(1, 4) {
        t.push(b']')
    }
    // must come back at all; if it is accepted it must be usable
    for lenient in [false, true] {
        match abe::parse_abe_b(&t, lenient) {
            Ok(v) => {
                o.count("deep_accepted");
                let s = abe::print_abe(&v);
                ensure!(s.as_bytes() == t, "deep-print", "nesting {opens}: prints differently");
                let _ = format!("{v:?}");
                let _ = abe::eval::eval(&abe::scope::basic_scope(), &v);
                drop(v);
            }
            Err(_) => {
                o.count("deep_rejected");
                ensure!(opens > DEEP || parse(&t, lenient).is_err(), "deep-reject", "nesting of {opens} rejected");
            }
        }
    }
    let _ = abe::ast::tokenize_abe(std::str::from_utf8(&t).unwrap(), 0, 0);
    o.distinct((n, kind));
    Ok(())
}
pub static A02: Prop = Prop {
    id: "A02",
    stages: &[
        Stage { name: "print-parse", quick: 360000, thorough: 12000000, run: a02_ast },
        Stage { name: "text", quick: 1500000, thorough: 48000000, run: a02_text },
        Stage { name: "exhaustive-small", quick: 1_000_000, thorough: 1_000_000, run: a02_exhaustive },
        Stage { name: "deep-nesting", quick: 400, thorough: 4000, run: a02_deep },
    ],
    rule: "canonical syntax trees printed and parsed back; texts (random, mutated, arbitrary bytes, every string up to 6 symbols over a 9-symbol alphabet of delimiters and escapes) parsed by the real strict and unencoded parsers and by an independent parser; bracket nesting up to 200000. Non-trivial: contains brackets, was rejected, or is a multi-element tree.",
    assumptions: &["nesting beyond 100 may be accepted or rejected, but never crash"],
    floors: &["accepted_strict", "accepted_unencoded", "rejected", "asts", "deep_rejected"],
    opts: OPTS_A,
};

const CS: &[(u32, u8)] = &[(0b1, b'/'), (0b10, b':'), (0b100, b'\n'), (0b10000, b'['), (0b100000, b']')];
fn check_tokens(t: &[u8], plain: u32, err: u32, o: &mut Obs) -> Res {
    o.eval();
    let set = |m: u32| CS.iter().filter(|c| c.0 & m != 0).map(|c| c.1).collect::<Vec<u8>>();
    let (ps, es) = (set(plain), set(err));
    let want = tokenize(t, &ps, &es);
    let mut got = vec![];
    let mut fail = None;
    for x in abe::ast::tokenize_abe_b(t, plain, err) {
        match x {
            Ok((c, inner, s)) => {
                let off = s.as_ptr() as usize - t.as_ptr() as usize;
                got.push((c, inner, off..off + s.len()))
            }
            Err(e) => {
                fail = Some(e);
                break;
            }
        }
        ensure!(got.len() <= t.len() + 1, "tokenize-endless", "more components than bytes in {}", show(t));
    }
    match (&want, fail) {
        (Ok(w), None) => {
            ensure!(*w == got, "tokenize", "tokenize({}, plain={plain:#b}, err={err:#b}) = {got:?}, expected {w:?}", show(t));
            // partition: delimiters and components put together are the input (but for one final delimiter)
            let mut joined = vec![];
            for (c, _, rg) in &got {
                if *c != 0 {
                    joined.push(*c)
                }
                joined.extend_from_slice(&t[rg.clone()])
            }
            ensure!(joined == t || (t.len() == joined.len() + 1 && t.starts_with(&joined)), "tokenize-partition", "components of {} join to {}", show(t), show(&joined));
            o.count("tokenized");
            if got.len() > 1 {
                o.distinct((t, plain, err));
            }
            // agreement with the parser
            if plain == 0 && err == 0 && !t.contains(&b'\n') {
                let mut v: Vec<abe::ABE> = vec![];
                for (c, inner, rg) in &got {
                    if *c != 0 {
                        v.extend(abe::parse_abe_strict_b(&[*c]).ok().unwrap_or_default())
                    }
                    match abe::parse_abe_strict_b(&t[rg.clone()]) {
                        Ok(x) => {
                            ensure!(*inner == x.iter().any(|y| matches!(y, abe::ABE::Expr(abe::ast::Expr::Lst(_)))), "tokenize-brackets", "bracket flag of {} is {inner}", show(&t[rg.clone()]));
                            v.extend(x)
                        }
                        Err(_) if t.iter().filter(|c| **c == b'[').count() > DEEP => return Ok(()),
                        Err(e) => return viol("tokenize-vs-parse", format!("component {} of {} does not parse: {e:?}", show(&t[rg.clone()]), show(t))),
                    }
                }
                let whole = abe::parse_abe_strict_b(t).ok();
                if joined != t {
                    v.extend(abe::parse_abe_strict_b(&t[joined.len()..]).ok().unwrap_or_default())
                }
                ensure!(whole.as_ref() == Some(&v), "tokenize-vs-parse", "components of {} parse to {v:?}, the whole to {whole:?}", show(t));
                o.count("agreed_with_parser");
            }
        }
        (Err(w), Some(g)) => {
            ensure!(same_perr(*w, &g), "tokenize-error", "tokenize({}, {plain:#b}, {err:#b}): expected {w:?} got {g:?}", show(t));
            o.count("rejected");
            o.distinct((t, plain, err));
        }
        (w, f) => return viol("tokenize-accept", format!("tokenize({}, {plain:#b}, {err:#b}): got {got:?} / {f:?}, expected {w:?}", show(t))),
    }
    if let Ok(s) = std::str::from_utf8(t) {
        let r = abe::ast::tokenize_abe(s, plain, err);
        ensure!(r.is_ok() == want.is_ok(), "tokenize-str", "tokenize_abe({s:?}) ok={}", r.is_ok());
        if let (Ok(r), Ok(w)) = (&r, &want) {
            let w: Vec<_> = w.iter().map(|(c, i, rg)| (*c, *i, std::str::from_utf8(&t[rg.clone()]).unwrap())).collect();
            ensure!(*r == w, "tokenize-str", "tokenize_abe({s:?}) = {r:?}");
        }
    }
    Ok(())
}
pub(crate) fn a03_text(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let t = match r.below(3) {
        0 => {
            let mut t = vec![];
            for _ in 0..r.usize(6) {
                if r.bool() {
                    t.extend(print(&g::ast(r, 2, 3)).into_bytes())
                }
                t.push(*r.pick(b":/\n:"))
            }
            t
        }
        _ => g::text(r),
    };
    let mut m = || if r.bool() { 0 } else { CS.iter().filter(|_| r.chance(1, 3)).fold(0, |a, c| a | c.0) };
    let (p, e) = (m(), m());
    o.sample(|| format!("{} plain={p:#b} err={e:#b}", show(&t)));
    check_tokens(&t, p, e, o)
}
pub(crate) fn a03_exhaustive(_r: &mut Rng, i: u64, o: &mut Obs) -> Res {
    let mut x = i;
    let mut t = vec![];
    for _ in 0..5 {
        let d = (x % (EX.len() as u64 + 1)) as usize;
        x /= EX.len() as u64 + 1;
        if d == EX.len() {
            break;
        }
        t.push(EX[d])
    }
    check_tokens(&t, 0, 0, o)?;
    check_tokens(&t, 0b1, 0b100, o)?;
    check_tokens(&t, 0b110, 0, o)
}
pub static A03: Prop = Prop {
    id: "A03",
    stages: &[
        Stage { name: "text", quick: 1800000, thorough: 54000000, run: a03_text },
        Stage { name: "exhaustive-small", quick: 100_000, thorough: 100_000, run: a03_exhaustive },
    ],
    rule: "texts with every combination of plain/error delimiter sets, split by the real tokenizer and an independent one; the components must partition the input and agree with the parser. Non-trivial: more than one component, or rejected.",
    assumptions: &["no component is produced for the empty text after a final delimiter"],
    floors: &["tokenized", "rejected", "agreed_with_parser"],
    opts: OPTS_A,
};
