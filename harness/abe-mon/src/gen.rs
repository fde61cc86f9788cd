use crate::refabe::*;
use vmlib::{gen, Rng};

/// canonical AST: no empty byte strings, no two adjacent byte strings
pub fn ast(r: &mut Rng, depth: usize, max: usize) -> Vec<A> {
    let n = r.usize(max + 1);
    let mut v: Vec<A> = vec![];
    for _ in 0..n {
        let prev_b = matches!(v.last(), Some(A::B(_)));
        match r.below(10) {
            0..=3 if !prev_b => {
                let mut b = gen::bytes(r, 20);
                if b.is_empty() {
                    b.push(r.u8())
                }
                v.push(A::B(b))
            }
            4..=5 => v.push(A::C(b':')),
            6..=7 => v.push(A::C(b'/')),
            _ if depth > 0 => v.push(A::L(ast(r, depth - 1, max))),
            _ => v.push(A::C(b':')),
        }
    }
    v
}
pub const ALPHA: &[u8] = b"ab01f:/[]\\\\xnrt\n\t\r \0\xff\x80?~e";
pub fn text(r: &mut Rng) -> Vec<u8> {
    match r.below(4) {
        0 => {
            let n = r.len(60);
            (0..n).map(|_| *r.pick(ALPHA)).collect()
        }
        1 => {
            let mut t = print(&ast(r, 3, 5)).into_bytes();
            gen::mutate(r, &mut t, ALPHA);
            t
        }
        2 => print(&ast(r, 4, 5)).into_bytes(),
        _ => {
            let n = r.len(40);
            r.bytes(n)
        }
    }
}
fn arg(r: &mut Rng, depth: usize) -> Vec<A> {
    match r.below(14) {
        0 => vec![],
        1 => vec![A::B(vec![0; 1 + r.usize(4)])],
        2..=4 => vec![A::B(r.range(0, 20).to_string().into_bytes())],
        5 => vec![A::B(gen::u128b(r).to_string().into_bytes())],
        6 => vec![A::B((*r.pick(&["=", "abc", "-1", "-3", "2", "1", "u8", "b", "a", "0101", "ff", "17", "+3", "\u{7f}"])).into())],
        7..=8 if depth > 0 => vec![func(r, depth - 1)],
        9 if depth > 0 => vec![A::B(vec![r.u8()]), func(r, depth - 1)],
        _ => {
            let mut b = gen::bytes(r, 18);
            if b.is_empty() {
                b.push(b'q')
            }
            vec![A::B(b)]
        }
    }
}
pub const FUNCS: &[(&str, usize, usize)] = &[
    ("?a", 1, 1), ("?a0", 1, 1), ("a", 1, 3), ("f", 1, 3), ("lpad", 1, 3), ("rpad", 1, 3), ("~lpad", 1, 3), ("~rpad", 1, 3),
    ("lcut", 1, 2), ("rcut", 1, 2), ("~lcut", 1, 2), ("~rcut", 1, 2), ("lfixed", 1, 3), ("rfixed", 1, 3), ("replace", 3, 3),
    ("slice", 1, 4), ("~utf8", 1, 1), ("+", 1, 16), ("-", 1, 16), ("u8", 1, 1), ("u16", 1, 1), ("u32", 1, 1), ("u64", 1, 1),
    ("u128", 1, 1), ("?u", 1, 1), ("lu", 1, 1), ("lu8", 1, 1), ("lu16", 1, 1), ("lu32", 1, 1), ("lu64", 1, 1), ("lu128", 1, 1),
    ("?lu", 1, 1), ("b2", 1, 1), ("b8", 1, 1), ("b16", 1, 1), ("?b", 1, 1), ("2mini", 1, 1), ("b", 1, 1), ("?bs", 1, 1), ("bs", 1, 1),
    ("size?", 3, 3), ("val?", 3, 3), ("eval", 1, 1), ("?", 2, 8), ("??", 2, 8), ("???", 2, 8), ("C", 1, 16),
];
fn call(r: &mut Rng, depth: usize, out: &mut Vec<A>, chained: bool) {
    if r.chance(1, 12) {
        out.push(A::B((*r.pick(&["nope", "A", "u9", "0", "1", "7", "argv"])).into()));
        for _ in 0..r.usize(3) {
            out.push(A::C(b':'));
            out.extend(arg(r, depth))
        }
        return;
    }
    let (n, lo, hi) = *r.pick(FUNCS);
    out.push(A::B(n.into()));
    let (lo, hi) = if r.chance(1, 10) { (0, hi + 1) } else { (lo, hi.min(lo + 3)) };
    let k = r.range(lo, hi).saturating_sub(chained as usize);
    for j in 0..k {
        out.push(A::C(b':'));
        if (n == "?" || n == "??" || n == "???") && j + 1 == k {
            out.push(A::B(encopts_text(r).into_bytes()))
        } else if n == "size?" && j + 1 + chained as usize == 2 {
            out.push(A::B(if r.chance(1, 6) { b"<".to_vec() } else { b"=".to_vec() }))
        } else {
            out.extend(arg(r, depth))
        }
    }
}
pub const ENCS: &[&str] = &["a", "u8", "u16", "u32", "u64", "u128", "b", "b2", "b16", "bs", "nope", "lpad", "lu"];
pub fn encopts(r: &mut Rng) -> Vec<A> {
    let mut v = vec![];
    for i in 0..r.usize(5) {
        if i > 0 {
            v.push(A::C(b'/'))
        }
        match r.below(14) {
            0 => {}
            1 => v.push(A::C(b':')),
            2 => {
                v.push(A::B("b16".into()));
                v.push(A::C(b':'));
                v.push(A::B(r.usize(18).to_string().into_bytes()))
            }
            3 => {
                v.push(A::B("b".into()));
                for _ in 0..1 + r.usize(2) {
                    v.push(A::C(b':'));
                    v.push(A::B(r.usize(18).to_string().into_bytes()))
                }
            }
            4 => v.push(A::L(vec![])),
            _ => v.push(A::B((*r.pick(ENCS)).into())),
        }
    }
    v
}
pub fn encopts_text(r: &mut Rng) -> String {
    let s = print(&encopts(r));
    if s.is_empty() {
        "/".into()
    } else {
        s
    }
}
/// one `[...]` expression
pub fn func(r: &mut Rng, depth: usize) -> A {
    let mut v = vec![];
    match r.below(16) {
        0 if depth > 0 => {
            // [/or:..:..]
            v.push(A::C(b'/'));
            v.push(A::B("or".into()));
            for _ in 0..r.usize(4) {
                v.push(A::C(b':'));
                v.extend(if r.bool() { vec![func(r, depth - 1)] } else { arg(r, depth - 1) })
            }
        }
        1 if depth > 0 => {
            v.extend([A::C(b'/'), A::B((*r.pick(&["?", "~?"])).into()), A::C(b':')]);
            v.extend(arg(r, depth - 1));
            let o = encopts(r);
            if !o.is_empty() || r.bool() {
                v.push(A::C(b'/'));
                v.extend(o);
            }
        }
        2 if depth > 0 => {
            v.extend([A::C(b'/'), A::B("e".into()), A::C(b':')]);
            v.extend(seq(r, depth - 1));
        }
        3 => {
            v.extend([A::C(b'/'), A::C(b':')]);
            v.extend(ast(r, 2, 4));
        }
        4 => {
            // literal concatenation, maybe chained
            for _ in 0..1 + r.usize(3) {
                v.push(A::C(b':'));
                v.extend(arg(r, depth))
            }
            if r.bool() {
                v.push(A::C(b'/'));
                call(r, depth, &mut v, true)
            }
        }
        5 if r.chance(1, 3) => {
            v.extend([A::C(b'/'), A::B("zip".into())]);
            v.extend(arg(r, depth))
        }
        _ => {
            call(r, depth, &mut v, false);
            while r.chance(2, 5) {
                v.push(A::C(b'/'));
                call(r, depth, &mut v, true)
            }
        }
    }
    norm(v)
}
fn norm(v: Vec<A>) -> A {
    A::L(canon(v))
}
/// merge adjacent byte strings and drop empty ones
pub fn canon(v: Vec<A>) -> Vec<A> {
    let mut o: Vec<A> = vec![];
    for x in v {
        match (o.last_mut(), x) {
            (_, A::B(b)) if b.is_empty() => {}
            (Some(A::B(p)), A::B(b)) => p.extend(b),
            (_, x) => o.push(x),
        }
    }
    o
}
pub fn seq(r: &mut Rng, depth: usize) -> Vec<A> {
    let mut v = vec![];
    for _ in 0..1 + r.usize(3) {
        match r.below(6) {
            0 => v.push(A::C(b':')),
            1 => v.push(A::C(b'/')),
            2 => v.extend(arg(r, 0)),
            _ => v.push(func(r, depth)),
        }
    }
    canon(v)
}
