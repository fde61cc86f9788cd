//! Independent reference for the text layer: abtxt codec, expression parser/printer, tokenizer.
//! Written from the documented format, not from the code under test.

/// the canonical escape of a byte
pub fn enc_byte(b: u8, out: &mut String) {
    match b {
        0 => out.push_str("\\0"),
        0xff => out.push_str("\\f"),
        b'\n' => out.push_str("\\n"),
        b'\r' => out.push_str("\\r"),
        b'\t' => out.push_str("\\t"),
        b':' | b'/' | b'[' | b']' | b'\\' => {
            out.push('\\');
            out.push(b as char)
        }
        0x20..=0x7e => out.push(b as char),
        _ => out.push_str(&format!("\\x{b:02x}")),
    }
}
pub fn enc(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        enc_byte(*x, &mut s)
    }
    s
}
#[derive(Debug, Clone, PartialEq)]
pub enum Tok {
    Byte(u8),
    /// one of / : \n [ ]
    Ctr(u8),
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum TokErr {
    /// the byte at this index cannot be there
    At(usize),
    Hex,
}
/// one token starting at `i`: (token, next index)
pub fn tok(t: &[u8], i: usize) -> Result<(Tok, usize), TokErr> {
    let h = |c: u8| (c as char).to_digit(16).map(|v| v as u8);
    match t[i] {
        c @ (b'/' | b':' | b'\n' | b'[' | b']') => Ok((Tok::Ctr(c), i + 1)),
        b'\\' => match t.get(i + 1) {
            Some(b'x') => match (t.get(i + 2).and_then(|c| h(*c)), t.get(i + 3).and_then(|c| h(*c))) {
                (Some(a), Some(b)) => Ok((Tok::Byte(a * 16 + b), i + 4)),
                _ => Err(TokErr::Hex),
            },
            Some(b'0') => Ok((Tok::Byte(0), i + 2)),
            Some(b'f') => Ok((Tok::Byte(0xff), i + 2)),
            Some(b'n') => Ok((Tok::Byte(b'\n'), i + 2)),
            Some(b'r') => Ok((Tok::Byte(b'\r'), i + 2)),
            Some(b't') => Ok((Tok::Byte(b'\t'), i + 2)),
            Some(c @ (b':' | b'/' | b'[' | b']' | b'\\')) => Ok((Tok::Byte(*c), i + 2)),
            _ => Err(TokErr::At(i)),
        },
        c @ 0x20..=0x7e => Ok((Tok::Byte(c), i + 1)),
        _ => Err(TokErr::At(i)),
    }
}
/// decode plain abtxt
pub fn dec(t: &[u8]) -> Result<Vec<u8>, TokErr> {
    let mut i = 0;
    let mut v = vec![];
    while i < t.len() {
        match tok(t, i)? {
            (Tok::Byte(b), n) => {
                v.push(b);
                i = n
            }
            (Tok::Ctr(_), _) => return Err(TokErr::At(i)),
        }
    }
    Ok(v)
}

#[derive(Debug, Clone, PartialEq)]
pub enum A {
    C(u8),
    B(Vec<u8>),
    L(Vec<A>),
}
#[derive(Debug, PartialEq, Clone, Copy)]
pub enum PErr {
    At(usize),
    Hex,
    Open,
    Close,
    /// nesting beyond what an implementation has to accept
    Deep,
}
pub const DEEP: usize = 100;

pub fn parse(t: &[u8], lenient: bool) -> Result<Vec<A>, PErr> {
    let mut stack: Vec<Vec<A>> = vec![vec![]];
    let mut cur: Vec<u8> = vec![];
    let mut i = 0;
    let mut deep = false;
    fn flush(cur: &mut Vec<u8>, st: &mut Vec<Vec<A>>) {
        if !cur.is_empty() {
            st.last_mut().unwrap().push(A::B(std::mem::take(cur)));
        }
    }
    while i < t.len() {
        let r = match tok(t, i) {
            Ok((Tok::Ctr(b'\n'), _)) => Err(TokErr::At(i)),
            r => r,
        };
        match r {
            Ok((Tok::Byte(b), n)) => {
                cur.push(b);
                i = n;
            }
            Ok((Tok::Ctr(c), n)) => {
                i = n;
                flush(&mut cur, &mut stack);
                match c {
                    b'[' => {
                        stack.push(vec![]);
                        deep |= stack.len() > DEEP
                    }
                    b']' => {
                        if stack.len() == 1 {
                            return Err(if deep { PErr::Deep } else { PErr::Close });
                        }
                        let l = stack.pop().unwrap();
                        stack.last_mut().unwrap().push(A::L(l));
                    }
                    c => stack.last_mut().unwrap().push(A::C(c)),
                }
            }
            Err(TokErr::Hex) => return Err(if deep { PErr::Deep } else { PErr::Hex }),
            Err(TokErr::At(at)) => {
                if lenient {
                    cur.push(t[at]);
                    i = at + 1;
                } else {
                    return Err(if deep { PErr::Deep } else { PErr::At(at) });
                }
            }
        }
    }
    if deep {
        // unwind without recursion
        let mut work: Vec<A> = stack.into_iter().flatten().collect();
        while let Some(x) = work.pop() {
            if let A::L(l) = x {
                work.extend(l)
            }
        }
        return Err(PErr::Deep);
    }
    if stack.len() != 1 {
        return Err(PErr::Open);
    }
    flush(&mut cur, &mut stack);
    Ok(stack.pop().unwrap())
}
pub fn print(a: &[A]) -> String {
    let mut s = String::new();
    fn go(a: &A, s: &mut String) {
        match a {
            A::C(c) => s.push(*c as char),
            A::B(b) => s.push_str(&enc(b)),
            A::L(l) => {
                s.push('[');
                l.iter().for_each(|x| go(x, s));
                s.push(']')
            }
        }
    }
    a.iter().for_each(|x| go(x, &mut s));
    s
}
/// components of the text at bracket depth 0: (delimiter that opened it, has brackets, range)
pub fn tokenize(t: &[u8], plain: &[u8], err: &[u8]) -> Result<Vec<(u8, bool, std::ops::Range<usize>)>, PErr> {
    let mut out = vec![];
    let (mut i, mut depth, mut start, mut head, mut inner) = (0, 0usize, 0, 0u8, false);
    while i < t.len() {
        match tok(t, i) {
            Err(TokErr::Hex) => return Err(PErr::Hex),
            Err(TokErr::At(k)) => return Err(PErr::At(k)),
            Ok((Tok::Byte(_), n)) => i = n,
            Ok((Tok::Ctr(c), n)) => {
                if err.contains(&c) {
                    return Err(PErr::At(i));
                }
                if plain.contains(&c) {
                    i = n;
                    continue;
                }
                match c {
                    b'[' => {
                        depth += 1;
                        inner = true
                    }
                    b']' => {
                        if depth == 0 {
                            return Err(PErr::Close);
                        }
                        depth -= 1
                    }
                    _ if depth > 0 => {}
                    c => {
                        out.push((head, inner, start..i));
                        inner = false;
                        head = c;
                        start = n;
                    }
                }
                i = n
            }
        }
    }
    if depth > 0 {
        return Err(PErr::Open);
    }
    // nothing is emitted for the empty text after the last delimiter
    if start < t.len() {
        out.push((head, inner, start..t.len()));
    }
    Ok(out)
}

pub fn to_real(a: &[A]) -> Vec<abe::ABE> {
    use abe::ast::{Ctr, Expr};
    a.iter()
        .map(|x| match x {
            A::C(b':') => abe::ABE::Ctr(Ctr::Colon),
            A::C(_) => abe::ABE::Ctr(Ctr::FSlash),
            A::B(b) => abe::ABE::Expr(Expr::Bytes(b.clone())),
            A::L(l) => abe::ABE::Expr(Expr::Lst(to_real(l))),
        })
        .collect()
}
pub fn from_real(a: &[abe::ABE]) -> Vec<A> {
    use abe::ast::Expr;
    a.iter()
        .map(|x| match x {
            abe::ABE::Ctr(c) => A::C(*c as u8),
            abe::ABE::Expr(Expr::Bytes(b)) => A::B(b.clone()),
            abe::ABE::Expr(Expr::Lst(l)) => A::L(from_real(l)),
        })
        .collect()
}
