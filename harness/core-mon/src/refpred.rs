//! An independent reading of the query predicates: what each line demands of a packet.
use crate::d_sets::RSet;
use crate::refpkt::{self, Parsed};
use crate::world::{pool, COMPS};
use linkspace_core::predicate::TestOp;
use vmlib::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    T(TestOpH),
    Ge,
    Le,
    Head,
    Tail,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum TestOpH {
    Nop,
    Eq,
    Lt,
    Gt,
    M0,
    M1,
}
impl Op {
    pub fn text(self) -> &'static str {
        use TestOpH::*;
        match self {
            Op::T(Nop) => "?",
            Op::T(Eq) => "=",
            Op::T(Lt) => "<",
            Op::T(Gt) => ">",
            Op::T(M0) => "0",
            Op::T(M1) => "1",
            Op::Ge => ">=",
            Op::Le => "<=",
            Op::Head => "=*",
            Op::Tail => "*=",
        }
    }
    pub fn test_op(self) -> Option<TestOp> {
        use TestOpH::*;
        Some(match self {
            Op::T(Nop) => TestOp::Nop,
            Op::T(Eq) => TestOp::Equal,
            Op::T(Lt) => TestOp::Less,
            Op::T(Gt) => TestOp::Greater,
            Op::T(M0) => TestOp::Mask0,
            Op::T(M1) => TestOp::Mask1,
            _ => return None,
        })
    }
}
use TestOpH::*;
pub const OPS: [Op; 10] = [Op::T(Nop), Op::T(Eq), Op::T(Lt), Op::T(Gt), Op::T(M0), Op::T(M1), Op::Ge, Op::Le, Op::Head, Op::Tail];
pub const EQ: Op = Op::T(Eq);
/// name, bytes, point types it implies
pub const FIELDS: [(&str, usize, u8); 17] = [
    ("hash", 32, 1),
    ("group", 32, 3),
    ("domain", 16, 3),
    ("pubkey", 32, 4),
    ("create", 8, 3),
    ("depth", 1, 3),
    ("links_len", 2, 3),
    ("data_size", 2, 1),
    ("hop", 4, 1),
    ("stamp", 8, 1),
    ("ubits0", 4, 1),
    ("ubits1", 4, 1),
    ("ubits2", 4, 1),
    ("ubits3", 4, 1),
    ("type", 1, 1),
    ("netflags", 1, 1),
    ("size", 2, 1),
];
pub const LIMITS: [&str; 4] = ["i", "i_new", "i_db", "i_branch"];
#[derive(Clone, PartialEq, Debug, Hash)]
pub enum Cond {
    /// index into FIELDS
    F(usize, Op, Vec<u8>),
    Recv(Op, u64),
    /// exact?
    Space(bool, Vec<Vec<u8>>),
    Limit(usize, Op, u32),
}
pub fn field(x: &Parsed, f: usize) -> Vec<u8> {
    let lp = x.lp.unwrap_or((0, [0; 32], [0; 16]));
    match FIELDS[f].0 {
        "hash" => x.hash.to_vec(),
        "group" => lp.1.to_vec(),
        "domain" => lp.2.to_vec(),
        "pubkey" => x.signed.map(|s| s.0).unwrap_or([0; 32]).to_vec(),
        "create" => lp.0.to_be_bytes().to_vec(),
        "depth" => vec![x.comps.len() as u8],
        "links_len" => (x.links.len() as u16).to_be_bytes().to_vec(),
        "data_size" => (x.data.len() as u16).to_be_bytes().to_vec(),
        "hop" => x.hdr[4..8].to_vec(),
        "stamp" => x.hdr[8..16].to_vec(),
        "ubits0" => x.hdr[16..20].to_vec(),
        "ubits1" => x.hdr[20..24].to_vec(),
        "ubits2" => x.hdr[24..28].to_vec(),
        "ubits3" => x.hdr[28..32].to_vec(),
        "type" => vec![x.kind],
        "netflags" => vec![x.hdr[3]],
        "size" => (x.size as u16).to_be_bytes().to_vec(),
        _ => unreachable!(),
    }
}
/// big-endian value against a test; head and tail tests may be shorter than the value
pub fn op_ok(op: Op, v: &[u8], t: &[u8]) -> bool {
    match op {
        Op::T(Nop) => true,
        Op::T(Eq) => v == t,
        Op::T(Lt) => v < t,
        Op::T(Gt) => v > t,
        Op::Ge => v >= t,
        Op::Le => v <= t,
        // every one bit of the value is a one bit of the operand
        Op::T(M0) => v.iter().zip(t).all(|(a, b)| a & !b == 0),
        // every one bit of the operand is a one bit of the value
        Op::T(M1) => v.iter().zip(t).all(|(a, b)| b & !a == 0),
        Op::Head => v.starts_with(t),
        Op::Tail => v.ends_with(t),
    }
}
impl Cond {
    /// does the packet pass (limits are not a property of the packet)
    pub fn ok(&self, x: &Parsed, recv: u64) -> bool {
        match self {
            Cond::F(f, op, t) => {
                let need = FIELDS[*f].2;
                x.kind & need == need && op_ok(*op, &field(x, *f), t)
            }
            Cond::Recv(op, t) => op_ok(*op, &recv.to_be_bytes(), &t.to_be_bytes()),
            Cond::Space(exact, c) => x.kind & 2 != 0 && if *exact { x.comps == *c } else { x.comps.starts_with(c) },
            Cond::Limit(..) => true,
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Cond::F(f, ..) => FIELDS[*f].0,
            Cond::Recv(..) => "recv",
            Cond::Space(true, _) => "spacename",
            Cond::Space(false, _) => "prefix",
            Cond::Limit(l, ..) => LIMITS[*l],
        }
    }
    pub fn op(&self) -> Op {
        match self {
            Cond::F(_, o, _) | Cond::Recv(o, _) | Cond::Limit(_, o, _) => *o,
            Cond::Space(..) => EQ,
        }
    }
    pub fn value(&self) -> Vec<u8> {
        match self {
            Cond::F(_, _, t) => t.clone(),
            Cond::Recv(_, t) => t.to_be_bytes().to_vec(),
            Cond::Limit(_, _, t) => t.to_be_bytes().to_vec(),
            Cond::Space(_, c) => refpkt::sp(c),
        }
    }
    /// one line of query text
    pub fn text(&self, r: &mut Rng) -> String {
        let v = self.value();
        let val = match self {
            Cond::Space(_, c) => c.iter().map(|c| format!("/{}", esc(c))).collect(),
            _ if v.len() <= 8 && self.op().test_op().is_some() && r.bool() => {
                let n = v.iter().fold(0u64, |a, b| a << 8 | *b as u64);
                format!("[u{}:{n}]", v.len() * 8)
            }
            _ if r.bool() && !v.is_empty() => format!("[b:{}]", b64(&v)),
            _ => esc(&v),
        };
        format!("{}:{}:{val}", self.name(), self.op().text())
    }
}
pub fn b64(b: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            s.push(A[(n >> (18 - 6 * i) & 63) as usize] as char)
        }
    }
    s
}
/// ascii-byte-text with everything that is not a letter or digit escaped
pub fn esc(b: &[u8]) -> String {
    b.iter().map(|c| if c.is_ascii_alphanumeric() { (*c as char).to_string() } else { format!("\\x{c:02x}") }).collect()
}
pub fn show(c: &[Cond]) -> String {
    let mut r = Rng::new(0);
    c.iter().map(|c| c.text(&mut r)).collect::<Vec<_>>().join(" | ")
}
#[derive(PartialEq, Debug, Clone, Copy)]
pub enum Sat {
    Yes,
    No,
    /// both answers are acceptable
    Either,
}
/// can anything pass all of these
pub fn sat(conds: &[Cond]) -> Sat {
    let mut either = false;
    let add = |s: &mut RSet, op: Op, v: &[u8], n: usize| match op {
        Op::Ge => s.low = s.low.clone().max(v.to_vec()),
        Op::Le => s.high = s.high.clone().min(v.to_vec()),
        Op::Head | Op::Tail => {
            let (mut z, mut o) = (vec![255; n], vec![0; n]);
            let at = if op == Op::Head { 0 } else { n - v.len() };
            z[at..at + v.len()].copy_from_slice(v);
            o[at..at + v.len()].copy_from_slice(v);
            s.add(TestOp::Mask0, &z);
            s.add(TestOp::Mask1, &o);
        }
        op => s.add(op.test_op().unwrap(), &v.to_vec()),
    };
    for f in 0..FIELDS.len() {
        let n = FIELDS[f].1;
        let mut s = RSet::all(n);
        for c in conds {
            match c {
                Cond::F(g, op, v) if *g == f => add(&mut s, *op, v, n),
                _ => {}
            }
            if FIELDS[f].0 == "type" {
                match c {
                    Cond::F(g, ..) => add(&mut s, Op::T(M1), &[FIELDS[*g].2], 1),
                    // PredicateType says prefix and spacename are about linked points
                    Cond::Space(true, _) => add(&mut s, Op::T(M1), &[3], 1),
                    _ => {}
                }
            }
            if FIELDS[f].0 == "depth" {
                if let Cond::Space(exact, c) = c {
                    add(&mut s, if *exact { EQ } else { Op::Ge }, &[c.len() as u8], 1);
                }
            }
        }
        match s.next(&vec![0; n]) {
            None => return Sat::No,
            Some(d) if FIELDS[f].0 == "depth" && d[0] > 8 => either = true,
            _ => {}
        }
        if FIELDS[f].0 == "type" && conds.iter().any(|c| matches!(c, Cond::Space(false, _))) {
            add(&mut s, Op::T(M1), &[3], 1);
            if s.next(&vec![0]).is_none() {
                either = true
            }
        }
    }
    let mut s = RSet::all(8);
    for c in conds {
        if let Cond::Recv(op, v) = c {
            add(&mut s, *op, &v.to_be_bytes(), 8)
        }
    }
    if s.next(&vec![0; 8]).is_none() {
        return Sat::No;
    }
    for a in conds {
        for b in conds {
            if let (Cond::Space(ea, x), Cond::Space(eb, y)) = (a, b) {
                let ok = match (ea, eb) {
                    (true, true) => x == y,
                    (true, false) => x.starts_with(y),
                    (false, true) => y.starts_with(x),
                    _ => x.starts_with(y) || y.starts_with(x),
                };
                if !ok {
                    return Sat::No;
                }
            }
        }
    }
    let l = |k: usize| {
        let mut s = limit_set(conds, k);
        if conds.iter().any(|c| matches!(c, Cond::F(0, Op::T(Eq), _))) && k == 0 {
            s.add(TestOp::Equal, &vec![0; 4])
        }
        s.next(&vec![0; 4]).is_some()
    };
    if !l(0) || (!l(1) && (!l(2) || !l(3))) {
        return Sat::No;
    }
    if either {
        Sat::Either
    } else {
        Sat::Yes
    }
}
fn limit_set(conds: &[Cond], k: usize) -> RSet {
    let mut s = RSet::all(4);
    for c in conds {
        if let Cond::Limit(l, op, v) = c {
            let v = v.to_be_bytes().to_vec();
            if *l == k {
                match op {
                    Op::Ge => s.low = s.low.clone().max(v),
                    Op::Le => s.high = s.high.clone().min(v),
                    op => s.add(op.test_op().unwrap(), &v),
                }
            }
        }
    }
    s
}
/// is the n-th one wanted
pub fn nth_ok(conds: &[Cond], k: usize, n: u32) -> bool {
    let hash_eq = k == 0 && conds.iter().any(|c| matches!(c, Cond::F(0, Op::T(Eq), _)));
    (!hash_eq || n == 0) && conds.iter().all(|c| !matches!(c, Cond::Limit(l, op, v) if *l == k && !op_ok(*op, &n.to_be_bytes(), &v.to_be_bytes())))
}
/// no later one can be wanted
pub fn nth_done(conds: &[Cond], k: usize, n: u32) -> bool {
    let s = limit_set(conds, k);
    let hash_eq = k == 0 && conds.iter().any(|c| matches!(c, Cond::F(0, Op::T(Eq), _)));
    s.empty || s.high < n.to_be_bytes().to_vec() || (hash_eq && n > 0)
}
// ---- generators
fn near(r: &mut Rng, v: &mut Vec<u8>) {
    match r.below(10) {
        0 => {
            let k = r.usize(v.len() * 8);
            v[k / 8] ^= 1 << (k % 8)
        }
        1 => v.iter_mut().for_each(|x| *x = 0),
        2 => v.iter_mut().for_each(|x| *x = 255),
        3 => {
            let n = v.len() - 1;
            v[n] = v[n].wrapping_add(1)
        }
        4 => {
            let n = v.len() - 1;
            v[n] = v[n].wrapping_sub(1)
        }
        _ => {}
    }
}
pub fn comps(r: &mut Rng) -> Vec<Vec<u8>> {
    (0..*r.pick(&[1, 1, 1, 2, 2, 3, 8])).map(|_| r.pick(&COMPS[..]).to_vec()).collect()
}
/// a condition that has something to do with packet `x` received at `recv`
pub fn cond(r: &mut Rng, x: &Parsed, recv: u64, fields: &[usize]) -> Cond {
    match r.below(20) {
        0 | 1 => {
            let mut c = if r.chance(4, 5) && !x.comps.is_empty() { x.comps.clone() } else { comps(r) };
            c.truncate(r.range(1, c.len()));
            Cond::Space(false, c)
        }
        2 => Cond::Space(true, if r.chance(4, 5) && !x.comps.is_empty() { x.comps.clone() } else { comps(r) }),
        3 | 4 => {
            let mut v = recv.to_be_bytes().to_vec();
            near(r, &mut v);
            Cond::Recv(*r.pick(&[OPS[0], OPS[1], OPS[2], OPS[2], OPS[3], OPS[3], Op::Ge, Op::Le]), u64::from_be_bytes(v.try_into().unwrap()))
        }
        _ => {
            let f = *r.pick(fields);
            let mut v = field(x, f);
            near(r, &mut v);
            let mut op = if r.chance(1, 3) { EQ } else { *r.pick(&OPS) };
            if FIELDS[f].0 == "hash" && op == EQ && r.chance(3, 4) {
                op = Op::Ge
            }
            match op {
                Op::T(M0) if r.bool() => v.iter_mut().for_each(|b| *b |= r.u8() | r.u8()),
                Op::T(M1) if r.bool() => v.iter_mut().for_each(|b| *b &= r.u8() & r.u8()),
                Op::Head => v.truncate(r.range(1, v.len())),
                Op::Tail => {
                    let k = r.usize(v.len());
                    v = v.split_off(k)
                }
                _ => {}
            }
            Cond::F(f, op, v)
        }
    }
}
pub fn limit(r: &mut Rng, k: usize) -> Cond {
    let op = *r.pick(&[OPS[1], OPS[2], OPS[2], OPS[3], Op::Le, Op::Le, Op::Ge, OPS[5], OPS[4]]);
    let v = match op {
        Op::T(M1) => r.below(4) as u32,
        Op::T(M0) => if r.bool() { !(r.below(4) as u32) } else { r.below(8) as u32 },
        _ => r.below(6) as u32,
    };
    Cond::Limit(k, op, v)
}
pub fn all_fields() -> Vec<usize> {
    (0..FIELDS.len()).collect()
}
/// conditions about a packet of the pool
pub fn conds(r: &mut Rng, n: usize, recv_of: &dyn Fn(usize, &mut Rng) -> u64, fields: &[usize]) -> Vec<Cond> {
    let i = r.usize(pool().len());
    let recv = recv_of(i, r);
    let mut v: Vec<Cond> = vec![];
    for _ in 0..n {
        let (j, rj) = if r.chance(4, 5) { (i, recv) } else { let j = r.usize(pool().len()); (j, recv_of(j, r)) };
        v.push(cond(r, &pool()[j].x, rj, fields));
    }
    v
}
/// does the set have a member from n on
pub fn nth_left(conds: &[Cond], k: usize, n: u32) -> bool {
    let mut s = limit_set(conds, k);
    if k == 0 && conds.iter().any(|c| matches!(c, Cond::F(0, Op::T(Eq), _))) {
        s.add(TestOp::Equal, &vec![0; 4])
    }
    s.next(&n.to_be_bytes().to_vec()).is_some()
}
/// the last recv stamp that can pass
pub fn recv_high(conds: &[Cond]) -> u64 {
    conds
        .iter()
        .map(|c| match c {
            Cond::Recv(Op::T(Eq), v) | Cond::Recv(Op::Le, v) => *v,
            Cond::Recv(Op::T(Lt), v) => v.saturating_sub(1),
            _ => u64::MAX,
        })
        .min()
        .unwrap_or(u64::MAX)
}
