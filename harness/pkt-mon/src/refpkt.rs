//! An independent description of the packet layout: encoder, decoder and generator.
use linkspace_cryptography::{sign_hash, SigningKey};
use vmlib::Rng;

pub const MAX_POINT: usize = 65024;
pub const DATA: u8 = 1;
pub const LINK: u8 = 3;
pub const KEY: u8 = 7;
pub const ERR: u8 = 0x80;

/// the public group is the hash of the data "Hello, Sol!\n", the test group that of "Test Group"
pub const PUBLIC: [u8; 32] = [
    98, 187, 59, 139, 61, 213, 206, 117, 225, 250, 136, 47, 225, 163, 58, 217, 89, 140, 55, 21, 197, 137, 62, 15, 219, 139, 72, 125, 92, 253, 177, 57,
];
#[allow(dead_code)]
pub fn test_group() -> [u8; 32] {
    linkspace_cryptography::blake3_hash(b"\x00\x01\x00\x0eTest Group").into()
}

pub type RLink = ([u8; 16], [u8; 32]);
#[derive(Clone, Debug, PartialEq)]
pub struct Spec {
    pub kind: u8,
    pub hdr: [u8; 32],
    pub group: [u8; 32],
    pub domain: [u8; 16],
    pub stamp: u64,
    pub links: Vec<RLink>,
    pub comps: Vec<Vec<u8>>,
    pub data: Vec<u8>,
    pub key: usize,
}
pub fn keys() -> &'static [(SigningKey, [u8; 32])] {
    static K: std::sync::OnceLock<Vec<(SigningKey, [u8; 32])>> = std::sync::OnceLock::new();
    K.get_or_init(|| {
        [[1u8; 32], [0x5a; 32], [9; 32]]
            .into_iter()
            .map(|b| {
                let k = SigningKey::try_from(b).expect("key");
                let p = k.pubkey_bytes();
                (k, p)
            })
            .collect()
    })
}
pub fn rspace(comps: &[Vec<u8>]) -> Vec<u8> {
    if comps.is_empty() {
        return vec![];
    }
    let mut body = vec![];
    let mut head = vec![comps.len() as u8];
    for i in 0..8 {
        if let Some(c) = comps.get(i) {
            body.push(c.len() as u8);
            body.extend(c);
        }
        if i < 7 {
            head.push(body.len() as u8)
        }
    }
    head.extend(body);
    head
}
pub fn sp(comps: &[Vec<u8>]) -> Vec<u8> {
    comps.iter().flat_map(|c| std::iter::once(c.len() as u8).chain(c.iter().copied())).collect()
}
fn pad8(v: &mut Vec<u8>) {
    while v.len() % 8 != 0 {
        v.push(255)
    }
}
impl Spec {
    pub fn usize_(&self) -> usize {
        let l = if self.kind & 2 == 0 { 0 } else { 60 + 48 * self.links.len() + rspace(&self.comps).len() };
        4 + l + self.data.len() + if self.kind == KEY { 96 } else { 0 }
    }
    pub fn fits(&self) -> bool {
        self.usize_() <= MAX_POINT
    }
    /// the point as it lies in memory and on the wire
    pub fn point(&self) -> Vec<u8> {
        let n = self.usize_();
        let mut v = vec![0, self.kind, (n >> 8) as u8, n as u8];
        if self.kind & 2 != 0 {
            let rs = rspace(&self.comps);
            let a = 64 + 48 * self.links.len();
            let b = a + rs.len();
            v.extend([(a >> 8) as u8, a as u8, (b >> 8) as u8, b as u8]);
            v.extend(self.stamp.to_be_bytes());
            v.extend(self.group);
            v.extend(self.domain);
            for (t, p) in &self.links {
                v.extend(t);
                v.extend(p);
            }
            v.extend(rs);
        }
        v.extend(&self.data);
        pad8(&mut v);
        if self.kind == KEY {
            let h: [u8; 32] = blake3::hash(&v).into();
            let (k, p) = &keys()[self.key];
            let s = sign_hash(k, &h);
            v.extend(p);
            v.extend(s);
        }
        v
    }
    pub fn bytes(&self) -> Vec<u8> {
        let p = self.point();
        let mut v = self.hdr.to_vec();
        v.extend(blake3::hash(&p).as_bytes());
        v.extend(p);
        v
    }
}
/// What a reader must make of some bytes
#[derive(Clone, Debug, PartialEq)]
pub struct Parsed {
    pub size: usize,
    pub kind: u8,
    pub hdr: [u8; 32],
    pub hash: [u8; 32],
    pub lp: Option<(u64, [u8; 32], [u8; 16])>,
    pub links: Vec<RLink>,
    pub rspace: Vec<u8>,
    pub comps: Vec<Vec<u8>>,
    pub data: Vec<u8>,
    pub pad: usize,
    pub signed: Option<([u8; 32], [u8; 64])>,
    pub point: Vec<u8>,
}
pub fn parse_space(mut b: &[u8]) -> Option<Vec<Vec<u8>>> {
    if b.len() > 242 {
        return None;
    }
    let mut v = vec![];
    while let [n, rest @ ..] = b {
        let n = *n as usize;
        if n == 0 || n > 200 || rest.len() < n {
            return None;
        }
        v.push(rest[..n].to_vec());
        b = &rest[n..];
    }
    (v.len() <= 8).then_some(v)
}
pub fn parse_rspace(b: &[u8]) -> Option<Vec<Vec<u8>>> {
    if b.is_empty() {
        return Some(vec![]);
    }
    if b.len() < 8 {
        return None;
    }
    let comps = parse_space(&b[8..])?;
    let mut want = rspace(&comps);
    if comps.is_empty() {
        want = vec![0; 8]
    }
    (want == b).then_some(comps)
}
fn arr<const N: usize>(b: &[u8]) -> [u8; N] {
    b[..N].try_into().unwrap()
}
/// structure only; see `authentic`
pub fn parse(b: &[u8]) -> Result<Parsed, &'static str> {
    if b.len() < 68 {
        return Err("short");
    }
    let n = (b[66] as usize) << 8 | b[67] as usize;
    let kind = b[65];
    if b[64] != 0 {
        return Err("reserved");
    }
    if ![DATA, LINK, KEY, ERR].contains(&kind) {
        return Err("kind");
    }
    let min = 4 + match kind {
        LINK => 60,
        KEY => 156,
        _ => 0,
    };
    if n > MAX_POINT || n < min {
        return Err("length");
    }
    let padded = (n + 7) / 8 * 8;
    if 64 + padded > b.len() {
        return Err("missing");
    }
    let p = &b[64..64 + padded];
    let sig = if kind == KEY { 96 } else { 0 };
    let end = n - sig;
    let mut out = Parsed {
        size: 64 + padded,
        kind,
        hdr: arr(b),
        hash: arr(&b[32..]),
        lp: None,
        links: vec![],
        rspace: vec![],
        comps: vec![],
        data: p[4..].to_vec(),
        pad: padded - n,
        signed: None,
        point: p.to_vec(),
    };
    if p[end..padded - sig].iter().any(|x| *x != 255) {
        return Err("padding");
    }
    let mut from = 4;
    if kind & 2 != 0 {
        let o1 = (p[4] as usize) << 8 | p[5] as usize;
        let o2 = (p[6] as usize) << 8 | p[7] as usize;
        if o1 < 64 || o2 < o1 || end < o2 || (o1 - 64) % 48 != 0 {
            return Err("offset");
        }
        out.lp = Some((u64::from_be_bytes(arr(&p[8..])), arr(&p[16..]), arr(&p[48..])));
        out.links = p[64..o1].chunks(48).map(|c| (arr(c), arr(&c[16..]))).collect();
        out.rspace = p[o1..o2].to_vec();
        out.comps = parse_rspace(&out.rspace).ok_or("space")?;
        from = o2;
    }
    out.data = p[from..end].to_vec();
    if kind == KEY {
        let s = &p[padded - 96..];
        out.signed = Some((arr(s), arr(&s[32..])));
    }
    Ok(out)
}
impl Parsed {
    pub fn hash_ok(&self) -> bool {
        blake3::hash(&self.point).as_bytes() == &self.hash
    }
    pub fn sig_ok(&self) -> bool {
        let Some((k, s)) = &self.signed else { return true };
        let h: [u8; 32] = blake3::hash(&self.point[..self.point.len() - 96]).into();
        crate::refcurve::verify(k, s, &h)
    }
}
// ---- generators
pub fn comp(r: &mut Rng) -> Vec<u8> {
    let mut v = vmlib::gen::bytes(r, *r.clone().pick(&[4, 8, 16, 20, 32, 33, 60, 200]));
    match r.below(8) {
        0 => v = r.bytes(16),
        1 => v = r.bytes(32),
        2 => v = (0..r.range(1, 6)).map(|_| b'a' + r.below(4) as u8).collect(),
        3 => {
            v = vec![0; 16];
            let n = r.range(8, 16);
            let b = vmlib::gen::bytes(r, 16);
            for (d, s) in v[16 - n.min(16)..].iter_mut().zip(b) {
                *d = s
            }
        }
        _ => {}
    }
    if v.is_empty() {
        v.push(r.u8())
    }
    v.truncate(200);
    v
}
pub fn comps(r: &mut Rng) -> Vec<Vec<u8>> {
    let n = *r.pick(&[0, 0, 1, 1, 2, 2, 3, 4, 7, 8, 8]);
    let mut v: Vec<Vec<u8>> = vec![];
    for _ in 0..n {
        let mut c = comp(r);
        let left = 242 - sp(&v).len();
        if left < 2 {
            break;
        }
        if c.len() > left - 1 {
            c.truncate(left - 1)
        }
        v.push(c)
    }
    v
}
pub fn a16(r: &mut Rng) -> [u8; 16] {
    match r.below(6) {
        0 => [0; 16],
        1 => r.array(),
        2 => [255; 16],
        _ => {
            let mut a = [0; 16];
            let n = r.range(1, 16);
            for x in &mut a[16 - n..] {
                *x = if r.chance(1, 12) { r.u8() } else { b'a' + r.below(6) as u8 }
            }
            a
        }
    }
}
pub fn a32(r: &mut Rng) -> [u8; 32] {
    match r.below(8) {
        0 => [0; 32],
        1 => [255; 32],
        2 => PUBLIC,
        3 => keys()[r.usize(3)].1,
        4 => {
            let mut a = [0; 32];
            a[31] = r.u8();
            a
        }
        _ => r.array(),
    }
}
pub fn hdr(r: &mut Rng) -> [u8; 32] {
    match r.below(4) {
        0 => linkspace_pkt::NetPktHeader::EMPTY.cinto(),
        1 => {
            let mut h = linkspace_pkt::NetPktHeader::EMPTY.cinto();
            let i = 3 + r.usize(29);
            h[i] = r.u8();
            h[3] &= 0x8f;
            h
        }
        _ => {
            let mut h: [u8; 32] = r.array();
            h[..3].copy_from_slice(b"LK1");
            h[3] &= 0x8f;
            h
        }
    }
}
pub fn spec(r: &mut Rng) -> Spec {
    let kind = *r.pick(&[DATA, LINK, LINK, LINK, KEY, KEY, ERR]);
    let nl = match r.below(12) {
        0..=4 => 0,
        5..=9 => r.range(1, 4),
        10 => r.usize(40),
        _ => {
            if r.chance(1, 6) {
                r.range(1200, 1360)
            } else {
                1
            }
        }
    };
    let pool: Vec<[u8; 16]> = (0..3).map(|_| a16(r)).collect();
    let links = (0..nl).map(|_| (if r.bool() { *r.pick(&pool) } else { a16(r) }, a32(r))).collect();
    let mut s = Spec { kind, hdr: hdr(r), group: a32(r), domain: a16(r), stamp: vmlib::gen::u64b(r), links, comps: comps(r), data: vec![], key: r.usize(3) };
    if kind & 2 == 0 {
        s.links.clear();
        s.comps.clear();
        s.group = [0; 32];
        s.domain = [0; 16];
        s.stamp = 0;
    }
    s.data = match r.below(16) {
        0..=10 => vmlib::gen::bytes(r, 80),
        11 => vmlib::gen::bytes(r, 4000),
        12 => b"text <b>&amp; \n[x]/:\\".to_vec(),
        _ => {
            if r.chance(1, 5) {
                // around the maximum
                let free = MAX_POINT as isize - s.usize_() as isize + r.range(0, 12) as isize - 9;
                vec![r.u8(); free.clamp(0, 65600) as usize]
            } else {
                vec![]
            }
        }
    };
    s
}
/// like `spec`, but always within the size limit
pub fn spec_ok(r: &mut Rng) -> Spec {
    loop {
        let s = spec(r);
        if s.fits() {
            return s;
        }
    }
}
