//! BIP340 signing and verification over secp256k1, written from the specification (slow, not
//! constant time): the reference for C01.
use linkspace_cryptography::k256::sha2::{Digest, Sha256};
pub type U = [u64; 4];
const C: u64 = 0x1_0000_03D1;
pub const P: U = [0xFFFFFFFEFFFFFC2F, !0, !0, !0];
pub const N: U = [0xBFD25E8CD0364141, 0xBAAEDCE6AF48A03B, 0xFFFFFFFFFFFFFFFE, 0xFFFFFFFFFFFFFFFF];
const GX: U = [0x59F2815B16F81798, 0x029BFCDB2DCE28D9, 0x55A06295CE870B07, 0x79BE667EF9DCBBAC];
const GY: U = [0x9C47D08FFB10D4B8, 0xFD17B448A6855419, 0x5DA4FBFC0E1108A8, 0x483ADA7726A3C465];
pub fn from_be(b: &[u8]) -> U {
    std::array::from_fn(|i| u64::from_be_bytes(b[24 - 8 * i..32 - 8 * i].try_into().unwrap()))
}
pub fn to_be(u: U) -> [u8; 32] {
    let mut o = [0; 32];
    for i in 0..4 {
        o[24 - 8 * i..32 - 8 * i].copy_from_slice(&u[i].to_be_bytes())
    }
    o
}
pub fn lt(a: &U, b: &U) -> bool {
    (0..4).rev().map(|i| a[i].cmp(&b[i])).find(|o| o.is_ne()) == Some(std::cmp::Ordering::Less)
}
pub fn zero(a: &U) -> bool {
    *a == [0; 4]
}
fn add_c(a: U, b: U) -> (U, bool) {
    let mut o = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        c += a[i] as u128 + b[i] as u128;
        o[i] = c as u64;
        c >>= 64;
    }
    (o, c != 0)
}
pub fn sub_b(a: U, b: U) -> U {
    let mut o = [0; 4];
    let mut br = false;
    for i in 0..4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (x, b2) = x.overflowing_sub(br as u64);
        o[i] = x;
        br = b1 | b2;
    }
    o
}
pub fn addm(a: U, b: U, m: &U) -> U {
    let (s, c) = add_c(a, b);
    if c || !lt(&s, m) {
        sub_b(s, *m)
    } else {
        s
    }
}
fn subm(a: U, b: U, m: &U) -> U {
    if lt(&a, &b) {
        sub_b(add_c(a, *m).0, b)
    } else {
        sub_b(a, b)
    }
}
fn mul(a: &U, b: &U) -> U {
    let mut w = [0u64; 8];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            c += w[i + j] as u128 + a[i] as u128 * b[j] as u128;
            w[i + j] = c as u64;
            c >>= 64;
        }
        w[i + 4] = c as u64;
    }
    // 2^256 = C mod p, twice
    let mut r = [w[0], w[1], w[2], w[3]];
    let mut c = 0u128;
    for i in 0..4 {
        c += r[i] as u128 + w[i + 4] as u128 * C as u128;
        r[i] = c as u64;
        c >>= 64;
    }
    let mut k = c * C as u128;
    let mut carry = 0u128;
    for x in r.iter_mut() {
        carry += *x as u128 + (k as u64) as u128;
        *x = carry as u64;
        carry >>= 64;
        k >>= 64;
    }
    if carry != 0 {
        r = add_c(r, [C, 0, 0, 0]).0
    }
    if !lt(&r, &P) {
        r = sub_b(r, P)
    }
    r
}
fn pow(a: &U, e: &U) -> U {
    let mut r = [1, 0, 0, 0];
    for i in (0..256).rev() {
        r = mul(&r, &r);
        if e[i / 64] >> (i % 64) & 1 == 1 {
            r = mul(&r, a)
        }
    }
    r
}
/// product mod n by double and add
fn mulm(a: U, b: U, m: &U) -> U {
    let mut r = [0; 4];
    for i in (0..256).rev() {
        r = addm(r, r, m);
        if b[i / 64] >> (i % 64) & 1 == 1 {
            r = addm(r, a, m)
        }
    }
    r
}
/// Jacobian; None: identity
type J = Option<(U, U, U)>;
fn dbl(p: J) -> J {
    let (x, y, z) = p?;
    if zero(&y) {
        return None;
    }
    let a = mul(&x, &x);
    let b = mul(&y, &y);
    let c = mul(&b, &b);
    let t = addm(x, b, &P);
    let d = subm(subm(mul(&t, &t), a, &P), c, &P);
    let d = addm(d, d, &P);
    let e = addm(addm(a, a, &P), a, &P);
    let f = mul(&e, &e);
    let x3 = subm(f, addm(d, d, &P), &P);
    let c8 = { let c2 = addm(c, c, &P); let c4 = addm(c2, c2, &P); addm(c4, c4, &P) };
    let y3 = subm(mul(&e, &subm(d, x3, &P)), c8, &P);
    let z3 = mul(&y, &z);
    Some((x3, y3, addm(z3, z3, &P)))
}
fn add(p: J, q: J) -> J {
    let (Some((x1, y1, z1)), Some((x2, y2, z2))) = (p, q) else { return p.or(q) };
    let z1z1 = mul(&z1, &z1);
    let z2z2 = mul(&z2, &z2);
    let u1 = mul(&x1, &z2z2);
    let u2 = mul(&x2, &z1z1);
    let s1 = mul(&y1, &mul(&z2, &z2z2));
    let s2 = mul(&y2, &mul(&z1, &z1z1));
    if u1 == u2 {
        return if s1 == s2 { dbl(p) } else { None };
    }
    let h = subm(u2, u1, &P);
    let r = subm(s2, s1, &P);
    let h2 = mul(&h, &h);
    let h3 = mul(&h, &h2);
    let v = mul(&u1, &h2);
    let x3 = subm(subm(mul(&r, &r), h3, &P), addm(v, v, &P), &P);
    let y3 = subm(mul(&r, &subm(v, x3, &P)), mul(&s1, &h3), &P);
    Some((x3, y3, mul(&mul(&h, &z1), &z2)))
}
fn smul(k: &U, p: J) -> J {
    let mut r = None;
    for i in (0..256).rev() {
        r = dbl(r);
        if k[i / 64] >> (i % 64) & 1 == 1 {
            r = add(r, p)
        }
    }
    r
}
fn affine(p: J) -> Option<(U, U)> {
    let (x, y, z) = p?;
    let zi = pow(&z, &sub_b(P, [2, 0, 0, 0]));
    let z2 = mul(&zi, &zi);
    Some((mul(&x, &z2), mul(&y, &mul(&zi, &z2))))
}
const G: J = Some((GX, GY, [1, 0, 0, 0]));
pub fn lift_x(x: U) -> Option<(U, U)> {
    if !lt(&x, &P) {
        return None;
    }
    let y2 = addm(mul(&x, &mul(&x, &x)), [7, 0, 0, 0], &P);
    // (p+1)/4
    let e = [0xFFFFFFFFBFFFFF0C, !0, !0, 0x3FFFFFFFFFFFFFFF];
    let y = pow(&y2, &e);
    if mul(&y, &y) != y2 {
        return None;
    }
    Some((x, if y[0] & 1 == 1 { subm([0; 4], y, &P) } else { y }))
}
fn tagged(tag: &str, parts: &[&[u8]]) -> [u8; 32] {
    let t = Sha256::digest(tag.as_bytes());
    let mut h = Sha256::new();
    h.update(t);
    h.update(t);
    for p in parts {
        h.update(p)
    }
    h.finalize().into()
}
fn modn(b: &[u8; 32]) -> U {
    let v = from_be(b);
    if lt(&v, &N) {
        v
    } else {
        sub_b(v, N)
    }
}
/// x coordinate of the public key, None if the secret is not a valid one
pub fn pubkey(sk: &[u8; 32]) -> Option<[u8; 32]> {
    let d = from_be(sk);
    if zero(&d) || !lt(&d, &N) {
        return None;
    }
    Some(to_be(affine(smul(&d, G)).unwrap().0))
}
pub fn verify(pk: &[u8; 32], sig: &[u8; 64], msg: &[u8]) -> bool {
    let Some((px, py)) = lift_x(from_be(pk)) else { return false };
    let (r, s) = (from_be(&sig[..32]), from_be(&sig[32..]));
    if !lt(&r, &P) || !lt(&s, &N) {
        return false;
    }
    let e = modn(&tagged("BIP0340/challenge", &[&sig[..32], pk, msg]));
    let ne = subm([0; 4], e, &N);
    match affine(add(smul(&s, G), smul(&ne, Some((px, py, [1, 0, 0, 0]))))) {
        Some((x, y)) => y[0] & 1 == 0 && x == r,
        None => false,
    }
}
pub fn sign(sk: &[u8; 32], msg: &[u8]) -> [u8; 64] {
    let (px, py) = affine(smul(&from_be(sk), G)).unwrap();
    let d = from_be(sk);
    let d = if py[0] & 1 == 1 { sub_b(N, d) } else { d };
    let a = tagged("BIP0340/aux", &[&[0; 32]]);
    let db = to_be(d);
    let t: Vec<u8> = (0..32).map(|i| db[i] ^ a[i]).collect();
    let k = modn(&tagged("BIP0340/nonce", &[&t, &to_be(px), msg]));
    let (rx, ry) = affine(smul(&k, G)).unwrap();
    let k = if ry[0] & 1 == 1 { sub_b(N, k) } else { k };
    let e = modn(&tagged("BIP0340/challenge", &[&to_be(rx), &to_be(px), msg]));
    let s = addm(k, mulm(e, d, &N), &N);
    let mut o = [0; 64];
    o[..32].copy_from_slice(&to_be(rx));
    o[32..].copy_from_slice(&to_be(s));
    o
}
