//! value generators that prefer boundaries
use crate::Rng;

/// byte strings with a mix of profiles: random, text, repeated, leading/trailing 00/ff, specials
pub fn bytes(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = r.len(max);
    let mut v = match r.below(8) {
        0 => r.bytes(n),
        1 => (0..n).map(|_| b'a' + r.u8() % 26).collect(),
        2 => (0..n).map(|_| *r.pick(b"\0\xff\n\t\r\\/:[]af0x1 ~\x7f\x80\x1f\x1b")).collect(),
        3 => {
            let b = r.u8();
            vec![b; n]
        }
        4 => (0..n).map(|_| 0x20 + r.u8() % 0x5f).collect(),
        5 => (0..n).map(|_| *r.pick(b"\x00\x01\xff")).collect(),
        6 => (0..n).map(|_| b'0' + r.u8() % 10).collect(),
        _ => (0..n).map(|_| *r.pick(b"abcABC019-_+/=")).collect(),
    };
    match r.below(6) {
        0 => {
            let k = r.usize(5).min(v.len());
            for x in &mut v[..k] {
                *x = 0
            }
        }
        1 => {
            let k = r.usize(5).min(v.len());
            for x in &mut v[..k] {
                *x = 0xff
            }
        }
        2 => {
            let k = r.usize(5).min(v.len());
            let l = v.len();
            for x in &mut v[l - k..] {
                *x = 0
            }
        }
        _ => {}
    }
    v
}
pub fn u128b(r: &mut Rng) -> u128 {
    let base = match r.below(6) {
        0 => r.below(4) as u128,
        1 => 1u128 << r.below(128),
        2 => (1u128 << r.below(128)).wrapping_sub(1),
        3 => ((r.next() as u128) << 64) | r.next() as u128,
        4 => u128::MAX - r.below(4) as u128,
        _ => r.next() as u128 >> r.below(64),
    };
    match r.below(4) {
        0 => base.wrapping_add(1),
        1 => base.wrapping_sub(1),
        _ => base,
    }
}
pub fn u64b(r: &mut Rng) -> u64 {
    match r.below(7) {
        0 => r.below(5),
        1 => 1u64 << r.below(64),
        2 => (1u64 << r.below(64)) - 1,
        3 => r.next(),
        4 => u64::MAX - r.below(4),
        5 => r.next() >> r.below(64),
        _ => (1u64 << r.below(64)).wrapping_add(r.below(3)),
    }
}
/// mutate bytes: flips, inserts, deletes, truncation, duplication
pub fn mutate(r: &mut Rng, v: &mut Vec<u8>, alphabet: &[u8]) {
    for _ in 0..1 + r.usize(3) {
        let l = v.len();
        match r.below(7) {
            0 if l > 0 => {
                let i = r.usize(l);
                v[i] ^= 1 << r.below(8)
            }
            1 if l > 0 => {
                let i = r.usize(l);
                v[i] = *r.pick(alphabet)
            }
            2 => {
                let i = r.usize(l + 1);
                let b = *r.pick(alphabet);
                v.insert(i, b)
            }
            3 if l > 0 => {
                let i = r.usize(l);
                v.remove(i);
            }
            4 if l > 0 => {
                let i = r.usize(l);
                v.truncate(i)
            }
            5 if l > 0 => {
                let i = r.usize(l);
                let j = i + r.usize((l - i).min(8) + 1);
                let part = v[i..j.min(l)].to_vec();
                let at = r.usize(l + 1);
                v.splice(at..at, part);
            }
            _ if l > 1 => {
                let i = r.usize(l);
                let j = r.usize(l);
                v.swap(i, j)
            }
            _ => {}
        }
    }
}
