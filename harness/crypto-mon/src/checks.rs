//! C01 keys and signatures, C02 segment hashing, C03 password protected keys
use crate::refcurve as rc;
use linkspace_argon2_identity as id;
use linkspace_cryptography::*;
use vmlib::*;

fn secret(r: &mut Rng) -> [u8; 32] {
    match r.below(8) {
        0 => {
            let mut s = [0; 32];
            s[31] = 1 + r.below(4) as u8;
            s
        }
        1 => rc::to_be(rc::sub_b(rc::N, [1 + r.below(4), 0, 0, 0])),
        2 => {
            let mut s = [0; 32];
            s[31 - r.usize(32)] = 1 << r.below(8);
            if s[0] == 0x80 || s[0] < 0x80 { s } else { r.array() }
        }
        _ => {
            let mut s: [u8; 32] = r.array();
            s[0] &= 0x7f;
            s[31] |= 1;
            s
        }
    }
}
fn hash32(r: &mut Rng) -> [u8; 32] {
    match r.below(5) {
        0 => [*r.pick(&[0, 255]); 32],
        1 => {
            let mut h = [0; 32];
            h[r.usize(32)] = 1;
            h
        }
        _ => r.array(),
    }
}
fn c01(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let s = secret(r);
    let h = hash32(r);
    let w = || format!("secret {} hash {}", show(&s), show(&h));
    let key = no_panic("key", &w, || SigningKey::try_from(s))?;
    let Ok(key) = key else { return viol("key-refused", w()) };
    let pk = key.pubkey_bytes();
    o.eval();
    ensure!(Some(pk) == rc::pubkey(&s), "pubkey", "{}: {}", w(), show(&pk));
    o.distinct((pk, h));
    let sig = no_panic("sign", &w, || sign_hash(&key, &h))?;
    ensure!(sig == sign_hash(&key, &h) && sig == sign_hash(&key.clone(), &h), "sign-nondeterministic", "{}", w());
    ensure!(sig[..] == rc::sign(&s, &h)[..], "sign-standard", "{}: {} is not the BIP340 signature", w(), show(&sig));
    ensure!(validate_signature(&pk, &sig, &h).is_ok(), "own-signature-refused", "{}", w());
    let dbg = format!("{key:?}");
    let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
    let hs = hex(&s);
    ensure!(s[0] < 2 || (!dbg.to_lowercase().contains(&hs[..16]) && !dbg.to_lowercase().contains(&hs[48..])), "debug-secret", "{}: {dbg}", w());
    let decs = format!("{:?}", &s[..]);
    ensure!(s[0] < 2 || !dbg.contains(decs.trim_matches(|c| c == '[' || c == ']')), "debug-secret", "{}: {dbg}", w());
    // any change makes it invalid
    for what in 0..3 {
        let (mut p2, mut s2, mut h2) = (pk, sig, h);
        match what {
            0 => p2[r.usize(32)] ^= 1 << r.below(8),
            1 => s2[r.usize(64)] ^= 1 << r.below(8),
            _ => h2[r.usize(32)] ^= 1 << r.below(8),
        }
        o.eval();
        let got = no_panic("verify", &w, || validate_signature(&p2, &s2, &h2).is_ok())?;
        ensure!(!got, "forged-accepted", "{}: pubkey {} signature {} hash {}", w(), show(&p2), show(&s2), show(&h2));
        o.count("tampered_refused");
    }
    Ok(())
}
/// every single bit of one signed hash
fn c01_bits(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let s = secret(r);
    let h = hash32(r);
    let key = SigningKey::try_from(s).map_err(|e| Viol { sig: "key-refused".into(), msg: format!("{} {e:?}", show(&s)) })?;
    let (pk, sig) = (key.pubkey_bytes(), sign_hash(&key, &h));
    o.distinct((pk, h));
    for bit in 0..8 * 128 {
        let (mut p2, mut s2, mut h2) = (pk, sig, h);
        match bit / 256 {
            0 => p2[bit / 8] ^= 1 << (bit % 8),
            1 | 2 => s2[bit / 8 - 32] ^= 1 << (bit % 8),
            _ => h2[bit / 8 - 96] ^= 1 << (bit % 8),
        }
        o.eval();
        ensure!(validate_signature(&p2, &s2, &h2).is_err(), "forged-accepted", "secret {} hash {}: bit {bit} of pubkey|signature|hash flipped", show(&s), show(&h));
        o.count("bit_flips_refused");
    }
    Ok(())
}
/// arbitrary keys and signatures against the reference verifier
fn c01_any(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    // signing keys
    let mut s = secret(r);
    match r.below(6) {
        0 => s = [0; 32],
        1 => s = rc::to_be(rc::N),
        2 => s = rc::to_be(rc::addm(rc::N, [r.below(3), 0, 0, 0], &[!0; 4])),
        3 => s = [255; 32],
        _ => {}
    }
    let key = no_panic("key", &|| show(&s), || SigningKey::try_from(s))?;
    ensure!(key.is_ok() == rc::pubkey(&s).is_some(), "key-range", "secret {}: {:?}", show(&s), key.is_ok());
    if let Ok(k) = &key {
        ensure!(Some(k.pubkey_bytes()) == rc::pubkey(&s), "pubkey", "secret {}", show(&s));
    } else {
        o.count("key_refused");
    }
    // signatures
    let sk = secret(r);
    let h = hash32(r);
    let mut pk = rc::pubkey(&sk).unwrap();
    let mut sig = rc::sign(&sk, &h);
    let n_minus = |b: &[u8]| rc::to_be(rc::sub_b(rc::N, rc::from_be(b)));
    match r.below(12) {
        0 => sig = r.array(),
        1 => pk = r.array(),
        2 => {
            let x = n_minus(&sig[32..]);
            sig[32..].copy_from_slice(&x)
        }
        3 => sig[32..].copy_from_slice(&rc::to_be(rc::N)),
        4 => sig[..32].copy_from_slice(&rc::to_be(rc::P)),
        5 => sig = [0; 64],
        6 => pk = *r.pick(&[[0; 32], [255; 32], rc::to_be(rc::P)]),
        7 => sig[..32].fill(0),
        8 => sig[32..].fill(0),
        9 => {
            let (a, b) = sig.split_at_mut(32);
            a.swap_with_slice(b)
        }
        _ => {}
    }
    let w = || format!("pubkey {} signature {} hash {}", show(&pk), show(&sig), show(&h));
    let want = rc::verify(&pk, &sig, &h);
    let got = no_panic("verify", &w, || validate_signature(&pk, &sig, &h))?;
    ensure!(got.is_ok() == want, "verify-differs", "{}: {got:?} reference {want}", w());
    o.count(if want { "valid" } else { "invalid" });
    o.distinct((pk, &sig[..], h));
    // another key does not verify
    let other = keygen(r);
    let op = other.pubkey_bytes();
    if op != pk && want {
        ensure!(validate_signature(&op, &sig, &h).is_err(), "forged-accepted", "{}: also valid for {}", w(), show(&op));
    }
    Ok(())
}
fn keygen(r: &mut Rng) -> SigningKey {
    loop {
        if let Ok(k) = SigningKey::try_from(r.array()) {
            return k;
        }
    }
}
/// fresh keys differ and are usable
fn c01_gen(_r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let mut seen = std::collections::HashSet::new();
    for _ in 0..8 {
        let k = SigningKey::generate();
        let pk = k.pubkey_bytes();
        let b: [u8; 32] = k.0.to_bytes().into();
        ensure!(rc::pubkey(&b) == Some(pk), "generate", "a generated key has the wrong public key");
        ensure!(seen.insert(pk), "generate-repeats", "generated the same key twice: {}", show(&pk));
        ensure!(SigningKey::try_from(b).map(|k| k.pubkey_bytes()).ok() == Some(pk), "generate", "secret of a generated key does not load");
        let s = sign_hash(&k, &pk);
        ensure!(validate_signature(&pk, &s, &pk).is_ok(), "generate", "a generated key does not verify");
        o.distinct(pk);
        o.count("generated");
    }
    let t = public_testkey();
    ensure!(rc::pubkey(&TEST_SECRET) == Some(t.pubkey_bytes()), "testkey", "public_testkey");
    Ok(())
}
pub static C01: Prop = Prop {
    id: "C01",
    stages: &[
        Stage { name: "sign", quick: 12_000, thorough: 100_000, run: c01 },
        Stage { name: "any", quick: 12_000, thorough: 100_000, run: c01_any },
        Stage { name: "bits", quick: 24, thorough: 600, run: c01_bits },
        Stage { name: "generate", quick: 40, thorough: 1000, run: c01_gen },
    ],
    rule: "secrets (boundary values, sparse, random) and hashes signed and verified; the signature must be the BIP340 one of an independent implementation, verify under its own key and hash and under nothing else (each of the 1024 bits flipped for some, random flips for all); arbitrary, swapped and out-of-range keys and signatures compared with an independent verifier. Non-trivial: distinct (public key, signature or hash).",
    assumptions: &["sha2 (a dependency) computes SHA-256"],
    floors: &["tampered_refused", "bit_flips_refused", "valid", "invalid", "key_refused", "generated"],
    opts: OPTS,
};

const BLAKE3: &[(usize, &str)] = &[
    // official test vectors: input byte i = i % 251
    (0, "af1349b9f5f9a1a6a0404dea36dcc9499bcb25c9adc112b7cc9a93cae41f3262"),
    (1, "2d3adedff11b61f14c886e35afa036736dcd87a74d27b5c1510225d0f592e213"),
];
fn c02(r: &mut Rng, i: u64, o: &mut Obs) -> Res {
    o.eval();
    let pat = |n: usize| (0..n).map(|i| (i % 251) as u8).collect::<Vec<u8>>();
    if i < BLAKE3.len() as u64 {
        let (n, h) = BLAKE3[i as usize];
        let got: String = hash_segments(&[&pat(n)]).iter().map(|x| format!("{x:02x}")).collect();
        ensure!(got == h, "vector", "hash of the {n} byte vector is {got}");
    }
    let mut big = vec![];
    let max = *r.pick(&[4, 40, 200, 2000, 70000]);
    let n = r.usize(7);
    let mut segs: Vec<Vec<u8>> = vec![];
    for _ in 0..n {
        let x = r.usize(max);
        let l = *r.pick(&[0, 1, 31, 32, 63, 64, 65, 1023, 1024, 1025, x]);
        let l = l.min(max);
        segs.push(if r.bool() { r.bytes(l) } else { vec![r.u8(); l] });
    }
    for s in &segs {
        big.extend(s)
    }
    let refs: Vec<&[u8]> = segs.iter().map(|x| &x[..]).collect();
    let h = hash_segments(&refs);
    o.distinct(h);
    let w = || format!("{} segments {:?}: {}", n, segs.iter().map(|x| x.len()).collect::<Vec<_>>(), show(&big));
    ensure!(h == *blake3_hash(&big).as_bytes(), "concat", "{}: differs from the hash of the concatenation", w());
    ensure!(h == hash_segments(&[&big]), "one-segment", "{}", w());
    // any other segmentation
    let mut cuts: Vec<usize> = (0..r.usize(5)).map(|_| r.usize(big.len() + 1)).collect();
    cuts.extend([0, big.len()]);
    cuts.sort();
    let again: Vec<&[u8]> = cuts.windows(2).map(|c| &big[c[0]..c[1]]).collect();
    ensure!(h == hash_segments(&again), "segmentation", "{} cut at {cuts:?}", w());
    // any change of the bytes changes it
    if !big.is_empty() {
        let mut b2 = big.clone();
        match r.below(4) {
            0 => {
                let at = r.usize(b2.len());
                b2[at] ^= 1 << r.below(8)
            }
            1 => b2.push(0),
            2 => {
                b2.pop();
            }
            _ => b2.insert(0, 0),
        }
        o.count("changed");
        ensure!(hash_segments(&[&b2]) != h, "collision", "{}: and {}", w(), show(&b2));
    }
    o.max("bytes", big.len() as u64);
    Ok(())
}
pub static C02: Prop = Prop {
    id: "C02",
    stages: &[Stage { name: "hash", quick: 900_000, thorough: 8_000_000, run: c02 }],
    rule: "0-6 segments of 0-70000 bytes (block and chunk boundaries of the hash, empty segments): the digest is the BLAKE3 digest of the concatenation, whatever the segmentation, and changes with every tried change of the bytes; two published vectors. Non-trivial: distinct digest.",
    assumptions: &["the blake3 dependency implements BLAKE3 on contiguous input"],
    floors: &["changed"],
    opts: OPTS,
};

fn std64(b: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..=c.len() {
            o.push(T[(v >> (18 - 6 * k)) as usize & 63] as char)
        }
    }
    o
}
fn un64(s: &str) -> Option<Vec<u8>> {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let (mut acc, mut bits, mut o) = (0u32, 0, vec![]);
    if s.len() % 4 == 1 {
        return None;
    }
    for c in s.bytes() {
        acc = acc << 6 | T.iter().position(|x| *x == c)? as u32;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            o.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    (acc == 0).then_some(o)
}
/// (m, t, p, salt, hash) of a well formed identity text
fn split(t: &str) -> Option<(u32, u32, u32, Vec<u8>, Vec<u8>)> {
    let mut it = t.strip_prefix("$argon2d$v=19$")?.split('$');
    let mut n = vec![];
    let o: Vec<&str> = it.next()?.split(',').collect();
    if o.len() != 3 {
        return None;
    }
    for (x, k) in o.iter().zip(["m", "t", "p"]) {
        let (a, b) = x.split_once('=')?;
        if a != k {
            return None;
        }
        n.push(b.parse::<u32>().ok()?);
    }
    let (s, h) = (un64(it.next()?)?, un64(it.next()?)?);
    it.next().is_none().then_some((n[0], n[1], n[2], s, h))
}
/// largest cost number in the text, so that a mutated text is not run with absurd costs
fn costs_bounded(t: &str) -> bool {
    t.split(|c: char| !c.is_ascii_digit()).all(|d| d.len() < 20 || t.len() > 300) && {
        let opts = t.strip_prefix("$argon2d$v=19$").and_then(|x| x.split('$').next()).unwrap_or("");
        opts.split(',').filter_map(|x| x.split_once('=')).filter_map(|x| x.1.parse::<u64>().ok()).all(|v| v <= 512)
    }
}
fn c03(r: &mut Rng, i: u64, o: &mut Obs) -> Res {
    let s = secret(r);
    let Ok(key) = SigningKey::try_from(s) else { return viol("key-refused", show(&s)) };
    // a loaded key may be the negated one (same public key)
    let s: [u8; 32] = key.0.to_bytes().into();
    let pk = key.pubkey_bytes();
    let pw = vmlib::gen::bytes(r, 40);
    let costs = match r.below(4) {
        0 => id::Costs { mem: 8 + r.below(60) as u32, times: 1 + r.below(3) as u32, parallelism: 1 },
        1 => id::Costs { mem: 64, times: 1, parallelism: 1 + r.below(4) as u32 },
        _ => id::INSECURE_COST,
    };
    let w = || format!("secret {} password {} m={} t={} p={}", show(&s), show(&pw), costs.mem, costs.times, costs.parallelism);
    let t = no_panic("encrypt", &w, || id::encrypt(&key, &pw, Some(costs)))?;
    o.eval();
    o.distinct(&t);
    o.sample(|| t.clone());
    let Some((m, tt, p, salt, x)) = split(&t) else { return viol("format", format!("{}: {t}", w())) };
    ensure!((m, tt, p) == (costs.mem, costs.times, costs.parallelism), "format", "{}: costs in {t}", w());
    ensure!(salt == pk && x.len() == 32, "format", "{}: salt in {t}", w());
    ensure!(t == format!("$argon2d$v=19$m={m},t={tt},p={p}${}${}", std64(&pk), std64(&x)), "format", "{}: {t}", w());
    ensure!(x != s && (s[0] < 2 || !t.contains(&std64(&s)[..])), "secret-leak", "{}: {t}", w());
    ensure!(id::encrypt(&key, &pw, Some(costs)) == t, "nondeterministic", "{}", w());
    let got = no_panic("pubkey", &w, || id::pubkey(&t))?;
    ensure!(matches!(got, Ok(k) if k == pk), "pubkey", "{}: pubkey of {t}", w());
    let back = no_panic("decrypt", &w, || id::decrypt(&t, &pw))?;
    match back {
        Ok(k) => ensure!(k.0.to_bytes()[..] == s[..], "roundtrip", "{}: another secret", w()),
        Err(e) => return viol("roundtrip", format!("{}: {e:?}", w())),
    }
    // another password
    let mut pw2 = pw.clone();
    match r.below(5) {
        0 => pw2.push(0),
        1 => pw2.insert(0, b' '),
        2 if !pw2.is_empty() => {
            pw2.pop();
        }
        3 if !pw2.is_empty() => {
            let at = r.usize(pw2.len());
            pw2[at] ^= 1 << r.below(8)
        }
        _ => pw2.extend_from_slice(b"x"),
    }
    let got = no_panic("decrypt", &w, || id::decrypt(&t, &pw2))?;
    ensure!(matches!(got, Err(id::KeyError::WrongPassword)), "wrong-password", "{}: {t} with {}: {:?}", w(), show(&pw2), got.map(|k| k.pubkey_bytes()));
    o.count("wrong_password");
    let t2 = id::encrypt(&key, &pw2, Some(costs));
    ensure!(t2 != t && split(&t2).map(|x| x.3) == Some(salt.clone()), "password-ignored", "{}: {t} and {t2}", w());
    // exchanging the public key, the secret part or the costs never gives a key
    let mut x2 = x.clone();
    x2[r.usize(32)] ^= 1 << r.below(8);
    let mut s2 = salt.clone();
    s2[r.usize(32)] ^= 1 << r.below(8);
    let other = keygen(r).pubkey_bytes();
    for (what, f) in [
        ("secret", format!("$argon2d$v=19$m={m},t={tt},p={p}${}${}", std64(&salt), std64(&x2))),
        ("salt", format!("$argon2d$v=19$m={m},t={tt},p={p}${}${}", std64(&s2), std64(&x))),
        ("pubkey", format!("$argon2d$v=19$m={m},t={tt},p={p}${}${}", std64(&other), std64(&x))),
        ("costs", format!("$argon2d$v=19$m={},t={tt},p={p}${}${}", m + 8 * p, std64(&salt), std64(&x))),
        ("times", format!("$argon2d$v=19$m={m},t={},p={p}${}${}", tt + 1, std64(&salt), std64(&x))),
    ] {
        o.eval();
        let got = no_panic("decrypt", &|| f.clone(), || id::decrypt(&f, &pw))?;
        ensure!(matches!(got, Err(id::KeyError::WrongPassword)), "tampered", "{}: {what} of {t} changed to {f}: {:?}", w(), got.map(|k| k.pubkey_bytes()));
        o.count("tampered");
    }
    // malformed texts
    for _ in 0..6 {
        let mut f = t.clone().into_bytes();
        match r.below(7) {
            0 => vmlib::gen::mutate(r, &mut f, b"$=,mtpv19A+/ -\n"),
            1 => f = t.replace("argon2d", *r.pick(&["argon2i", "argon2id", "argon2", ""])).into_bytes(),
            2 => f = t.replace("v=19", *r.pick(&["v=16", "v=20", "v=", "19"])).into_bytes(),
            3 => f = format!("$argon2d$v=19$m={m},t={tt},p={p}${}${}", std64(&salt[..r.usize(32)]), std64(&x)).into_bytes(),
            4 => f = format!("$argon2d$v=19$m={m},t={tt},p={p}${}${}", std64(&salt), std64(&r.bytes([0, 16, 31, 33, 64][(i % 5) as usize]))).into_bytes(),
            5 => f = format!("$argon2d$v=19${}${}${}", r.pick(&["", "m=8", "t=1,m=8,p=1", "m=8,t=1", "m=8,t=1,p=x", "m=-8,t=1,p=1", "m=8,t=1,q=1"]), std64(&salt), std64(&x)).into_bytes(),
            _ => f = vmlib::gen::bytes(r, 60),
        }
        let Ok(f) = String::from_utf8(f) else { continue };
        if f == t || !costs_bounded(&f) {
            continue;
        }
        o.eval();
        let wf = || format!("identity {f:?} (from {t:?})");
        let pkf = no_panic("pubkey", &wf, || id::pubkey(&f))?;
        let got = no_panic("decrypt", &wf, || id::decrypt(&f, &pw))?;
        let same = |a: &(u32, u32, u32, Vec<u8>, Vec<u8>)| *a == (m, tt, p, salt.clone(), x.clone());
        match split(&f) {
            // the same identity written differently (e.g. m=+8)
            Some(a) if same(&a) => ensure!(got.is_ok() && matches!(pkf, Ok(k) if k == pk), "respelled", "{}", wf()),
            Some(a) => {
                ensure!(got.is_err(), "tampered", "{}: decrypts to {:?}", wf(), got.map(|k| k.pubkey_bytes()));
                ensure!(pkf.as_ref().ok().map(|x| x.to_vec()) == Some(a.3).filter(|s| s.len() == 32 && a.4.len() == 32), "pubkey", "{}: {pkf:?}", wf());
                o.count("changed");
            }
            None => {
                // trailing fields are not part of the format: whatever comes out, it is this identity
                let trailing = f.split('$').count() > 6 || f.split('$').nth(3).is_some_and(|x| x.matches(',').count() != 2);
                if trailing {
                    ensure!(got.as_ref().map_or(true, |k| k.pubkey_bytes() == pk), "tampered", "{}", wf());
                } else {
                    ensure!(matches!(got, Err(id::KeyError::BadData)) && matches!(pkf, Err(id::KeyError::BadData)), "malformed", "{}: {:?} {:?}", wf(), got.map(|k| k.pubkey_bytes()), pkf.map(|x| show(&x)));
                    o.count("malformed");
                }
            }
        }
    }
    Ok(())
}
fn c03_default(r: &mut Rng, i: u64, o: &mut Obs) -> Res {
    o.eval();
    if i == 0 {
        let k = id::decrypt(id::TEST_KEY_ID, b"");
        ensure!(matches!(&k, Ok(k) if k.0.to_bytes()[..] == TEST_SECRET[..]), "test-id", "TEST_KEY_ID");
        ensure!(matches!(id::pubkey(id::TEST_KEY_ID), Ok(p) if p == public_testkey().pubkey_bytes()), "test-id", "TEST_KEY_ID pubkey");
        o.distinct(0);
        return Ok(());
    }
    let k = keygen(r);
    let pw = vmlib::gen::bytes(r, 20);
    let t = id::encrypt(&k, &pw, None);
    ensure!(matches!(split(&t), Some((131072, 4, 4, s, _)) if s == k.pubkey_bytes()), "default-costs", "{t}");
    ensure!(matches!(id::decrypt(&t, &pw), Ok(x) if x.0.to_bytes() == k.0.to_bytes()), "default-costs", "{t} {}", show(&pw));
    ensure!(matches!(id::decrypt(&t, &[&pw[..], b"1"].concat()), Err(id::KeyError::WrongPassword)), "wrong-password", "{t} {}", show(&pw));
    o.distinct(&t);
    o.count("default_cost_keys");
    Ok(())
}
pub static C03: Prop = Prop {
    id: "C03",
    stages: &[
        Stage { name: "default", quick: 2, thorough: 40, run: c03_default },
        Stage { name: "identity", quick: 7_500, thorough: 120_000, run: c03 },
    ],
    rule: "secrets and passwords (empty, binary, long) encrypted with small and the default costs; the text has the documented fields, decrypts to the same secret with the same password only, names the right public key, and no tried change of password, costs, public key or secret part, and no malformed text, yields a key or a crash. Non-trivial: distinct identity text.",
    assumptions: &["texts asking for more memory than the machine has are not tried (costs up to 512 for changed texts)", "fields after the last documented one are left open"],
    floors: &["wrong_password", "tampered", "malformed", "default_cost_keys"],
    opts: OPTS,
};
