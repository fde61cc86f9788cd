//! L04 making, reading and writing points; L05 streams of packets
use crate::clock;
use crate::refpkt::{self, keys, parse, spec, Spec, DATA, ERR, KEY, LINK, MAX_POINT};
use linkspace::prelude::*;
use linkspace::*;
use linkspace::point::*;
use linkspace_common::pkt_reader::NetPktDecoder;
use linkspace_common::pkt_stream_utils::{Buffer, QuickDedup};
use std::io::{self, ErrorKind, IoSlice, Read, Write};
use vmlib::{ensure, no_panic, show, viol, Obs, Prop, Res, Rng, Stage, OPTS};

pub static L04: Prop = Prop {
    id: "L04",
    stages: &[Stage { name: "making", quick: 60_000, thorough: 1_000_000, run: making }, Stage { name: "reading", quick: 20_000, thorough: 1_000_000, run: reading }, Stage { name: "writing", quick: 30_000, thorough: 500_000, run: writing }],
    rule: "points of any content made with the API (by value and by reference, with and without a stamp, under a stopped clock) compared with an independent encoder; bytes with others after them, valid, damaged and private, read with and without checking the hash; packets written to writers that take a few bytes at a time, are interrupted, fail or are full. Non-trivial: distinct content and outcomes.",
    assumptions: &[],
    floors: &["made:0x1", "made:0x3", "made:0x7", "too large", "stamp now", "read", "private refused", "private allowed", "not checked", "hash refused", "malformed refused", "written in parts", "write interrupted", "write failed", "private not written"],
    opts: OPTS,
};
pub static L05: Prop = Prop {
    id: "L05",
    stages: &[Stage { name: "streams", quick: 36_000, thorough: 600_000, run: streams }, Stage { name: "utilities", quick: 18_000, thorough: 200_000, run: utilities }],
    rule: "streams of packets, some of them forged, private or of impossible size, cut anywhere, read in pieces of any size with interruptions: the decoder yields exactly the packets that were sent, in order, each with one more hop, an error for each that is refused, and nothing else; the deduplication, the buffer for linked data and the uniform number are compared with their description. Non-trivial: distinct streams.",
    assumptions: &["after a header that cannot be right the rest of a stream is not judged, beyond being safe"],
    floors: &["packets", "forged refused", "private refused", "private passed", "cut in a header", "cut in a point", "header refused", "interrupted", "hash not checked", "hop at its maximum", "duplicate noticed", "forgotten", "data released", "data dropped"],
    opts: OPTS,
};
struct Real;
impl Drop for Real {
    fn drop(&mut self) {
        clock::real();
    }
}
fn links(s: &Spec) -> Vec<Link> {
    s.links.iter().map(|(t, p)| Link { tag: AB(*t), ptr: B64(*p) }).collect()
}
fn default_hdr() -> [u8; 32] {
    let mut h = [0; 32];
    h[..3].copy_from_slice(b"LK1");
    h[8..16].fill(255);
    h
}
fn show_spec(s: &Spec) -> String {
    format!("kind {:#x} links {} comps {:?} data {} bytes", s.kind, s.links.len(), s.comps, s.data.len())
}
fn making(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let _real = Real;
    let mut s = loop {
        let s = spec(r);
        if s.kind != ERR {
            break s;
        }
    };
    if s.kind != DATA && r.chance(1, 4) {
        s.group = [0; 32]
    }
    let now = r.next() >> *r.pick(&[12, 14, 30]);
    clock::set(now);
    s.hdr = default_hdr();
    let w = show_spec(&s);
    let what = || w.clone();
    let l = links(&s);
    let comps: Vec<&[u8]> = s.comps.iter().map(|c| &c[..]).collect();
    let sp = match RootedSpaceBuf::try_from_iter(&comps) {
        Ok(s) => s,
        Err(e) => return viol("space", format!("{:?}: {e}", s.comps)),
    };
    let stamp = if r.chance(1, 3) {
        s.stamp = now;
        o.count("stamp now");
        None
    } else {
        Some(Stamp::new(s.stamp))
    };
    let (g, d) = (B64(s.group), AB(s.domain));
    let k = &keys()[s.key].0;
    let by_ref = r.bool();
    o.eval();
    let got = no_panic("making", &what, || match (s.kind, by_ref) {
        (DATA, false) => lk_datapoint(&s.data),
        (DATA, _) => lk_datapoint_ref(&s.data).map(|p| p.as_netbox()),
        (LINK, false) => lk_linkpoint(&s.data, d, g, &sp, &l, stamp),
        (LINK, _) => lk_linkpoint_ref(&s.data, d, g, &sp, &l, stamp).map(|p| p.as_netbox()),
        (_, false) => lk_keypoint(k, &s.data, d, g, &sp, &l, stamp),
        _ => lk_keypoint_ref(k, &s.data, d, g, &sp, &l, stamp).map(|p| p.as_netbox()),
    })?;
    let p = match got {
        Err(e) => {
            ensure!(!s.fits(), "refused", "{e:#}: {w}");
            o.count("too large");
            return Ok(());
        }
        Ok(p) => p,
    };
    ensure!(s.fits(), "oversize", "{} bytes of {MAX_POINT}: {w}", s.usize_());
    let b = p.as_netpkt_bytes();
    // signatures need not be the same
    if s.kind == KEY {
        let x = match parse(b) {
            Ok(x) => x,
            Err(e) => return viol("malformed", format!("{e}: {w}")),
        };
        ensure!(x.hash_ok() && x.sig_ok() && x.signed.map(|s| s.0) == Some(keys()[s.key].1), "signature", "{w}");
        ensure!(x.hdr == s.hdr && b.len() == x.size, "layout", "{w}");
        ensure!((&x.links, &x.comps, &x.data, x.lp) == (&s.links, &s.comps, &s.data, Some((s.stamp, s.group, s.domain))), "fields", "{w}: reads back as {:?}", (x.links.len(), &x.comps, x.data.len(), x.lp));
    } else {
        ensure!(b == &s.bytes()[..], "layout", "{w}\n got  {}\n want {}", show(b), show(&s.bytes()));
    }
    o.count(&format!("made:{:#x}", s.kind));
    o.distinct(b);
    Ok(())
}
/// a few of those, not too large
fn some(r: &mut Rng) -> Spec {
    let mut s = refpkt::spec_ok(r);
    if r.chance(9, 10) {
        s.links.truncate(4);
        s.data.truncate(100);
    }
    if s.kind & 2 != 0 && r.chance(1, 4) {
        s.group = [0; 32]
    }
    s
}
fn reading(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let s = some(r);
    let mut b = s.bytes();
    let n = b.len();
    match r.below(8) {
        0 => {
            let k = r.usize(n);
            b[k] ^= 1 << r.below(8)
        }
        1 => {
            let k = r.range(32, n - 1);
            b[k] ^= 1 << r.below(8)
        }
        2 => {
            let k = r.usize(n);
            b.truncate(k)
        }
        3 => {
            // the hash alone
            let k = r.range(32, 63);
            b[k] ^= 1 << r.below(8)
        }
        _ => {}
    }
    let rest = if b.len() == n { vmlib::gen::bytes(r, 200) } else { vec![] };
    b.extend(&rest);
    let shift = r.usize(8);
    let mut buf = vec![0u8; shift];
    buf.extend(&b);
    let at = &buf[shift..];
    let want = parse(at);
    for unchecked in [false, true] {
        for allow in [false, true] {
            o.eval();
            let what = || format!("unchecked {unchecked} allow {allow} {}", show(at));
            let got = no_panic("reading", &what, || if unchecked { lk_read_unchecked(at, allow) } else { lk_read(at, allow) })?;
            let private = want.as_ref().is_ok_and(|x| x.lp.is_some_and(|l| l.1 == [0; 32]));
            let auth = want.as_ref().is_ok_and(|x| unchecked || x.hash_ok() && x.sig_ok());
            match got {
                Err(e) => {
                    ensure!(!auth || (private && !allow), "refused", "{e}: {}", what());
                    if auth {
                        ensure!(matches!(e, PktError::PrivateGroup), "private-error", "{e}: {}", what());
                        o.count("private refused")
                    } else {
                        o.count(if want.is_ok() { "hash refused" } else { "malformed refused" })
                    }
                }
                Ok((p, left)) => {
                    ensure!(auth, "accepted", "{:?}: {}", want.as_ref().err(), what());
                    ensure!(!private || allow, "private-read", "{}", what());
                    let x = want.as_ref().unwrap();
                    ensure!(p.as_netpkt_bytes() == &at[..x.size], "packet", "{}", what());
                    ensure!(left == &at[x.size..] && left.as_ptr() == at[x.size..].as_ptr(), "rest", "{} bytes left: {}", left.len(), what());
                    o.count(if private { "private allowed" } else { "read" });
                    if unchecked && !(x.hash_ok() && x.sig_ok()) {
                        o.count("not checked")
                    }
                    o.distinct((x.size, x.kind, shift, left.len(), unchecked));
                }
            }
        }
    }
    Ok(())
}
/// takes what it is given in pieces
struct Slow<'a> {
    r: &'a mut Rng,
    got: Vec<u8>,
    max: usize,
    interrupts: bool,
    vectored: bool,
    /// fails, or is full, from here on
    end: Option<(usize, bool)>,
    parts: u32,
    interrupted: u32,
}
impl Slow<'_> {
    fn room(&mut self) -> io::Result<usize> {
        if self.interrupts && self.r.chance(1, 5) {
            self.interrupted += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        if let Some((n, full)) = self.end {
            if self.got.len() >= n {
                return if full { Ok(0) } else { Err(ErrorKind::BrokenPipe.into()) };
            }
            return Ok((n - self.got.len()).min(1 + self.r.usize(self.max)));
        }
        Ok(1 + self.r.usize(self.max))
    }
}
impl Write for Slow<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.room()?.min(b.len());
        self.got.extend(&b[..n]);
        self.parts += 1;
        Ok(n)
    }
    fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> io::Result<usize> {
        if !self.vectored {
            return self.write(bufs.iter().find(|b| !b.is_empty()).map_or(&[][..], |b| &**b));
        }
        let n = self.room()?;
        let all: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).take(n).collect();
        self.got.extend(&all);
        self.parts += 1;
        Ok(all.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn writing(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let s = some(r);
    let b = s.bytes();
    let w = show_spec(&s);
    let what = || w.clone();
    let own = match misc::read::read_pkt(&b, false) {
        Ok(p) => p.into_owned(),
        Err(e) => return viol("refused", format!("{e}: {w}")),
    };
    let parts = own.as_netparts();
    let arc = own.as_netarc();
    let p: &dyn NetPkt = match r.below(3) {
        0 => &own,
        1 => &parts,
        _ => &arc,
    };
    let private = s.kind & 2 != 0 && s.group == [0; 32];
    let allow = r.bool();
    let end = r.chance(1, 3).then(|| (r.usize(b.len() + 20), r.bool()));
    let max = *r.pick(&[1, 7, 64, 1 << 20]);
    let (interrupts, vectored) = (r.bool(), r.bool());
    let mut out = Slow { r, got: vec![], max, interrupts, vectored, end, parts: 0, interrupted: 0 };
    o.eval();
    let got = no_panic("lk_write", &what, || lk_write(p, allow, &mut out))?;
    if private && !allow {
        ensure!(got.is_err() && out.got.is_empty(), "private-written", "{got:?}, {} bytes: {w}", out.got.len());
        o.count("private not written");
        return Ok(());
    }
    ensure!(b.starts_with(&out.got), "written", "{}\n instead of {}", show(&out.got), show(&b));
    match &got {
        Ok(()) => {
            ensure!(out.got == b, "cut", "{} of {} bytes and Ok: {w}", out.got.len(), b.len());
            if out.parts > 1 {
                o.count("written in parts")
            }
        }
        Err(e) => {
            ensure!(end.is_some_and(|(n, _)| n < b.len()), "write-error", "{e}: {w}");
            o.count("write failed")
        }
    }
    if out.interrupted > 0 {
        o.count("write interrupted")
    }
    o.distinct((b.len(), max, end, vectored, got.is_ok()));
    Ok(())
}
struct Pieces<'a> {
    r: Rng,
    b: &'a [u8],
    at: usize,
    max: usize,
    interrupts: bool,
    n: u32,
}
impl Read for Pieces<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.interrupts && self.r.chance(1, 5) {
            self.n += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        let n = (1 + self.r.usize(self.max)).min(buf.len()).min(self.b.len() - self.at);
        buf[..n].copy_from_slice(&self.b[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
fn streams(r: &mut Rng, i: u64, o: &mut Obs) -> Res {
    let allow = r.bool();
    let hop = r.bool();
    let skip = r.chance(1, 4);
    let mut stream = vec![];
    // what it has to yield, and where each begins
    let mut want: Vec<(usize, Option<Vec<u8>>)> = vec![];
    // a header after which nothing is judged
    let mut lost = None;
    for _ in 0..r.range(0, 6) {
        let mut s = some(r);
        if r.chance(1, 12) {
            s.hdr[4..8].copy_from_slice(&[255; 4]);
        }
        let mut b = s.bytes();
        match r.below(8) {
            // in the hash, the content, the signature
            0 => {
                let k = if r.bool() { r.range(32, 63) } else { r.range(68.min(b.len() - 1), b.len() - 1) };
                b[k] ^= 1 << r.below(8)
            }
            1 if lost.is_none() && r.chance(1, 2) => {
                match r.below(3) {
                    0 => b[64] = 1,
                    1 => b[65] = *r.pick(&[0, 2, 4, 5, 6, 0x81]),
                    _ => b[66..68].copy_from_slice(&u16::MAX.to_be_bytes()),
                }
            }
            _ => {}
        }
        let at = stream.len();
        match parse(&b) {
            Err("reserved" | "kind" | "length") => {
                if lost.is_none() {
                    lost = Some(at)
                }
            }
            Err("missing") => {
                // cannot happen: sizes are as they were
                return viol("harness", show(&b));
            }
            Err(_) => {
                want.push((at, None));
                o.count("forged refused")
            }
            Ok(x) => {
                let private = x.lp.is_some_and(|l| l.1 == [0; 32]);
                let auth = skip || x.hash_ok() && x.sig_ok();
                if auth && (allow || !private) {
                    let mut y = b.clone();
                    if hop {
                        let h = u32::from_be_bytes(y[4..8].try_into().unwrap());
                        if h == u32::MAX {
                            o.count("hop at its maximum")
                        }
                        y[4..8].copy_from_slice(&h.saturating_add(1).to_be_bytes());
                        y[3] &= 0x7f;
                    }
                    if private {
                        o.count("private passed")
                    }
                    if !(x.hash_ok() && x.sig_ok()) {
                        o.count("hash not checked")
                    }
                    want.push((at, Some(y)))
                } else {
                    o.count(if auth { "private refused" } else { "forged refused" });
                    want.push((at, None))
                }
            }
        }
        stream.extend(b);
    }
    let full = stream.len();
    let cut = if r.chance(1, 3) { r.usize(full + 1) } else { full };
    stream.truncate(cut);
    let max = *r.pick(&[1, 3, 67, 100, 1 << 20]);
    let interrupts = r.chance(1, 3);
    let seed = r.next();
    let w = || format!("case {i}: {} bytes of {full}, allow {allow} hop {hop} skip {skip} pieces of {max} interrupts {interrupts}; packets at {:?}, a bad header at {lost:?}", cut, want.iter().map(|w| (w.0, w.1.is_some())).collect::<Vec<_>>());
    let mut d = NetPktDecoder::new(Pieces { r: Rng::new(seed), b: &stream, at: 0, max, interrupts, n: 0 });
    ensure!(!d.allow_private && d.hop && !d.skip_hash, "default", "the decoder does not start out strict");
    d.allow_private = allow;
    d.hop = hop;
    d.skip_hash = skip;
    o.eval();
    let next = |d: &mut NetPktDecoder<Pieces>| no_panic("decoder", &w, || d.next());
    let ends: Vec<usize> = (0..want.len()).map(|k| want.get(k + 1).map_or(full, |x| x.0).min(lost.filter(|l| *l > want[k].0).unwrap_or(full))).collect();
    for (k, (at, x)) in want.iter().enumerate() {
        if lost.is_some_and(|l| l < *at) || ends[k] > cut {
            break;
        }
        let got = next(&mut d)?;
        match (got, x) {
            (Some(Ok(p)), Some(x)) => {
                ensure!(p.as_netpkt_bytes() == &x[..], "differs", "number {k}: {}\n instead of {}\n{}", show(p.as_netpkt_bytes()), show(x), w());
                o.count("packets")
            }
            (Some(Err(_)), None) => {}
            (None, _) => return viol("ended", format!("ends before number {k}: {}", w())),
            (Some(Ok(p)), None) => return viol("accepted", format!("number {k} is yielded as {}: {}", p.hash(), w())),
            (Some(Err(e)), Some(_)) => return viol("refused", format!("number {k}: {e}: {}", w())),
        }
    }
    let done = want.iter().zip(&ends).take_while(|((at, _), e)| lost.map_or(true, |l| l > *at) && **e <= cut).last().map_or(0, |(_, e)| *e);
    if lost == Some(done) && cut >= done + 68 {
        let got = next(&mut d)?;
        ensure!(matches!(got, Some(Err(_))), "bad-header", "{:?}: {}", got.map(|p| p.map(|p| p.hash())), w());
        o.count("header refused");
        for _ in 0..3 {
            // whatever comes, it is safe
            if let Some(Ok(p)) = next(&mut d)? {
                ensure!(skip || parse(p.as_netpkt_bytes()).is_ok_and(|x| x.hash_ok() && x.sig_ok()), "made-up", "{}: {}", p.hash(), w());
            }
        }
    } else {
        // nothing, or an error for what was cut; then it has ended
        let left = cut - done;
        let mut got = next(&mut d)?;
        if left > 0 && matches!(got, Some(Err(_))) {
            got = next(&mut d)?;
        }
        ensure!(got.is_none(), "more", "yields {:?} with {left} bytes left: {}", got.map(|p| p.map(|p| p.hash())), w());
        if left > 0 {
            o.count(if left < 68 { "cut in a header" } else { "cut in a point" })
        }
    }
    if d.reader.n > 0 {
        o.count("interrupted")
    }
    o.distinct((&want.iter().map(|w| w.0).collect::<Vec<_>>(), cut, max, interrupts));
    Ok(())
}
fn utilities(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    // what it says it has seen, it has seen; the one just before always
    let cap = r.range(1, 20);
    let mut q = QuickDedup::new(cap);
    let pool: Vec<LkHash> = (0..r.range(1, 30)).map(|_| B64(r.array())).collect();
    let mut seen: Vec<LkHash> = vec![];
    for _ in 0..r.range(1, 60) {
        let h = *r.pick(&pool);
        let got = no_panic("QuickDedup", &|| format!("{cap}"), || q.probable_contains(h))?;
        o.eval();
        ensure!(!got || seen.contains(&h), "dedup", "capacity {cap}: says it saw {h}");
        ensure!(got || seen.last() != Some(&h), "dedup", "capacity {cap}: forgot {h}, which was the last one");
        o.count(if got {
            "duplicate noticed"
        } else if seen.contains(&h) {
            "forgotten"
        } else {
            "first seen"
        });
        seen.push(h);
    }
    // data waits for a link to it
    let mut buf = Buffer::default();
    let data: Vec<NetPktBox> = (0..r.range(1, 5)).map(|_| lk_datapoint(&r.bytes(5)).expect("data")).collect();
    let mut held: Vec<LkHash> = vec![];
    let mut latest: Vec<LkHash> = vec![];
    for n in 0..r.range(1, 20) {
        let (p, want) = if r.bool() {
            let p = r.pick(&data).clone();
            let h = p.hash();
            if latest.contains(&h) {
                (p, vec![h])
            } else {
                held.push(h);
                (p, vec![])
            }
        } else {
            let l: Vec<Link> = (0..r.below(4)).map(|i| Link { tag: AB([i as u8; 16]), ptr: r.pick(&data).hash() }).collect();
            let p = lk_linkpoint(b"", AB([1; 16]), PUBLIC, RootedSpace::empty(), &l, Some(Stamp::new(n as u64))).expect("link");
            latest = l.iter().map(|l| l.ptr).collect();
            let (mut out, drop): (Vec<_>, Vec<_>) = std::mem::take(&mut held).into_iter().partition(|h| latest.contains(h));
            o.add("data released", out.len() as u64);
            o.add("data dropped", drop.len() as u64);
            out.push(p.hash());
            (p, out)
        };
        let got: Vec<LkHash> = no_panic("Buffer", &|| String::new(), || buf.push(p))?.iter().map(|p| p.hash()).collect();
        ensure!(got == want, "buffer", "releases {got:?} instead of {want:?}");
    }
    // the leading 52 bits
    let n = r.range(8, 40);
    let mut b = r.bytes(n);
    if r.chance(1, 3) {
        let x = *r.pick(&[0, 255, 1]);
        b[..7].fill(x)
    }
    let x = no_panic("bytes2uniform", &|| show(&b), || misc::bytes2uniform(&b))?;
    let v = u64::from_be_bytes(b[..8].try_into().unwrap()) >> 12;
    ensure!(x == v as f64 / (1u64 << 52) as f64 && x >= 0.0 && x < 1.0, "uniform", "{x} of {}", show(&b));
    ensure!(misc::blake3_hash(&b).0 == *blake3::hash(&b).as_bytes(), "blake3", "{}", show(&b));
    o.distinct((cap, seen.len(), held.len(), v));
    Ok(())
}
