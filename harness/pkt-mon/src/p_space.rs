//! P04 space names as sequences of components, P08 space names as text
use crate::refabe;
use crate::refpkt::*;
use linkspace_pkt::*;
use vmlib::*;

type Comps = Vec<Vec<u8>>;
const MAXSP: usize = 242;
fn fits(c: &[Vec<u8>]) -> bool {
    c.len() <= 8 && sp(c).len() <= MAXSP && c.iter().all(|c| !c.is_empty() && c.len() <= 200)
}
fn raw(r: &mut Rng) -> Vec<u8> {
    match r.below(20) {
        0 => vec![],
        1 => vec![r.u8(); 200],
        2 => vec![r.u8(); 201],
        3 => vec![7; 255],
        4 => vec![7; 256 + r.usize(300)],
        5 => vec![1; r.range(25, 60)],
        6..=9 => vec![r.u8(); r.clone().range(1, 4)],
        _ => comp(r),
    }
}
fn v(s: &Space) -> Comps {
    s.iter().map(|c| c.to_vec()).collect()
}
macro_rules! same {
    ($what:expr, $got:expr, $want:expr, $ctx:expr) => {{
        let (g, w) = ($got, $want);
        ensure!(g == w, format!("{}", $what), "{} gives {:?}, expected {:?} for {:?}", $what, g, w, $ctx);
    }};
}
/// everything that reads a valid name
fn views(s: &Space, m: &Comps, r: &mut Rng, o: &mut Obs) -> Res {
    let n = m.len();
    same!("space-bytes", s.space_bytes(), &sp(m)[..], m);
    same!("check", s.check_components(), Ok(n as u8), m);
    same!("iter", v(s), m.clone(), m);
    same!("depth", s.iter().count(), n, m);
    same!("to-array", s.to_array().iter().map(|c| c.to_vec()).collect::<Comps>(), m.clone(), m);
    same!("size", s.size(), sp(m).len(), m);
    same!("is-empty", s.is_empty(), n == 0, m);
    same!("head", s.head(), m.first().map(|c| &c[..]), m);
    same!("first", s.first(), m.first().map(|c| &c[..]).unwrap_or(&[]), m);
    same!("tail", v(s.tail()), m[n.min(1)..].to_vec(), m);
    same!("split-first", s.split_first().map(|(a, b)| (a.to_vec(), v(b))), m.split_first().map(|(a, b)| (a.clone(), b.to_vec())), m);
    same!("parent", s.parent().map(v), (n > 0).then(|| m[..n - 1].to_vec()), m);
    let (a, b) = s.split_last();
    same!("split-last", (v(a), b.map(v)), (m[..n.saturating_sub(1)].to_vec(), m.last().map(|c| vec![c.clone()])), m);
    let (a, b) = s.pop();
    same!("pop", (v(a), b.map(|b| b.to_vec())), (m[..n.saturating_sub(1)].to_vec(), m.last().cloned()), m);
    for k in [0, r.usize(n + 1), n, n + 1 + r.usize(5)] {
        let (a, b) = s.split_at(k);
        same!("split-at", (v(a), v(b)), (m[..k.min(n)].to_vec(), m[k.min(n)..].to_vec()), (k, m));
    }
    // prefixes
    for k in 0..=n {
        let p = SpaceBuf::from_vec_unchecked(sp(&m[..k]));
        same!("starts-with", s.starts_with(&p), true, (k, m));
        same!("strip-prefix", s.strip_prefix(&p).map(v), Some(m[k..].to_vec()), (k, m));
        same!("drop-prefix", v(s.drop_prefix(&p)), m[k..].to_vec(), (k, m));
    }
    let mut q = m.clone();
    if n > 0 {
        let k = r.usize(n);
        match r.below(3) {
            0 => q[k] = comp(r),
            1 => {
                let l = r.usize(q[k].len());
                q[k][l] ^= 1 << r.below(8)
            }
            _ => {
                q.truncate(k + 1);
                q[k].truncate(r.range(1, 3));
            }
        }
    }
    if fits(&q) {
        let want = m.starts_with(&q[..]);
        let p = SpaceBuf::from_vec_unchecked(sp(&q));
        same!("starts-with", s.starts_with(&p), want, (&q, m));
        same!("strip-prefix", s.strip_prefix(&p).map(v), want.then(|| m[q.len()..].to_vec()), (&q, m));
    }
    // walks
    let mut t = s.track();
    for k in 0..=n {
        same!("track", (v(t.upto()), v(t.rest()), v(t.full()), t.component().map(|c| c.to_vec())), (m[..k].to_vec(), m[k..].to_vec(), m.clone(), m.get(k).cloned()), (k, m));
        match t.next() {
            Some(x) => t = x,
            None => same!("track-end", k, n, m),
        }
    }
    same!("scan", s.scan_space().map(v).collect::<Vec<_>>(), (1..=n).map(|k| m[..k].to_vec()).collect::<Vec<_>>(), m);
    let b = s.into_spacebuf();
    same!("buf", (v(&b), b.calc_depth(), b.as_bytes().to_vec()), (m.clone(), n, sp(m)), m);
    same!("components", b.components().ok(), Some(m.clone()), m);
    same!("slice", Space::from_slice(s.space_bytes()).map(v), Ok(m.clone()), m);
    same!("inner", SpaceBytes::try_from_inner(s.space_bytes().to_vec()).map(|s| v(&s)), Ok(m.clone()), m);
    let rs = s.try_into_rooted();
    same!("rooted", rs.as_ref().map(|r| r.rooted_bytes().to_vec()), Ok(rspace(m)), m);
    o.eval();
    rooted_views(&rs.unwrap(), m, r)
}
fn rooted_views(s: &RootedSpace, m: &Comps, r: &mut Rng) -> Res {
    let n = m.len();
    same!("rooted-bytes", s.rooted_bytes(), &rspace(m)[..], m);
    same!("rooted-check", s.check_components(), Ok(()), m);
    same!("rooted-from", RootedSpace::from(s.rooted_bytes()).map(|r| r.rooted_bytes().to_vec()), Ok(rspace(m)), m);
    same!("rooted-depth", (s.depth(), *s.space_depth() as usize, s.is_empty()), (n, n, n == 0), m);
    same!("rooted-iter", s.iter().map(|c| c.to_vec()).collect::<Comps>(), m.clone(), m);
    same!("rooted-space", v(s.space()), m.clone(), m);
    same!("rooted-last", s.last(), m.last().map(|c| &c[..]).unwrap_or(&[]), m);
    for k in 0..8 {
        same!("rooted-comp", s.comp(k), m.get(k).map(|c| &c[..]).unwrap_or(&[]), (k, m));
    }
    same!("rooted-comps", s.comps_bytes().map(|c| c.to_vec()).to_vec(), (0..8).map(|k| m.get(k).cloned().unwrap_or_default()).collect::<Comps>(), m);
    same!("rooted-components", s.components().map(|c| c.space_bytes().to_vec()).to_vec(), (0..8).map(|k| sp(&m[k.min(n)..(k + 1).min(n)])).collect::<Comps>(), m);
    let a = r.usize(9);
    let b = r.range(a, 8);
    same!("rooted-range", v(s.range(a..b)), m[a.min(n)..b.min(n)].to_vec(), (a, b, m));
    Ok(())
}
pub fn ops_stage(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let mut m: Comps = vec![];
    let mut s = SpaceBuf::new();
    let mut rm: Comps = vec![];
    let mut rs = RootedSpaceBuf::new();
    let mut log = vec![];
    for _ in 0..r.range(2, 14) {
        let op = r.below(12);
        let c = raw(r);
        let other = comps(r);
        let ob = SpaceBuf::from_vec_unchecked(sp(&other));
        log.push((op, c.len(), other.len()));
        let (m0, rm0) = (m.clone(), rm.clone());
        let w = || format!("on {m0:?} (rooted {rm0:?}) op {op} with component {} or name {other:?}; history {log:?}", show(&c));
        o.eval();
        let mut next = m.clone();
        let got: Result<SpaceBuf, SpaceError> = match op {
            0 | 1 => {
                next.push(c.clone());
                no_panic("try_push", &w, || s.clone().try_push(&c))?
            }
            2 => {
                next.insert(0, c.clone());
                no_panic("try_push_front", &w, || s.clone().try_push_front(&c))?
            }
            3 => {
                next.extend(other.clone());
                no_panic("try_append", &w, || s.clone().try_append(&ob))?
            }
            4 => {
                next = [other.clone(), next].concat();
                no_panic("try_prepend", &w, || s.clone().try_prepend(&ob))?
            }
            5 => {
                next.extend(other.clone());
                no_panic("try_join", &w, || s.try_join(&ob))?
            }
            6 => {
                next.pop();
                let mut t = s.clone();
                no_panic("truncate_last", &w, || t.truncate_last())?;
                Ok(t)
            }
            7 => {
                next.extend([c.clone(), vec![1], c.clone()]);
                no_panic("extend_from_iter", &w, || s.clone().extend_from_iter([&c[..], &[1], &c[..]]))?
            }
            8 => {
                next = other.clone();
                if r.bool() {
                    next.push(c.clone())
                }
                no_panic("try_from_iter", &w, || SpaceBuf::try_from_iter(&next))?
            }
            _ => Ok(s.clone()),
        };
        match got {
            Ok(n) => {
                ensure!(fits(&next), "space-limit", "a name of {} components, {} bytes was made: {}", next.len(), sp(&next).len(), w());
                s = n;
                m = next;
                o.count("op:ok");
            }
            Err(_) => {
                ensure!(!fits(&next), "space-refused", "{}", w());
                o.count("op:refused");
            }
        }
        no_panic("space-views", &w, || views(&s, &m, r, o))??;
        // rooted builder
        let mut next = rm.clone();
        let mut t = rs.clone();
        let got: Result<(), SpaceError> = match op {
            0..=2 => {
                next.push(c.clone());
                no_panic("try_append_component", &w, || t.try_append_component(&c).map(|_| ()))?
            }
            3 | 4 => {
                next.extend(other.clone());
                no_panic("rooted-join", &w, || t.clone().try_join(&ob).map(|n| t = n))?
            }
            5 => {
                next = m.clone();
                no_panic("rooted-from-space", &w, || s.try_into_rooted().map(|n| t = n))?
            }
            6 => {
                next = other.clone();
                if r.bool() {
                    next.push(c.clone())
                }
                no_panic("rooted-from-iter", &w, || RootedSpaceBuf::try_from_iter(&next).map(|n| t = n))?
            }
            _ => Ok(()),
        };
        match got {
            Ok(()) => {
                ensure!(fits(&next), "rooted-limit", "{}", w());
                rs = t;
                rm = next;
                o.count("rooted:ok");
            }
            Err(_) => {
                ensure!(!fits(&next), "rooted-refused", "{}", w());
                o.count("rooted:refused");
            }
        }
        no_panic("rooted-views", &w, || rooted_views(&rs, &rm, r))??;
        same!("rooted-space", no_panic("rooted-space", &w, || v(rs.space()))?, rm.clone(), w());
    }
    o.max("depth", m.len() as u64);
    o.distinct((sp(&m), sp(&rm)));
    o.sample(|| format!("{m:?}"));
    Ok(())
}
/// bytes that are or nearly are a name
pub fn bytes_stage(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let mut c = comps(r);
    if r.chance(1, 6) {
        let n = r.range(7, 11);
        c = (0..n).map(|_| vec![r.u8(); r.range(1, 4)]).collect();
    }
    let mut b = sp(&c);
    match r.below(6) {
        0 => gen::mutate(r, &mut b, &[0, 1, 2, 200, 201, 255]),
        1 => {
            let n = r.usize(20);
            b = r.bytes(n)
        }
        2 => b = vec![1; r.range(240, 247)],
        3 => {
            b = vec![];
            let mut left = r.range(238, 250);
            while left > 1 {
                let k = r.range(1, 200).min(left - 1);
                b.push(k as u8);
                b.extend(vec![9; k]);
                left -= k + 1;
            }
        }
        _ => {}
    }
    let w = || show(&b);
    o.eval();
    let want = parse_space(&b);
    let got = no_panic("from_slice", &w, || Space::from_slice(&b).map(v))?;
    ensure!(got.as_ref().ok() == want.as_ref(), if want.is_some() { "valid-refused" } else { "invalid-accepted" }, "{got:?}, expected {want:?} for {}", w());
    let got2 = no_panic("try_from_inner", &w, || SpaceBytes::try_from_inner(b.clone()).map(|s| v(&s)))?;
    ensure!(got2.ok() == want, "try-from-inner", "{}", w());
    // converting unchecked bytes does not go wrong silently
    let got = no_panic("try_into_rooted", &w, || if b.len() < 300 && want.is_some() { Space::from_unchecked(&b).try_into_rooted().map(|r| r.rooted_bytes().to_vec()).ok() } else { None })?;
    ensure!(got == want.as_ref().map(|c| rspace(c)), "into-rooted", "{}", w());
    o.count(if want.is_some() { "bytes:valid" } else { "bytes:invalid" });
    // rooted
    let mut rb = rspace(&c[..c.len().min(8)]);
    // one byte too many and a few more, well formed otherwise
    if r.chance(1, 12) {
        let mut left = r.range(239, 255);
        let mut c = vec![];
        while left > 1 && c.len() < 8 {
            let k = if c.len() > 5 { left - 1 } else { r.range(1, 200) }.min(left - 1).min(200);
            c.push(vec![7; k]);
            left -= k + 1;
        }
        rb = rspace(&c);
    }
    match r.below(7) {
        0 => gen::mutate(r, &mut rb, &[0, 1, 2, 8, 9, 200, 201, 255]),
        1 if !rb.is_empty() => rb[0] = r.u8() % 11,
        2 if rb.len() > 8 => {
            let k = 1 + r.usize(7);
            rb[k] = match r.below(3) {
                0 => r.u8(),
                1 => rb[k].wrapping_add(1),
                _ => rb[k].wrapping_sub(1),
            }
        }
        3 if rb.len() > 8 => {
            let k = r.usize(rb.len());
            rb.truncate(k)
        }
        4 if rb.len() > 8 => {
            let k = 8 + r.usize(rb.len() - 8);
            rb[k] = r.u8() % 12
        }
        5 => {
            rb = rspace(&[]);
            rb.extend(vec![0; r.usize(12)])
        }
        _ => {}
    }
    o.eval();
    let w = || show(&rb);
    let want = parse_rspace(&rb);
    let got = no_panic("rooted-from", &w, || RootedSpace::from(&rb).map(|s| s.iter().map(|c| c.to_vec()).collect::<Comps>()))?;
    ensure!(got.as_ref().ok() == want.as_ref(), if want.is_some() { "rooted-valid-refused" } else { "rooted-invalid-accepted" }, "{got:?}, expected {want:?} for {}", w());
    o.count(if want.is_some() { "rooted-bytes:valid" } else { "rooted-bytes:invalid" });
    o.distinct((b, rb));
    Ok(())
}
fn scope() -> impl abe::eval::Scope {
    (abe::scope::basic_scope(), abe::eval::EScope(SpaceFE))
}
pub fn ev(t: &str, sc: &dyn abe::eval::Scope) -> Result<Vec<u8>, String> {
    let p = abe::parse_abe(t, false).map_err(|e| format!("parse: {e}"))?;
    let l = abe::eval::eval(sc, &p).map_err(|e| format!("eval: {e}"))?;
    l.into_exact_bytes().map_err(|l| format!("not exact: {l:?}"))
}
/// one component written some way or other
fn spell(r: &mut Rng, c: &[u8], mix: bool) -> String {
    match r.below(5) {
        0 => format!("[b:{}]", b64(c)),
        1 if c.len() <= 16 && c[0] != 0 => format!("[a:{}:{}]", refabe::enc(c), c.len()),
        2 => c.iter().map(|b| format!("\\x{b:02x}")).collect(),
        3 if mix => {
            // text and evaluation mixed: only inside of [/..]
            let k = r.usize(c.len() + 1);
            format!("{}[:{}]", refabe::enc(&c[..k]), refabe::enc(&c[k..]))
        }
        _ => refabe::enc(c),
    }
}
pub fn b64(b: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..c.len() + 1 {
            s.push(A[(n >> (18 - 6 * k)) as usize & 63] as char)
        }
    }
    s
}
fn path(r: &mut Rng, m: &Comps, mix: bool) -> String {
    m.iter().map(|c| format!("/{}", spell(r, c, mix))).collect()
}
pub fn text_stage(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let m = comps(r);
    let s = SpaceBuf::from_vec_unchecked(sp(&m));
    let rs = s.rooted();
    let w = || format!("{m:?}");
    let sc = scope();
    // what is printed parses back
    for (k, t) in [("space", no_panic("display", &w, || s.to_string())?), ("slice", s.as_space().to_string()), ("rooted", rs.to_string()), ("abe", no_panic("to_abe_str", &w, || abe::ToABE::to_abe_str(s.as_space()))?)] {
        o.eval();
        ensure!(t.is_ascii() && !t.contains(|c: char| c.is_control()), "display-unprintable", "{k} {t:?} of {m:?}");
        let back = no_panic("parse", &|| t.clone(), || t.parse::<SpaceBuf>())?;
        match &back {
            Ok(b) => ensure!(v(b) == m, "display-roundtrip", "{k}: {m:?} is printed as {t:?}, which reads as {:?}", v(b)),
            Err(e) => return viol("display-unreadable", format!("{k}: {m:?} is printed as {t:?}: {e}")),
        }
        let back = no_panic("parse-rooted", &|| t.clone(), || t.parse::<RootedSpaceBuf>())?;
        ensure!(back.as_ref().is_ok_and(|b| b.rooted_bytes() == &rspace(&m)[..]), "rooted-roundtrip", "{k}: {t:?}");
        o.count("printed");
    }
    // the ways to write it
    let p = path(r, &m, false);
    o.eval();
    let got = no_panic("space_str", &|| p.clone(), || space_str(&p).map(|s| v(&s)).map_err(|e| e.to_string()))?;
    ensure!(got.as_ref() == Ok(&m), "parse", "{p:?} reads as {got:?}, expected {m:?}");
    let e = |t: &str| no_panic("eval", &|| t.to_string(), || ev(t, &sc));
    let want = Ok(sp(&m));
    let mut forms = vec![];
    if !m.is_empty() {
        forms.push(format!("[/{p}]"));
        let p = path(r, &m, true);
        forms.push(format!("[/{p}]"));
        forms.push(format!("[/~{p}]"));
        forms.push(format!("[/~{}]", m.iter().map(|c| format!("/{}{}", spell(r, c, true), *r.pick(&["", "", "/", "//"]))).collect::<String>()));
        forms.push(format!("[s:{}]", m.iter().map(|c| spell(r, c, true)).collect::<Vec<_>>().join(":")));
        forms.push(format!("[:{}]", sp(&m).iter().map(|b| format!("\\x{b:02x}")).collect::<String>()));
    }
    for f in &forms {
        o.eval();
        let g = e(f)?;
        ensure!(g == want, "space-form", "{f} gives {g:?}, expected {want:?}");
        o.count("forms");
    }
    // text of encoded bytes, and back
    let hex: String = sp(&m).iter().map(|b| format!("\\x{b:02x}")).collect();
    for f in [format!("[?space:{hex}]"), format!("[:{hex}/?:s]")] {
        if m.is_empty() {
            continue;
        }
        o.eval();
        let g = e(&f)?;
        let back = match &g {
            Ok(t) => {
                let t = String::from_utf8_lossy(t).into_owned();
                if f.starts_with("[?s") {
                    no_panic("parse", &|| t.clone(), || space_str(&t).map(|s| s.space_bytes().to_vec()).map_err(|e| e.to_string()))?
                } else {
                    e(&t)?
                }
            }
            Err(e) => Err(e.clone()),
        };
        ensure!(back == want, "space-encode", "{f} gives {g:?}, which is {back:?}, expected {want:?}");
        o.count("encoded");
    }
    // indexing
    if !m.is_empty() {
        let a = r.usize(11);
        let b = r.usize(12);
        let with = r.bool();
        let f = if with { format!("[si:{hex}:{a}:{b}]") } else { format!("[si:{hex}:{a}]") };
        o.eval();
        let g = e(&f)?;
        let end = if with { b } else { a + 1 }.min(8);
        let n = m.len();
        if a > 8 || a > end && !(a == 8 && !with) {
            ensure!(g.is_err(), "si-range", "{f} gives {g:?}");
            o.count("si:refused");
        } else {
            let want = sp(&m[a.min(n)..end.min(n).max(a.min(n))]);
            ensure!(g == Ok(want.clone()), "si", "{f} of {m:?} gives {g:?}, expected {want:?}");
            o.count("si:ok");
        }
    }
    // a link
    let mut tag = a16(r);
    if tag == [0; 16] {
        tag[15] = 1; // the text of a link has a tag
    }
    let ptr = a32(r);
    let first = tag.iter().position(|b| *b != 0).unwrap_or(16);
    let t = format!("{}:{}", refabe::enc(&tag[first..]), if r.bool() { format!("[b:{}]", b64(&ptr)) } else { b64(&ptr) });
    o.eval();
    let g = no_panic("link", &|| t.clone(), || t.parse::<LinkExpr>().map_err(|e| format!("{e:?}")).and_then(|l| l.eval(&sc).map_err(|e| format!("{e:?}"))))?;
    ensure!(g.as_ref().is_ok_and(|l| l.tag.0 == tag && l.ptr.0 == ptr), "link", "{t} reads as {g:?}");
    let d = g.unwrap().to_string();
    let g = no_panic("link", &|| d.clone(), || d.parse::<LinkExpr>().map_err(|e| format!("{e:?}")).and_then(|l| l.eval(&sc).map_err(|e| format!("{e:?}"))))?;
    ensure!(g.as_ref().is_ok_and(|l| l.tag.0 == tag && l.ptr.0 == ptr), "link-roundtrip", "{t} prints as {d} which reads as {g:?}");
    o.distinct(sp(&m));
    o.sample(|| format!("{p} = {m:?}"));
    Ok(())
}
/// any text: no panic, and only valid names come out
pub fn hostile_text_stage(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let n = r.range(0, 12);
    let mut m: Comps = (0..n).map(|_| raw(r)).collect();
    if r.bool() {
        m = comps(r);
    }
    let keep = m.iter().all(|c| !c.is_empty());
    let mut t = if keep { path(r, &m, false) } else { m.iter().map(|c| format!("/{}", refabe::enc(c))).collect() };
    let clean = r.chance(1, 3);
    if !clean {
        let mut b = t.into_bytes();
        gen::mutate(r, &mut b, b"/:[]\\\n a0~?#");
        t = String::from_utf8_lossy(&b).into_owned();
    }
    o.eval();
    let g = no_panic("space_str", &|| t.clone(), || space_str(&t).map(|s| s.space_bytes().to_vec()))?;
    if let Ok(b) = &g {
        ensure!(parse_space(b).is_some(), "text-invalid-space", "{t:?} reads as the malformed name {}", show(b));
        o.count("text:accepted");
    } else {
        o.count("text:refused");
    }
    if clean && keep {
        ensure!(g.is_ok() == fits(&m), "text-limit", "{t:?} accepted={} , {} components", g.is_ok(), m.len());
        if let Ok(b) = &g {
            ensure!(b[..] == sp(&m)[..], "parse", "{t:?}");
        }
    }
    let sc = scope();
    for f in [format!("[/{t}]"), format!("[/~{t}]"), format!("[?space:{t}]"), format!("[si:{t}:1:3]"), format!("[s:{}]", t.replace('/', ":"))] {
        o.eval();
        let g = no_panic("eval", &|| f.clone(), || ev(&f, &sc))?;
        if let (Ok(b), false) = (&g, f.starts_with("[?")) {
            let whole = abe::parse_abe(&f, false).is_ok_and(|p| p.len() == 1);
            ensure!(!whole || parse_space(b).is_some() || !(f.starts_with("[//") || f.starts_with("[/~") || f.starts_with("[s")), "form-invalid-space", "{f:?} gives the malformed name {}", show(b));
            o.count("form:accepted");
        }
    }
    let g = no_panic("link", &|| t.clone(), || t.parse::<LinkExpr>().map(|l| l.eval(&sc).is_ok()))?;
    o.count(if g.is_ok() { "link:parsed" } else { "link:refused" });
    o.distinct(t);
    Ok(())
}
const A: &[&str] = &["built against /repo/crates/pkt; names up to the documented limits (8 components, 200 bytes each, 242 bytes in all)"];
pub static P04: Prop = Prop {
    id: "P04",
    stages: &[
        Stage { name: "ops", quick: 60_000, thorough: 200_000, run: ops_stage },
        Stage { name: "bytes", quick: 300_000, thorough: 1_500_000, run: bytes_stage },
    ],
    rule: "distinct names reached and distinct candidate byte strings",
    assumptions: A,
    floors: &["op:ok", "op:refused", "rooted:ok", "rooted:refused", "bytes:valid", "bytes:invalid", "rooted-bytes:valid", "rooted-bytes:invalid"],
    opts: OPTS,
};
pub static P08: Prop = Prop {
    id: "P08",
    stages: &[
        Stage { name: "text", quick: 80_000, thorough: 250_000, run: text_stage },
        Stage { name: "hostile-text", quick: 80_000, thorough: 300_000, run: hostile_text_stage },
    ],
    rule: "distinct names written and read, distinct texts tried",
    assumptions: A,
    floors: &["printed", "forms", "encoded", "si:ok", "si:refused", "text:accepted", "text:refused"],
    opts: OPTS,
};
