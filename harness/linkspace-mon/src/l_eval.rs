//! L07: expressions evaluated with a runtime, user data, the environment and files
use crate::rt::{self, any};
use crate::world::{self, pool, Item, Store};
use linkspace::abe::scope::{self, UserData};
use linkspace::abe::*;
use linkspace::prelude::*;
use linkspace::*;
use std::collections::BTreeMap;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use vmlib::{ensure, no_panic, show, viol, Obs, Prop, Res, Rng, Stage, OPTS};

pub static L07: Prop = Prop {
    id: "L07",
    stages: &[Stage { name: "reading", quick: 1_500, thorough: 100_000, run: reading }, Stage { name: "scopes", quick: 20_000, thorough: 1_000_000, run: scopes }, Stage { name: "encoding", quick: 10_000, thorough: 500_000, run: encoding }, Stage { name: "tokens", quick: 20_000, thorough: 1_000_000, run: tokens }, Stage { name: "files", quick: 1_500, thorough: 80_000, run: files }],
    rule: "expressions that read packets of a store by hash (as a function and as a macro with an alternative) and by domain, group, space and key, evaluated in scopes with and without a runtime, a packet, arguments and the environment; encodings with any options; texts split at the delimiters that were not excluded; files written and read by paths that try to escape. Each result is compared with what the packets, arguments, variables and a model of the directory say. Non-trivial: distinct expressions and results.",
    assumptions: &["[read:..] of a space that no packet has, while packets below it exist, is not judged"],
    floors: &["read by hash", "hash not stored", "private refused", "private allowed", "macro", "macro alternative", "macro inside a packet", "read by space", "newest of several", "nothing to read", "arguments", "missing argument", "too many arguments", "packet in scope", "environment", "environment disabled", "no runtime", "loose", "encoded", "fell back", "split", "excluded twice", "split stopped", "file written", "file kept", "file read", "escape refused", "file missing"],
    opts: OPTS,
};
fn esc(b: &[u8]) -> String {
    b.iter().map(|c| if c.is_ascii_alphanumeric() { (*c as char).to_string() } else { format!("\\x{c:02x}") }).collect()
}
fn b64(r: &mut Rng, h: &[u8; 32]) -> String {
    match r.below(3) {
        0 => format!("[b:{}]", B64(*h)),
        1 => esc(h),
        _ => format!("[:{}]", esc(h)),
    }
}
/// an expression about a packet, and its value where that is known
fn field(r: &mut Rng, i: &Item) -> (String, Option<Vec<u8>>) {
    let x = &i.x;
    let id = *r.pick(&["hash", "data", "data", "group", "domain", "pubkey", "create", "links_len", "data_size", "type", "size", "stamp", "hop", "links", "netbytes", "space", "rspace", "pkt", "pkt-quick", "comp0", "recv", "recv_now", "nosuchfield"]);
    let args = *r.pick(&["", "", "", ":str", ":abe", ":bogus", ":str:str"]);
    let v = match id {
        "hash" => Some(x.hash.to_vec()),
        "data" => Some(x.data.clone()),
        "group" if x.lp.is_some() => Some(x.lp.unwrap().1.to_vec()),
        "domain" if x.lp.is_some() => Some(x.lp.unwrap().2.to_vec()),
        "create" if x.lp.is_some() => Some(x.lp.unwrap().0.to_be_bytes().to_vec()),
        _ => None,
    };
    (format!("{id}{args}"), v.filter(|_| args.is_empty()))
}
fn ev(lk: Option<&Linkspace>, u: UserData<'_>, env: bool, e: &str) -> Result<Vec<u8>, String> {
    let s = scope::lk_scope(lk, u, env).map_err(|e| e.to_string())?;
    varscope::lk_eval(s, e, false).map_err(|e| e.to_string())
}
fn agree(what: &str, e: &str, got: &Result<Vec<u8>, String>, want: &Result<Vec<u8>, String>) -> Res {
    match (got, want) {
        (Ok(a), Ok(b)) if a == b => Ok(()),
        (Err(_), Err(_)) => Ok(()),
        (Ok(a), Ok(b)) => viol(format!("{what} differs"), format!("{e}: got {} instead of {}", show(a), show(b))),
        (Ok(a), Err(b)) => viol(format!("{what} accepted"), format!("{e}: got {} instead of the error '{b}'", show(a))),
        (Err(a), Ok(b)) => viol(format!("{what} refused"), format!("{e}: got the error '{a}' instead of {}", show(b))),
    }
}
struct Private;
impl Private {
    fn set(r: &mut Rng) -> (Private, bool) {
        let ok = match r.below(6) {
            0 => {
                std::env::set_var("LK_PRIVATE", "false");
                false
            }
            1 => {
                std::env::set_var("LK_PRIVATE", *r.pick(&["", "1", "yes", "TRUE"]));
                false
            }
            2 | 3 => {
                std::env::set_var("LK_PRIVATE", "true");
                true
            }
            _ => false,
        };
        (Private, ok)
    }
}
impl Drop for Private {
    fn drop(&mut self) {
        std::env::remove_var("LK_PRIVATE")
    }
}
fn private(i: &Item) -> bool {
    i.x.lp.map(|l| l.1) == Some([0; 32])
}
fn reading(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let st = Store::new(o, "e");
    let lk = rt::runtime(st.env());
    let mut items: Vec<&'static Item> = if r.bool() { world::pick(r, 30) } else { (0..r.range(1, 20)).map(|_| any(r)).collect() };
    items.dedup_by_key(|i| i.x.hash);
    if let Err(e) = st.save(&items) {
        return viol("save", e.to_string());
    }
    lk_process(&lk);
    for _ in 0..r.range(4, 16) {
        o.eval();
        let (_p, allowed) = Private::set(r);
        let user = if r.chance(1, 3) { Some(any(r)) } else { None };
        let u = UserData { pkt: user.map(|i| &i.pkt as &dyn NetPkt), argv: None };
        let i = if r.chance(3, 4) { *r.pick(&items) } else { r.pick(pool()) };
        let stored = items.iter().any(|k| k.x.hash == i.x.hash);
        let refused = private(i) && !allowed;
        // the packet as it is stored, or on its own
        let kept = |i: &Item| match lk.as_impl().get_reader().read(&B64(i.x.hash)) {
            Ok(Some(p)) => Box::new(p.owned()) as Box<dyn NetPkt>,
            _ => Box::new(i.pkt.clone()) as Box<dyn NetPkt>,
        };
        let direct = |f: &str| ev(Some(&lk), UserData { pkt: Some(&*kept(i)), argv: None }, false, f);
        match r.below(3) {
            0 => {
                let (f, known) = field(r, i);
                let none = r.chance(1, 10);
                let e = format!("[readhash:{}{}{}]", b64(r, &i.x.hash), if none { "" } else { ":" }, if none { "" } else { &f });
                let got = no_panic("reading by hash", &|| e.clone(), || ev(Some(&lk), u, false, &e))?;
                o.distinct((&e, user.is_some()));
                if !stored {
                    o.count("hash not stored");
                    ensure!(got.is_err(), "absent packet read", "{e}: {} is not stored, got {}", B64(i.x.hash), show(&got.unwrap()));
                    continue;
                }
                if refused {
                    o.count("private refused");
                    ensure!(got.is_err(), "private packet read", "{e} of a packet in the private group gives {}", show(&got.unwrap()));
                    continue;
                }
                if private(i) {
                    o.count("private allowed")
                }
                let want = match known {
                    Some(v) if !none => Ok(v),
                    _ => direct(&if none { "[pkt]".to_string() } else { format!("[{f}]") }),
                };
                agree("readhash", &e, &got, &want)?;
                o.count("read by hash");
                if want.is_ok() {
                    o.distinct(want)
                }
            }
            1 => {
                let (f, known) = field(r, i);
                let (ab, bb) = (r.array::<2>(), r.array::<1>());
                let (pre, post) = (esc(&ab), esc(&bb));
                let alt: Option<(String, Result<Vec<u8>, String>)> = match r.below(4) {
                    0 => None,
                    1 => Some(("[nosuchfunc:1]".into(), Err("no such func".into()))),
                    2 => Some(("".into(), Ok(vec![]))),
                    _ => Some(("no[u8:1]ne".into(), Ok(b"no\x01ne".to_vec()))),
                };
                let extra = r.chance(1, 12);
                let mut e = format!("[/readhash:{}:{pre}[{f}]{post}", b64(r, &i.x.hash));
                if let Some((a, _)) = &alt {
                    e.push(':');
                    e += a
                }
                if extra && alt.is_some() {
                    e += ":more"
                }
                e.push(']');
                let got = no_panic("the readhash macro", &|| e.clone(), || ev(Some(&lk), u, false, &e))?;
                o.distinct((&e, user.is_some()));
                if extra && alt.is_some() {
                    ensure!(got.is_err(), "extra arguments accepted", "{e} gives {}", show(&got.unwrap()));
                    continue;
                }
                if stored && refused {
                    o.count("private refused");
                    ensure!(got.is_err(), "private packet read", "{e} of a packet in the private group gives {}", show(&got.unwrap()));
                    continue;
                }
                let want = if stored {
                    o.count("macro");
                    if user.is_some() {
                        o.count("macro inside a packet")
                    }
                    match known {
                        Some(v) => Ok([&ab[..], &v, &bb].concat()),
                        None => direct(&format!("{pre}[{f}]{post}")),
                    }
                } else {
                    o.count("macro alternative");
                    alt.map(|a| a.1).unwrap_or(Err("no alternative".into()))
                };
                agree("readhash macro", &e, &got, &want)?;
                // the documented equality
                if stored && r.bool() {
                    let (fe, me) = (format!("[readhash:{}:{f}]", esc(&i.x.hash)), format!("[/readhash:{}:[{f}]]", esc(&i.x.hash)));
                    agree("macro against function", &me, &ev(Some(&lk), u, false, &me), &ev(Some(&lk), u, false, &fe))?;
                }
            }
            _ => {
                let (group, domain, comps, key) = match i.x.lp {
                    Some((_, g, d)) => (g, d, i.x.comps.clone(), i.x.signed.map(|s| s.0)),
                    None => (crate::refpkt::PUBLIC, *b"\0\0\0\0\0\0\0\0\0\0\0\0test", vec![], None),
                };
                let (f, _) = field(r, i);
                // leading zeros may be left out
                let z = domain.iter().position(|c| *c != 0).unwrap_or(15);
                let d = esc(&domain[if r.bool() { z } else { 0 }..]);
                let mut e = format!("[read:{d}:{}", if group == crate::refpkt::PUBLIC && r.bool() { "[#:pub]".to_string() } else { b64(r, &group) });
                let mut parts = 2;
                let (mut comps, mut key) = (comps, key);
                if r.chance(1, 8) {
                    comps = vec![];
                    key = None;
                } else {
                    e += &format!(":{}", esc(&crate::refpkt::sp(&comps)));
                    parts = 3;
                    if r.chance(1, 4) {
                        key = None;
                    }
                    match key {
                        None if r.chance(1, 3) => {}
                        None => {
                            e += if r.bool() { ":[@:none]" } else { ":[b2:0/l:32]" };
                            if e.ends_with("l:32]") {
                                e.truncate(e.len() - "[b2:0/l:32]".len());
                                e += &esc(&[0; 32]);
                            }
                            parts = 4
                        }
                        Some(k) => {
                            e += &format!(":{}", b64(r, &k));
                            parts = 4
                        }
                    }
                }
                let with = parts == 4 && r.chance(3, 4);
                if with {
                    e += &format!(":{f}")
                }
                e.push(']');
                let got = no_panic("reading by space", &|| e.clone(), || ev(Some(&lk), u, false, &e))?;
                o.distinct((&e, user.is_some()));
                if group == [0; 32] {
                    if !allowed {
                        o.count("private refused");
                        ensure!(got.is_err(), "private packet read", "{e} of a packet in the private group gives {}", show(&got.unwrap()));
                        continue;
                    }
                    o.count("private allowed");
                }
                let under: Vec<&&Item> = items.iter().filter(|k| k.x.lp.map(|l| (l.1, l.2)) == Some((group, domain)) && k.x.signed.map(|s| s.0) == key && k.x.comps.starts_with(&comps)).collect();
                let exact: Vec<&&&Item> = under.iter().filter(|k| k.x.comps == comps).collect();
                if under.is_empty() {
                    o.count("nothing to read");
                    ensure!(got.is_err(), "nothing was read", "{e}: nothing stored there, got {}", show(&got.unwrap()));
                    continue;
                }
                if exact.is_empty() {
                    continue;
                }
                let max = exact.iter().map(|k| k.x.lp.unwrap().0).max().unwrap();
                let newest: Vec<&&&&Item> = exact.iter().filter(|k| k.x.lp.unwrap().0 == max).collect();
                let wants: Vec<Result<Vec<u8>, String>> = newest.iter().map(|k| ev(Some(&lk), UserData { pkt: Some(&*kept(k)), argv: None }, false, &if with { format!("[{f}]") } else { "[pkt]".to_string() })).collect();
                if !wants.iter().any(|w| agree("read", &e, &got, w).is_ok()) {
                    return viol("read differs", format!("{e}: got {:?} instead of {:?}", got.map(|v| show(&v)), wants[0].as_ref().map(|v| show(v))));
                }
                o.count("read by space");
                if exact.len() > 1 {
                    o.count("newest of several")
                }
            }
        }
    }
    o.sample(|| format!("{} packets", items.len()));
    Ok(())
}
fn scopes(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let n = *r.pick(&[0, 1, 2, 3, 7, 8, 9, 12]);
    let has_argv = r.chance(2, 3);
    let args: Vec<Vec<u8>> = (0..n).map(|_| vmlib::gen::bytes(r, 20)).collect();
    let argv: Vec<&[u8]> = args.iter().map(|v| &v[..]).collect();
    let pkt = if r.bool() { Some(any(r)) } else { None };
    let u = UserData { pkt: pkt.map(|i| &i.pkt as &dyn NetPkt), argv: if has_argv { Some(&argv) } else { None } };
    let env = r.bool();
    let loose = r.chance(1, 3);
    let via = r.below(2);
    let mut e = String::new();
    let mut want: Option<Vec<u8>> = Some(vec![]);
    let put = |w: &mut Option<Vec<u8>>, v: &[u8]| {
        if let Some(w) = w {
            w.extend(v)
        }
    };
    let mut kinds: Vec<&str> = vec![];
    for _ in 0..r.range(1, 5) {
        match r.below(9) {
            0 => {
                let b = r.array::<2>();
                e += &esc(&b);
                put(&mut want, &b)
            }
            1 | 2 => {
                let k = r.usize(9);
                e += &format!("[{k}]");
                if has_argv && k < n && k < 8 {
                    kinds.push("arguments");
                    put(&mut want, &args[k])
                } else {
                    kinds.push("missing argument");
                    want = None
                }
            }
            3 | 4 => {
                let f = *r.pick(&["hash", "data"]);
                e += &format!("[{f}]");
                match pkt {
                    Some(i) => {
                        kinds.push("packet in scope");
                        put(&mut want, if f == "hash" { &i.x.hash } else { &i.x.data })
                    }
                    None => want = None,
                }
            }
            5 => {
                let v = r.array::<4>();
                let k = format!("VM_{}", r.below(3));
                if r.chance(3, 4) {
                    let v: Vec<u8> = v.iter().copied().filter(|c| *c != 0).collect();
                    std::env::set_var(&k, std::ffi::OsString::from_vec(v.clone()));
                } else {
                    std::env::remove_var(&k);
                }
                let now = std::env::var_os(&k).map(|v| v.as_bytes().to_vec());
                e += &format!("[env:{}]", esc(k.as_bytes()));
                // an earlier part may read the same variable: evaluated after all are set
                let earlier = e.matches(&format!("[env:{}]", esc(k.as_bytes()))).count() > 1;
                if earlier {
                    return Ok(());
                }
                if via == 1 && env {
                    kinds.push("environment");
                    match now {
                        Some(v) => put(&mut want, &v),
                        None => want = None,
                    }
                } else {
                    kinds.push("environment disabled");
                    want = None
                }
            }
            6 => {
                let t = *r.pick(&["é", "🔗🔗", "ab c", "~"]);
                e += t;
                if !t.is_ascii() && !loose {
                    want = None
                } else {
                    if !t.is_ascii() {
                        kinds.push("loose");
                    }
                    put(&mut want, t.as_bytes())
                }
            }
            7 => {
                e += *r.pick(&["[#:pub]", "[u8:65]", "[:abc]"]);
                let t = &e[e.rfind('[').unwrap()..];
                put(&mut want, match t {
                    "[#:pub]" => &crate::refpkt::PUBLIC,
                    "[u8:65]" => b"A",
                    _ => b"abc",
                })
            }
            _ if r.chance(1, 4) => {
                kinds.push("no runtime");
                e += &match r.below(3) {
                    0 => format!("[readhash:{}:data]", esc(&r.array::<32>())),
                    1 => "[read:test:[#:pub]]".to_string(),
                    _ => "[files:x]".to_string(),
                };
                want = None
            }
            _ => {}
        }
    }
    if has_argv && n > 8 {
        kinds.push("too many arguments");
        want = None
    }
    let got = no_panic("lk_eval", &|| format!("{e} with {} arguments", n), || {
        if via == 0 {
            if loose {
                lk_eval_loose(&e, u)
            } else {
                lk_eval(&e, u)
            }
        } else {
            scope::lk_scope(None, u, env).and_then(|s| varscope::lk_eval(s, &e, loose))
        }
        .map_err(|e| e.to_string())
    })?;
    let ctx = format!("{e} with {} arguments (given: {has_argv}), a packet: {}, environment: {}, loose: {loose}", n, pkt.is_some(), via == 1 && env);
    agree("scope", &ctx, &got, &want.clone().ok_or_else(|| "expected".to_string()))?;
    for k in kinds {
        o.count(k)
    }
    o.distinct((&e, &want, loose));
    o.sample(|| ctx);
    Ok(())
}
fn encoding(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let b: Vec<u8> = match r.below(6) {
        0 => crate::refpkt::PUBLIC.to_vec(),
        1 => vec![0; *r.pick(&[0, 1, 2, 4, 8, 16, 32])],
        2 => pool()[r.usize(pool().len())].x.hash.to_vec(),
        3 => crate::refpkt::sp(&crate::refpkt::comps(r)),
        4 => {
            let n = *r.pick(&[1, 2, 4, 8, 16, 32]);
            r.bytes(n)
        }
        _ => vmlib::gen::bytes(r, 40),
    };
    const F: [&str; 24] = ["u8", "u16", "u32", "u64", "u128", "b", "#", "@", "a", "a:\\x00", "", ":", "x", "i32", "us", "s", "/", "b2", "b16", "nosuchfunc", "e", "lp", "0", "private#"];
    let opts = (0..r.range(0, 4)).map(|_| *r.pick(&F)).collect::<Vec<_>>().join("/");
    let w = || format!("{} with '{opts}'", show(&b));
    let t = no_panic("lk_encode", &w, || lk_encode(&b, &opts))?;
    ensure!(t.bytes().all(|c| (0x20..0x7f).contains(&c)), "encoding not printable", "{}: {t:?}", w());
    match lk_eval(&t, ()) {
        Ok(v) if v == b => {}
        v => return viol("encoding differs", format!("{}: {t} evaluates to {:?}", w(), v.map(|v| show(&v)))),
    }
    o.count("encoded");
    if !t.starts_with('[') {
        o.count("fell back")
    }
    for ignore in [true, false] {
        let x = no_panic("lk_try_encode", &w, || lk_try_encode(&b, &opts, ignore))?;
        if let Ok(x) = x {
            match lk_eval(&x, ()) {
                Ok(v) if v == b => {}
                v => return viol("encoding differs", format!("{}: {x} evaluates to {:?}", w(), v.map(|v| show(&v)))),
            }
            if ignore {
                ensure!(x == t, "encodings differ", "{}: lk_encode {t} and lk_try_encode {x}", w());
            }
        }
    }
    // as a function of the language
    if let Some(f) = opts.split('/').next().filter(|f| !f.is_empty() && !opts.contains('/') && f.bytes().all(|c| c.is_ascii_alphanumeric())) {
        let e = format!("[?:{}:{f}]", esc(&b));
        let (x, y) = (lk_eval(&e, ()), lk_try_encode(&b, f, false));
        match (&x, &y) {
            (Ok(a), Ok(c)) => ensure!(a == c.as_bytes(), "? differs", "{e}: {} and {c}", show(a)),
            (Err(_), Err(_)) => {}
            _ => return viol("? differs", format!("{e}: {:?} and {:?}", x.map(|v| show(&v)), y.map_err(|e| e.to_string()))),
        }
    }
    o.distinct((&b, &opts));
    o.sample(|| format!("{} gives {t}", w()));
    Ok(())
}
fn tokens(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    const C: [u8; 3] = [b'/', b':', b'\n'];
    let excl: Vec<u8> = (0..*r.pick(&[0, 0, 1, 1, 2, 3, 4])).map(|_| *r.pick(&[b'/', b'/', b':', b'\n', b'a', 0, 255])).collect();
    let mut e = String::new();
    let mut want: Vec<(u8, bool, String)> = vec![(0, false, String::new())];
    for _ in 0..r.range(0, 8) {
        match r.below(3) {
            0 => {
                let c = *r.pick(&C);
                e.push(c as char);
                if excl.contains(&c) {
                    want.last_mut().unwrap().2.push(c as char)
                } else {
                    want.push((c, false, String::new()))
                }
            }
            1 => {
                let t = *r.pick(&["a", "xyz", "\\:", "\\/", "\\n", "\\x01", " ", "\\[", "\\]", "\\\\"]);
                e += t;
                want.last_mut().unwrap().2 += t
            }
            _ => {
                let t = *r.pick(&["[:]", "[::]", "[/]", "[a:b/c]", "[a:[b:c]/d]", "[\n]", "[\\]]", "[]"]);
                e += t;
                let l = want.last_mut().unwrap();
                l.1 = true;
                l.2 += t
            }
        }
    }
    // nothing after the last delimiter is not a component
    if want.last().map(|l| l.2.is_empty()) == Some(true) {
        want.pop();
    }
    let stop = if r.chance(1, 4) { r.usize(want.len().max(1)) } else { usize::MAX };
    let w = || format!("{e:?} without {}", show(&excl));
    let mut got: Vec<(u8, bool, String)> = vec![];
    let res = no_panic("lk_tokenize_abe", &w, || {
        lk_tokenize_abe(&e, &excl, |c, b, t| {
            got.push((c, b, t.to_string()));
            got.len() <= stop
        })
    })?;
    ensure!(res.is_ok(), "text refused", "{}: {:?}", w(), res.err().map(|e| e.to_string()));
    if stop != usize::MAX {
        o.count("split stopped");
        want.truncate(stop + 1)
    }
    ensure!(got == want, "split differs", "{}: got {got:?} instead of {want:?}", w());
    if got.len() > 1 {
        o.count("split")
    }
    if C.iter().any(|c| excl.iter().filter(|e| *e == c).count() % 2 == 0 && excl.contains(c) && e.contains(*c as char)) {
        o.count("excluded twice")
    }
    o.distinct((&e, &excl));
    Ok(())
}
fn listing(p: &Path, out: &mut BTreeMap<PathBuf, Option<Vec<u8>>>) {
    if let Ok(d) = std::fs::read_dir(p) {
        for f in d.flatten() {
            let p = f.path();
            if p.is_dir() {
                out.insert(p.clone(), None);
                listing(&p, out)
            } else {
                out.insert(p.clone(), std::fs::read(&p).ok());
            }
        }
    }
}
fn files(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    // deep enough for every escape to stay within the scratch directory
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let top = o.scratch.join(format!("files{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
    struct Rm(PathBuf);
    impl Drop for Rm {
        fn drop(&mut self) {
            world::rmdir(&self.0)
        }
    }
    let deep = top.join("d1/d2/d3/d4");
    std::fs::create_dir_all(&deep).expect("scratch");
    let top = top.canonicalize().expect("scratch");
    let deep = top.join("d1/d2/d3/d4");
    let _rm = Rm(top.clone());
    let sub = Obs { scratch: deep.clone(), ..Obs::default() };
    let st = Store::new(&sub, "f");
    std::env::set_var("TMPDIR", o.scratch.parent().unwrap_or(&o.scratch));
    let lk = rt::runtime(st.env());
    let imp = lk.as_impl();
    let root = match imp.files() {
        Some(p) => p.to_path_buf(),
        None => return viol("no files", "a runtime on a directory has no files"),
    };
    ensure!(root.starts_with(&st.path), "files elsewhere", "the files of {} are in {}", st.path.display(), root.display());
    std::fs::write(deep.join("secret"), b"secret").expect("scratch");
    let mut before = BTreeMap::new();
    listing(&top, &mut before);
    before.retain(|p, _| !p.starts_with(&root));
    // what is in the directory
    let mut model: BTreeMap<PathBuf, Vec<u8>> = BTreeMap::new();
    let mut hist = String::new();
    for _ in 0..r.range(3, 25) {
        o.eval();
        let n = *r.pick(&[1, 1, 2, 2, 3]);
        let mut comps: Vec<String> = (0..n)
            .map(|_| match r.below(16) {
                0 | 1 => "..".to_string(),
                2 => ".".to_string(),
                3 => "".to_string(),
                4 => "x".repeat(*r.pick(&[255, 256])),
                5 => "é ~".to_string(),
                6 => "a\0b".to_string(),
                7 => "...".to_string(),
                _ => r.pick(&["a", "b", "c", "secret"]).to_string(),
            })
            .collect();
        if r.chance(1, 10) {
            comps = vec!["..".into(); r.range(1, 4)];
            comps.push("secret".into());
        }
        let mut path = comps.join("/");
        if path.starts_with('/') {
            path.insert_str(0, top.to_str().unwrap_or(""))
        } else if r.chance(1, 10) {
            path = format!("{}/{}", *r.pick(&[deep.to_str().unwrap_or(""), root.to_str().unwrap_or("")]), path)
        }
        // as paths work: repeated and inner single dots mean nothing
        let abs = path.starts_with('/');
        let parts: Vec<&str> = path.split('/').collect();
        let escape = abs || parts.iter().any(|p| *p == "..") || parts[0] == ".";
        let norm: PathBuf = parts.iter().filter(|p| !p.is_empty() && **p != ".").collect();
        let trailing = path.ends_with('/') || path.ends_with("/.");
        let bad = norm.as_os_str().is_empty() || path.contains('\0') || parts.iter().any(|p| p.len() > 255) || trailing;
        // a file in the way, or a directory in place of it
        let blocked = norm.ancestors().skip(1).any(|a| model.contains_key(a));
        hist += &format!("{path:?} ");
        let w = || hist.clone();
        if r.bool() {
            let data = vmlib::gen::bytes(r, 30);
            let over = r.bool();
            let res = no_panic("set_files_data", &w, || imp.set_files_data(Path::new(&path), &data, over))?;
            let is_dir = root.join(&norm).is_dir() && !escape;
            let exists = model.contains_key(&norm);
            let ok = !escape && !bad && !blocked && !is_dir && (over || !exists);
            if escape {
                o.count("escape refused")
            }
            if exists && !over && !escape && !bad {
                o.count("file kept")
            }
            if !trailing || escape {
                ensure!(res.is_ok() == ok, if res.is_ok() { "file accepted" } else { "file refused" }, "writing {path:?} (overwrite: {over}) after {hist}: {:?}", res.map_err(|e| format!("{e:#}")));
            } else if res.is_ok() {
                // not judged, but known
                model.insert(norm, data);
                continue;
            }
            if ok {
                o.count("file written");
                model.insert(norm, data);
            }
        } else {
            let err = r.bool();
            let func = r.chance(1, 3);
            let res: Result<Option<Vec<u8>>, String> = if func {
                let e = format!("[files:{}]", esc(path.as_bytes()));
                no_panic("[files]", &w, || ev(Some(&lk), ().into(), false, &e))?.map(Some)
            } else {
                no_panic("files_data", &w, || imp.files_data(Path::new(&path), err))?.map_err(|e| format!("{e:#}"))
            };
            if escape {
                o.count("escape refused");
                ensure!(res.is_err(), "escape read", "reading {path:?} gives {:?}", res.unwrap().map(|v| show(&v)));
                continue;
            }
            if bad {
                ensure!(!matches!(res, Ok(Some(_))) || trailing, "impossible file read", "reading {path:?} gives {:?}", res.unwrap().map(|v| show(&v)));
                continue;
            }
            match model.get(&norm) {
                Some(d) => {
                    o.count("file read");
                    ensure!(res.as_ref().ok().and_then(|x| x.as_ref()) == Some(d), "file differs", "reading {path:?} after {hist}: {:?} instead of {}", res.map(|v| v.map(|v| show(&v))), show(d));
                }
                None => {
                    o.count("file missing");
                    let soft = !func && !err && !blocked && !root.join(&norm).is_dir();
                    if soft {
                        ensure!(res == Ok(None), "missing file", "reading {path:?} after {hist}: {res:?}");
                    } else if !blocked || err || func {
                        ensure!(res.is_err(), "missing file", "reading {path:?} after {hist}: {res:?}");
                    }
                }
            }
        }
        o.distinct(&path);
    }
    // only what was written is there, and nothing elsewhere changed
    let mut after = BTreeMap::new();
    listing(&top, &mut after);
    let inside: BTreeMap<PathBuf, Vec<u8>> = after.iter().filter_map(|(p, d)| Some((p.strip_prefix(&root).ok()?.to_path_buf(), d.clone()?))).collect();
    ensure!(inside == model, "files differ", "after {hist}: {:?} instead of {:?}", inside.keys(), model.keys());
    after.retain(|p, _| !p.starts_with(&root));
    for (p, d) in &after {
        if !before.contains_key(p) || (before[p] != *d && p.ends_with("secret")) {
            return viol("file escaped", format!("{} changed after {hist}", p.display()));
        }
    }
    ensure!(before.keys().all(|p| after.contains_key(p)), "file escaped", "a file outside disappeared after {hist}");
    o.sample(|| hist);
    Ok(())
}
