//! keys and their names
use crate::lk::{self, Dir, Out};
use crate::refpkt::{KEY, LINK};
use crate::refpred::b64;
use linkspace_argon2_identity as ident;
use std::collections::BTreeMap;
use vmlib::{ensure, viol, Obs, Opts, Prop, Res, Rng, Stage, Viol, OPTS};

pub static X05: Prop = Prop {
    id: "X05",
    stages: &[Stage { name: "keys", quick: 400, thorough: 12_000, run: keys }],
    rule: "random histories of lk key, keypoint and eval, each command a process of its own, over a few names, passwords and keys, next to a model of which name holds which key under which password: what is printed, what is refused, what is kept, who signs. A printed key is decrypted, a signature checked with an independent curve. Non-trivial: distinct histories.",
    assumptions: &["clap and rpassword are stand-ins; a password is never asked for", "the cost of the default is looked at, keys are otherwise made with --decrypt-cost 0"],
    floors: &[
        "made", "read", "read without a check", "wrong password", "exists", "not there", "overwritten", "brought in", "brought in without a check", "bad key", "not kept", "password changed", "password changed and kept", "not a local name", "signed by name", "signed by key", "signed with the wrong password", "name to key", "no such name", "shown", "default cost",
    ],
    opts: Opts { stall_s: 90, as_mib: 16384, ..OPTS },
};
#[derive(Clone, Debug)]
struct K {
    enc: String,
    pubkey: [u8; 32],
    pass: Vec<u8>,
}
const PASS: &[&[u8]] = &[b"", b"x", b"hunter2", b"a b", b"\xff\x00\n", b"p:q", "\u{e9}t\u{e9}".as_bytes()];
/// as the argument wants it
fn abe(p: &[u8]) -> String {
    p.iter().map(|c| match c {
        b' ' | b'a'..=b'z' | b'0'..=b'9' => (*c as char).to_string(),
        c => format!("\\x{c:02x}"),
    })
    .collect()
}
fn pass(r: &mut Rng, p: &[u8], a: &mut Vec<String>, env: &mut Vec<(&'static str, String)>) {
    let text = std::str::from_utf8(p).ok().filter(|t| !t.contains('\0'));
    let v = match text {
        Some(t) if r.bool() => {
            a.push(r.pick(&["--utf8-password", "-u"]).to_string());
            t.to_string()
        }
        _ => abe(p),
    };
    match r.below(3) {
        0 => env.push(("LK_PASS", v)),
        n => a.push(format!("{}={v}", ["--pass", "--password"][n as usize - 1])),
    }
}
/// what the two lines say
fn lines(line: &str, out: &Out, enc: bool, key: bool) -> Result<(Option<String>, Option<[u8; 32]>), Viol> {
    let t = String::from_utf8_lossy(&out.out).to_string();
    let l: Vec<&str> = t.lines().collect();
    ensure!(l.len() == enc as usize + key as usize && (t.is_empty() || t.ends_with('\n')), "printed", "{line}: {t:?}");
    let mut i = l.into_iter();
    let e = if enc { i.next().map(String::from) } else { None };
    let k = match if key { i.next() } else { None } {
        None => None,
        Some(k) => match unb64(k) {
            Some(k) => Some(k),
            None => return viol("printed", format!("{line}: {k:?} is not a key")),
        },
    };
    Ok((e, k))
}
fn unb64(t: &str) -> Option<[u8; 32]> {
    let mut v = vec![];
    let (mut n, mut acc) = (0, 0u32);
    for c in t.bytes() {
        let d = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'-' | b'+' => 62,
            b'_' | b'/' => 63,
            _ => return None,
        };
        acc = acc << 6 | d as u32;
        n += 6;
        if n >= 8 {
            n -= 8;
            v.push((acc >> n) as u8);
            acc &= (1 << n) - 1;
        }
    }
    v.try_into().ok()
}
/// is it the key, under the password?
fn opens(line: &str, enc: &str, key: &[u8; 32], pass: &[u8]) -> Res {
    let at: Vec<&str> = enc.split('$').collect();
    ensure!(at.len() == 6 && at[1] == "argon2d", "form", "{line}: {enc:?}");
    ensure!(unb64(at[4]) == Some(*key), "another key", "{line}: {enc:?} is not of {}", b64(key));
    match ident::decrypt(enc, pass) {
        Ok(k) => {
            let p = ident::pubkey(&ident::encrypt(&k, pass, Some(ident::INSECURE_COST)));
            ensure!(p.as_ref().map_or(false, |p| p[..] == key[..]), "another key", "{line}: decrypted, {enc:?} is of another key");
        }
        Err(e) => return viol("not opened", format!("{line}: {enc:?} with {pass:?}: {e:?}")),
    }
    for w in PASS.iter().filter(|_| !enc.contains("m=131072")) {
        ensure!(*w == pass || ident::decrypt(enc, w).is_err(), "opened by any", "{line}: {enc:?} of {pass:?} with {w:?}");
    }
    Ok(())
}
fn keys(r: &mut Rng, i: u64, o: &mut Obs) -> Res {
    o.eval();
    let d = Dir::new(o);
    let out = d.lk(&lk::s(&["init"]), b"")?;
    ensure!(out.ok(), "refused", "lk init: {}", out.errs());
    let names = ["me", "bob", "alice"];
    let mut held: BTreeMap<&str, K> = Default::default();
    let mut made: Vec<K> = vec![];
    for (k, e) in lk::enckeys().iter().enumerate() {
        made.push(K { enc: e.clone(), pubkey: crate::refpkt::keys()[k].1, pass: lk::PW.into() });
    }
    let mut story = vec![];
    for step in 0..r.range(3, 12) {
        let name = *r.pick(&names);
        let now = held.get(name).cloned();
        let right = |r: &mut Rng, k: &K| if r.chance(2, 3) { k.pass.clone() } else { r.pick(PASS).to_vec() };
        let mut a: Vec<String> = vec![];
        let mut env = vec![];
        let named = |r: &mut Rng, a: &mut Vec<String>, env: &mut Vec<(&'static str, String)>| match r.below(4) {
            0 if name == "me" => {}
            1 => env.push(("LK_KEYNAME", format!("{name}:local"))),
            n => a.push(format!("{}={name}:local", if n == 2 { "--key" } else { "-k" }).replace("-k=", "-k")),
        };
        let run = |d: &Dir, first: &[&str], a: &[String], env: &[(&'static str, String)]| -> Result<(String, Out), Viol> {
            let mut v = lk::s(first);
            v.extend(a.iter().cloned());
            let e: Vec<(&str, &str)> = env.iter().map(|(k, v)| (*k, &v[..])).collect();
            let line = format!("lk {} {e:?} ({name}: {:?}, step {step})", lk::cmd(&v), now.as_ref().map(|k| (&k.enc, &k.pass)));
            let out = d.lk_env(&v, b"", &e)?;
            Ok((line, out))
        };
        let what = r.below(12);
        match what {
            // make, read, replace
            0..=6 => {
                named(r, &mut a, &mut env);
                let open = r.chance(1, 6);
                let new = r.chance(1, 6);
                let over = r.chance(1, 3);
                let skip = r.chance(1, 5);
                let given = r.chance(1, 4).then(|| r.pick(&made).clone());
                let bad = given.is_some() && r.chance(1, 6);
                let keep = !(r.chance(1, 6) && !open && !new && !over && a.is_empty() && env.is_empty());
                let change = r.chance(1, 5).then(|| r.pick(PASS).to_vec()).filter(|_| now.is_some() || given.is_some() || r.chance(1, 4));
                let at = given.clone().or(now.clone().filter(|_| keep));
                let p = match &at {
                    Some(k) if !(over && given.is_none() && change.is_none()) => right(r, k),
                    _ => r.pick(PASS).to_vec(),
                };
                pass(r, &p, &mut a, &mut env);
                let utf8 = a.iter().any(|a| a == "-u" || a == "--utf8-password");
                let (mut enc, mut key) = (true, true);
                for (on, t) in [(open, r.pick(&["--open", "--error-none"])), (new, r.pick(&["--create-new", "--error-some"])), (over, &"--overwrite"), (skip, &"--no-check"), (!keep, &"--no-lk")] {
                    if on {
                        a.push(t.to_string())
                    }
                }
                if r.chance(1, 6) {
                    a.push("--no-enckey".into());
                    enc = false
                }
                if r.chance(1, 6) {
                    a.push("--no-pubkey".into());
                    key = false
                }
                if let Some(g) = &given {
                    a.push(format!("--enckey={}", if bad { g.enc[..g.enc.len() - 8].to_string() } else { g.enc.clone() }));
                }
                if let Some(n) = &change {
                    let text = std::str::from_utf8(n).ok().filter(|t| !t.contains('\0'));
                    match (utf8, text) {
                        (true, None) => {
                            // (both are read the same way)
                            a.retain(|a| a != "-u" && a != "--utf8-password");
                            let v = abe(&p);
                            for x in a.iter_mut().filter(|a| a.starts_with("--pass")) {
                                *x = format!("--pass={v}")
                            }
                            for x in env.iter_mut().filter(|e| e.0 == "LK_PASS") {
                                x.1 = v.clone()
                            }
                            a.push(format!("--new-pass-str={}", abe(n)))
                        }
                        (true, Some(t)) => a.push(format!("--new-pass-str={t}")),
                        (false, _) => a.push(format!("--new-pass-str={}", abe(n))),
                    }
                }
                let costly = i % 40 == 0 && step == 0 && change.is_none() && given.is_none();
                if !costly {
                    a.push("--decrypt-cost=0".into())
                }
                r.shuffle(&mut a);
                let (line, out) = run(&d, &["key"], &a, &env)?;
                story.push(line.clone());
                // what should have been
                let right = at.as_ref().map_or(false, |k| k.pass == p);
                let err = if given.is_none() && keep && now.is_none() && open {
                    Some("not there")
                } else if given.is_none() && keep && now.is_some() && new {
                    Some("exists")
                } else if change.is_some() && at.is_none() {
                    Some("not there")
                } else if change.is_some() && (bad || !right) {
                    Some(if bad { "bad key" } else { "wrong password" })
                } else if over {
                    if given.is_none() && change.is_none() || change.is_some() {
                        None
                    } else if bad {
                        Some("bad key")
                    } else if !skip && !right {
                        Some("wrong password")
                    } else {
                        None
                    }
                } else if given.is_some() && keep {
                    Some("bad key")
                } else if at.is_some() && bad {
                    Some("bad key")
                } else if at.is_some() && change.is_none() && !skip && !right {
                    Some("wrong password")
                } else {
                    None
                };
                if let Some(e) = err {
                    ensure!(!out.ok() && out.out.is_empty(), "not refused", "{line}: {e}; wrote {:?}", String::from_utf8_lossy(&out.out));
                    o.count(e);
                    check(&d, name, now.as_ref())?;
                    continue;
                }
                ensure!(out.ok(), "refused", "{line}: {}", out.errs());
                let (e, k) = lines(&line, &out, enc, key)?;
                let fresh = at.is_none() || (over && given.is_none() && change.is_none());
                // what is kept, as another command finds it
                let stored = if keep { look(&d, name)? } else { None };
                let kept = if fresh { keep } else { over && keep };
                if !kept {
                    ensure!(stored == now.as_ref().map(|k| k.pubkey) || !keep, "kept", "{line}: now it is {:?}", stored.map(|s| b64(&s)));
                }
                let want_pass = change.clone().unwrap_or(if fresh { p.clone() } else { at.as_ref().unwrap().pass.clone() });
                let known = if fresh { None } else { at.as_ref().map(|k| k.pubkey) };
                for k in k.iter().chain(stored.iter().filter(|_| kept)) {
                    ensure!(known.map_or(true, |w| w == *k), "another key", "{line}: {} is not {}", b64(k), b64(&known.unwrap_or_default()));
                }
                let public = k.or(stored.filter(|_| kept)).or(e.as_ref().and_then(|e| unb64(e.split('$').nth(4).unwrap_or(""))));
                if let (Some(k), Some(s)) = (k, stored.filter(|_| kept)) {
                    ensure!(k == s, "another key", "{line}: {} is kept, {} printed", b64(&s), b64(&k));
                }
                let Some(public) = public else {
                    o.count("nothing to see");
                    continue;
                };
                if let Some(e) = &e {
                    opens(&line, e, &public, &want_pass)?;
                    let cost = e.split('$').nth(3).unwrap_or("").to_string();
                    if fresh || change.is_some() {
                        let want = if costly { "m=131072,t=4,p=4" } else { "m=8,t=1,p=1" };
                        ensure!(cost == want, "cost", "{line}: {cost}");
                        if costly {
                            o.count("default cost")
                        }
                    } else {
                        ensure!(e == &at.as_ref().unwrap().enc, "another encoding", "{line}: {e}");
                    }
                }
                if fresh {
                    ensure!(!made.iter().any(|m| m.pubkey == public), "made before", "{line}: {}", b64(&public));
                }
                if kept {
                    // what is printed when asked again
                    let mut b = lk::s(&["key", "--no-check", "--open", "--no-pubkey"]);
                    b.push(format!("--key={name}:local"));
                    let again = d.lk(&b, b"")?;
                    let (g, _) = lines(&line, &again, true, false)?;
                    let g = g.unwrap_or_default();
                    ensure!(again.ok() && e.as_ref().map_or(true, |e| *e == g), "kept another", "{line}: printed {e:?}, kept {g:?}");
                    opens(&line, &g, &public, &want_pass)?;
                    held.insert(name, K { enc: g.clone(), pubkey: public, pass: want_pass.clone() });
                    made.push(K { enc: g, pubkey: public, pass: want_pass });
                } else if let Some(e) = e {
                    made.push(K { enc: e, pubkey: public, pass: want_pass });
                }
                o.count(match (fresh, kept, change.is_some()) {
                    (true, true, _) if now.is_some() => "overwritten",
                    (true, true, _) => "made",
                    (true, false, _) => "not kept",
                    (_, true, true) => "password changed and kept",
                    (_, true, _) if !right => "brought in without a check",
                    (_, true, _) => "brought in",
                    (_, _, true) => "password changed",
                    _ if !right => "read without a check",
                    _ => "read",
                });
                if costly {
                    break;
                }
            }
            // a name that is not local, or too long
            7 => {
                let n = *r.pick(&["bob", "bob:com", "local:bob", "x:bob:local", "bob/local"]);
                a.push(format!("--key={n}"));
                pass(r, b"x", &mut a, &mut env);
                a.push("--decrypt-cost=0".into());
                if r.bool() {
                    a.push("--overwrite".into())
                }
                let (line, out) = run(&d, &["key"], &a, &env)?;
                ensure!(!out.ok() && out.out.is_empty(), "not refused", "{line}: a name that is not local");
                o.count("not a local name");
            }
            // a signature
            8 | 9 => {
                let given = r.chance(1, 3).then(|| r.pick(&made).clone());
                match &given {
                    Some(g) => a.push(format!("--enckey={}", g.enc)),
                    None => named(r, &mut a, &mut env),
                }
                let at = given.clone().or(now.clone());
                let p = at.as_ref().map_or(b"x".to_vec(), |k| right(r, k));
                pass(r, &p, &mut a, &mut env);
                a.push("dom:[#:pub]".into());
                let (line, out) = run(&d, &["keypoint"], &a, &env)?;
                match at.filter(|k| k.pass == p) {
                    None => {
                        ensure!(!out.ok() && out.out.is_empty(), "signed", "{line}: {} bytes", out.out.len());
                        o.count("signed with the wrong password");
                    }
                    Some(k) => {
                        ensure!(out.ok(), "refused", "{line}: {}", out.errs());
                        let v = lk::packets(&out.out).map_err(|e| Viol { sig: "stream".into(), msg: format!("{line}: {e}") })?;
                        ensure!(v.len() == 1 && v[0].kind == KEY, "signed", "{line}: {} packets", v.len());
                        let by = v[0].signed.map(|s| s.0).unwrap_or_default();
                        ensure!(by == k.pubkey, "signed by another", "{line}: {}", b64(&by));
                        ensure!(v[0].sig_ok(), "signature", "{line}");
                        o.count(if given.is_some() { "signed by key" } else { "signed by name" });
                    }
                }
            }
            // what is in the store
            10 => {
                let out = d.lk(&lk::s(&["watch-log", "--asc", "--bare", "--db-only"]), b"")?;
                let _ = out;
                let v = lk::packets(&out.out).map_err(|e| Viol { sig: "stream".into(), msg: e })?;
                ensure!(v.iter().all(|p| p.kind != LINK && p.kind != KEY), "shown to all", "a name of this instance is a packet that is not private ({})", story.last().cloned().unwrap_or_default());
            }
            // the password, shown
            _ => {
                let p = r.pick(PASS).to_vec();
                pass(r, &p, &mut a, &mut env);
                a.extend(lk::s(&["--no-lk", "--display-pass", "--decrypt-cost=0", "--no-enckey"]));
                let (line, out) = run(&d, &["key"], &a, &env)?;
                ensure!(out.ok(), "refused", "{line}: {}", out.errs());
                let t = String::from_utf8_lossy(&out.out).to_string();
                let (first, rest) = t.split_once('\n').unwrap_or((&t, ""));
                ensure!(unb64(rest.trim_end()).is_some(), "printed", "{line}: {t:?}");
                // what is shown can be given
                let out = d.lk(&lk::s(&["eval", first]), b"")?;
                ensure!(out.ok() && out.out == p, "password shown", "{line}: {first:?} is {:?}", out.out);
                o.count("shown");
            }
        }
        check(&d, name, held.get(name))?;
        match held.get(name) {
            Some(_) => o.count("name to key"),
            None => o.count("no such name"),
        }
    }
    o.distinct(&story);
    o.max("names", held.len() as u64);
    o.sample(|| story.join("; ").chars().take(600).collect());
    Ok(())
}
/// the key of a name
fn look(d: &Dir, name: &str) -> Result<Option<[u8; 32]>, Viol> {
    let out = d.lk(&lk::s(&["eval", &format!("[@:{name}:local]")]), b"")?;
    if out.ok() {
        match out.out.clone().try_into() {
            Ok(k) => return Ok(Some(k)),
            Err(_) => return viol("name", format!("lk eval [@:{name}:local]: {:?}", out.out)),
        }
    }
    ensure!(out.out.is_empty(), "name", "lk eval [@:{name}:local] failed and wrote {:?}", out.out);
    Ok(None)
}
fn check(d: &Dir, name: &str, want: Option<&K>) -> Res {
    let got = look(d, name)?;
    ensure!(got == want.map(|k| k.pubkey), "name", "{name}:local is {:?}, not {:?}", got.map(|g| b64(&g)), want.map(|k| b64(&k.pubkey)));
    Ok(())
}
