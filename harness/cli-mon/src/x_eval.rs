//! expressions on the command line
use crate::gen;
use crate::lk::{self, Dir};
use crate::refabe::{self, A};
use crate::refeval::{self, EncErr, Env, E};
use crate::x_point::{self, Over};
use vmlib::{ensure, viol, Obs, Opts, Prop, Res, Rng, Stage, OPTS};

pub static X06: Prop = Prop {
    id: "X06",
    stages: &[
        Stage { name: "expressions", quick: 32_000, thorough: 400_000, run: expressions },
        Stage { name: "encodings", quick: 16_000, thorough: 200_000, run: encodings },
        Stage { name: "environment", quick: 2_000, thorough: 20_000, run: environment },
    ],
    rule: "lk eval of generated expressions, raw and as json, strict and not, with arguments read by every data option, next to an independent evaluator and a model of the data options; lk encode of generated bytes and options next to an independent encoder, its output put back through lk eval; variables of the environment with and without --env. Non-trivial: distinct command lines.",
    assumptions: &["clap and serde_json are stand-ins; json is compared after parsing it here", "functions of linkspace itself ([@:..], [#:..], stamps, files) are judged elsewhere (L03, L04, L06, X05)"],
    floors: &["values", "json", "json bytes", "strict", "not strict", "with arguments", "arguments used", "no such argument", "refused", "encoded", "not encoded", "encoded anyway", "back again", "variable", "no variable", "not enabled"],
    opts: Opts { stall_s: 90, as_mib: 16384, ..OPTS },
};
/// a list of pairs of a delimiter (or null) and a string or list of numbers
fn json(t: &str) -> Option<Vec<(Option<u8>, Vec<u8>)>> {
    struct P<'a>(&'a [u8], usize);
    impl P<'_> {
        fn ws(&mut self) {
            while self.0.get(self.1).map_or(false, |c| b" \n\t\r".contains(c)) {
                self.1 += 1
            }
        }
        fn is(&mut self, c: &[u8]) -> bool {
            self.ws();
            let y = self.0[self.1..].starts_with(c);
            if y {
                self.1 += c.len()
            }
            y
        }
        fn string(&mut self) -> Option<Vec<u8>> {
            if !self.is(b"\"") {
                return None;
            }
            let mut v = vec![];
            loop {
                let c = *self.0.get(self.1)?;
                self.1 += 1;
                match c {
                    b'"' => return Some(v),
                    b'\\' => {
                        let e = *self.0.get(self.1)?;
                        self.1 += 1;
                        match e {
                            b'n' => v.push(10),
                            b'r' => v.push(13),
                            b't' => v.push(9),
                            b'b' => v.push(8),
                            b'f' => v.push(12),
                            b'u' => {
                                let mut hex = || {
                                    let h = std::str::from_utf8(self.0.get(self.1..self.1 + 4)?).ok()?;
                                    self.1 += 4;
                                    u32::from_str_radix(h, 16).ok()
                                };
                                let mut n = hex()?;
                                if (0xd800..0xdc00).contains(&n) {
                                    if !self.0[self.1..].starts_with(b"\\u") {
                                        return None;
                                    }
                                    self.1 += 2;
                                    let h = std::str::from_utf8(self.0.get(self.1..self.1 + 4)?).ok()?;
                                    self.1 += 4;
                                    n = 0x10000 + ((n - 0xd800) << 10) + u32::from_str_radix(h, 16).ok()?.checked_sub(0xdc00)?;
                                }
                                v.extend(char::from_u32(n)?.to_string().as_bytes())
                            }
                            b'"' | b'\\' | b'/' => v.push(e),
                            _ => return None,
                        }
                    }
                    0..=31 => return None,
                    c => v.push(c),
                }
            }
        }
        fn list<T>(&mut self, mut f: impl FnMut(&mut Self) -> Option<T>) -> Option<Vec<T>> {
            let mut v = vec![];
            if !self.is(b"[") {
                return None;
            }
            if self.is(b"]") {
                return Some(v);
            }
            loop {
                v.push(f(self)?);
                if self.is(b"]") {
                    return Some(v);
                }
                if !self.is(b",") {
                    return None;
                }
            }
        }
        fn num(&mut self) -> Option<u8> {
            self.ws();
            let n = self.0[self.1..].iter().take_while(|c| c.is_ascii_digit()).count();
            let t = std::str::from_utf8(&self.0[self.1..self.1 + n]).ok()?;
            self.1 += n;
            t.parse().ok()
        }
    }
    let mut p = P(t.as_bytes(), 0);
    let v = p.list(|p| {
        if !p.is(b"[") {
            return None;
        }
        let c = match p.is(b"null") {
            true => None,
            false => match p.string()?[..] {
                [c] => Some(c),
                _ => return None,
            },
        };
        if !p.is(b",") {
            return None;
        }
        p.ws();
        let b = match p.0.get(p.1)? {
            b'"' => p.string()?,
            _ => p.list(|p| p.num())?,
        };
        p.is(b"]").then_some((c, b))
    })?;
    p.ws();
    (p.1 == t.len()).then_some(v)
}
/// names this scope knows and the reference does not
const OTHERS: &[&str] = &["@", "#", "s", "help", "now", "read", "env", "files", "local", "argv"];
/// an argument: text without a zero byte that is no option
fn arg(t: &[u8]) -> Option<String> {
    let t = std::str::from_utf8(t).ok()?;
    (!t.starts_with('-') && !t.contains('\0') && t != "argv" && t != "help").then(|| t.to_string())
}
fn expressions(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let d = Dir::new(o);
    let mut a = vec![r.pick(&["eval", "e"]).to_string()];
    // the arguments
    let mut args = vec![];
    let mut stdin = vec![];
    let mut tail = vec![];
    let mut failed = false;
    let with = r.chance(2, 5);
    if with {
        let (mut rd, extra, inp) = x_point::source(r, &d, true, true, 0);
        if rd.limit == usize::MAX && (rd.cycle || rd.src.is_none()) {
            return Ok(());
        }
        rd.over = Over::Error;
        while let Ok(Some(b)) = rd.next(usize::MAX) {
            args.push(b);
            if args.len() > 400 {
                return Ok(());
            }
        }
        failed |= rd.overflowed;
        stdin = inp;
        tail.push("argv".to_string());
        tail.extend(extra);
    }
    let mut text = match r.below(6) {
        0 => gen::text(r),
        1 => vmlib::gen::bytes(r, 20).iter().map(|c| c & 0x7f).collect(),
        2 => {
            let mut t: Vec<u8> = vec![];
            for _ in 0..r.range(1, 5) {
                match r.below(4) {
                    0 => t.extend("\u{e9}\n\u{1f600}".as_bytes()),
                    1 => t.push(*r.pick(b"ab:/ \t\r\n~,")),
                    2 => t.extend(format!("\\x{:02x}", r.u8()).bytes()),
                    _ => t.extend(refabe::print(&gen::seq(r, 1)).bytes()),
                }
            }
            t
        }
        _ => refabe::print(&gen::seq(r, 2)).into_bytes(),
    };
    let mut used = false;
    if r.chance(2, 3) && with || r.chance(1, 20) {
        let n = args.len();
        for _ in 0..r.range(1, 3) {
            let k = if r.chance(4, 5) && n > 0 { r.usize(n) } else { r.usize(n + 3) };
            let x = match r.below(4) {
                0 => format!("[{k}]"),
                1 => format!("[{k}/?b]"),
                2 => format!("[argv:{}:{}]", r.usize(n + 1), r.usize(n + 1)),
                _ => format!(":[{k}]/"),
            };
            if r.bool() {
                text.extend(x.bytes())
            } else {
                text.splice(0..0, x.bytes());
            }
        }
        used = true;
    }
    let Some(t) = arg(&text) else { return Ok(()) };
    let strict = r.chance(1, 3);
    let as_json = r.chance(1, 3);
    let mut front = vec![t.clone()];
    if strict {
        front.push(r.pick(&["--no-loose", "--strict"]).to_string())
    }
    if as_json {
        front.push("--json".into())
    }
    r.shuffle(&mut front);
    a.extend(front);
    a.extend(tail);
    let env = Env { arglist: Some(args.clone()), ..Default::default() };
    // [0] without arguments is no function
    let want = match refabe::parse(text.as_slice(), !strict) {
        Err(_) => Err(()),
        Ok(ast) => match refeval::eval(&env, &ast) {
            Ok(l) => Ok(l),
            Err(E::Unk | E::Big) => return Ok(()),
            Err(E::NoFunc(n) | E::NoMacro(n) | E::Macro(n) | E::Func(n)) if n.is_empty() || n.as_slice() == b"~" || OTHERS.iter().any(|k| n.starts_with(k.as_bytes())) => return Ok(()),
            Err(_) => Err(()),
        },
    };
    let line = lk::cmd(&a);
    let out = d.lk(&a, &stdin)?;
    o.distinct(&line);
    let why = || format!("{} arguments, {}", args.len(), out.errs());
    match want {
        Ok(l) if !failed => {
            ensure!(out.ok(), "refused", "lk {line}: {}, should be {l:?}", why());
            if as_json {
                let got = json(&String::from_utf8_lossy(&out.out));
                ensure!(out.out.ends_with(b"\n") && got.as_ref().map_or(false, |g| same(g, &l)), "json", "lk {line}: {:?} is not {l:?}", String::from_utf8_lossy(&out.out));
                o.count("json");
                if l.iter().any(|x| String::from_utf8(x.1.clone()).is_err()) {
                    o.count("json bytes")
                }
            } else {
                let want = refeval::concat(&l);
                ensure!(out.out == want, "value", "lk {line}: {:?} is not {want:?}", out.out);
                o.count("values");
            }
            if with {
                o.count("with arguments")
            }
            if used && with {
                o.count("arguments used")
            }
            o.count(if strict { "strict" } else { "not strict" });
        }
        _ => {
            ensure!(!out.ok() && out.out.is_empty(), "not refused", "lk {line}: {}, wrote {:?}", why(), String::from_utf8_lossy(&out.out));
            o.count(if used && text.starts_with(b"[") { "no such argument" } else { "refused" });
        }
    }
    o.sample(|| line.clone());
    Ok(())
}
/// the delimiter is part of the item it precedes
fn same(a: &[(Option<u8>, Vec<u8>)], b: &[(Option<u8>, Vec<u8>)]) -> bool {
    let j = |l: &[(Option<u8>, Vec<u8>)]| {
        let mut v: Vec<(Option<u8>, Vec<u8>)> = vec![];
        for x in l {
            match (x, v.last_mut()) {
                ((None, b), Some(l)) => l.1.extend(b),
                _ => v.push(x.clone()),
            }
        }
        v
    };
    j(a) == j(b)
}
fn encodings(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let d = Dir::new(o);
    let bytes = match r.below(4) {
        0 => {
            let n = *r.pick(&[1, 2, 4, 8, 16, 32, 64]);
            r.bytes(n)
        }
        1 => vec![0; r.usize(40)],
        _ => vmlib::gen::bytes(r, 60),
    };
    let ignore = r.usize(3);
    let opts = gen::encopts(r);
    let Some(t) = arg(refabe::print(&opts).as_bytes()) else { return Ok(()) };
    if t.is_empty() {
        return Ok(());
    }
    let mut a = vec![r.pick(&["encode", "n"]).to_string(), t];
    for _ in 0..ignore {
        a.push(r.pick(&["-i", "--ignore-err"]).to_string())
    }
    let n = a.len();
    r.shuffle(&mut a[1..n]);
    let line = format!("{} < {bytes:?}", lk::cmd(&a));
    let out = d.lk(&a, &bytes)?;
    o.distinct(&line);
    let want = match refeval::encode(&bytes, &opts, ignore > 0) {
        Ok(s) => Some(s),
        Err(EncErr::Options | EncErr::Failed | EncErr::None) => None,
    };
    let anyway = want.is_none() && ignore > 1;
    let want = want.or(anyway.then(|| refabe::enc(&bytes)));
    match &want {
        Some(w) => {
            ensure!(out.ok() && out.out == w.as_bytes(), "encoding", "lk {line}: {:?} (exit {:?}), should be {w:?}: {}", String::from_utf8_lossy(&out.out), out.code, out.errs());
            o.count(if anyway { "encoded anyway" } else { "encoded" });
        }
        None => {
            ensure!(!out.ok() && out.out.is_empty(), "not refused", "lk {line}: wrote {:?}", String::from_utf8_lossy(&out.out));
            o.count("not encoded");
        }
    }
    // what was written is an expression of what was read
    if out.ok() {
        if let Some(t) = arg(&out.out) {
            let mut b = lk::s(&["eval", &t]);
            if r.bool() {
                b.push("--no-loose".into())
            }
            let back = d.lk(&b, b"")?;
            ensure!(back.ok() && back.out == bytes, "not back", "lk {line}: {t:?} is {:?} {}", back.out, back.errs());
            o.count("back again");
        }
    }
    Ok(())
}
fn environment(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let d = Dir::new(o);
    let name = *r.pick(&["FOO", "foo_1", "X"]);
    let val: String = (0..r.usize(12)).map(|_| *r.pick(&['a', ' ', '[', ']', ':', '\\', '\n', '\u{e9}'])).collect();
    let on = r.chance(3, 4);
    let there = r.chance(3, 4);
    let mut a = vec![];
    if on {
        a.push("--env".to_string())
    }
    let (t, f): (String, fn(&[u8]) -> Vec<u8>) = match r.below(3) {
        0 => (format!("[env:{name}]"), |b| b.to_vec()),
        1 => (format!("x[env:{name}]y"), |b| [b"x", b, b"y"].concat()),
        _ => (format!("[env:{name}/?b]"), |b| refeval::b64enc(b, false).into_bytes()),
    };
    a.extend(lk::s(&["eval", &t]));
    let env: Vec<(&str, &str)> = if there { vec![(name, &val)] } else { vec![] };
    let out = d.lk_env(&a, b"", &env)?;
    let line = lk::cmd(&a);
    o.distinct((&line, &val, there));
    if on && there {
        ensure!(out.ok() && out.out == f(val.as_bytes()), "variable", "lk {line} with {val:?}: {:?} {}", String::from_utf8_lossy(&out.out), out.errs());
        o.count("variable");
    } else if out.ok() {
        return viol("not refused", format!("lk {line} ({there}): {:?}", String::from_utf8_lossy(&out.out)));
    } else {
        ensure!(out.out.is_empty(), "not refused", "lk {line}: {:?}", out.out);
        o.count(if on { "no variable" } else { "not enabled" });
    }
    Ok(())
}
#[allow(dead_code)]
fn _a(_: A) {}
