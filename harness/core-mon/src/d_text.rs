//! D04: queries as text
use crate::d_query::build;
use crate::refpred::{self, esc, Cond, Sat, EQ, FIELDS};
use crate::world::{pick, pool, COMPS};
use linkspace_core::env::query_mode::Mode;
use linkspace_core::eval::core_scope;
use linkspace_core::prelude::*;
use linkspace_core::predicate::test_pkt::compile_predicates;
use vmlib::{ensure, no_panic, viol, Obs, Prop, Res, Rng, Stage, OPTS};

pub static D04: Prop = Prop {
    id: "D04",
    stages: &[
        Stage { name: "roundtrip", quick: 90_000, thorough: 1_200_000, run: roundtrip },
        Stage { name: "options", quick: 60_000, thorough: 800_000, run: options },
        Stage { name: "builders", quick: 36_000, thorough: 400_000, run: builders },
        Stage { name: "single", quick: 90_000, thorough: 1_200_000, run: single },
        Stage { name: "hostile", quick: 180_000, thorough: 4_000_000, run: hostile },
    ],
    rule: "a query printed as text, canonical or not, reads back as the same query; its statements can come in any order and at once or one by one; what the builder functions make is what the statements make; options are found by name, the latest first; and text that is not a query is refused without a panic",
    assumptions: &["up to 7 predicates and 4 options a query"],
    floors: &["round-trips", "empty-query", "refused", "accepted", "reordered", "option-found", "option-missing", "option-not-single", "builder", "hostile-accepted", "hostile-refused", "single-accepted", "single-refused"],
    opts: OPTS,
};
fn parse(txt: &str) -> Result<Result<Query, String>, vmlib::Viol> {
    no_panic("Query::parse", &|| txt.to_string(), || {
        let mut q = Query::DEFAULT;
        q.parse(txt.as_bytes(), &core_scope()).map(|_| q).map_err(|e| format!("{e:#}"))
    })
}
/// The same query. A statement can imply which types of point there are to be found more than once (an empty
/// space is of no prefix, only a link point has a depth ...), so the types are compared by what they accept.
fn same_pred(a: &Query, b: &Query) -> bool {
    let untyped = |q: &Query| PktPredicates { pkt_types: TestSet::DEFAULT, ..q.predicates.clone() };
    let tests = |q: &Query| -> Vec<_> { compile_predicates(&q.predicates).0.map(|t| t.0).collect() };
    untyped(a) == untyped(b) && (a.predicates.pkt_types == b.predicates.pkt_types || {
        let (a, b) = (tests(a), tests(b));
        pool().iter().all(|i| a.iter().all(|t| t.test(&i.pkt)) == b.iter().all(|t| t.test(&i.pkt)))
    })
}
fn same(a: &Query, b: &Query) -> bool {
    same_pred(a, b) && a.options().to_string() == b.options().to_string()
}
fn prints(q: &Query, from: &dyn Fn() -> String, o: &mut Obs) -> Res {
    // 'at least the greatest hash' is printed as 'is the greatest hash', and only the latter implies taking one
    if q.predicates.hash.bound.as_eq().is_some() && q.predicates.state.i_query.bound.as_eq() != Some(0) {
        o.count("hash-by-inequality");
        return Ok(());
    }
    // of a prefix, but not of a type with a space: takes nothing, and its text can say so
    if !q.predicates.rspace_prefix.is_empty() && ![3u8, 7].iter().any(|t| q.predicates.pkt_types.test(*t)) {
        o.count("prefix-without-space");
        return Ok(());
    }
    for (what, t) in [("canonical", q.to_str(true)), ("plain", q.to_str(false)), ("Display", q.to_string())] {
        o.eval();
        let b = parse(&t)?;
        match b {
            Err(e) => return viol("print-parse", format!("the {what} text of a query is refused with {e}:\n{t}\nof\n{}", from())),
            Ok(b) => {
                ensure!(same(q, &b), "print-parse", "the {what} text of a query reads back as another query:\n{t}\nprints as\n{}\nof\n{}", b.to_str(true), from());
                            }
        }
        o.count("round-trips");
    }
    // the predicates one by one
    let mut p = PktPredicates::DEFAULT;
    for r in q.predicates.iter() {
        if let Err(e) = no_panic("add_predicate", &|| r.to_string(), || p.add_predicate(&r).map_err(|e| format!("{e:#}")))? {
            return viol("rules", format!("the predicate {r} of a query is refused by another with {e}\n{}", from()));
        }
    }
    ensure!(same_pred(&Query { predicates: p.clone(), conf: Default::default() }, q), "rules", "the predicates of a query, added one by one, give\n{p}\nexpected\n{}", q.predicates);
    let t = q.predicates.to_str(true);
    ensure!(t == q.predicates.to_string().trim_end() || t.is_empty(), "predicates-text", "{t}\n and \n{}", q.predicates);
    if t.is_empty() {
        o.count("empty-query")
    }
    o.distinct(t);
    Ok(())
}
fn gen(r: &mut Rng) -> Vec<Cond> {
    let n = *r.pick(&[0, 1, 1, 2, 2, 3, 4, 5]);
    let mut c = refpred::conds(r, n, &|_, r| 1_700_000_000_000_000 + r.below(1000), &refpred::all_fields());
    for k in 0..4 {
        if r.chance(1, 5) {
            c.push(refpred::limit(r, k))
        }
    }
    if r.bool() {
        r.shuffle(&mut c)
    }
    c
}
fn roundtrip(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let c = gen(r);
    let (txt, q) = build(r, &c)?;
    let sat = refpred::sat(&c);
    match q {
        Err(e) => {
            ensure!(sat != Sat::Yes, "refused-satisfiable", "refused with {e}\n{txt}");
            o.count("refused");
        }
        Ok(q) => {
            ensure!(sat != Sat::No, "accepts-contradiction", "accepted, though nothing can pass\n{txt}");
            o.count("accepted");
            prints(&q, &|| txt.clone(), o)?;
            // any order
            let mut l: Vec<&str> = txt.lines().collect();
            r.shuffle(&mut l);
            let t2 = l.join(if r.bool() { "\n" } else { "\n\n" });
            match parse(&t2)? {
                Err(e) => ensure!(sat == Sat::Either, "order", "accepted in one order, refused in another with {e}\n{t2}\nfirst\n{txt}"),
                Ok(b) => {
                    ensure!(same_pred(&b, &q), "order", "another order gives another query\n{t2}\n{}\nfirst\n{txt}\n{}", b.to_str(true), q.to_str(true));
                    o.count("reordered");
                }
            }
            // twice is once
            if let Ok(b) = parse(&format!("{txt}\n{txt}"))? {
                ensure!(same_pred(&b, &q), "repeat", "saying it twice gives another query\n{txt}")
            } else {
                return viol("repeat", format!("saying it twice is refused\n{txt}"));
            }
        }
    }
    Ok(())
}
const NAMES: [&[u8]; 7] = [b"mode", b"qid", b"follow", b"notify-close", b"x", b"", b"a b"];
fn options(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let mut q = Query::DEFAULT;
    // (name, values)
    let mut opts: Vec<(Vec<u8>, Vec<Vec<u8>>)> = vec![];
    // those added later are found first
    let mut lines: Vec<String> = vec![];
    for _ in 0..r.below(4) {
        let mut block = vec![];
        for _ in 0..*r.pick(&[1, 1, 2, 3]) {
            let name = r.pick(&NAMES).to_vec();
            let vals: Vec<Vec<u8>> = (0..*r.pick(&[0, 1, 1, 1, 2]))
                .map(|_| if r.bool() { r.pick(&[&b"tree-asc"[..], b"log-desc", b"hash-asc", b"", b"\xff", b"log", b"Tree-asc"]).to_vec() } else { r.array::<3>()[..r.usize(4)].to_vec() })
                .collect();
            let line = format!(":{}{}", esc(&name), vals.iter().map(|v| format!(":{}", esc(v))).collect::<String>());
            block.push((name, vals, line));
        }
        if block.len() == 1 && r.bool() && std::str::from_utf8(&block[0].0).is_ok() {
            let v: Vec<&[u8]> = block[0].1.iter().map(|v| &v[..]).collect();
            q.add_option(std::str::from_utf8(&block[0].0).unwrap(), &v);
        } else {
            let t = block.iter().map(|b| format!("{}\n", b.2)).collect::<String>();
            if let Err(e) = no_panic("option lines", &|| t.clone(), || q.parse(t.as_bytes(), &core_scope()).map_err(|e| e.to_string()))? {
                return viol("option-line", format!("{t} is refused with {e}"));
            }
            o.count(if block.len() > 1 { "option blocks" } else { "option lines" });
        }
        // of one text the topmost is found first
        for (name, vals, line) in block.into_iter().rev() {
            opts.push((name, vals));
            lines.push(line)
        }
    }
    let mut txt: String = lines.iter().rev().map(|l| format!("{l}\n")).collect();
    if r.bool() {
        let c = gen(r);
        let (t, p) = build(r, &c)?;
        if let Ok(p) = p {
            q.predicates = p.predicates;
            txt.push_str(&t);
        }
    }
    prints(&q, &|| txt.clone(), o)?;
    let b = match parse(&txt)? {
        Ok(b) => b,
        Err(e) => return viol("option-text", format!("refused with {e}\n{txt}")),
    };
    ensure!(same(&q, &b), "option-text", "{txt}\n parses as\n{}\n expected\n{}", b.to_str(true), q.to_str(true));
    for name in NAMES {
        o.eval();
        let want = opts.iter().rev().find(|x| x.0 == name);
        let got = no_panic("get_option", &|| txt.clone(), || q.get_option(name).map(|x| x.map(|x| x.map(|b| b.to_vec()))).map_err(|e| e.to_string()))?;
        let ok = match (&got, want) {
            (Ok(None), None) => {
                o.count("option-missing");
                true
            }
            (Ok(Some(None)), Some((_, v))) => v.is_empty(),
            (Ok(Some(Some(x))), Some((_, v))) => {
                o.count("option-found");
                v.len() == 1 && v[0] == *x
            }
            (Err(_), Some((_, v))) => {
                o.count("option-not-single");
                v.len() > 1
            }
            _ => false,
        };
        ensure!(ok, "get-option", "option {} is {got:?}, expected {want:?} of\n{txt}", vmlib::show(name));
        if name == b"qid" {
            let x = q.qid().map(|x| x.map(|x| x.map(|b| b.to_vec()))).map_err(|e| e.to_string());
            ensure!(x == got, "qid", "qid is {x:?}, the option {got:?}");
        }
        if name == b"mode" {
            let m = no_panic("mode", &|| txt.clone(), || q.mode().map_err(|e| e.to_string()))?;
            let want = match &got {
                Ok(None) | Ok(Some(None)) => Some(None),
                Ok(Some(Some(x))) => crate::d_query::MODES.iter().find(|m| m.as_bytes() == &x[..]).map(|m| Some(m.to_string())),
                Err(_) => None,
            };
            match (&m, &want) {
                (Ok(m), Some(w)) => ensure!(m.map(|m| m.to_string()) == *w, "mode", "mode {m:?}, expected {w:?}"),
                (Err(_), None) => {}
                _ => return viol("mode", format!("mode is {m:?}, expected {want:?} of\n{txt}")),
            }
            if let Ok(m) = m {
                ensure!(q.get_mode().ok() == Some(m.unwrap_or(Mode::TREE_DESC)), "get-mode", "get_mode gives {:?}", q.get_mode());
            }
        }
    }
    Ok(())
}
fn builders(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let x = &pool()[r.usize(pool().len())].x;
    let (stamp, g, d) = x.lp.unwrap_or((7, [3; 32], [0; 16]));
    let gf = |n: &str| FIELDS.iter().position(|f| f.0 == n).unwrap();
    let group = Cond::F(gf("group"), EQ, g.to_vec());
    let domain = Cond::F(gf("domain"), EQ, d.to_vec());
    let comps: Vec<Vec<u8>> = if r.chance(1, 4) { vec![] } else { refpred::comps(r) };
    let refs: Vec<&[u8]> = comps.iter().map(|c| &c[..]).collect();
    let sp = SpaceBuf::try_from_iter(&refs).map_err(|e| vmlib::Viol { sig: "space".into(), msg: e.to_string() })?;
    let key = x.signed.map(|s| s.0).unwrap_or([9; 32]);
    let (G, D, K) = (GroupID::from(g), Domain::from(d), PubKey::from(key));
    let types = |q: PktPredicates, c: &[Cond], r: &mut Rng| -> Result<(PktPredicates, PktPredicates, String), vmlib::Viol> {
        let (t, w) = build(r, c)?;
        let mut w = w.map_err(|e| vmlib::Viol { sig: "builder".into(), msg: format!("{e}\n{t}") })?.predicates;
        // the functions do not add the implied point type
        w.pkt_types = q.pkt_types;
        Ok((q, w, t))
    };
    let k = r.below(6);
    let inp = || format!("builder {k} with space {:?}", comps.iter().map(|c| vmlib::show(c)).collect::<Vec<_>>());
    let (a, w, t) = match k {
        0 => {
            let exact = r.bool();
            let q = no_panic("from_gdp", &inp, || PktPredicates::from_gdp(G, D, &sp, exact))?;
            let mut c = vec![group, domain];
            if !comps.is_empty() {
                c.push(Cond::Space(exact, comps.clone()))
            } else if exact {
                c.push(Cond::F(gf("depth"), EQ, vec![0]))
            }
            types(q, &c, r)?
        }
        1 => types(PktPredicates::from_gd(G, D), &[group, domain], r)?,
        2 => {
            let q = no_panic("space", &inp, || PktPredicates::DEFAULT.space(&sp))?.map_err(|e| vmlib::Viol { sig: "builder".into(), msg: e.to_string() })?;
            let c = if comps.is_empty() { vec![Cond::F(gf("depth"), EQ, vec![0])] } else { vec![Cond::Space(true, comps.clone())] };
            types(q, &c, r)?
        }
        3 => {
            let q = PktPredicates::DEFAULT.key(K).map_err(|e| vmlib::Viol { sig: "builder".into(), msg: e.to_string() })?;
            types(q, &[Cond::F(gf("pubkey"), EQ, key.to_vec())], r)?
        }
        4 => {
            let s = stamp.max(1);
            let q = PktPredicates::DEFAULT.create_before(Stamp::from(s)).map_err(|e| vmlib::Viol { sig: "builder".into(), msg: e.to_string() })?;
            types(q, &[Cond::F(gf("create"), refpred::OPS[2], s.to_be_bytes().to_vec())], r)?
        }
        _ => {
            let q = Query::hash_eq(linkspace_pkt::LkHash::from(x.hash));
            ensure!(q.get_mode().ok().map(|m| m.to_string()) == Some("hash-asc".into()), "hash-eq-mode", "hash_eq asks for mode {:?}", q.get_mode());
            prints(&q, &|| "hash_eq".into(), o)?;
            types(q.predicates, &[Cond::F(gf("hash"), EQ, x.hash.to_vec())], r)?
        }
    };
    ensure!(a == w, "builder", "builder {k} gives\n{a}\nexpected\n{w}\nfrom\n{t}");
    o.count("builder");
    Ok(())
}
/// any one predicate of any kind with any operand
fn single(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let kinds: Vec<RuleType> = RuleType::iter_all().collect();
    let kind = *r.pick(&kinds);
    let op = refpred::OPS[r.usize(6)].test_op().unwrap();
    let n = if r.chance(2, 3) { kind.fixed_size().unwrap_or(3) } else { *r.pick(&[0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 43, 64]) };
    let mut v = r.bytes(n);
    match r.below(6) {
        0 => v.iter_mut().for_each(|b| *b = 0),
        1 => v.iter_mut().for_each(|b| *b = 255),
        2 => v.iter_mut().for_each(|b| *b = b'a' + *b % 26),
        _ => {}
    }
    if matches!(kind, RuleType::SpacePrefix) && r.bool() {
        let c = refpred::comps(r);
        v = crate::refpkt::sp(&c);
    }
    let p = Predicate::from_slice(kind, op, &v);
    let inp = || format!("{kind} {op} {}", vmlib::show(&v));
    let mut q = PktPredicates::DEFAULT;
    let ok = no_panic("add_predicate", &inp, || q.add_predicate(&p).map_err(|e| format!("{e:#}")))?;
    let t = no_panic("Predicate::to_str", &inp, || (p.to_str(true), p.to_str(false)))?;
    o.distinct((kind.to_string(), op.to_string(), v.len(), ok.is_ok()));
    match ok {
        Ok(()) => {
            o.count("single-accepted");
            let q = Query::from(q);
            for t in [&t.0, &t.1] {
                match parse(t)? {
                    Ok(b) => ensure!(same_pred(&b, &q), "predicate-text", "{} is written {t}, which reads as\n{}\nexpected\n{}", inp(), b.to_str(true), q.to_str(true)),
                    Err(e) => return viol("predicate-text", format!("{} is written {t}, which is refused with {e}", inp())),
                }
            }
            prints(&q, &inp, o)
        }
        Err(_) => {
            o.count("single-refused");
            Ok(())
        }
    }
}
fn hostile(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let c = gen(r);
    let mut t: Vec<u8> = c.iter().map(|c| c.text(r) + "\n").collect::<String>().into_bytes();
    let frag: [&[u8]; 36] = [
        b":", b"/", b"\n", b"[", b"]", b"=", b">=", b"<=", b"*=", b"=*", b"0", b"1", b"?", b"[u8:0]", b"[u32:1]", b"[now]", b"[now:-1D]", b"[b:AAAA]", b"\\x00", b"\xff", b"[#:pub]", b"[@:none]",
        b"recv", b"prefix", b"spacename", b"domain", b"group", b"depth", b"i", b"i_branch", b"\\f", b"[//a/b]", b"[/:", b"[::", b":mode:", b"[u64:18446744073709551615]",
    ];
    if r.chance(1, 3) {
        t.clear();
        for _ in 0..r.range(1, 8) {
            let f = refpred::FIELDS[r.usize(17)].0;
            match r.below(4) {
                0 => t.extend_from_slice(f.as_bytes()),
                _ => t.extend_from_slice(frag[r.usize(frag.len())]),
            }
            if r.bool() {
                t.push(b':')
            }
        }
    } else {
        for _ in 0..r.range(1, 4) {
            if t.is_empty() {
                break;
            }
            let k = r.usize(t.len());
            match r.below(5) {
                0 => {
                    t.remove(k);
                }
                1 => t[k] = r.u8(),
                2 => t.truncate(k),
                _ => {
                    let f = frag[r.usize(frag.len())];
                    t.splice(k..k, f.iter().copied());
                }
            }
        }
    }
    let mut q = Query::DEFAULT;
    let res = no_panic("hostile query text", &|| vmlib::show(&t), || q.parse(&t, &core_scope()).map_err(|e| format!("{e:#}")))?;
    o.distinct((t.len(), res.is_ok(), t.iter().map(|b| *b as u64).sum::<u64>()));
    if res.is_err() {
        o.count("hostile-refused");
        return Ok(());
    }
    o.count("hostile-accepted");
    // a time in it must not be read again
    prints(&q, &|| vmlib::show(&t), o)?;
    for mode in ["mode", "qid"] {
        no_panic("get_option", &|| vmlib::show(&t), || drop(q.get_option(mode.as_bytes())))?;
    }
    let _ = (pick, &COMPS);
    Ok(())
}
