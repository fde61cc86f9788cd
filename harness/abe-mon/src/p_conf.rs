//! A10 lists, patterns and replacement, A11 configuration files
use crate::{gen as g, p_eval::{ctr, real_list}, refabe::*, refeval::List};
use abe::abconf::{parse_ablist_b, ABConf};
use abe::ast::{self, Ctr, Expr};
use abe::eval::{clist, flist, ABItem, ABList};
use abe::{TypedABE, ABE};
use vmlib::*;

/// the part of a list that its text can express: no empty leading entry
fn norm(mut l: List) -> List {
    if matches!(l.first(), Some((None, b)) if b.is_empty()) {
        l.remove(0);
    }
    l
}
fn text(l: &List) -> String {
    l.iter().map(|(c, b)| format!("{}{}", c.map(|c| (c as char).to_string()).unwrap_or_default(), enc(b))).collect()
}
fn comps(l: &List) -> Vec<Vec<u8>> {
    let mut v = vec![];
    if matches!(l.first(), Some((Some(_), _))) {
        v.push(vec![])
    }
    v.extend(l.iter().map(|x| x.1.clone()));
    v
}
fn item(x: &A) -> ABItem {
    match x {
        A::C(c) => ABItem::Ctr(ctr(*c)),
        A::B(b) => ABItem::Bytes(b.clone()),
        A::L(_) => unreachable!(),
    }
}
fn flat(r: &mut Rng, max: usize) -> Vec<A> {
    (0..r.usize(max + 1))
        .map(|_| match r.below(5) {
            0 | 1 => A::C(b':'),
            2 => A::C(b'/'),
            _ => A::B(gen::bytes(r, 8)),
        })
        .collect()
}
pub(crate) fn a10_list(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let items = flat(r, 8);
    // reference: delimiters open an entry, bytes extend the last
    let mut want: List = vec![];
    for x in &items {
        match (x, want.last_mut()) {
            (A::C(c), _) => want.push((Some(*c), vec![])),
            (A::B(b), Some(l)) => l.1.extend(b),
            (A::B(b), None) => want.push((None, b.clone())),
            _ => unreachable!(),
        }
    }
    let l: ABList = items.iter().map(item).collect();
    let w = || format!("{items:?}");
    ensure!(real_list(&l) == want, "list-build", "{} builds {l:?} expected {want:?}", w());
    let one = items.iter().fold(ABList::default(), |a, x| match x {
        A::C(c) => a.push_ctr(ctr(*c)),
        A::B(b) => a.push_bytes(b),
        _ => a,
    });
    ensure!(one == l, "list-push", "{}: {one:?} {l:?}", w());
    let bytes: Vec<u8> = want.iter().flat_map(|(c, b)| c.iter().copied().chain(b.iter().copied()).collect::<Vec<_>>()).collect();
    ensure!(l.clone().concat() == bytes && Vec::<u8>::from(l.clone()) == bytes, "list-concat", "{} concat {}", w(), show(&l.clone().concat()));
    let want_c = comps(&want);
    let a: Vec<Vec<u8>> = l.iter_bytes().map(|x| x.to_vec()).collect();
    let b: Vec<Vec<u8>> = l.clone().into_iter_bytes().collect();
    ensure!(a == want_c && b == want_c, "list-components", "{}: components {a:?} {b:?} expected {want_c:?}", w());
    let exact = match &want[..] {
        [] => Some(vec![]),
        [(None, b)] => Some(b.clone()),
        _ => None,
    };
    ensure!(l.as_exact_bytes().ok().map(|x| x.to_vec()) == exact, "list-exact", "{}: {:?}", w(), l.as_exact_bytes());
    let ie = l.clone().into_exact_bytes();
    ensure!(ie.as_ref().ok() == exact.as_ref() && ie.err().map_or(true, |e| e == l), "list-exact", "{}: into_exact_bytes", w());
    ensure!(l.is_empty() == (exact == Some(vec![])), "list-empty", "{}: is_empty {}", w(), l.is_empty());
    // text and back
    let t = l.to_string();
    ensure!(t == text(&want), "list-text", "{} prints {t} expected {}", w(), text(&want));
    let p = no_panic("parse_ablist", &|| t.clone(), || parse_ablist_b(t.as_bytes()))?;
    let p = p.map(|p| real_list(&p));
    ensure!(p.as_ref().ok() == Some(&norm(want.clone())), "list-roundtrip", "{} prints {t} which reads {p:?}", w());
    // as expressions and back
    let abe: Vec<ABE> = l.clone().into();
    let it: Vec<ABE> = l.clone().into_iter().collect();
    let refs: Vec<ABE> = l.item_refs().map(|i| match i { ABItem::Ctr(c) => ABE::Ctr(c), ABItem::Bytes(b) => ABE::Expr(Expr::Bytes(b.to_vec())) }).collect();
    ensure!(abe == it && abe == refs && ast::print_abe(&abe) == t, "list-items", "{}: {abe:?} {it:?}", w());
    let back = ABList::try_from(abe.as_slice());
    ensure!(back.as_ref().ok().map(|x| real_list(x)) == Some(norm(want.clone())), "list-abe", "{}: {back:?}", w());
    // evaluating a list without brackets changes nothing
    let ev = abe::eval::eval(&(), &abe);
    ensure!(ev.as_ref().ok().map(|x| real_list(x)) == Some(norm(want.clone())), "list-eval", "{}: evaluates to {ev:?}", w());
    let tv: Result<TypedABE<Vec<u8>>, _> = t.parse();
    ensure!(tv.ok().and_then(|x| x.eval(&()).ok()) == Some(bytes.clone()), "typed-bytes", "{t} as bytes");
    let ts: Result<TypedABE<String>, _> = t.parse();
    let got = ts.ok().and_then(|x| x.eval(&()).ok());
    let ws = (abe.len() == 1).then(|| exact.clone().and_then(|b| String::from_utf8(b).ok())).flatten();
    ensure!(got == ws, "typed-string", "{t} as a string is {got:?} expected {ws:?}");
    // taking entries off the front
    let mut m = l.clone();
    let mut got: List = vec![];
    while let Some((c, b)) = no_panic("pop_front", &|| t.clone(), || m.pop_front())? {
        got.push((c.map(|c| c as u8), b))
    }
    ensure!(got == want, "list-pop", "{}: popped {got:?}", w());
    o.count("lists");
    o.distinct(&t);
    Ok(())
}
pub(crate) fn a10_delimited(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let v: Vec<Vec<u8>> = (0..r.usize(7)).map(|_| if r.chance(1, 4) { vec![] } else { gen::bytes(r, 8) }).collect();
    for (c, l) in [(b':', clist(&v)), (b'/', flist(&v))] {
        let want: List = v.iter().enumerate().map(|(i, b)| ((i > 0).then_some(c), b.clone())).collect();
        ensure!(real_list(&l) == want, "delimited", "{v:?} gives {l:?}");
        let t = l.to_string();
        let back = parse_ablist_b(t.as_bytes()).map(|l| comps(&real_list(&l)));
        // one empty component and none at all have the same text
        let w = if v.len() == 1 && v[0].is_empty() { vec![] } else { v.clone() };
        ensure!(back.as_ref().ok() == Some(&w), "delimited-roundtrip", "{v:?} prints {t} which has the components {back:?}");
    }
    o.count("delimited");
    o.distinct(&v);
    // brackets do not fit in a list
    let a = g::ast(r, 2, 4);
    let real = to_real(&a);
    let has = a.iter().any(|x| matches!(x, A::L(_)));
    let res = ABList::try_from(real.as_slice());
    ensure!(res.is_err() == has, "list-brackets", "{} as a list: {res:?}", print(&a));
    if let Err(e) = res {
        ensure!(Some(e) == real.iter().find(|x| matches!(x, ABE::Expr(Expr::Lst(_)))), "list-brackets", "{}: wrong culprit {e:?}", print(&a));
    }
    Ok(())
}
fn small(r: &mut Rng, d: usize) -> Vec<A> {
    (0..r.usize(6))
        .map(|_| match r.below(6) {
            0 => A::C(b':'),
            1 => A::C(b'/'),
            2 if d > 0 => A::L(small(r, d - 1)),
            _ => A::B(vec![b'a' + r.u8() % 2]),
        })
        .collect()
}
fn repl(v: &[A], p: &[A], n: &[A]) -> Vec<A> {
    if p.is_empty() {
        return v.to_vec();
    }
    let v: Vec<A> = v.iter().map(|x| if let A::L(l) = x { A::L(repl(l, p, n)) } else { x.clone() }).collect();
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        if v[i..].starts_with(p) {
            out.extend_from_slice(n);
            i += p.len()
        } else {
            out.push(v[i].clone());
            i += 1
        }
    }
    out
}
pub(crate) fn a10_replace(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let v = small(r, 3);
    let p: Vec<A> = if r.chance(1, 6) { vec![] } else { small(r, 1).into_iter().take(3).collect() };
    let n = small(r, 1);
    let want = repl(&v, &p, &n);
    let mut got = to_real(&v);
    let (rp, rn) = (to_real(&p), to_real(&n));
    no_panic("replace_abe", &|| format!("{} {} {}", print(&v), print(&p), print(&n)), || ast::replace_abe(&mut got, &rp, &rn))?;
    ensure!(from_real(&got) == want, "replace-abe", "{} with {} for {} is {} expected {}", print(&v), print(&n), print(&p), ast::print_abe(&got), print(&want));
    if want != v {
        o.count("replaced");
        o.distinct((print(&v), print(&p), print(&n)));
    }
    Ok(())
}
/// the shape matchers the other crates parse with
pub(crate) fn a10_match(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let v = small(r, 1);
    let a = to_real(&v);
    let w = || print(&v);
    let bytes = |x: &A| if let A::B(b) = x { Some(b.clone()) } else { None };
    ensure!(ast::take::<2>(&a).ok().map(|(x, y)| (x.to_vec(), y.to_vec())) == (v.len() >= 2).then(|| (a[..2].to_vec(), a[2..].to_vec())), "take", "{}", w());
    ensure!(ast::take_first(&a).ok() == a.split_first(), "take-first", "{}", w());
    ensure!(ast::exact::<2>(&a).is_ok() == (v.len() == 2) && ast::is_empty(&a).is_ok() == v.is_empty(), "exact", "{}", w());
    ensure!(ast::single(&a).ok() == if v.len() == 1 { a.first() } else { None }, "single", "{}", w());
    let want = match v.len() {
        0 => Some(None),
        1 => Some(a.first()),
        _ => None,
    };
    ensure!(ast::one_or(&a).ok() == want, "one-or", "{}", w());
    ensure!(ast::no_ctrs(&a).is_ok() == !v.iter().any(|x| matches!(x, A::C(_))), "no-ctrs", "{}", w());
    for (x, e) in v.iter().zip(&a) {
        ensure!(ast::as_bytes(e).ok().map(|b| b.to_vec()) == bytes(x), "as-bytes", "{}", w());
        ensure!(ast::as_abstr(e).ok().map(|s| s.to_string()) == bytes(x).map(|b| enc(&b)), "as-abstr", "{}", w());
        ensure!(ast::as_lst(e).is_ok() == matches!(x, A::L(_)), "as-lst", "{}", w());
        ensure!(ast::as_expr(e).is_ok() == !matches!(x, A::C(_)), "as-expr", "{}", w());
        ensure!(ast::is_colon(e).is_ok() == (*x == A::C(b':')) && e.is_colon() == (*x == A::C(b':')), "is-colon", "{}", w());
        ensure!(ast::is_fslash(e).is_ok() == (*x == A::C(b'/')) && e.is_fslash() == (*x == A::C(b'/')), "is-fslash", "{}", w());
    }
    let is = |x: &A, c: u8| *x == A::C(c);
    let ex = |x: &A| !matches!(x, A::C(_));
    for (c, f) in [(b':', ast::is_colon as fn(&ABE) -> ast::VResult<()>), (b'/', ast::is_fslash)] {
        let pre = v.first().is_some_and(|x| is(x, c));
        ensure!(ast::strip_prefix(&a, f).ok() == if pre { Some(&a[1..]) } else { None }, "strip-prefix", "{}", w());
        let ce = v.len() >= 2 && is(&v[0], c) && ex(&v[1]);
        let got = ast::take_ctr_expr(&a, f).ok().map(|(e, rest)| (ABE::Expr(e.clone()), rest));
        ensure!(got == if ce { Some((a[1].clone(), &a[2..])) } else { None }, "take-ctr-expr", "{}", w());
        let ec = v.len() >= 2 && is(&v[1], c) && ex(&v[0]);
        let got = ast::take_expr_ctr2(&a, f).ok().map(|(e, rest)| (ABE::Expr(e.clone()), rest));
        ensure!(got == if ec { Some((a[0].clone(), &a[2..])) } else { None }, "take-expr-ctr", "{}", w());
        let mut k = 0;
        while v.len() >= k + 2 && is(&v[k], c) && ex(&v[k + 1]) {
            k += 2
        }
        let (es, rest) = ast::multi_ctr_expr(&a, f);
        let es: Vec<ABE> = es.into_iter().map(ABE::Expr).collect();
        let want: Vec<ABE> = (0..k / 2).map(|j| a[2 * j + 1].clone()).collect();
        ensure!(es == want && rest == &a[k..], "multi-ctr-expr", "{}: {es:?} {rest:?}", w());
    }
    o.count("matched");
    Ok(())
}
pub static A10: Prop = Prop {
    id: "A10",
    stages: &[
        Stage { name: "list", quick: 900000, thorough: 24000000, run: a10_list },
        Stage { name: "delimited", quick: 360000, thorough: 12000000, run: a10_delimited },
        Stage { name: "replace", quick: 900000, thorough: 24000000, run: a10_replace },
        Stage { name: "match", quick: 360000, thorough: 12000000, run: a10_match },
    ],
    rule: "lists built item by item, from iterators, delimited sequences and expressions; every view (components, bytes, text, items, exact bytes, popping, typed evaluation) must agree with a reference list; patterns replaced in nested trees compared with a leftmost depth-first reference; shape matchers compared with slices. Non-trivial: distinct lists, and replacements that changed the tree.",
    assumptions: &["an empty first component and an absent one have the same text"],
    floors: &["lists", "delimited", "replaced", "matched"],
    opts: OPTS,
};

const WORDS: &[&[u8]] = &[b"", b"a", b"b", b"opt", b"\xff\0", b"x:y", b"a/b"];
fn entry(r: &mut Rng) -> List {
    let mut l: List = vec![];
    for k in 0..1 + r.usize(4) {
        let c = if k == 0 && r.chance(2, 3) { None } else { Some(if r.chance(4, 5) { b':' } else { b'/' }) };
        l.push((c, r.pick(WORDS).to_vec()));
    }
    norm(l)
}
fn mk(l: &List) -> ABList {
    let mut a = ABList::default();
    for (c, b) in l {
        a.push_v((c.map(ctr), b.clone()))
    }
    a
}
/// (components, delimiter in front of each)
fn view(l: &List) -> Vec<(Option<u8>, Vec<u8>)> {
    let mut v = vec![];
    if matches!(l.first(), Some((Some(_), _))) {
        v.push((None, vec![]))
    }
    v.extend(l.iter().cloned());
    v
}
fn lookups(conf: &ABConf, es: &[List], what: &str, r: &mut Rng, o: &mut Obs) -> Res {
    for _ in 0..4 {
        o.eval();
        let mut sw: Vec<Vec<u8>> = (0..1 + r.usize(3)).map(|_| r.pick(WORDS).to_vec()).collect();
        if !es.is_empty() && r.chance(2, 3) {
            let c = view(&es[r.usize(es.len())]);
            sw = c.iter().take(1 + r.usize(c.len().max(1))).map(|x| x.1.clone()).collect();
        }
        if sw.is_empty() {
            continue;
        }
        let s: Vec<&[u8]> = sw.iter().map(|x| x.as_slice()).collect();
        let n = s.len();
        let w = || format!("{what} conf (first entry wins) {:?} lookup {:?}", es.iter().map(text).collect::<Vec<_>>(), s.iter().map(|b| show(b)).collect::<Vec<_>>());
        let hits: Vec<&List> = es.iter().filter(|e| view(e).len() >= n && view(e).iter().zip(&s).all(|(x, y)| x.1 == *y)).collect();
        let inner: Vec<List> = no_panic("get_inner", &w, || conf.get_inner(&s).map(|l| real_list(l)).collect())?;
        ensure!(inner.iter().collect::<Vec<_>>() == hits, "conf-matches", "{}: {:?}", w(), inner.iter().map(text).collect::<Vec<_>>());
        let slash = |e: &List| view(e)[1..n].iter().any(|x| x.0 == Some(b'/'));
        let chk: Vec<Result<List, List>> = no_panic("get_checked", &w, || conf.get_checked(&s).map(|x| x.map(real_list).map_err(real_list)).collect())?;
        ensure!(chk.len() == hits.len(), "conf-checked", "{}: {} matches", w(), chk.len());
        for (c, h) in chk.iter().zip(&hits) {
            let (ok, l) = match c {
                Ok(l) => (true, l),
                Err(l) => (false, l),
            };
            ensure!(l == *h, "conf-checked", "{}: {} instead of {}", w(), text(l), text(h));
            // an entry that starts with a delimiter may count the delimiter after the prefix too
            let next = view(h).get(n).is_some_and(|x| x.0 == Some(b'/')) && h[0].0.is_some();
            let lead = h[0].0 == Some(b'/') && n == 1;
            if !next && !lead {
                ensure!(ok == !slash(h), "conf-checked", "{}: {} reported {}", w(), text(h), if ok { "clean" } else { "as containing '/'" });
            }
        }
        let got = no_panic("has_optional_value", &w, || conf.has_optional_value(&s).map(|x| x.map(|y| y.map(|b| b.to_vec())).map_err(|l| real_list(l))))?;
        let want = hits.first().map(|h| {
            let v = view(h);
            match &v[n..] {
                _ if slash(h) => Err((*h).clone()),
                [] => Ok(None),
                [(Some(b':'), b)] => Ok(Some(b.clone())),
                _ => Err((*h).clone()),
            }
        });
        let lead = hits.first().is_some_and(|h| h[0].0 == Some(b'/') && n == 1 && view(h).len() == 1);
        if !lead {
            ensure!(got == want, "conf-optional", "{}: {got:?} expected {want:?}", w());
        }
        if n == 1 {
            let g1 = conf.get(&sw[0]).map(|x| real_list(x.unwrap_or_else(|e| e)));
            ensure!(g1.as_ref() == hits.first().copied(), "conf-get", "{}: {g1:?}", w());
        }
        o.count(match &want {
            None => "absent",
            Some(Ok(None)) => "without_value",
            Some(Ok(Some(_))) => "with_value",
            Some(Err(_)) => "malformed",
        });
        if hits.len() > 1 {
            o.count("shadowed")
        }
        o.distinct((es.iter().map(text).collect::<Vec<_>>(), &sw));
    }
    Ok(())
}
pub(crate) fn a11(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let n = r.usize(6);
    // listed as in the file: first wins
    let mut es: Vec<List> = (0..n).map(|_| entry(r)).filter(|e| !e.is_empty()).collect();
    let mut conf = ABConf::new(es.iter().rev().map(mk).collect());
    lookups(&conf, &es, "new", r, o)?;
    // added later wins
    for _ in 0..r.usize(3) {
        let e = entry(r);
        if e.is_empty() {
            continue;
        }
        if r.bool() {
            conf.push(mk(&e))
        } else {
            conf.extend(vec![mk(&e)])
        }
        es.insert(0, e);
    }
    lookups(&conf, &es, "grown", r, o)?;
    let t = conf.to_string();
    let want: String = es.iter().map(|e| format!("{}\n", text(e))).collect();
    ensure!(t == want, "conf-text", "prints {t:?} expected {want:?}");
    let src = match r.below(3) {
        0 => format!(":%abctxt\n{t}"),
        1 => t.trim_end_matches('\n').to_string(),
        _ => t.clone(),
    };
    let back = no_panic("conf-parse", &|| src.clone(), || ABConf::try_from(src.as_bytes()))?;
    let Ok(back) = back else { return viol("conf-roundtrip", format!("{src:?} does not parse")) };
    o.count("reparsed");
    o.sample(|| format!("{src:?}"));
    lookups(&back, &es, "reparsed", r, o)
}
pub(crate) fn a11_text(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let mut t: Vec<u8> = vec![];
    if r.chance(1, 5) {
        t.extend(*r.pick(&[b":%abctxt\n" as &[u8], b":%abctxt", b":%other\n", b":%"]))
    }
    for _ in 0..r.usize(4) {
        if r.chance(1, 3) {
            t.extend(g::text(r))
        } else {
            t.extend(text(&entry(r)).into_bytes())
        }
        t.push(b'\n')
    }
    let body = match t.strip_prefix(b":%") {
        Some(x) => x.strip_prefix(b"abctxt\n"),
        None => Some(&t[..]),
    };
    let want: Option<Vec<List>> = body.and_then(|b| {
        b.split(|c| *c == b'\n')
            .map(|l| {
                let a = parse(l, false).ok()?;
                if a.iter().any(|x| matches!(x, A::L(_))) {
                    return None;
                }
                Some(crate::refeval::eval(&Default::default(), &a).expect("no brackets"))
            })
            .collect()
    });
    let got = no_panic("conf-parse", &|| show(&t), || ABConf::try_from(&t))?;
    match (want, got) {
        (None, Err(_)) => o.count("refused"),
        (Some(w), Ok(c)) => {
            o.count("accepted");
            let es: Vec<List> = w.into_iter().filter(|x| !x.is_empty()).collect();
            lookups(&c, &es, "text", r, o)?;
        }
        (w, g) => return viol("conf-parse", format!("{}: {g:?} expected {w:?}", show(&t))),
    }
    Ok(())
}
pub static A11: Prop = Prop {
    id: "A11",
    stages: &[
        Stage { name: "conf", quick: 600000, thorough: 18000000, run: a11 },
        Stage { name: "text", quick: 480000, thorough: 15000000, run: a11_text },
    ],
    rule: "configurations of 0-8 entries with empty, repeated and escaped components, leading delimiters and both delimiters; built, grown, printed and read back; every lookup (all matches, checked, optional value, first) compared with a reference over the listed entries. Non-trivial: distinct (configuration, lookup).",
    assumptions: &["a lookup names at least one component", "whether a '/' directly after the prefix of an entry with a leading delimiter is flagged by get_checked is left open"],
    floors: &["absent", "without_value", "with_value", "malformed", "shadowed", "reparsed", "accepted", "refused"],
    opts: OPTS,
};
#[allow(dead_code)]
fn _t(_: Ctr) {}
