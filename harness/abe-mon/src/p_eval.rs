//! A04 totality of evaluation, A05 evaluator against the reference, A12 user arguments,
//! A13 composition of scopes
use crate::{gen as g, refabe::*, refeval::{self, Env, List, E}};
use abe::ast::Ctr;
use abe::eval::{ABList, ApplyResult, Describer, EScope, EvalError, EvalScopeImpl, Scope, ScopeFunc, ScopeFuncInfo};
use abe::scope::{argv::{ArgList, ArgV}, BASIC_SCOPE};
use abe::ABE;
use std::cell::{LazyCell, RefCell};
use std::rc::Rc;
use std::sync::Arc;
use vmlib::*;

const OPTS_A: Opts = Opts { as_mib: 1024, ..OPTS };

pub fn real_list(l: &ABList) -> List {
    l.as_slice().iter().map(|(c, b)| (c.map(|c| c as u8), b.clone())).collect()
}
fn real_err(e: &EvalError) -> E {
    match e {
        EvalError::SubEval(i, _) => E::Macro(i.clone()),
        EvalError::NoSuchSubEval(i) => E::NoMacro(i.clone()),
        EvalError::NoSuchFunc(i) => E::NoFunc(i.clone()),
        EvalError::Func(i, _) => E::Func(i.clone()),
        EvalError::Other(_) => E::Other,
    }
}
pub fn real_eval(env: &Env, abe: &[ABE]) -> Result<ABList, EvalError> {
    let slices: Option<Vec<&[u8]>> = env.argv.as_ref().map(|v| v.iter().map(|x| x.as_slice()).collect());
    let argv = slices.as_ref().map(|s| EScope(ArgV::try_fit(s).expect("at most 8")));
    let lst = env.arglist.as_ref().map(|l| ArgList::<_, Vec<u8>>::new(l.as_slice()));
    let r = match (argv, lst) {
        (None, None) => abe::eval::eval(&BASIC_SCOPE, abe),
        (a, l) => abe::eval::eval(&(&BASIC_SCOPE, (a, l)), abe),
    };
    r
}
fn show_env(e: &Env) -> String {
    let f = |v: &Option<Vec<Vec<u8>>>| v.as_ref().map(|v| v.iter().map(|b| show(b)).collect::<Vec<_>>());
    format!("argv {:?} arglist {:?}", f(&e.argv), f(&e.arglist))
}
/// run both evaluators on one expression
fn judge(env: &Env, a: &[A], o: &mut Obs) -> Res {
    let want = refeval::eval(env, a);
    if want == Err(E::Big) {
        o.count("skipped_too_big");
        return Ok(());
    }
    o.eval();
    let abe = to_real(a);
    let txt = print(a);
    let got = no_panic("eval", &|| format!("{txt}\n {}", show_env(env)), || real_eval(env, &abe))?;
    if let Err(e) = &got {
        // reporting an error must work too
        no_panic("eval-error-display", &|| txt.clone(), || format!("{e} {e:?}"))?;
    }
    match (&want, &got) {
        (Err(E::Unk), _) => o.count("unmodelled"),
        (Ok(w), Ok(l)) => {
            ensure!(*w == real_list(l), "eval-value", "{txt}\n evaluates to {:?}\n the language says {w:?}\n {}", l, show_env(env));
            o.count("values");
        }
        (Err(w), Err(e)) => {
            ensure!(*w == real_err(e), "eval-error", "{txt}\n fails with {e}\n the language says {w:?}\n {}", show_env(env));
            o.count(match w {
                E::Func(_) => "err_func",
                E::NoFunc(_) => "err_nofunc",
                E::Macro(_) => "err_macro",
                E::NoMacro(_) => "err_nomacro",
                _ => "err_other",
            });
        }
        _ => return viol("eval-result", format!("{txt}\n evaluates to {:?}\n the language says {want:?}\n {}", got.as_ref().map(real_list), show_env(env))),
    }
    o.sample(|| format!("{txt} -> {want:?}"));
    if txt.contains('[') {
        o.distinct(&txt);
    }
    o.max("expr_len", txt.len() as u64);
    Ok(())
}
pub(crate) fn a04_text(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let mut t = match r.below(4) {
        0 => g::text(r),
        1 => print(&r_ast(r)).into_bytes(),
        _ => print(&g::seq(r, 3)).into_bytes(),
    };
    if r.bool() {
        gen::mutate(r, &mut t, b"[]:/\\0x1f-+ab?~=\n")
    }
    let p = no_panic("parse", &|| show(&t), || abe::parse_abe_strict_b(&t))?;
    match (parse(&t, false), p) {
        (Ok(a), Ok(_)) => judge(&env(r), &a, o),
        (Err(PErr::Deep), _) => Ok(()),
        (Err(_), Err(_)) => {
            o.count("unparsable");
            Ok(())
        }
        (w, p) => viol("parse", format!("{}: {p:?} expected {w:?}", show(&t))),
    }
}
fn r_ast(r: &mut Rng) -> Vec<A> {
    g::ast(r, 4, 6)
}
/// sizes nobody can allocate
pub(crate) fn a04_huge(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let n: u128 = match r.below(5) {
        0 => 1 << 40,
        1 => (1 << 63) - 1,
        2 => 1 << 63,
        3 => u64::MAX as u128 - r.below(20) as u128,
        _ => (1u128 << r.range(40, 63)) + r.below(1000) as u128,
    };
    let f = *r.pick(&["a", "f", "lpad", "rpad", "~lpad", "~rpad", "lfixed", "rfixed"]);
    let b = "x".repeat(r.usize(20));
    let t = if r.bool() { format!("[{f}:{b}:{n}]") } else { format!("[:{b}/{f}:{n}:z]") };
    let p = abe::parse_abe_strict_b(t.as_bytes()).expect("expression");
    let got = no_panic("eval-huge", &|| t.clone(), || real_eval(&Env::default(), &p))?;
    ensure!(matches!(&got, Err(EvalError::Func(i, _)) if i == f.as_bytes()), "eval-huge", "{t} evaluates to {:?}", got.map(|l| real_list(&l).len()));
    // bounds nobody can reach are just clamped
    let (s, e) = (gen::u64b(r), gen::u64b(r));
    let step = gen::u64b(r) as i64;
    let neg = |r: &mut Rng, v: u64| if r.bool() && v > 0 { format!("-{v}") } else { v.to_string() };
    let t = format!("[slice:{}:{}:{}:{step}]", "abcdefgh", neg(r, s), neg(r, e));
    judge(&Env::default(), &parse(t.as_bytes(), false).expect("expr"), o)?;
    o.count("huge_rejected");
    o.distinct(&t);
    Ok(())
}
/// recursion through functions, macros and arguments
pub(crate) fn a04_recursion(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let wraps: &[(&str, &str)] = &[("", ""), ("[/e:", "]"), ("[/or:", "]"), ("[/?:", "/a]"), ("[/~?:", "//a]"), ("[:", "]"), ("x[", "/a]"), ("[eval:[:", "]]"), ("[/?:abc/a]", "")];
    let one = |r: &mut Rng, n: usize, core: &str| {
        let mut s = core.to_string();
        for _ in 0..n {
            let (a, b) = *r.pick(wraps);
            s = format!("{a}{s}{b}")
        }
        s
    };
    let n = r.usize(6);
    let (arg, start) = match r.below(3) {
        0 => (one(r, n, "[eval:[0]]"), "[eval:[0]]".to_string()),
        1 => (one(r, n, "[argv:0:1/eval]"), "[argv:0:1/eval]".into()),
        _ => (one(r, n, "[1/eval]"), "[eval:[0]]".into()),
    };
    let n = r.usize(12);
    let start = one(r, n, &start);
    let env = Env { arglist: Some(vec![arg.clone().into_bytes(), b"[eval:[0]]".to_vec()]), ..Default::default() };
    let Ok(p) = abe::parse_abe_strict_b(start.as_bytes()) else { return Ok(()) };
    // on a stack of the size std gives a thread
    let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
        let got = catch(|| real_eval(&env, &p).map(|l| real_list(&l)).map_err(|e| e.to_string().len()));
        got
    });
    let got = h.expect("thread").join().expect("caught");
    match got {
        Err(m) => viol("panic:recursion", format!("start {start} argv[0] {arg}: {m}")),
        Ok(Ok(v)) => viol("recursion-value", format!("start {start} argv[0] {arg}: endless recursion has a value {v:?}")),
        Ok(Err(_)) => {
            o.count("recursion_stopped");
            o.distinct((&start, &arg));
            Ok(())
        }
    }
}
pub(crate) fn a04_help(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let id = g::FUNCS[r.usize(g::FUNCS.len())].0;
    let e = env(r);
    let kind = r.below(5);
    let t = match kind {
        0 => "[help]".to_string(),
        1 => "[/help]".to_string(),
        2 => format!("[help:{id}]"),
        3 => format!("[:{id}/help]"),
        _ => format!("[help:{}]", enc(&gen::bytes(r, 10))),
    };
    let p = abe::parse_abe_strict_b(t.as_bytes()).expect("expr");
    let got = no_panic("help", &|| t.clone(), || real_eval(&e, &p))?;
    match got {
        Ok(l) => {
            let s = String::from_utf8_lossy(&l.concat()).to_string();
            ensure!(kind == 4 || s.contains(id), "help-missing", "{t} does not mention it: {s}");
            o.count("help_texts");
            o.distinct(&t)
        }
        Err(e) => return viol("help-error", format!("{t}: {e}")),
    }
    Ok(())
}
pub static A04: Prop = Prop {
    id: "A04",
    stages: &[
        Stage { name: "text", quick: 1800000, thorough: 48000000, run: a04_text },
        Stage { name: "huge", quick: 120000, thorough: 2400000, run: a04_huge },
        Stage { name: "recursion", quick: 2_000, thorough: 60_000, run: a04_recursion },
        Stage { name: "help", quick: 1_500, thorough: 20_000, run: a04_help },
    ],
    rule: "generated, mutated and arbitrary expressions evaluated over the basic scope with and without user arguments in address-space limited processes with a CPU limit; unallocatable lengths; recursion through eval and arguments on a 2 MiB stack. A panic, abort, signal or hang is attributed to its case. Non-trivial: contains a bracket expression that was evaluated.",
    assumptions: &["an expression the reference finds to exceed 1 MiB of result or 20000 evaluated brackets is not run (deliberate exponential blow-up is not claimed)"],
    floors: &["values", "err_func", "err_macro", "err_other", "unparsable", "huge_rejected", "recursion_stopped", "help_texts"],
    opts: OPTS_A,
};

pub(crate) fn a05_expr(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let a = g::seq(r, 4);
    o.sample(|| format!("{} -> {:?}", print(&a), refeval::eval(&Env::default(), &a)));
    judge(&Env::default(), &a, o)
}
/// long chains and argument counts around the limit
pub(crate) fn a05_limits(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let n = r.range(12, 19);
    let mut v = vec![];
    match r.below(4) {
        0 => {
            v.push(A::B((*r.pick(&["C", "+", "-"])).into()));
            for _ in 0..n {
                v.push(A::C(b':'));
                v.push(A::B(vec![r.u8(), r.u8()]))
            }
        }
        1 => {
            for _ in 0..n {
                v.push(A::C(b':'));
                v.push(A::B(vec![b'a' + r.u8() % 26]))
            }
            if r.bool() {
                v.extend([A::C(b'/'), A::B("?a".into())])
            }
        }
        2 => {
            v.extend([A::C(b':'), A::B(vec![1, 2])]);
            v.extend([A::C(b'/'), A::B("+".into())]);
            for _ in 0..n {
                v.push(A::C(b':'));
                v.push(A::B(vec![r.u8(), r.u8()]))
            }
        }
        _ => {
            v.extend([A::C(b':'), A::B(gen::bytes(r, 8)), A::C(b'/'), A::B("?a".into())]);
            for _ in 0..r.usize(40) {
                v.extend([A::C(b'/'), A::B((*r.pick(&["?a0", "?b", "~lcut", "~utf8", "?a"])).into())]);
                if r.chance(1, 4) {
                    v.extend([A::C(b'/'), A::B("~rcut".into()), A::C(b':'), A::B("9".into())])
                }
            }
        }
    }
    let l = A::L(g::canon(v));
    o.count("limit_cases");
    let s = if r.bool() { vec![A::L(vec![A::C(b'/'), A::B("or".into()), A::C(b':'), l, A::C(b':'), A::B("alt".into())])] } else { vec![l] };
    judge(&Env::default(), &s, o)
}
/// macros nested in macros
pub(crate) fn a05_macros(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    fn m(r: &mut Rng, d: usize) -> Vec<A> {
        if d == 0 {
            return g::seq(r, 1);
        }
        let b = |s: &str| A::B(s.into());
        let mut v = vec![A::C(b'/')];
        match r.below(6) {
            0 | 1 => {
                v.push(b("or"));
                for _ in 0..1 + r.usize(3) {
                    v.push(A::C(b':'));
                    v.extend(if r.bool() { m(r, d - 1).into_iter().filter(|x| matches!(x, A::L(_))).collect::<Vec<_>>() } else { vec![b("lit")] })
                }
            }
            2 => {
                v.extend([b("e"), A::C(b':')]);
                v.extend(m(r, d - 1))
            }
            3 | 4 => {
                v.extend([b(*r.pick(&["?", "~?"])), A::C(b':')]);
                v.extend(m(r, d - 1));
                v.push(A::C(b'/'));
                v.extend(g::encopts(r))
            }
            _ => {
                v.push(A::C(b':'));
                v.extend(m(r, d - 1))
            }
        }
        vec![A::L(g::canon(v))]
    }
    let d = 1 + r.usize(4);
    let v = m(r, d);
    o.count("macro_cases");
    judge(&Env::default(), &g::canon(v), o)
}
pub static A05: Prop = Prop {
    id: "A05",
    stages: &[
        Stage { name: "expr", quick: 2100000, thorough: 60000000, run: a05_expr },
        Stage { name: "limits", quick: 360000, thorough: 9000000, run: a05_limits },
        Stage { name: "macros", quick: 900000, thorough: 24000000, run: a05_macros },
    ],
    rule: "typed random expressions (chains, nested calls, literals, macros, unknown names, argument counts around the limit of 16) evaluated by the real evaluator and an independent one; the delimiter/bytes list or the error kind and name must agree. Non-trivial: contains a bracket expression; distinct texts are counted.",
    assumptions: &["[help] is not modelled", "error messages are not compared"],
    floors: &["values", "err_func", "err_nofunc", "err_macro", "err_other", "macro_cases", "limit_cases"],
    opts: OPTS_A,
};

fn args(r: &mut Rng, max: usize) -> Vec<Vec<u8>> {
    (0..r.usize(max + 1)).map(|_| if r.chance(1, 6) { print(&g::seq(r, 1)).into_bytes() } else { gen::bytes(r, 12) }).collect()
}
fn env(r: &mut Rng) -> Env {
    let argv = r.bool().then(|| args(r, 8));
    let arglist = r.bool().then(|| args(r, 14));
    Env { argv, arglist, ..Default::default() }
}
pub(crate) fn a12_args(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let mut e = env(r);
    if e.argv.is_none() && e.arglist.is_none() {
        e.arglist = Some(args(r, 12));
    }
    let num = |r: &mut Rng| match r.below(8) {
        0 => gen::u128b(r).to_string(),
        1 => format!("0{}", r.usize(9)),
        2 => format!("+{}", r.usize(9)),
        _ => r.usize(13).to_string(),
    };
    let bound = |r: &mut Rng| match r.below(6) {
        0 => String::new(),
        1..=3 => r.usize(14).to_string(),
        _ => format!("-{}", 1 + r.usize(14)),
    };
    let b = |s: String| A::B(s.into_bytes());
    let mut v = vec![];
    for _ in 0..1 + r.usize(3) {
        let x = match r.below(6) {
            0 | 1 => vec![b(num(r))],
            2 => vec![b(num(r)), A::C(b':'), b("x".into())],
            3 => vec![A::C(b':'), b("q".into()), A::C(b'/'), b(num(r))],
            4 => {
                let mut x = vec![b("argv".into())];
                for k in 0..r.usize(4) {
                    x.push(A::C(b':'));
                    x.push(b(if k == 2 { (*r.pick(&["1", "2", "-1", "-2", "3", "0", "", "x", "-9", "100"])).to_string() } else { bound(r) }))
                }
                x
            }
            _ => vec![b(num(r)), A::C(b'/'), b((*r.pick(&["?a", "?b", "eval", "?u", "a"])).to_string())],
        };
        v.push(A::L(g::canon(x)));
        if r.chance(1, 3) {
            v.push(A::C(b':'))
        }
    }
    o.count(if e.argv.is_some() { "with_argv" } else { "without_argv" });
    if e.arglist.is_some() {
        o.count("with_arglist")
    }
    o.sample(|| format!("{} {}", print(&v), show_env(&e)));
    judge(&e, &v, o)
}
pub(crate) fn a12_expr(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let e = env(r);
    judge(&e, &g::seq(r, 3), o)
}
/// the fixed list holds at most 8
pub(crate) fn a12_fit(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let v: Vec<Vec<u8>> = (0..r.usize(12)).map(|_| gen::bytes(r, 6)).collect();
    let s: Vec<&[u8]> = v.iter().map(|x| x.as_slice()).collect();
    let f = ArgV::try_fit(&s);
    ensure!(f.is_some() == (v.len() <= 8), "argv-fit", "{} arguments fit: {}", v.len(), f.is_some());
    if let Some(a) = f {
        ensure!(a.0.as_slice() == s.as_slice(), "argv-fit", "{:?} != {s:?}", a.0);
        o.count("fit")
    } else {
        o.count("unfit")
    }
    // asked directly: only an unchained call without arguments is answered, with the argument
    let n = r.usize(13);
    let name = n.to_string();
    let extra: Vec<&[u8]> = vec![b"x"; r.usize(3)];
    let init = r.bool();
    let list = ArgList::new(&s[..]);
    let fixed = ArgV::try_fit(&s).map(EScope);
    let mut ask = |sc: &dyn Scope, known: bool, what: &str| -> Res {
        o.eval();
        let got = no_panic("argv", &|| format!("{what} {name} {extra:?} {init} {s:?}"), || sc.try_apply_func(name.as_bytes(), &extra, init, &()))?;
        let (val, none) = match got {
            ApplyResult::Value(b) => (Some(b), false),
            ApplyResult::NoValue => (None, true),
            ApplyResult::Err(_) => (None, false),
        };
        let want = if init && extra.is_empty() { s.get(n).map(|x| x.to_vec()) } else { None };
        ensure!(val == want, "argv-direct", "{what} of {s:?}: [{name}] with {} arguments, first in chain {init}: {val:?} instead of {want:?}", extra.len());
        ensure!(!(known && init && extra.is_empty() && none), "argv-unknown", "{what} of {s:?}: [{name}] is unknown instead of an error");
        Ok(())
    };
    ask(&list, true, "list")?;
    if let Some(f) = fixed {
        ask(&f, n < 8, "fixed list")?;
    }
    o.distinct(&v);
    Ok(())
}
pub static A12: Prop = Prop {
    id: "A12",
    stages: &[
        Stage { name: "args", quick: 1800000, thorough: 54000000, run: a12_args },
        Stage { name: "expr", quick: 480000, thorough: 12000000, run: a12_expr },
        Stage { name: "fit", quick: 30000, thorough: 600000, run: a12_fit },
    ],
    rule: "0-14 user arguments of arbitrary bytes bound through ArgV, ArgList or both; [n], [argv:start:stop:step], misuse (arguments, chaining, out of range, signed and padded numbers) and general expressions, compared with the reference evaluator. Non-trivial: every bracket expression.",
    assumptions: &["'-0' as a slice bound is not exercised (it counts from the end here)"],
    floors: &["values", "err_func", "err_nofunc", "with_argv", "with_arglist", "fit", "unfit"],
    opts: OPTS_A,
};

// ---- A13 -------------------------------------------------------------------------------------

type Log = Rc<RefCell<Vec<String>>>;
#[derive(Clone, Debug)]
enum Act {
    None,
    Val(Vec<u8>),
    Err,
    /// ask the scope it was handed for another name
    Fwd(u8),
}
#[derive(Clone)]
struct Leaf {
    name: usize,
    log: Log,
    /// behaviour per id a..d for func, macro, encode
    f: [Act; 4],
    m: [Act; 4],
    e: [Act; 4],
}
fn ix(id: &[u8]) -> Option<usize> {
    match id {
        [c @ b'a'..=b'd'] => Some((*c - b'a') as usize),
        _ => None,
    }
}
impl Scope for Leaf {
    fn try_apply_macro(&self, id: &[u8], abe: &[ABE], scope: &dyn Scope) -> ApplyResult {
        let Some(k) = ix(id) else { return ApplyResult::NoValue };
        self.log.borrow_mut().push(format!("m{}:{}:{}", self.name, show(id), abe::print_abe(abe)));
        match &self.m[k] {
            Act::None => ApplyResult::NoValue,
            Act::Val(v) => ApplyResult::Value(v.clone()),
            Act::Err => ApplyResult::Err(anyhow::anyhow!("leaf {}", self.name)),
            Act::Fwd(x) => scope.try_apply_macro(&[*x], abe, scope),
        }
    }
    fn try_apply_func(&self, id: &[u8], a: &[&[u8]], init: bool, scope: &dyn Scope) -> ApplyResult {
        let Some(k) = ix(id) else { return ApplyResult::NoValue };
        self.log.borrow_mut().push(format!("f{}:{}:{}:{init}", self.name, show(id), a.iter().map(|b| show(b)).collect::<String>()));
        match &self.f[k] {
            Act::None => ApplyResult::NoValue,
            Act::Val(v) => ApplyResult::Value(v.clone()),
            Act::Err => ApplyResult::Err(anyhow::anyhow!("leaf {}", self.name)),
            Act::Fwd(x) => scope.try_apply_func(&[*x], a, init, scope),
        }
    }
    fn try_encode(&self, id: &[u8], o: &[ABE], b: &[u8]) -> ApplyResult<String> {
        let Some(k) = ix(id) else { return ApplyResult::NoValue };
        self.log.borrow_mut().push(format!("e{}:{}:{}:{}", self.name, show(id), abe::print_abe(o), show(b)));
        match &self.e[k] {
            Act::None | Act::Fwd(_) => ApplyResult::NoValue,
            Act::Val(_) => ApplyResult::Value(enc(b)),
            Act::Err => ApplyResult::Err(anyhow::anyhow!("leaf {}", self.name)),
        }
    }
    fn describe(&self, cb: Describer) {
        cb(&format!("leaf{}", self.name), "", &mut std::iter::empty(), &mut std::iter::empty())
    }
}
#[derive(Clone)]
struct D(Rc<dyn Scope>);
impl Scope for D {
    fn try_apply_macro(&self, id: &[u8], abe: &[ABE], s: &dyn Scope) -> ApplyResult {
        self.0.try_apply_macro(id, abe, s)
    }
    fn try_apply_func(&self, id: &[u8], a: &[&[u8]], i: bool, s: &dyn Scope) -> ApplyResult {
        self.0.try_apply_func(id, a, i, s)
    }
    fn try_encode(&self, id: &[u8], o: &[ABE], b: &[u8]) -> ApplyResult<String> {
        self.0.try_encode(id, o, b)
    }
    fn describe(&self, cb: Describer) {
        self.0.describe(cb)
    }
}
/// what a flattened scope consists of
enum F {
    Leaf(Leaf),
    /// an Err(_) scope answers everything with an error
    Bad,
    /// describes itself, answers nothing
    Nop,
}
fn act(r: &mut Rng, k: usize) -> Act {
    match r.below(8) {
        0..=3 => Act::None,
        4 | 5 => {
            let n = r.usize(4);
            Act::Val(r.bytes(n))
        }
        6 => Act::Err,
        // only forwards to later names: always terminates
        _ if k < 3 => Act::Fwd(b'a' + r.range(k + 1, 3) as u8),
        _ => Act::None,
    }
}
struct Ref2(&'static D);
fn tree(r: &mut Rng, d: usize, log: &Log, flat: &mut Vec<F>, kinds: &mut Vec<&'static str>) -> D {
    let pick = if d == 0 { 0 } else { r.below(13) };
    match pick {
        1 => {
            kinds.push("unit");
            flat.push(F::Nop);
            D(Rc::new(()))
        }
        2 => {
            kinds.push("none");
            flat.push(F::Nop);
            D(Rc::new(None::<D>))
        }
        3 => {
            kinds.push("some");
            D(Rc::new(Some(tree(r, d - 1, log, flat, kinds))))
        }
        4 => {
            kinds.push("ok");
            let x: anyhow::Result<D> = Ok(tree(r, d - 1, log, flat, kinds));
            D(Rc::new(x))
        }
        5 if r.chance(1, 3) => {
            kinds.push("err");
            flat.push(F::Bad);
            let x: anyhow::Result<D> = Err(anyhow::anyhow!("no scope"));
            D(Rc::new(x))
        }
        6 => {
            kinds.push("rc");
            D(Rc::new(Rc::new(tree(r, d - 1, log, flat, kinds))))
        }
        7 => {
            kinds.push("arc");
            #[allow(clippy::arc_with_non_send_sync)]
            D(Rc::new(Arc::new(tree(r, d - 1, log, flat, kinds))))
        }
        8 => {
            kinds.push("lazy");
            let t = tree(r, d - 1, log, flat, kinds);
            thread_local!(static NEXT: RefCell<Option<D>> = const { RefCell::new(None) });
            NEXT.with(|n| *n.borrow_mut() = Some(t));
            let l: LazyCell<D> = LazyCell::new(|| NEXT.with(|n| n.borrow_mut().take()).expect("set"));
            let _ = &*l;
            D(Rc::new(l))
        }
        9 => {
            kinds.push("ref");
            let t: &'static D = Box::leak(Box::new(tree(r, d - 1, log, flat, kinds)));
            let x = Ref2(t);
            // both the & and the &dyn forms
            if r.bool() {
                D(Rc::new(x.0))
            } else {
                let y: &'static dyn Scope = t;
                D(Rc::new(y))
            }
        }
        10 | 5 => {
            kinds.push("pair");
            let a = tree(r, d - 1, log, flat, kinds);
            let b = tree(r, d - 1, log, flat, kinds);
            D(Rc::new((a, b)))
        }
        11 | 12 => {
            kinds.push("triple");
            let a = tree(r, d - 1, log, flat, kinds);
            let b = tree(r, d - 1, log, flat, kinds);
            let c = tree(r, d - 1, log, flat, kinds);
            D(Rc::new((a, b, c)))
        }
        _ => {
            let l = Leaf {
                name: flat.len(),
                log: log.clone(),
                f: std::array::from_fn(|k| act(r, k)),
                m: std::array::from_fn(|k| act(r, k)),
                e: std::array::from_fn(|k| act(r, k)),
            };
            flat.push(F::Leaf(l.clone()));
            D(Rc::new(l))
        }
    }
}
#[derive(Debug, PartialEq, Clone)]
enum W {
    None,
    Val(Vec<u8>),
    Err,
}
fn lookup(flat: &[F], what: u8, id: u8, desc: &dyn Fn(usize, u8) -> String, log: &mut Vec<String>) -> W {
    for x in flat {
        match x {
            F::Nop => {}
            F::Bad => return W::Err,
            F::Leaf(l) => {
                log.push(desc(l.name, id));
                let k = (id - b'a') as usize;
                let a = match what {
                    b'f' => &l.f[k],
                    b'm' => &l.m[k],
                    _ => &l.e[k],
                };
                match a {
                    Act::None => {}
                    Act::Val(v) => return W::Val(v.clone()),
                    Act::Err => return W::Err,
                    Act::Fwd(_) if what == b'e' => {}
                    Act::Fwd(x) => match lookup(flat, what, *x, desc, log) {
                        // nothing found further on: the lookup goes on behind this one
                        W::None => {}
                        w => return w,
                    },
                }
            }
        }
    }
    W::None
}
pub(crate) fn a13_tree(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let log: Log = Default::default();
    let (mut flat, mut kinds) = (vec![], vec![]);
    let d = 1 + r.usize(4);
    let root = tree(r, d, &log, &mut flat, &mut kinds);
    let id = b'a' + r.u8() % 4;
    let shape = kinds.join(",");
    // function, through the evaluator
    let mut wlog = vec![];
    let chained = r.bool();
    let (x, y) = (gen::bytes(r, 4), gen::bytes(r, 4));
    let inner = if chained {
        vec![A::C(b':'), A::B(x.clone()), A::C(b'/'), A::B(vec![id]), A::C(b':'), A::B(y.clone())]
    } else {
        vec![A::B(vec![id]), A::C(b':'), A::B(x.clone()), A::C(b':'), A::B(y.clone())]
    };
    let want = lookup(&flat, b'f', id, &|n, id| format!("f{n}:{}:{}{}:{}", show(&[id]), show(&x), show(&y), !chained), &mut wlog);
    let e = to_real(&[A::L(g::canon(inner))]);
    let got = no_panic("scope-func", &|| shape.clone(), || abe::eval::eval(&root, &e))?;
    let got = match got {
        Ok(l) => W::Val(l.concat()),
        Err(EvalError::NoSuchFunc(i)) if i == [id] => W::None,
        Err(EvalError::Func(i, _)) if i == [id] => W::Err,
        Err(e) => return viol("scope-func-error", format!("{shape}: {e}")),
    };
    ensure!(got == want, "scope-func", "scopes {shape}: [{}] gives {got:?}, the first scope to answer gives {want:?}", id as char);
    let seen = std::mem::take(&mut *log.borrow_mut());
    ensure!(seen == wlog, "scope-func-calls", "scopes {shape}: asked {seen:?}, expected {wlog:?}");
    o.count(match want {
        W::None => "func_none",
        W::Val(_) => "func_val",
        W::Err => "func_err",
    });
    // macro
    let mut wlog = vec![];
    let rest = g::ast(r, 2, 4);
    let rest: Vec<A> = [vec![A::C(b':')], rest].concat();
    let e = to_real(&[A::L([vec![A::C(b'/'), A::B(vec![id])], rest.clone()].concat())]);
    let want = lookup(&flat, b'm', id, &|n, id| format!("m{n}:{}:{}", show(&[id]), print(&rest)), &mut wlog);
    let got = no_panic("scope-macro", &|| shape.clone(), || abe::eval::eval(&root, &e))?;
    let got = match got {
        Ok(l) => W::Val(l.concat()),
        Err(EvalError::NoSuchSubEval(i)) if i == [id] => W::None,
        Err(EvalError::SubEval(i, _)) if i == [id] => W::Err,
        Err(e) => return viol("scope-macro-error", format!("{shape}: {e}")),
    };
    ensure!(got == want, "scope-macro", "scopes {shape}: [/{}] gives {got:?}, expected {want:?}", id as char);
    let seen = std::mem::take(&mut *log.borrow_mut());
    ensure!(seen == wlog, "scope-macro-calls", "scopes {shape}: asked {seen:?}, expected {wlog:?}");
    o.count(match want {
        W::None => "macro_none",
        W::Val(_) => "macro_val",
        W::Err => "macro_err",
    });
    // encode: names are tried in the order given
    let ids: Vec<u8> = (0..1 + r.usize(3)).map(|_| b'a' + r.u8() % 4).collect();
    let ignore = r.bool();
    let fallback = r.bool();
    let bytes = gen::bytes(r, 8);
    let mut opts = ids.iter().map(|c| (*c as char).to_string()).collect::<Vec<_>>().join("/");
    if fallback {
        opts.push_str("/")
    }
    let mut wlog = vec![];
    let mut want = W::None;
    for c in &ids {
        match lookup(&flat, b'e', *c, &|n, id| format!("e{n}:{}::{}", show(&[id]), show(&bytes)), &mut wlog) {
            W::None => {}
            W::Err if ignore => {}
            W::Err => {
                want = W::Err;
                break;
            }
            W::Val(_) => {
                want = W::Val(enc(&bytes).into_bytes());
                break;
            }
        }
    }
    if want == W::None && fallback {
        want = W::Val(enc(&bytes).into_bytes())
    }
    let got = no_panic("scope-encode", &|| shape.clone(), || abe::eval::encode(&root, &bytes, &opts, ignore))?;
    use abe::eval::EncodeError as EE;
    let got = match got {
        Ok(s) => W::Val(s.into_bytes()),
        Err(EE::NoneFound) => W::None,
        Err(EE::ScopeEncode(..)) => W::Err,
        Err(e) => return viol("scope-encode-error", format!("{shape} {opts}: {e}")),
    };
    ensure!(got == want, "scope-encode", "scopes {shape}: encode with {opts} gives {got:?}, expected {want:?}");
    let seen = std::mem::take(&mut *log.borrow_mut());
    ensure!(seen == wlog, "scope-encode-calls", "scopes {shape}: asked {seen:?}, expected {wlog:?}");
    o.count(match want {
        W::None => "encode_none",
        W::Val(_) => "encode_val",
        W::Err => "encode_err",
    });
    // describe lists every scope, in order
    let mut names = vec![];
    root.describe(&mut |n, _, _, _| names.push(n.to_string()));
    let wn = flat.iter().filter_map(|f| if let F::Leaf(l) = f { Some(format!("leaf{}", l.name)) } else { None }).collect::<Vec<_>>();
    let gn: Vec<_> = names.iter().filter(|n| n.starts_with("leaf")).cloned().collect();
    ensure!(gn == wn && names.len() == flat.len(), "scope-describe", "scopes {shape}: described {names:?}, expected {wn:?}");
    for k in kinds {
        o.count(&format!("kind_{k}"))
    }
    o.max("scopes", flat.len() as u64);
    o.distinct((shape, flat.len(), wlog));
    Ok(())
}
struct Fns;
fn echo(tag: u8, a: &[&[u8]], init: bool) -> ApplyResult {
    let mut v = vec![tag, init as u8, a.len() as u8];
    for x in a {
        v.push(x.len() as u8);
        v.extend_from_slice(x)
    }
    ApplyResult::Value(v)
}
macro_rules! f {
    ($id:literal, $tag:literal, $argc:expr, $init:expr) => {
        ScopeFunc { info: ScopeFuncInfo { id: $id, init_eq: $init, to_abe: false, argc: $argc, help: "" }, apply: |_, a, i, _| echo($tag, a, i), to_abe: abe::eval::none }
    };
}
impl EvalScopeImpl for Fns {
    fn list_funcs(&self) -> &[ScopeFunc<&Self>] {
        &[f!("any", 1, 0..=15, None), f!("open", 2, 1..=3, Some(true)), f!("chain", 3, 2..=4, Some(false)), f!("zero", 4, 0..=0, Some(true)), f!("max", 5, 16..=16, None), f!("any", 6, 0..=15, None)]
    }
}
/// arity and position of a declared function
pub(crate) fn a13_escope(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let (name, tag, lo, hi, init) = *r.pick(&[("any", 1u8, 0, 15, None), ("open", 2, 1, 3, Some(true)), ("chain", 3, 2, 4, Some(false)), ("zero", 4, 0, 0, Some(true)), ("max", 5, 16, 16, None), ("nope", 0, 0, 0, None)]);
    let chained = r.bool();
    let n = if r.chance(1, 3) { r.range(13, 16) } else { r.usize(6) };
    let vals: Vec<Vec<u8>> = (0..n).map(|_| gen::bytes(r, 5)).collect();
    let mut v = vec![];
    let carry = gen::bytes(r, 5);
    if chained {
        v.extend([A::C(b':'), A::B(carry.clone()), A::C(b'/')]);
    }
    v.push(A::B(name.into()));
    for x in &vals {
        v.extend([A::C(b':'), A::B(x.clone())])
    }
    let parts = n + 1;
    let mut a: Vec<&[u8]> = vec![];
    if chained {
        a.push(&carry)
    }
    a.extend(vals.iter().map(|x| x.as_slice()));
    let want = if parts > 16 {
        Err(E::Other)
    } else if tag == 0 {
        Err(E::NoFunc(name.into()))
    } else if init.is_some_and(|i| i == chained) || a.len() < lo || a.len() > hi {
        Err(E::Func(name.into()))
    } else {
        match echo(tag, &a, !chained) {
            ApplyResult::Value(v) => Ok(vec![(None, v)]),
            _ => unreachable!(),
        }
    };
    let e = to_real(&[A::L(g::canon(v.clone()))]);
    let sc = ((), EScope(Fns));
    let got = no_panic("escope", &|| print(&v), || abe::eval::eval(&sc, &e))?;
    let got = got.map(|l| real_list(&l)).map_err(|e| real_err(&e));
    ensure!(got == want, "escope", "[{}] gives {got:?}, the declaration says {want:?}", print(&v));
    o.count(if want.is_ok() { "declared_ok" } else { "declared_rejected" });
    o.distinct((name, chained, n));
    Ok(())
}
/// an empty canonical list entry
pub fn ctr(c: u8) -> Ctr {
    if c == b':' {
        Ctr::Colon
    } else {
        Ctr::FSlash
    }
}
pub static A13: Prop = Prop {
    id: "A13",
    stages: &[
        Stage { name: "tree", quick: 900000, thorough: 24000000, run: a13_tree },
        Stage { name: "escope", quick: 480000, thorough: 12000000, run: a13_escope },
    ],
    rule: "random compositions (pair, triple, Option, Result, Rc, Arc, LazyCell, &, &dyn, ()) of recording scopes with random answers; the first scope to answer decides, later ones are not asked, every one gets the exact arguments and the whole scope. Declared arity/position of functions is enforced. Non-trivial: every composition; distinct shapes and call logs are counted.",
    assumptions: &["a scope that hands a name on and finds no value counts as not answering"],
    floors: &["func_none", "func_val", "func_err", "macro_none", "macro_val", "macro_err", "encode_none", "encode_val", "encode_err", "kind_pair", "kind_triple", "kind_lazy", "kind_err", "declared_ok", "declared_rejected"],
    opts: OPTS,
};
