//! M01: the workloads of the A and B checks in an AddressSanitizer build; only memory errors and
//! invalid strings count here, what the other oracles think of the results is theirs to report.
#![feature(lazy_cell, generic_const_exprs)]
#![allow(incomplete_features, dead_code)]
use vmlib::*;
#[path = "../../abe-mon/src/gen.rs"]
mod gen;
#[path = "../../abe-mon/src/p_conf.rs"]
mod p_conf;
#[path = "../../abe-mon/src/p_eval.rs"]
mod p_eval;
#[path = "../../abe-mon/src/p_fns.rs"]
mod p_fns;
#[path = "../../fmt-mon/src/p_int.rs"]
mod p_int;
#[path = "../../fmt-mon/src/p_newtype.rs"]
mod p_newtype;
#[path = "../../abe-mon/src/p_text.rs"]
mod p_text;
#[path = "../../fmt-mon/src/p_typed.rs"]
mod p_typed;
#[path = "../../abe-mon/src/refabe.rs"]
mod refabe;
#[path = "../../abe-mon/src/refeval.rs"]
mod refeval;

fn is_str(what: &str, input: &[u8], s: &str) -> Res {
    ensure!(std::str::from_utf8(s.as_bytes()).is_ok(), format!("invalid-str:{what}"), "{what} of {} is a str holding {}", show(input), show(s.as_bytes()));
    Ok(())
}
fn strings(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let n = r.len(300);
    let mut b = r.bytes(n);
    if r.bool() {
        for c in b.iter_mut() {
            if r.bool() {
                *c = *r.pick(b"[]/:\\\n\txab0189\xc3\xa9\xff\x00")
            }
        }
    }
    o.eval();
    let _ = catch(|| -> Res {
        is_str("as_abtxt", &b, &abe::abtxt::as_abtxt(&b))?;
        is_str("AB Display", &b, &byte_fmt::AB(b.clone()).to_string())?;
        is_str("AB Debug", &b, &format!("{:?}", byte_fmt::AB(b.clone())))?;
        is_str("b64", &b, &byte_fmt::b64(&b, false))?;
        is_str("b64 mini", &b, &byte_fmt::b64(&b, true))?;
        is_str("as_abtxt_c", &b, &byte_fmt::as_abtxt_c(&b, r.bool()))?;
        Ok(())
    })
    .unwrap_or(Ok(()))?;
    // every str, every delimiter set
    let s = String::from_utf8_lossy(&b).to_string();
    let (p, e) = (r.next() as u32 & r.next() as u32, r.next() as u32 & r.next() as u32 & r.next() as u32);
    for (p, e) in [(0, 0), (p, 0), (p, e), (u32::MAX, 0)] {
        if let Ok(Ok(v)) = catch(|| abe::ast::tokenize_abe(&s, p, e)) {
            o.count("tokenized");
            let at = s.as_bytes().as_ptr_range();
            for (_, _, t) in v {
                is_str("tokenize_abe", s.as_bytes(), t)?;
                let x = t.as_bytes().as_ptr_range();
                ensure!(t.is_empty() || (at.start <= x.start && x.end <= at.end), "outside", "a token of {s:?} points outside it");
            }
        }
    }
    o.distinct(&b);
    Ok(())
}
macro_rules! wrap {
    ($name:ident, $f:path) => {
        fn $name(r: &mut Rng, i: u64, o: &mut Obs) -> Res {
            match catch(|| $f(r, i, o)) {
                Ok(Ok(())) => {}
                Ok(Err(v)) if v.sig.starts_with("panic") => o.count("other_check:panic"),
                Ok(Err(_)) => o.count("other_check:disagrees"),
                Err(_) => o.count("other_check:panic"),
            }
            o.count("executions");
            Ok(())
        }
    };
}
wrap!(m_encode, p_text::a01_random);
wrap!(m_decode, p_text::a01_decode);
wrap!(m_ast, p_text::a02_ast);
wrap!(m_parse, p_text::a02_text);
wrap!(m_token, p_text::a03_text);
wrap!(m_eval, p_eval::a04_text);
wrap!(m_huge, p_eval::a04_huge);
wrap!(m_expr, p_eval::a05_expr);
wrap!(m_macros, p_eval::a05_macros);
wrap!(m_help, p_eval::a04_help);
wrap!(m_bytes, p_fns::a06);
wrap!(m_ints, p_fns::a07);
wrap!(m_base, p_fns::a08);
wrap!(m_enc, p_fns::a09);
wrap!(m_list, p_conf::a10_list);
wrap!(m_delim, p_conf::a10_delimited);
wrap!(m_replace, p_conf::a10_replace);
wrap!(m_conf, p_conf::a11);
wrap!(m_args, p_eval::a12_args);
wrap!(m_tree, p_eval::a13_tree);
wrap!(m_sized, p_newtype::b01);
wrap!(m_wide, p_newtype::b01_wide);
wrap!(m_endian, p_int::b02);
wrap!(m_sizes, p_newtype::b03);
wrap!(m_typed, p_typed::b04);
macro_rules! st {
    ($n:literal, $q:literal, $f:ident) => {
        Stage { name: $n, quick: $q, thorough: $q * 40, run: $f }
    };
}
pub static M01: Prop = Prop {
    id: "M01",
    stages: &[
        st!("strings", 60000, strings),
        st!("encode", 40000, m_encode),
        st!("decode", 60000, m_decode),
        st!("ast", 20000, m_ast),
        st!("parse", 60000, m_parse),
        st!("tokenize", 60000, m_token),
        st!("eval", 60000, m_eval),
        st!("huge", 4000, m_huge),
        st!("expr", 60000, m_expr),
        st!("macros", 30000, m_macros),
        st!("help", 100, m_help),
        st!("bytes", 60000, m_bytes),
        st!("ints", 60000, m_ints),
        st!("base", 60000, m_base),
        st!("encode-fn", 60000, m_enc),
        st!("list", 40000, m_list),
        st!("delimited", 20000, m_delim),
        st!("replace", 40000, m_replace),
        st!("conf", 30000, m_conf),
        st!("args", 40000, m_args),
        st!("tree", 30000, m_tree),
        st!("sized", 60000, m_sized),
        st!("wide", 30000, m_wide),
        st!("endian", 60000, m_endian),
        st!("sizes", 60000, m_sizes),
        st!("typed", 40000, m_typed),
    ],
    rule: "the generators of the A and B checks run the real code in an AddressSanitizer build with debug assertions and overflow checks; a sanitizer report, a crash by signal, an invalid str or a token outside its text is a violation. Non-trivial: the distinct cases of the wrapped workloads.",
    assumptions: &["std is the prebuilt, uninstrumented one (its allocator calls are intercepted)"],
    floors: &["executions", "tokenized"],
    opts: Opts { as_mib: 0, stall_s: 60, mem_only: true, ..OPTS },
};
static PROPS: &[&Prop] = &[&M01];
fn main() {
    vmlib::main(PROPS)
}
