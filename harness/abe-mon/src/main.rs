#![feature(lazy_cell)]
mod gen;
mod p_conf;
mod p_eval;
mod p_fns;
mod p_text;
mod refabe;
mod refeval;
static PROPS: &[&vmlib::Prop] = &[
        &p_text::A01, &p_text::A02, &p_text::A03, &p_eval::A04, &p_eval::A05, &p_fns::A06, &p_fns::A07, &p_fns::A08, &p_fns::A09,
        &p_conf::A10, &p_conf::A11, &p_eval::A12, &p_eval::A13,
];
fn main() {
    vmlib::main(PROPS)
}
