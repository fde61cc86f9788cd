#![allow(incomplete_features)]
#![feature(generic_const_exprs)]
#[allow(dead_code)]
#[path = "../../abe-mon/src/gen.rs"]
mod gen;
mod p_int;
mod p_newtype;
mod p_typed;
#[allow(dead_code)]
#[path = "../../abe-mon/src/refabe.rs"]
mod refabe;
#[allow(dead_code)]
#[path = "../../abe-mon/src/refeval.rs"]
mod refeval;
static PROPS: &[&vmlib::Prop] = &[&p_newtype::B01, &p_int::B02, &p_newtype::B03, &p_typed::B04];
fn main() {
    vmlib::main(PROPS)
}
