#![feature(ptr_metadata)]
mod judge;
mod p_field;
mod p_read;
mod p_space;
mod refpkt;
#[allow(dead_code)]
#[path = "../../crypto-mon/src/refcurve.rs"]
mod refcurve;
#[allow(dead_code)]
#[path = "../../abe-mon/src/refabe.rs"]
mod refabe;
#[global_allocator]
static ALLOC: vmlib::alloc::Checked = vmlib::alloc::Checked;
static PROPS: &[&vmlib::Prop] = &[&p_read::P01, &p_read::P02, &p_read::P03, &p_space::P04, &p_field::P05, &p_field::P06, &p_read::P07, &p_space::P08];
fn main() {
    vmlib::main(PROPS)
}
