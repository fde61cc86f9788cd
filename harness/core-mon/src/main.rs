#![allow(clippy::all)]
#[allow(dead_code)]
mod clock;
mod d_match;
mod d_query;
mod d_save;
mod d_sets;
mod d_stamp;
mod d_text;
#[allow(dead_code)]
#[path = "../../crypto-mon/src/refcurve.rs"]
mod refcurve;
#[allow(dead_code)]
#[path = "../../pkt-mon/src/refpkt.rs"]
mod refpkt;
#[allow(dead_code)]
mod refpred;
#[allow(dead_code)]
mod world;
#[global_allocator]
static ALLOC: vmlib::alloc::Checked = vmlib::alloc::Checked;
static PROPS: &[&vmlib::Prop] = &[&d_save::D01, &d_query::D02, &d_sets::D03, &d_text::D04, &d_match::D05, &d_stamp::D06, &d_stamp::D07, &d_match::D08];
fn main() {
    // stores start out empty
    std::env::set_var("LK_FORCE_EMPTY", "1");
    vmlib::main(PROPS)
}
