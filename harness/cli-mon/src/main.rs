#![allow(clippy::all)]
#![feature(thread_local)]
#[allow(dead_code)]
#[path = "../../core-mon/src/clock.rs"]
mod clock;
#[allow(dead_code)]
#[path = "../../core-mon/src/d_query.rs"]
mod d_query;
#[allow(dead_code)]
#[path = "../../core-mon/src/d_sets.rs"]
mod d_sets;
#[allow(dead_code)]
mod lk;
#[allow(dead_code)]
#[path = "../../crypto-mon/src/refcurve.rs"]
mod refcurve;
#[allow(dead_code)]
#[path = "../../pkt-mon/src/refpkt.rs"]
mod refpkt;
#[allow(dead_code)]
#[path = "../../core-mon/src/refpred.rs"]
mod refpred;
#[allow(dead_code)]
#[path = "../../linkspace-mon/src/rt.rs"]
mod rt;
#[allow(dead_code)]
#[path = "../../core-mon/src/world.rs"]
mod world;
#[allow(dead_code)]
#[path = "../../abe-mon/src/gen.rs"]
mod gen;
#[allow(dead_code)]
#[path = "../../abe-mon/src/refabe.rs"]
mod refabe;
#[allow(dead_code)]
#[path = "../../abe-mon/src/refeval.rs"]
mod refeval;
mod x_eval;
mod x_hand;
mod x_key;
mod x_live;
mod x_lns;
mod x_point;
mod x_store;
mod x_stream;
#[global_allocator]
static ALLOC: vmlib::alloc::Checked = vmlib::alloc::Checked;
static PROPS: &[&vmlib::Prop] = &[&x_point::X01, &x_stream::X02, &x_store::X03, &x_live::X04, &x_key::X05, &x_eval::X06, &x_hand::X07, &x_lns::X08];
fn main() {
    std::env::set_var("LK_FORCE_EMPTY", "1");
    vmlib::main(PROPS)
}
