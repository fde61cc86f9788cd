#![allow(clippy::all)]
#![feature(thread_local)]
#[allow(dead_code)]
#[path = "../../core-mon/src/clock.rs"]
mod clock;
#[allow(dead_code)]
#[path = "../../core-mon/src/d_query.rs"]
mod d_query;
#[allow(dead_code)]
#[path = "../../core-mon/src/d_sets.rs"]
mod d_sets;
mod l_eval;
mod l_get;
mod l_lns;
mod l_point;
mod l_proto;
mod l_serde;
mod l_status;
mod l_watch;
mod l_while;
#[allow(dead_code)]
#[path = "../../crypto-mon/src/refcurve.rs"]
mod refcurve;
#[allow(dead_code)]
#[path = "../../pkt-mon/src/refpkt.rs"]
mod refpkt;
#[allow(dead_code)]
#[path = "../../core-mon/src/refpred.rs"]
mod refpred;
#[allow(dead_code)]
mod rt;
#[allow(dead_code)]
#[path = "../../core-mon/src/world.rs"]
mod world;
#[global_allocator]
static ALLOC: vmlib::alloc::Checked = vmlib::alloc::Checked;
static PROPS: &[&vmlib::Prop] = &[&l_watch::L01, &l_while::L02, &l_get::L03, &l_point::L04, &l_point::L05, &l_lns::L06, &l_eval::L07, &l_status::L08, &l_proto::L09, &l_proto::L10, &l_proto::L11, &l_serde::S01];
fn main() {
    // stores start out empty
    std::env::set_var("LK_FORCE_EMPTY", "1");
    vmlib::main(PROPS)
}
