//! I06: the bus workloads under ThreadSanitizer (see tools/tsan_build.sh)
#[path = "../../harness/bus-mon/src/i_bus.rs"]
#[allow(dead_code)]
mod i_bus;
#[path = "../../harness/bus-mon/src/peer.rs"]
#[allow(dead_code)]
mod peer;
static PROPS: &[&vmlib::Prop] = &[&i_bus::I06];
fn main() {
    vmlib::main(PROPS)
}
