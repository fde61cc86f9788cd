mod i_bus;
mod i_port;
mod peer;
static PROPS: &[&vmlib::Prop] = &[&i_port::I01, &i_bus::I02, &i_bus::I03, &i_bus::I04, &i_bus::I05];
fn main() {
    if std::env::args().nth(1).as_deref() == Some("peer") {
        peer::main()
    }
    if std::env::args().nth(1).as_deref() == Some("getport") {
        peer::getport()
    }
    unsafe {
        let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        l.rlim_cur = l.rlim_max.min(65536);
        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
    }
    vmlib::main(PROPS)
}
