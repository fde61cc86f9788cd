mod checks;
#[allow(dead_code)]
mod refcurve;
static PROPS: &[&vmlib::Prop] = &[&checks::C01, &checks::C02, &checks::C03];
fn main() {
    vmlib::main(PROPS)
}
