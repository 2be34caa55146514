use harness::*;
fn main() {
    let mut all = vec![];
    all.extend_from_slice(c_session::CHECKS);
    all.extend_from_slice(c_wire::CHECKS);
    all.extend_from_slice(c_hand::CHECKS);
    all.extend_from_slice(c_hostile::CHECKS);
    all.extend_from_slice(c_life::CHECKS);
    all.extend_from_slice(c_conc::CHECKS);
    all.extend_from_slice(c_wrap::CHECKS);
    std::process::exit(engine::main("e2e", &all));
}
