#[path = "../codec.rs"]
mod codec;
pub use harness::*;
fn main() {
    let mut all = vec![];
    all.extend_from_slice(codec::CHECKS);
    std::process::exit(engine::main("internals", &all));
}
