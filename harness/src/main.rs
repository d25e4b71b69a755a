//! Property checks for the XOXNO lending protocol.
//!   lending-pbt --property C07 --tier quick --seed 1 [--replay FILE]
mod agg;
mod bench;
mod check;
mod enc;
mod ev;
mod fx;
#[cfg(feature = "direct")]
mod math;
mod mocks;
mod model;
mod props;
mod pure;
mod runner;
mod sim;
mod snap;
mod tx;
mod vm;
mod world;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|x| x.as_str()) == Some("bench") {
        bench::main();
        return;
    }
    std::process::exit(runner::main(&a));
}
