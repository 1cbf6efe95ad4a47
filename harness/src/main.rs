//! Property-based tests for openbook-v2. See ../DESIGN.md.
#![allow(dead_code)]
#[macro_use]
mod macros;
mod driver;
mod engine;
mod model;
mod profiles;
mod props;
mod rt;
mod sim;
mod world;

fn main() {
    driver::main(props::plans)
}
