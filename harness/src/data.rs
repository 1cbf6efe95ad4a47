//! The checks that also call the book's and queue's inner functions. They live in a program of their
//! own so that the checks on whole instructions do not depend on those functions' signatures.
#![allow(dead_code)]
#[macro_use]
mod macros;
mod driver;
mod engine;
mod model;
mod profiles;
mod props;
mod rt;
mod sim;
mod world;
mod structs;

fn main() {
    driver::main(|id| {
        let mut v = structs::plans(id)?;
        v.extend(props::plans(id).unwrap_or_default());
        Some(v)
    })
}
