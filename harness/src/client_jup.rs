//! C21 without the calls to the client's inner function: quotes of the aggregator adapter only.
#![allow(dead_code)]
#[macro_use]
mod macros;
mod driver;
mod engine;
mod model;
mod profiles;
mod rt;
mod sim;
mod world;

#[path = "/repo/lib/client/src/book.rs"]
mod book;
mod client_util;
#[path = "/repo/lib/client/src/jup.rs"]
mod jup;
mod quotes;

pub use book::*;
use client_util as util;

fn main() {
    driver::main(quotes::plans)
}
