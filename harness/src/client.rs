//! C21: the client library's quotes against execution. The client's own source files are compiled in;
//! its network side (RPC fetching, streams) is left out.
#![allow(dead_code)]
#[macro_use]
mod macros;
mod driver;
mod engine;
mod model;
mod profiles;
mod rt;
mod sim;
mod world;

#[path = "/repo/lib/client/src/book.rs"]
mod book;
#[path = "/repo/lib/client/src/jup.rs"]
mod jup;
mod client_util;
mod direct;
mod quotes;

pub use book::*;
use client_util as util;

fn main() {
    quotes::DIRECT.set(direct::query).ok();
    driver::main(quotes::plans)
}
