//! C22, without the parts of the client that talk to a node: its own source file is compiled in.
#![allow(dead_code)]
mod chain_core;
mod driver;
mod engine;
mod rt;

#[path = "/repo/lib/client/src/chain_data.rs"]
mod chain_data;
mod chain_data_fetcher {
    /// stand-in for the part that talks to a node
    pub struct AccountFetcher;
}

use chain_core::*;
use engine::*;

fn plans(id: &str) -> Option<Vec<Plan>> {
    match id {
        "C22" => Some(vec![
            Plan { name: "short", rule: RULE, rows: (4, 24), row_len: 10, quick: 200000, thorough: 8000000, run: run_plain },
            Plan { name: "long", rule: RULE, rows: (20, 150), row_len: 10, quick: 60000, thorough: 3000000, run: run_plain },
        ]),
        _ => None,
    }
}

fn main() {
    driver::main(plans)
}
