//! C30, C31 and C22: the whole Rust client, with a node of this process behind it.
#![allow(dead_code)]
#[macro_use]
#[path = "../../src/macros.rs"]
mod macros;
#[path = "../../src/chain_core.rs"]
mod chain_core;
#[path = "../../src/driver.rs"]
mod driver;
#[path = "../../src/engine.rs"]
mod engine;
#[path = "../../src/model.rs"]
mod model;
#[path = "../../src/profiles.rs"]
mod profiles;
#[path = "../../src/rt.rs"]
mod rt;
#[path = "../../src/sim.rs"]
mod sim;
#[path = "../../src/world.rs"]
mod world;

mod cache;
mod calls;
mod fate;
mod feed;
mod node;

use openbook_v2_client::chain_data;

fn plans(id: &str) -> Option<Vec<engine::Plan>> {
    node::keys();
    match id {
        "C22" => Some(feed::plans()),
        "C31" => Some(cache::plans()),
        "C30" => Some(calls::plans()),
        _ => None,
    }
}

fn main() {
    driver::main(plans)
}
