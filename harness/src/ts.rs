//! C28, C29, C32: the TypeScript client. A node process answers questions by means of the client's own code
//! (harness/ts/server.ts); what it says is compared with the accounts, what it builds is executed.
#![allow(dead_code)]
#[macro_use]
mod macros;
mod driver;
mod engine;
mod model;
mod profiles;
mod rt;
mod sim;
mod ts_build;
mod ts_io;
mod ts_send;
mod ts_view;
mod world;

fn plans(id: &str) -> Option<Vec<engine::Plan>> {
    match id {
        "C28" => Some(ts_view::plans()),
        "C29" => Some(ts_build::plans()),
        "C32" => Some(ts_send::plans()),
        _ => None,
    }
}

fn main() {
    driver::main(plans)
}
