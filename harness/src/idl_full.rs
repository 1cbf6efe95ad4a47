//! C23: the published interface description. 
#![allow(dead_code)]
mod driver;
mod engine;
mod idl;
mod idl_types;
mod idl_use;
mod rt;

fn plans(id: &str) -> Option<Vec<engine::Plan>> {
    match id {
        "C23" => Some(vec![
            engine::Plan {
                name: "values",
                rule: "every case is a list of instructions, account contents, events and errors read both ways",
                rows: (2, 12),
                row_len: 160,
                quick: 60000,
                thorough: 3000000,
                run: idl_types::run,
            },
            engine::Plan {
                name: "use",
                rule: "a case counts when an order came to rest and was matched, everything built and read by the description alone",
                rows: (5, 60),
                row_len: 24,
                quick: 6000,
                thorough: 300000,
                run: idl_use::run,
            },
        ]),
        _ => None,
    }
}

fn main() {
    driver::main(plans)
}
