use crate::engine::*;

mod auth;
mod hist;
mod inv;
mod life;
mod oracle;

pub fn plans(id: &str) -> Option<Vec<Plan>> {
    match id {
        "C12" | "C13" => Some(auth::plans(id)),
        "C19" => Some(oracle::plans()),
        "C02" | "C07" | "C18" => Some(life::plans(id)),
        "C17" => {
            let mut v = life::plans(id);
            v.extend(hist::plans("C17h")?);
            Some(v)
        }
        _ => hist::plans(id),
    }
}
