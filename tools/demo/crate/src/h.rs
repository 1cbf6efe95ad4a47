//! shorthands for scenarios
pub use crate::model::*;
pub use crate::world::*;

pub fn order(side: usize, price: i64, qty: i64) -> OArgs {
    OArgs { side, peg: false, price, peg_limit: -1, mb: qty, mq: 1 << 30, cid: 0, typ: Typ::Limit, exp: 0, stb: Stb::Decrement, limit: 50 }
}
pub fn place(w: &mut World, oo: usize, o: OArgs) -> bool {
    place_rem(w, oo, o, &[])
}
pub fn place_rem(w: &mut World, oo: usize, o: OArgs, rem: &[usize]) -> bool {
    let signer = w.cfg.oos[oo];
    run(w, Op::Place { oo, signer, o, rem: rem.to_vec(), wrong_vault: false })
}
pub fn run(w: &mut World, op: Op) -> bool {
    let r = w.exec(&op);
    println!("{:?} -> {}", op, match &r { Ok(_) => "ok".to_string(), Err(e) => format!("{:?}", e) });
    r.is_ok()
}
pub fn crank(w: &mut World) {
    let n = w.oos.len();
    for _ in 0..200 {
        if w.read().unwrap().events.is_empty() {
            break;
        }
        run(w, Op::Consume { limit: 8, rem: (0..n).collect() });
    }
}
pub fn settle(w: &mut World, oo: usize) -> bool {
    let signer = w.cfg.oos[oo];
    run(w, Op::Settle { oo, signer, dest: signer, referrer: false })
}
pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("BROKEN: {}", what);
        std::process::exit(1)
    }
}
