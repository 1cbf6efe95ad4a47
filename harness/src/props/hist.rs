//! Properties decided by random histories: lock-step comparison with the model plus direct invariants.
use super::inv::*;
use crate::profiles::*;
use crate::engine::*;
use crate::model::*;
use crate::sim::*;

const ALL: u32 = !(1 << 31);
const MONEY: u32 = WALLET | VAULT | TOTALS | FREE | LOCKED | REBATES;

fn mismatch(s: &Step, mask: u32) -> Result<(), Violation> {
    let a = s.aspects & (mask | BROKEN) & ALL;
    if a != 0 {
        return viol(format!("{}: {}", s.op.name(), aspect_names(a)), s.describe());
    }
    Ok(())
}

fn order_of(op: &Op) -> Option<&OArgs> {
    match op {
        Op::Place { o, .. } | Op::Edit { o, .. } | Op::Take { o, .. } => Some(o),
        _ => None,
    }
}

fn expiries(op: &Op) -> bool {
    match op {
        Op::Multi { bids, asks, .. } => bids.iter().chain(asks).any(|o| o.2 != 0),
        _ => order_of(op).map(|o| o.exp != 0).unwrap_or(false),
    }
}

fn acting_oo(op: &Op) -> Option<usize> {
    match op {
        Op::Place { oo, .. } | Op::Edit { oo, .. } | Op::Multi { oo, .. } => Some(*oo),
        _ => None,
    }
}

/// does the acting account have resting orders on a side the instruction can match against
fn meets_itself(s: &Step) -> bool {
    let oo = match acting_oo(s.op) {
        Some(x) => x,
        None => return false,
    };
    (0..2).any(|side| {
        let takes = match order_of(s.op) {
            Some(o) => o.side != side,
            None => true,
        };
        takes && s.before.books[side].iter().any(|o| o.owner == oo)
    })
}

fn self_event(s: &Step) -> bool {
    s.before.events.iter().any(|e| match &e.ev {
        Ev::Fill { maker, taker, .. } => s.before.oos.get(*maker).map(|m| m.key == *taker).unwrap_or(false),
        _ => false,
    })
}

fn pegs_around(s: &Step) -> bool {
    s.before.books.iter().flatten().any(|o| o.peg)
        || s.after.books.iter().flatten().any(|o| o.peg)
        || order_of(s.op).map(|o| o.peg).unwrap_or(false)
        || s.before.events.iter().any(|e| matches!(&e.ev, Ev::Fill { peg_limit, .. } if *peg_limit != -1))
}

fn timed_around(s: &Step) -> bool {
    s.before.books.iter().flatten().any(|o| o.tif > 0)
        || s.after.books.iter().flatten().any(|o| o.tif > 0)
        || expiries(s.op)
        || s.before.events.iter().any(|e| matches!(&e.ev, Ev::Out { .. }))
}

type Judge = fn(&Step, &mut Info) -> Result<(), Violation>;

fn run(case: &Case, info: &mut Info, v: bool, pr: &Profile, judge: Judge, nontrivial: &str) -> Result<(), Violation> {
    let (_, _, _) = history(case, info, v, pr, |_| {}, &mut |s, i| judge(s, i))?;
    info.nontrivial = nontrivial.split('|').any(|k| info.counters.get(k).copied().unwrap_or(0) > 0);
    Ok(())
}

// ---- judges ----

pub fn c01(s: &Step, _: &mut Info) -> Result<(), Violation> {
    mismatch(s, 0)?;
    as_viol("vaults", s, solvency(s.after, &s.model.p))?;
    if total_tokens(s.before) != total_tokens(s.after) {
        return viol(format!("tokens not conserved ({})", s.op.name()), s.describe());
    }
    mismatch(s, MONEY | FEES)
}

fn c03(s: &Step, _: &mut Info) -> Result<(), Violation> {
    as_viol("priority", s, priority(s))?;
    if is_trading(s.op) {
        mismatch(s, FILLS)?;
        if s.pred.as_ref().map(|o| !o.fills.is_empty()).unwrap_or(false) || !s.fills.is_empty() {
            mismatch(s, OUTCOME | BOOK | EVENTS)?;
        }
    }
    Ok(())
}

fn c04(s: &Step, _: &mut Info) -> Result<(), Violation> {
    as_viol("limits", s, limits(s, &s.model.p))?;
    if is_trading(s.op) {
        mismatch(s, OUTCOME | FILLS | BOOK | WALLET | FREE)?;
    }
    Ok(())
}

fn c05(s: &Step, i: &mut Info) -> Result<(), Violation> {
    as_viol("order type", s, order_type(s))?;
    if let (Some(o), true) = (order_of(s.op), s.ok()) {
        i.count(&format!("type {:?}{}", o.typ, if o.peg { " pegged" } else { "" }), 1);
    }
    if is_trading(s.op) {
        mismatch(s, OUTCOME | FILLS | BOOK | RET | SLOTS_A | SEQ)?;
    }
    Ok(())
}

fn c06(s: &Step, _: &mut Info) -> Result<(), Violation> {
    mismatch(s, FEES | MONEY)?;
    let trades = s.out().map(|o| !o.fills.is_empty()).unwrap_or(false);
    if trades || matches!(s.op, Op::Consume { .. } | Op::ConsumeGiven { .. } | Op::Settle { .. } | Op::SettleExpired { .. } | Op::Sweep) {
        mismatch(s, OUTCOME)?;
    }
    // the fee records of the market agree with the accounts
    let reb: i128 = s.after.oos.iter().map(|a| a.pos.rebates).sum();
    if reb != s.after.mkt.rebates_accrued {
        return viol(format!("rebate record ({})", s.op.name()), format!("market records {} unclaimed rebates, accounts hold {}\n{}", s.after.mkt.rebates_accrued, reb, s.describe()));
    }
    Ok(())
}

fn c08(s: &Step, _: &mut Info) -> Result<(), Violation> {
    if meets_itself(s) || (matches!(s.op, Op::Consume { .. } | Op::ConsumeGiven { .. }) && self_event(s)) {
        mismatch(s, OUTCOME | MONEY | FEES | FILLS | BOOK | EVENTS | SLOTS_A)?;
    } else if is_trading(s.op) && same_owner_meets(s) {
        // different accounts of one owner trade like strangers
        mismatch(s, OUTCOME | FILLS | BOOK | EVENTS | FREE | FEES)?;
    }
    Ok(())
}

fn same_owner_meets(s: &Step) -> bool {
    let oo = match acting_oo(s.op) {
        Some(x) => x,
        None => return false,
    };
    s.before.books.iter().flatten().any(|o| o.owner != oo && o.owner < s.before.oos.len() && s.before.oos[o.owner].owner == s.before.oos[oo].owner)
}

fn c09(s: &Step, _: &mut Info) -> Result<(), Violation> {
    if pegs_around(s) {
        as_viol("peg", s, priority(s))?;
        mismatch(s, OUTCOME | MONEY | FILLS | BOOK | EVENTS | SLOTS_A)?;
    }
    Ok(())
}

fn c10(s: &Step, _: &mut Info) -> Result<(), Violation> {
    if timed_around(s) {
        as_viol("expired order", s, priority(s))?;
        mismatch(s, OUTCOME | MONEY | FILLS | BOOK | EVENTS | SLOTS_A)?;
    }
    Ok(())
}

fn c11(s: &Step, _: &mut Info) -> Result<(), Violation> {
    let cancels = matches!(s.op, Op::CancelId { .. } | Op::CancelCid { .. } | Op::CancelAll { .. } | Op::Prune { .. } | Op::Edit { .. } | Op::Multi { cancel: true, .. });
    if cancels {
        mismatch(s, ALL)?;
    }
    // a pure cancellation leaves every other account and order alone and credits exactly the locked funds
    let who = match s.op {
        Op::CancelId { oo, .. } | Op::CancelCid { oo, .. } | Op::CancelAll { oo, .. } | Op::Prune { oo, .. } => *oo,
        _ => return Ok(()),
    };
    if !s.ok() {
        return Ok(());
    }
    let p = &s.model.p;
    let mut want = s.before.oos[who].clone();
    let mut n = 0;
    for side in 0..2 {
        for o in &s.after.books[side] {
            if !s.before.books[side].contains(o) {
                return viol("cancel changed an order", s.describe());
            }
        }
        for o in &s.before.books[side] {
            if s.after.books[side].contains(o) {
                continue;
            }
            n += 1;
            if o.owner != who {
                return viol("cancel removed a foreign order", s.describe());
            }
            let selected = match s.op {
                Op::CancelId { id, .. } => o.key == *id,
                Op::CancelCid { cid, .. } => o.cid == *cid,
                Op::CancelAll { side: sd, .. } => sd.map(|x| x == side).unwrap_or(true),
                _ => true,
            };
            if !selected {
                return viol("cancel removed an order not selected", s.describe());
            }
            let sl = want.slots[o.slot as usize].take();
            let lock = sl.map(|x| x.price).unwrap_or(0);
            if side == BID {
                let q = o.qty as i128 * lock as i128 * p.qls as i128;
                let fee = p.maker_fee_ceil(q);
                want.pos.quote_free += q + fee;
                want.pos.locked_fees -= fee;
                want.pos.bids_base -= o.qty as i128;
                want.pos.bids_quote -= o.qty as i128 * lock as i128;
            } else {
                want.pos.base_free += o.qty as i128 * p.bls as i128;
                want.pos.asks_base -= o.qty as i128;
            }
        }
    }
    let lim = match s.op {
        Op::CancelAll { limit, .. } | Op::Prune { limit, .. } => *limit as usize,
        Op::CancelId { .. } => 1,
        _ => SLOTS,
    };
    if n > lim {
        return viol("cancel removed too many", s.describe());
    }
    if want != s.after.oos[who] {
        return viol("cancel refund", format!("expected account {:?}\ngot {:?}\n{}", want, s.after.oos[who], s.describe()));
    }
    for (i, a) in s.after.oos.iter().enumerate() {
        if i != who && *a != s.before.oos[i] {
            return viol("cancel touched another account", s.describe());
        }
    }
    if s.before.wallets != s.after.wallets || s.before.vaults != s.after.vaults || s.before.events != s.after.events || s.before.mkt != s.after.mkt {
        return viol("cancel had side effects", s.describe());
    }
    Ok(())
}

fn c14(s: &Step, i: &mut Info) -> Result<(), Violation> {
    mismatch(s, BOOK)?;
    if s.before.books != s.after.books {
        i.count("book_changes", 1);
    }
    Ok(())
}

fn c15(s: &Step, i: &mut Info) -> Result<(), Violation> {
    mismatch(s, EVENTS)?;
    if matches!(s.op, Op::Consume { .. } | Op::ConsumeGiven { .. }) {
        mismatch(s, OUTCOME)?;
    }
    if s.before.events.len() > s.after.events.len() {
        i.count("events_removed", 1);
    }
    Ok(())
}

fn c25(s: &Step, _: &mut Info) -> Result<(), Violation> {
    as_viol("priority", s, priority(s))?;
    if is_trading(s.op) {
        mismatch(s, FILLS | BOOK)?;
    }
    Ok(())
}

fn c16(s: &Step, _: &mut Info) -> Result<(), Violation> {
    mismatch(s, 0)?;
    as_viol("mirror", s, mirror(s.after, &s.model.p))?;
    as_viol("order ids", s, fresh_ids(s.before, s.after))?;
    for a in &s.after.oos {
        if a.slots.iter().flatten().count() > 24 {
            return viol("more than 24 orders", s.describe());
        }
    }
    if is_trading(s.op) {
        // acceptance into a full book, eviction, slot limit
        mismatch(s, OUTCOME | BOOK | SLOTS_A)?;
        if s.out().map(|o| o.evicted > 0).unwrap_or(false) {
            mismatch(s, EVENTS | FREE)?;
        }
    }
    mismatch(s, SLOTS_A | LOCKED | SEQ)
}

fn c17h(s: &Step, _: &mut Info) -> Result<(), Violation> {
    let exp = |st: &State| st.mkt.expiry != 0 && st.mkt.expiry < s.model.now;
    // an edit may still cancel
    let fresh = fresh_order(s.before, s.after) || !s.fills.is_empty();
    if exp(s.before) && s.ok() && (fresh || (s.before != s.after && matches!(s.op, Op::Place { .. } | Op::Multi { cancel: false, .. } | Op::Take { .. } | Op::Deposit { .. } | Op::Refill { .. }))) {
        return viol(format!("accepted on an expired market ({})", s.op.name()), s.describe());
    }
    if !exp(s.before) && s.ok() && matches!(s.op, Op::Prune { .. } | Op::SettleExpired { .. }) {
        return viol(format!("accepted on a live market ({})", s.op.name()), s.describe());
    }
    mismatch(s, EXPIRY)?;
    if s.before.mkt.expiry != 0 {
        mismatch(s, OUTCOME)?;
    }
    if matches!(s.op, Op::Expire | Op::Prune { .. } | Op::SettleExpired { .. }) {
        mismatch(s, ALL)?;
    }
    Ok(())
}

fn fresh_order(b: &State, a: &State) -> bool {
    (0..2).any(|i| a.books[i].iter().any(|o| !b.books[i].iter().any(|x| x.peg == o.peg && x.key == o.key)))
}

fn c20(s: &Step, _: &mut Info) -> Result<(), Violation> {
    if matches!(s.op, Op::Edit { .. } | Op::Multi { .. }) {
        mismatch(s, ALL)?;
    }
    Ok(())
}

fn c24(s: &Step, _: &mut Info) -> Result<(), Violation> {
    mismatch(s, LOGS)
}

fn c26(s: &Step, i: &mut Info) -> Result<(), Violation> {
    mismatch(s, VOLUME | PENALTIES | LAMPORTS)?;
    let pen = |st: &State| st.oos.iter().map(|a| a.pos.penalty).sum::<i128>();
    if pen(s.after) > pen(s.before) {
        i.count("penalties", 1);
    }
    Ok(())
}

fn c27(s: &Step, _: &mut Info) -> Result<(), Violation> {
    if is_trading(s.op) || matches!(s.op, Op::Deposit { .. } | Op::Refill { .. } | Op::Settle { .. } | Op::SettleExpired { .. }) {
        // free balance first, then the wallet: the wallet only pays when the free balance is exhausted
        if let (Some((o, Some(oo), user)), true) = (single(s.op), s.ok()) {
            let i = if o.side == BID { 1 } else { 0 };
            let f = |st: &State| if i == 0 { st.oos[oo].pos.base_free } else { st.oos[oo].pos.quote_free };
            let paid = s.before.wallets[user][i] - s.after.wallets[user][i];
            if paid < 0 {
                return viol("wallet gained from placing", s.describe());
            }
            let own_refund = s.before.books[1 - o.side].iter().any(|x| x.owner == oo) || s.before.books[o.side].iter().any(|x| x.owner == oo);
            if paid > 0 && f(s.after) > 0 && !own_refund {
                return viol("wallet charged although free balance was left", s.describe());
            }
        }
        mismatch(s, OUTCOME | MONEY)?;
    }
    Ok(())
}

fn x00j(s: &Step, _: &mut Info) -> Result<(), Violation> {
    mismatch(s, ALL)?;
    as_viol("vaults", s, solvency(s.after, &s.model.p))?;
    as_viol("mirror", s, mirror(s.after, &s.model.p))
}

macro_rules! plan {
    ($name:expr, $rule:expr, $rows:expr, $q:expr, $t:expr, $pr:expr, $judge:expr, $nt:expr) => {
        Plan { name: $name, rule: $rule, rows: $rows, row_len: 72, quick: $q, thorough: $t, run: |c, i, v| run(c, i, v, &$pr, $judge, $nt) }
    };
}

const R_FILLS: &str = "a history counts when at least one trade happened";

pub fn plans(id: &str) -> Option<Vec<Plan>> {
    macro_rules! three {
        ($judge:expr, $special:expr, $rule:expr, $nt:expr) => {
            vec![
                plan!("general", $rule, (2, 90), 14000, 700000, GENERAL, $judge, $nt),
                plan!("focused", $rule, (2, 90), 14000, 700000, $special, $judge, $nt),
                plan!("crowded", "a history counts when at least one trade happened on a crowded book", (30, 110), if id == "C16" { 1000 } else { 250 }, 15000, CROWD, $judge, "fills"),
                plan!("queue", "a history counts when at least one trade happened with a crowded event queue", (40, 110), 120, 8000, QUEUE, $judge, "fills"),
            ]
        };
    }
    macro_rules! books {
        ($judge:expr, $special:expr, $rule:expr, $nt:expr) => {
            vec![
                plan!("histories", $rule, (2, 90), 6000, 300000, GENERAL, $judge, $nt),
                plan!("focused", $rule, (2, 90), if $special.crowd == 0 { 6000 } else { 300 }, 300000, $special, $judge, $nt),
                plan!("crowded", "a history counts when at least one trade happened on a crowded book", (30, 90), 200, 8000, CROWD, $judge, "fills"),
            ]
        };
    }
    Some(match id {
        "X00" => three!(x00j, PEGS, R_FILLS, "fills"),
        "C01" => three!(c01, FEES_P, R_FILLS, "fills"),
        "C03" => three!(c03, PEGS, R_FILLS, "fills"),
        "C04" => three!(c04, TYPES, R_FILLS, "fills"),
        "C05" => three!(c05, TYPES, "a history counts when at least one order traded or an order was placed through the four posting or two killing types", "fills|type PostOnly|type Slide|type Fok|type Ioc"),
        "C06" => three!(c06, FEES_P, R_FILLS, "fills"),
        "C08" => three!(c08, SELF, "a history counts when an account met its own order (traded against or cancelled it)", "self_trade_fills|self_cancelled"),
        "C09" => three!(c09, PEGS, "a history counts when a pegged order traded", "pegged_fills"),
        "C10" => three!(c10, TIMED, "a history counts when an expired order was taken off the book", "dropped_orders"),
        "C11" => three!(c11, CANCELS, "a history counts when an order was cancelled", "ok cancel_order|ok cancel_all_orders|ok cancel_order_by_client_order_id"),
        "C14" => books!(c14, PEGS, "a history counts when the book changed", "book_changes"),
        "C15" => books!(c15, QUEUE, "a history counts when events were processed", "events_removed"),
        "C25" => books!(c25, PEGS, R_FILLS, "fills"),
        "C16" => three!(c16, CANCELS, R_FILLS, "fills"),
        "C17h" => three!(c17h, LIFE, "a history counts when an instruction for expired markets succeeded", "ok set_market_expired|ok prune_orders|ok settle_funds_expired"),
        "C20" => three!(c20, BATCH, "a history counts when a batch or edit instruction succeeded", "ok place_orders|ok cancel_all_and_place_orders|ok edit_order|ok edit_order_pegged"),
        "C24" => three!(c24, FEES_P, R_FILLS, "fills"),
        "C26" => three!(c26, FEES_P, R_FILLS, "fills"),
        "C27" => three!(c27, FUND, "a history counts when a trade happened or funds were deposited or settled", "fills|ok deposit|ok refill|ok settle_funds"),
        _ => return None,
    })
}
