//! Invariants evaluated directly on the program's state, independent of the reference model's predictions.
use crate::engine::*;
use crate::model::*;
use crate::sim::*;

/// what the market owes, from the parts: [base, quote]
pub fn owed(s: &State, p: &Params) -> [i128; 2] {
    let (bls, qls) = (p.bls as i128, p.qls as i128);
    let mut b: i128 = 0;
    let mut q: i128 = s.mkt.fees_available;
    for a in &s.oos {
        b += a.pos.base_free;
        q += a.pos.quote_free + a.pos.locked_fees + a.pos.rebates;
        q += a.pos.bids_quote * qls;
    }
    for o in &s.books[ASK] {
        b += o.qty as i128 * bls;
    }
    for e in &s.events {
        match &e.ev {
            Ev::Fill { taker_side, maker, taker, price, qty, .. } => {
                let quote = *qty as i128 * *price as i128 * qls;
                let own = s.oos.get(*maker).map(|m| m.key == *taker).unwrap_or(false);
                let rebate = if own { 0 } else { p.rebate_floor(quote) };
                if *taker_side == BID {
                    q += quote + rebate;
                } else {
                    // the maker's lock (part of bids_quote) pays the taker; the base is owed to the maker
                    b += *qty as i128 * bls;
                    q += rebate - quote;
                }
            }
            Ev::Out { side, qty, .. } => {
                if *side == ASK {
                    b += *qty as i128 * bls;
                }
            }
        }
    }
    [b, q]
}

pub fn solvency(s: &State, p: &Params) -> Result<(), String> {
    let o = owed(s, p);
    let rec = [s.mkt.base_total, s.mkt.quote_total];
    for i in 0..2 {
        let n = ["base", "quote"][i];
        if s.vaults[i] != rec[i] {
            return Err(format!("{} vault holds {} but the market records deposits of {}", n, s.vaults[i], rec[i]));
        }
        if o[i] != rec[i] {
            return Err(format!("{} deposits on record {} but the market owes {}", n, rec[i], o[i]));
        }
    }
    Ok(())
}

/// all tokens in the closed world
pub fn total_tokens(s: &State) -> [i128; 2] {
    let mut t = [s.vaults[0], s.vaults[1] + s.ref_bal + s.fee_bal];
    for w in &s.wallets {
        t[0] += w[0];
        t[1] += w[1];
    }
    t
}

/// accounts mirror the book and the queue
pub fn mirror(s: &State, p: &Params) -> Result<(), String> {
    let n = s.oos.len();
    let mut claimed: Vec<[u8; SLOTS]> = vec![[0; SLOTS]; n];
    let mut bids = vec![0i128; n];
    let mut asks = vec![0i128; n];
    let mut bidq = vec![0i128; n];
    let mut ids = std::collections::HashSet::new();
    for side in 0..2 {
        for o in &s.books[side] {
            if o.owner >= n || o.slot as usize >= SLOTS {
                return Err(format!("resting order of no known account: {:?}", o));
            }
            let sl = match s.oos[o.owner].slots[o.slot as usize] {
                Some(x) => x,
                None => return Err(format!("resting order without an entry in its account: {:?}", o)),
            };
            let lock = if o.peg {
                if side == BID {
                    o.peg_limit
                } else {
                    sl.price
                }
            } else {
                (o.key >> 64) as i64
            };
            if sl.id != o.key || sl.side != side || sl.peg != o.peg || sl.cid != o.cid || sl.price != lock {
                return Err(format!("account entry {:?} does not describe its resting order {:?}", sl, o));
            }
            if o.qty <= 0 {
                return Err(format!("resting order without quantity: {:?}", o));
            }
            claimed[o.owner][o.slot as usize] += 1;
            if side == BID {
                bids[o.owner] += o.qty as i128;
                bidq[o.owner] += o.qty as i128 * lock as i128;
            } else {
                asks[o.owner] += o.qty as i128;
            }
            if !ids.insert(o.seq(side)) {
                return Err(format!("two resting orders with the same sequence number: {:?}", o));
            }
        }
    }
    for e in &s.events {
        match &e.ev {
            Ev::Fill { taker_side, maker_out, maker_slot, maker, price, peg_limit, qty, maker_cid, .. } => {
                if *maker >= n || *maker_slot as usize >= SLOTS {
                    return Err(format!("pending trade of no known account: {:?}", e));
                }
                if *taker_side == ASK {
                    bids[*maker] += *qty as i128;
                    bidq[*maker] += *qty as i128 * if *peg_limit != -1 { *peg_limit } else { *price } as i128;
                } else {
                    asks[*maker] += *qty as i128;
                }
                if *maker_out {
                    claimed[*maker][*maker_slot as usize] += 1;
                    match s.oos[*maker].slots[*maker_slot as usize] {
                        Some(x) if x.cid == *maker_cid && x.side == 1 - *taker_side => {}
                        x => return Err(format!("final trade {:?} pending for entry {:?}", e, x)),
                    }
                }
            }
            Ev::Out { side, slot, owner, qty, .. } => {
                if *owner >= n || *slot as usize >= SLOTS {
                    return Err(format!("pending removal of no known account: {:?}", e));
                }
                claimed[*owner][*slot as usize] += 1;
                match s.oos[*owner].slots[*slot as usize] {
                    Some(x) if x.side == *side => {
                        if *side == BID {
                            bids[*owner] += *qty as i128;
                            bidq[*owner] += *qty as i128 * x.price as i128;
                        } else {
                            asks[*owner] += *qty as i128;
                        }
                    }
                    x => return Err(format!("removal {:?} pending for entry {:?}", e, x)),
                }
            }
        }
    }
    for (i, a) in s.oos.iter().enumerate() {
        for (j, sl) in a.slots.iter().enumerate() {
            let want = sl.is_some() as u8;
            if claimed[i][j] != want {
                return Err(format!("account {} entry {} {:?} belongs to {} resting orders or pending removals", i, j, sl, claimed[i][j]));
            }
        }
        let got = [a.pos.bids_base, a.pos.asks_base, a.pos.bids_quote];
        let want = [bids[i], asks[i], bidq[i]];
        if got != want {
            return Err(format!("account {} records bid/ask/bid-quote lots {:?}, resting plus pending are {:?}", i, got, want));
        }
        if a.pos.locked_fees < 0 || (p.maker_fee <= 0 && a.pos.locked_fees != 0) {
            return Err(format!("account {} locks maker fees {} at rate {}", i, a.pos.locked_fees, p.maker_fee));
        }
    }
    Ok(())
}

/// new resting orders carry fresh sequence numbers
pub fn fresh_ids(b: &State, a: &State) -> Result<(), String> {
    for side in 0..2 {
        for o in &a.books[side] {
            let old = b.books[side].iter().any(|x| x.peg == o.peg && x.key == o.key);
            if !old && !(o.seq(side) > b.mkt.seq && o.seq(side) <= a.mkt.seq) {
                return Err(format!("new order {:?} has sequence number {} but the market went from {} to {}", o, o.seq(side), b.mkt.seq, a.mkt.seq));
            }
        }
    }
    Ok(())
}

/// one order instruction's own parameters, if it is a plain single order
pub fn single(op: &Op) -> Option<(&OArgs, Option<usize>, usize)> {
    match op {
        Op::Place { oo, signer, o, .. } => Some((o, Some(*oo), *signer)),
        Op::Take { user, o, .. } => Some((o, None, *user)),
        _ => None,
    }
}

/// Price-time priority judged from the book before and after.
pub fn priority(s: &Step) -> Result<(), String> {
    let (o, _, _) = match single(s.op) {
        Some(x) if s.ok() => x,
        _ => return Ok(()),
    };
    let opp = 1 - o.side;
    let oracle = match s.model_before.oracle_lots() {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    let me = single(s.op).unwrap().1;
    let mut want: Vec<Fill> = vec![];
    let mut blocked: Option<MOrder> = None;
    let mut maybe: Vec<Fill> = vec![];
    for (st, price, x) in s.model_before.ranked(opp, oracle) {
        if st != OState::Valid {
            continue;
        }
        let left = s.after.books[opp].iter().find(|y| y.peg == x.peg && y.key == x.key).map(|y| y.qty).unwrap_or(0);
        let used = x.qty - left;
        if used < 0 {
            return Err(format!("resting order grew: {:?}", x));
        }
        if used > 0 {
            if let Some(b) = &blocked {
                return Err(format!("{:?} was used although {:?} ranks ahead and still has size", x, b));
            }
            let f = Fill { taker_side: o.side, maker: x.owner, price, qty: used };
            if Some(x.owner) == me && left == 0 {
                maybe.push(f); // own orders may be cancelled instead of traded
            } else {
                want.push(f);
            }
        }
        if left > 0 {
            blocked = Some(x);
        }
    }
    let mut got = s.fills.to_vec();
    for f in &want {
        match got.iter().position(|g| g == f) {
            Some(i) => {
                got.remove(i);
            }
            None => return Err(format!("size taken from the book without the trade {:?} (trades made: {:?})", f, s.fills)),
        }
    }
    for f in &got {
        if !maybe.contains(f) {
            return Err(format!("trade {:?} does not correspond to a live resting order at that price", f));
        }
    }
    Ok(())
}

/// limits the sender set
pub fn limits(s: &Step, p: &Params) -> Result<(), String> {
    let (o, oo, user) = match single(s.op) {
        Some(x) if s.ok() => x,
        _ => return Ok(()),
    };
    let oracle = s.model_before.oracle_lots().ok().flatten();
    let limit = if o.typ == Typ::Market {
        None
    } else if o.peg {
        oracle.map(|x| x.saturating_add(o.price))
    } else {
        Some(o.price)
    };
    if let Some(l) = limit {
        for f in s.fills {
            if better(o.side, f.price, l) {
                return Err(format!("traded at {} beyond the limit {}", f.price, l));
            }
        }
    }
    let traded: i128 = s.fills.iter().map(|f| f.qty as i128).sum();
    let posted: i128 = s.after.books[o.side]
        .iter()
        .filter(|x| !s.before.books[o.side].iter().any(|y| y.peg == x.peg && y.key == x.key))
        .map(|x| x.qty as i128)
        .sum();
    if traded + posted > o.mb.max(0) as i128 {
        return Err(format!("traded {} and posted {} lots, allowed {}", traded, posted, o.mb));
    }
    if s.fills.len() > o.limit as usize {
        return Err(format!("matched {} orders, limit {}", s.fills.len(), o.limit));
    }
    let hold = |st: &State, i: usize| st.wallets[user][i] + oo.map(|x| if i == 0 { st.oos[x].pos.base_free } else { st.oos[x].pos.quote_free }).unwrap_or(0);
    let spent = [hold(s.before, 0) - hold(s.after, 0), hold(s.before, 1) - hold(s.after, 1)];
    if o.side == BID {
        if o.mq >= 0 && spent[1] > o.mq as i128 * p.qls as i128 {
            return Err(format!("cost {} quote, allowed {}", spent[1], o.mq as i128 * p.qls as i128));
        }
        if spent[0] > 0 {
            return Err(format!("a buyer lost {} base", spent[0]));
        }
    } else {
        if spent[0] > (traded + posted) * p.bls as i128 {
            return Err(format!("a seller lost {} base for {} lots traded and {} posted", spent[0], traded, posted));
        }
        // a seller may only lose quote if taker fees exceed proceeds, which the fee bounds rule out
        if spent[1] > 0 {
            return Err(format!("a seller lost {} quote", spent[1]));
        }
    }
    if traded == 0 && posted == 0 && (spent[0] > 0 || spent[1] > 0) {
        return Err(format!("charged {:?} for an order that did nothing", spent));
    }
    Ok(())
}

/// what the order type promises
pub fn order_type(s: &Step) -> Result<(), String> {
    let (o, _, _) = match single(s.op) {
        Some(x) => x,
        None => return Ok(()),
    };
    if !s.ok() {
        return Ok(());
    }
    let posted: Vec<&MOrder> = s.after.books[o.side].iter().filter(|x| !s.before.books[o.side].iter().any(|y| y.peg == x.peg && y.key == x.key)).collect();
    let traded: i128 = s.fills.iter().map(|f| f.qty as i128).sum();
    if matches!(s.op, Op::Take { .. }) && !matches!(o.typ, Typ::Market | Typ::Ioc | Typ::Fok) {
        return Err("account-less order of a posting type accepted".into());
    }
    match o.typ {
        Typ::Market | Typ::Ioc | Typ::Fok => {
            if !posted.is_empty() {
                return Err(format!("a taking order rests on the book: {:?}", posted));
            }
            if o.typ == Typ::Fok && traded != o.mb as i128 {
                let expired = matches!(s.op, Op::Place { .. }) && o.exp != 0 && o.exp <= s.model.now as u64;
                if !expired {
                    return Err(format!("fill or kill traded {} of {}", traded, o.mb));
                }
            }
        }
        Typ::PostOnly | Typ::Slide => {
            if !s.fills.is_empty() {
                return Err(format!("a post-only order traded: {:?}", s.fills));
            }
        }
        Typ::Limit => {}
    }
    if matches!(s.op, Op::Place { .. }) && o.exp != 0 && o.exp <= s.model.now as u64 && s.before != s.after {
        return Err("an order already expired changed something".into());
    }
    // a posted order must not cross the live book
    if let Ok(oracle) = s.model.oracle_lots() {
        for x in posted {
            let mine = x.price(o.side, oracle, s.model.now as u64);
            if mine.0 != OState::Valid {
                continue;
            }
            if matches!(o.typ, Typ::PostOnly | Typ::Slide) {
                for y in &s.after.books[1 - o.side] {
                    let theirs = y.price(1 - o.side, oracle, s.model.now as u64);
                    if theirs.0 == OState::Valid && !better(1 - o.side, mine.1, theirs.1) {
                        return Err(format!("post-only order rests at {} across {}", mine.1, theirs.1));
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn as_viol(kind: &str, s: &Step, r: Result<(), String>) -> Result<(), Violation> {
    match r {
        Ok(()) => Ok(()),
        Err(e) => viol(format!("{} ({})", kind, s.op.name()), format!("{}\n{}", e, s.describe())),
    }
}
