//! C02 (everybody gets their money out), C07 (crank schedules), C17 (market lifecycle), C18 (accounts and their index).
use super::auth::{close_indexer_ix, close_market_ix, close_oo_ix};
use crate::profiles::{CANCELS, CROWD, FEES_P, LIFE, PEGS, QUEUE, SELF};
use super::inv::*;
use crate::engine::*;
use crate::model::*;
use crate::rt::{Acc, Bank};
use crate::sim::*;
use crate::world::*;
use openbook_v2::{accounts as ac, instruction as ins};
use solana_sdk::instruction::Instruction;
use solana_sdk::pubkey::Pubkey;
use std::collections::BTreeMap;

fn shuffle<T>(r: &mut Row, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = r.idx(i + 1);
        v.swap(i, j);
    }
}

/// a row of random words of any length derived from one row
fn long(row: &[u64], salt: u64, n: usize) -> Vec<u64> {
    let seed = row.iter().fold(salt, |a, x| hash_mix(a, *x));
    let zero = row.iter().all(|x| *x == 0);
    (0..n as u64).map(|i| if zero { 0 } else { hash_mix(seed, i) }).collect()
}

fn owner_of(m: &Model, oo: usize) -> usize {
    m.p.users.iter().position(|u| *u == m.s.oos[oo].owner).unwrap()
}

/// an instruction that has to succeed exactly as the model says
fn must(w: &mut World, m: &mut Model, op: &Op, info: &mut Info, verbose: bool) -> Result<(), Violation> {
    let d = lockstep(w, m, op, info);
    if verbose {
        println!("drain {:?}\n    -> {} / {}", op, pred_str(&d.pred), real_str(&d.real));
    }
    let s = d.step(0, op, w, m);
    if d.real.is_err() {
        return viol(format!("refused: {}", op.name()), s.describe());
    }
    if d.aspects & !(LOGS | RET | SEQ | HEAPSEQ | FILLS) & !(1 << 31) != 0 {
        return viol(format!("wrong effect: {}", op.name()), s.describe());
    }
    d.adopt(w, m)
}

fn crank_all(w: &mut World, m: &mut Model, r: &mut Row, info: &mut Info, verbose: bool) -> Result<(), Violation> {
    let n = m.s.oos.len();
    let mut steps = 0;
    while !m.s.events.is_empty() {
        let before = m.s.events.len();
        let style = if steps > 40 { 3 } else { r.below(4) };
        let mut rem: Vec<usize> = (0..n).collect();
        let op = match style {
            0 => {
                shuffle(r, &mut rem);
                Op::Consume { limit: 1 + r.idx(8), rem }
            }
            1 => {
                let mut slots: Vec<usize> = m.s.events.iter().map(|e| e.slot).collect();
                shuffle(r, &mut slots);
                slots.truncate(1 + r.idx(8));
                Op::ConsumeGiven { slots, rem }
            }
            2 => {
                // only the maker of some event
                let e = &m.s.events[r.idx(m.s.events.len())].ev;
                let who = match e {
                    Ev::Fill { maker, .. } => *maker,
                    Ev::Out { owner, .. } => *owner,
                };
                Op::Consume { limit: 8, rem: vec![who] }
            }
            _ => Op::Consume { limit: 8, rem },
        };
        must(w, m, &op, info, verbose)?;
        steps += 1;
        if style == 3 && m.s.events.len() >= before {
            return viol("stuck events", format!("{} events stay in the queue although all accounts are supplied", before));
        }
    }
    Ok(())
}

pub fn c02(case: &Case, info: &mut Info, verbose: bool, pr: &Profile) -> Result<(), Violation> {
    let n = case.len();
    if n < 2 {
        return Ok(());
    }
    let (w, m, st) = history(&case[..n - 1].to_vec(), info, verbose, pr, |_| {}, &mut |_, _| Ok(()))?;
    if st.cut {
        return viol("state", "the state cannot be read".to_string());
    }
    let (mut w, mut m) = (w, m);
    let words = long(&case[n - 1], 5, 2000);
    let r = &mut Row::new(&words);
    let held = m.s.vaults;
    let total = total_tokens(&m.s);
    // live or expired
    let expired = |m: &Model| m.s.mkt.expiry != 0 && m.s.mkt.expiry < m.now;
    if !expired(&m) {
        match r.below(3) {
            0 if m.p.has_close_admin => must(&mut w, &mut m, &Op::Expire, info, verbose)?,
            1 if m.s.mkt.expiry > 0 => {
                let dt = m.s.mkt.expiry - m.now + 1;
                must(&mut w, &mut m, &Op::Clock { dt, dslot: 1 }, info, verbose)?
            }
            _ => {}
        }
    }
    let exp = expired(&m);
    info.count(if exp { "drained_expired" } else { "drained_live" }, 1);
    if r.chance(1, 2) {
        crank_all(&mut w, &mut m, r, info, verbose)?;
    }
    let mut order: Vec<usize> = (0..m.s.oos.len()).collect();
    shuffle(r, &mut order);
    for &oo in &order {
        let u = owner_of(&m, oo);
        let mut tries = 0;
        while m.s.books.iter().flatten().any(|o| o.owner == oo) {
            let op = if exp && m.p.has_close_admin && r.chance(1, 2) {
                Op::Prune { oo, limit: *r.pick(&[255, 5]) }
            } else {
                match r.below(4) {
                    0 if tries < 4 => Op::CancelAll { oo, signer: u, side: Some(r.idx(2)), limit: 255 },
                    1 if tries < 4 => Op::CancelAll { oo, signer: u, side: None, limit: 1 + r.below(5) as u8 },
                    2 if tries < 4 => {
                        let ids: Vec<u128> = m.s.books.iter().flatten().filter(|o| o.owner == oo).map(|o| o.key).collect();
                        Op::CancelId { oo, signer: u, id: ids[r.idx(ids.len())] }
                    }
                    _ => Op::CancelAll { oo, signer: u, side: None, limit: 255 },
                }
            };
            must(&mut w, &mut m, &op, info, verbose)?;
            tries += 1;
            if tries > 30 {
                return viol("stuck orders", format!("orders of account {} cannot be taken off the book", oo));
            }
        }
    }
    crank_all(&mut w, &mut m, r, info, verbose)?;
    let fees_first = r.chance(1, 3);
    if fees_first {
        must(&mut w, &mut m, &Op::Sweep, info, verbose)?;
    }
    shuffle(r, &mut order);
    for &oo in &order {
        let u = owner_of(&m, oo);
        let referrer = r.chance(1, 3);
        let op = if exp && m.p.has_close_admin && r.chance(1, 2) { Op::SettleExpired { oo, signer: u, dest: u, referrer } } else { Op::Settle { oo, signer: u, dest: u, referrer } };
        must(&mut w, &mut m, &op, info, verbose)?;
    }
    must(&mut w, &mut m, &Op::Sweep, info, verbose)?;
    let s = match w.read() {
        Ok(s) => s,
        Err(e) => return viol("state", e),
    };
    if s.vaults != [0, 0] {
        return viol("tokens left behind", format!("after everybody settled the vaults still hold {:?} (of {:?})", s.vaults, held));
    }
    if total_tokens(&s) != total {
        return viol("tokens lost", format!("before {:?}, after {:?}", total, total_tokens(&s)));
    }
    if s.mkt.base_total != 0 || s.mkt.quote_total != 0 || s.mkt.fees_available != 0 || s.mkt.rebates_accrued != 0 {
        return viol("records", format!("an empty market still records {:?}", s.mkt));
    }
    // accounts, indexes and market close and return their rent
    let dest = w.admin;
    let close = |w: &mut Bank, what: &str, i: Instruction, gone: &[Pubkey], rest: Option<Pubkey>| -> Result<(), Violation> {
        let mut keys = gone.to_vec();
        keys.extend(rest);
        let sum = |b: &Bank| keys.iter().map(|k| b.lamports(k)).sum::<u64>() + b.lamports(&dest);
        let before = sum(w);
        if let Err(e) = w.exec(&i) {
            return viol(format!("cannot close {}", what), format!("{:?}", e));
        }
        for k in gone {
            if w.lamports(k) != 0 {
                return viol("not closed", format!("{} is still there", what));
            }
        }
        if sum(w) != before {
            return viol("rent", format!("closing {}: {} lamports before, {} after", what, before, sum(w)));
        }
        Ok(())
    };
    shuffle(r, &mut order);
    let close_market_first = r.chance(1, 4);
    let may_close = exp && m.p.has_close_admin;
    if may_close && close_market_first {
        { let i = close_market_ix(&w); close(&mut w.bank, "the market", i, &[w.k.market, w.k.bids, w.k.asks, w.k.heap], None)? };
    }
    for &oo in &order {
        let o = m.s.oos[oo].owner;
        let i = close_oo_ix(&w, o, o, m.s.oos[oo].key);
        close(&mut w.bank, "a trading account", i, &[m.s.oos[oo].key], Some(indexer_of(&o)))?;
    }
    for u in 0..w.users.len() {
        let o = w.users[u];
        let i = close_indexer_ix(&w, o, o);
        close(&mut w.bank, "an index", i, &[indexer_of(&o)], None)?;
    }
    if may_close && !close_market_first {
        { let i = close_market_ix(&w); close(&mut w.bank, "the market", i, &[w.k.market, w.k.bids, w.k.asks, w.k.heap], None)? };
    }
    info.count("markets_closed", may_close as u64);
    info.count("drained_with_funds", (held != [0, 0]) as u64);
    info.nontrivial = held != [0, 0];
    info.summary = Some(format!("{} | drained {:?} ({})", st.summary, held, if exp { "expired" } else { "live" }));
    Ok(())
}

// ---- C07 ----

#[derive(Clone, Copy, Debug, PartialEq)]
enum Sched {
    Never,
    Always,
    Inline,
    Random,
}

fn with_rem(op: &Op, rem2: Vec<usize>) -> Op {
    let mut o = op.clone();
    match &mut o {
        Op::Place { rem, .. } | Op::Edit { rem, .. } | Op::Multi { rem, .. } | Op::Take { rem, .. } => *rem = rem2,
        _ => {}
    }
    o
}

struct Final {
    book: [Vec<(u128, bool, i64, usize)>; 2],
    slots: Vec<Vec<(u128, u64, i64)>>,
    locked: Vec<[i128; 3]>,
    volumes: Vec<[i128; 2]>,
    wallets: Vec<[i128; 2]>,
    fee: i128,
    refr: i128,
    mkt: [i128; 4],
}

fn finish(w: &mut World, m: &mut Model, r: &mut Row, referrer: bool, info: &mut Info, verbose: bool) -> Result<Final, Violation> {
    crank_all(w, m, r, info, verbose)?;
    let s = m.s.clone();
    let mut book: [Vec<(u128, bool, i64, usize)>; 2] = [vec![], vec![]];
    for i in 0..2 {
        book[i] = s.books[i].iter().map(|o| (o.key, o.peg, o.qty, o.owner)).collect();
    }
    let slots = s
        .oos
        .iter()
        .map(|a| {
            let mut v: Vec<_> = a.slots.iter().flatten().map(|x| (x.id, x.cid, x.price)).collect();
            v.sort();
            v
        })
        .collect();
    let locked = s.oos.iter().map(|a| [a.pos.bids_base, a.pos.asks_base, a.pos.bids_quote]).collect();
    for oo in 0..s.oos.len() {
        let u = owner_of(m, oo);
        must(w, m, &Op::CancelAll { oo, signer: u, side: None, limit: 255 }, info, verbose)?;
        must(w, m, &Op::Settle { oo, signer: u, dest: u, referrer }, info, verbose)?;
    }
    must(w, m, &Op::Sweep, info, verbose)?;
    let e = match w.read() {
        Ok(s) => s,
        Err(e) => return viol("state", e),
    };
    Ok(Final {
        book,
        slots,
        locked,
        volumes: e.oos.iter().map(|a| [a.pos.maker_volume, a.pos.taker_volume]).collect(),
        wallets: e.wallets.clone(),
        fee: e.fee_bal,
        refr: e.ref_bal,
        mkt: [e.mkt.maker_volume, e.mkt.taker_volume_wo_oo, e.mkt.fees_accrued, e.mkt.fees_to_referrers],
    })
}

fn judge_crank(d: &Done, op: &Op, w: &World, m: &Model) -> Result<(), Violation> {
    let rem = match op {
        Op::Place { rem, .. } | Op::Edit { rem, .. } | Op::Multi { rem, .. } | Op::Take { rem, .. } => !rem.is_empty(),
        _ => false,
    };
    let a = match op {
        Op::Consume { .. } | Op::ConsumeGiven { .. } => d.aspects & !LOGS & !(1 << 31),
        _ if rem => d.aspects & (EVENTS | FREE | LOCKED | SLOTS_A | REBATES | FEES | VOLUME | BROKEN),
        _ => d.aspects & BROKEN,
    };
    if a != 0 {
        return viol(format!("{}: {}", op.name(), aspect_names(a)), d.step(0, op, w, m).describe());
    }
    Ok(())
}

const CRANKS: Profile = {
    let mut p = GENERAL;
    p.w = [30, 10, 2, 2, 4, 10, 4, 1, 1, 10, 5, 1, 1, 4, 0, 1, 0, 4, 4, 0];
    p.ample = true;
    p.extreme = 0;
    p.expiry = false;
    p.small_mid = true;
    p.stb = [4, 3, 1];
    p
};
const CRANKS_FEES: Profile = {
    let mut p = CRANKS;
    p.fees = 1;
    p.same_owner = 40;
    p
};

pub fn c07(case: &Case, info: &mut Info, verbose: bool, pr: &Profile) -> Result<(), Violation> {
    let n = case.len();
    if n < 2 {
        return Ok(());
    }
    let words = long(&case[n - 1], 11, 4000);
    let r = &mut Row::new(&words);
    let referrer = r.chance(1, 2);
    let mut ops: Vec<Op> = vec![];
    // the first schedule: as generated
    let (w, m, st) = history(&case[..n - 1].to_vec(), info, verbose, pr, |_| {}, &mut |s, i| {
        let d = Done { before: s.before.clone(), model_before: s.model_before.clone(), after: s.after.clone(), pred: s.pred.clone(), real: s.real.clone(), fills: vec![], aspects: s.aspects, detail: s.detail.to_string() };
        let _ = &i;
        judge_crank(&d, s.op, s.w, s.model)?;
        ops.push(s.op.clone());
        Ok(())
    })?;
    if st.cut {
        return Ok(());
    }
    let acts = uniform(&ops, &w.cfg, referrer);
    let sched = *r.pick(&[Sched::Never, Sched::Always, Sched::Inline, Sched::Random]);
    let cfg = w.cfg.clone();
    drop((w, m));
    let run = |first: bool, upto: usize, oks: &mut Vec<bool>, r: &mut Row, info: &mut Info| -> Result<(World, Model, usize), Violation> {
        let mut w = match World::new(cfg.clone()) {
            Ok(w) => w,
            Err(e) => return viol("setup", e),
        };
        let mut m = match w.model() {
            Ok(m) => m,
            Err(e) => return viol("setup", e),
        };
        let all: Vec<usize> = (0..m.s.oos.len()).collect();
        for (k, op) in acts.iter().enumerate().take(upto) {
            let crank = matches!(op, Op::Consume { .. } | Op::ConsumeGiven { .. });
            if !first && crank {
                continue;
            }
            let o = if first {
                op.clone()
            } else {
                let rem = match sched {
                    Sched::Never | Sched::Always => vec![],
                    Sched::Inline => all.clone(),
                    Sched::Random => {
                        let mask = r.next();
                        all.iter().copied().filter(|i| mask >> (i % 60) & 1 == 1).collect()
                    }
                };
                let me = match op {
                    Op::Place { oo, .. } | Op::Edit { oo, .. } | Op::Multi { oo, .. } => Some(*oo),
                    _ => None,
                };
                with_rem(op, rem.into_iter().filter(|x| Some(*x) != me).collect())
            };
            let d = lockstep(&mut w, &mut m, &o, info);
            if verbose {
                println!("{} {:?} -> {}", if first { "1" } else { "2" }, o, real_str(&d.real));
            }
            judge_crank(&d, &o, &w, &m)?;
            if first {
                oks.push(d.real.is_ok());
            }
            let same = d.real.is_ok() == oks[k];
            d.adopt(&w, &mut m)?;
            if !first && !same && !crank {
                return Ok((w, m, k));
            }
            if !first {
                match sched {
                    Sched::Always => crank_all(&mut w, &mut m, r, info, verbose)?,
                    Sched::Random if r.chance(1, 4) => {
                        let mask = r.next();
                        let rem: Vec<usize> = all.iter().copied().filter(|i| mask >> (i % 60) & 1 == 1).collect();
                        let op = if r.chance(1, 2) || m.s.events.is_empty() {
                            Op::Consume { limit: 1 + r.idx(8), rem }
                        } else {
                            let s: Vec<usize> = m.s.events.iter().map(|e| e.slot).collect();
                            Op::ConsumeGiven { slots: (0..1 + r.idx(4)).map(|_| s[r.idx(s.len())]).collect(), rem }
                        };
                        let d = lockstep(&mut w, &mut m, &op, info);
                        if verbose {
                            println!("2 {:?} -> {}", op, real_str(&d.real));
                        }
                        judge_crank(&d, &op, &w, &m)?;
                        d.adopt(&w, &mut m)?;
                    }
                    _ => {}
                }
            }
        }
        Ok((w, m, upto))
    };
    let mut oks = vec![];
    let (mut w1, mut m1, _) = run(true, acts.len(), &mut oks, &mut r.clone(), info)?;
    let (mut w2, mut m2, mut k) = run(false, acts.len(), &mut oks, &mut r.clone(), info)?;
    if k < acts.len() {
        // orders and queue positions still held by unprocessed events make the difference: compare what came before
        info.count("compared_up_to_divergence", 1);
        (w2, m2, k) = run(false, k, &mut oks, &mut r.clone(), info)?;
        (w1, m1, _) = run(true, k, &mut vec![], &mut r.clone(), info)?;
    }
    let events = [m1.s.events.len(), m2.s.events.len()];
    let a = finish(&mut w1, &mut m1, &mut r.clone(), referrer, info, verbose)?;
    let b = finish(&mut w2, &mut m2, &mut r.clone(), referrer, info, verbose)?;
    macro_rules! cmp {
        ($f:ident, $what:expr) => {
            if a.$f != b.$f {
                return viol(concat!("crank schedule: ", $what), format!("{} after {} instructions: {:?} with one schedule, {:?} with another ({:?})", $what, k, a.$f, b.$f, sched));
            }
        };
    }
    cmp!(book, "book");
    cmp!(slots, "open orders");
    cmp!(locked, "locked lots");
    cmp!(volumes, "volumes");
    cmp!(wallets, "wallets");
    cmp!(fee, "collected fees");
    cmp!(refr, "referral payments");
    cmp!(mkt, "market records");
    info.count(&format!("schedule {:?}", sched), 1);
    info.count("compared", 1);
    info.nontrivial = st.fills > 0 && k > 1;
    info.summary = Some(format!("{} | second schedule {:?}, {} instructions, {:?} events left at the end", st.summary, sched, k, events));
    Ok(())
}

/// The same history without choices that rest on the positions of orders in an account, which cranking
/// changes: client ids are unique, cancellations are not cut off, money goes to its owner.
fn uniform(ops: &[Op], cfg: &Cfg, to: bool) -> Vec<Op> {
    let mut names: BTreeMap<(usize, u64), Option<u64>> = BTreeMap::new();
    let mut v = vec![];
    for (n, o) in ops.iter().enumerate() {
        let mut o = o.clone();
        let unique = 1_000_000 + n as u64;
        match &mut o {
            Op::Place { oo, o, .. } => {
                names.insert((*oo, o.cid), Some(unique));
                o.cid = unique;
            }
            Op::Edit { oo, cid, o, .. } => {
                match names.get(&(*oo, *cid)) {
                    Some(Some(c)) => *cid = *c,
                    Some(None) => continue,
                    None => {}
                }
                names.insert((*oo, o.cid), Some(unique));
                o.cid = unique;
            }
            Op::CancelCid { oo, cid, .. } => match names.get(&(*oo, *cid)) {
                Some(Some(c)) => *cid = *c,
                Some(None) => continue,
                None => {}
            },
            Op::Multi { oo, bids, asks, .. } => {
                // sizes beyond the funds are cut to what is there at the time
                for b in bids.iter_mut().chain(asks.iter_mut()) {
                    b.1 = b.1.min(1_000_000);
                }
                for i in 0..bids.len() + asks.len() {
                    names.insert((*oo, i as u64), None);
                }
            }
            Op::CancelAll { limit, .. } | Op::Prune { limit, .. } => *limit = 255,
            Op::Settle { oo, dest, referrer, .. } | Op::SettleExpired { oo, dest, referrer, .. } => {
                *referrer = to;
                *dest = cfg.oos[*oo];
            }
            // somebody else's refill depends on what is free at the time
            Op::Refill { user, oo, b, q } if *user != cfg.oos[*oo] => o = Op::Deposit { user: *user, oo: *oo, b: *b, q: *q },
            _ => {}
        }
        v.push(o);
    }
    v
}

// ---- C17 ----

/// creation of markets: accepted exactly when the parameters are consistent, and recorded faithfully
pub fn c17_create(case: &Case, info: &mut Info, verbose: bool) -> Result<(), Violation> {
    let mut bank = Bank::new();
    let now = 1_700_000_000;
    bank.clock.unix_timestamp = now;
    bank.clock.slot = 1000;
    let admin = key("admin", 0);
    put_wallet(&mut bank, admin);
    let (mut good, mut bad) = (0, 0);
    let mut sig = 3;
    let mut summary = String::new();
    for (n, row) in case.iter().enumerate() {
        let mut r = Row::new(row);
        let decs = [r.below(19) as u8, r.below(19) as u8];
        let mints = [key("basemint", n as u64), key("quotemint", n as u64)];
        put_mint(&mut bank, mints[0], decs[0]);
        put_mint(&mut bank, mints[1], decs[1]);
        let mut ok = true;
        let mut why = String::new();
        // each condition is violated now and then, most cases violate at most one
        let fault = if r.chance(1, 2) { 1 + r.below(12) } else { 0 };
        let no = |ok: &mut bool, why: &mut String, s: &str| {
            *ok = false;
            why.push_str(s);
            why.push(' ');
        };
        let mut lots = [*r.pick(&[1, 10, 1000, i64::MAX, 7]), *r.pick(&[1, 100, 1000, i64::MAX, 3])];
        if fault == 1 || fault == 2 {
            lots[fault as usize - 1] = *r.pick(&[0, -1, i64::MIN]);
            no(&mut ok, &mut why, "lots");
        }
        let mut taker = *r.pick(&[0, 400, 1_000_000, 1, 999_999]);
        let mut maker = match r.below(4) {
            0 => 0,
            1 => -taker,
            2 => r.range(-taker, 1_000_000),
            _ => *r.pick(&[1_000_000, 200, 1]),
        };
        match fault {
            3 => {
                taker = *r.pick(&[1_000_001, -1, i64::MIN, i64::MAX, -1_000_001, -400]);
                no(&mut ok, &mut why, "taker fee");
            }
            4 => {
                maker = *r.pick(&[1_000_001, i64::MAX, i64::MIN, -1_000_001]);
                no(&mut ok, &mut why, "maker fee");
            }
            5 => {
                taker = taker.min(999_999);
                maker = -taker - *r.pick(&[1, 1, 2]);
                no(&mut ok, &mut why, "rebate");
            }
            _ => {}
        }
        if !(-1_000_000..=1_000_000).contains(&maker) && ok {
            no(&mut ok, &mut why, "maker fee");
        }
        let mut expiry = *r.pick(&[0, now + 1, now + 1000, i64::MAX]);
        if fault == 6 {
            expiry = *r.pick(&[now, now - 1, 1, -1, i64::MIN]);
            no(&mut ok, &mut why, "expiry");
        }
        let mk = |bank: &mut Bank, who: u64| -> Pubkey {
            let owner = key("orcl", who);
            put_wallet(bank, owner);
            let o = Pubkey::find_program_address(&[b"StubOracle", owner.as_ref(), mints[0].as_ref()], &pid()).0;
            let i = ix(ac::StubOracleCreate { payer: owner, owner, oracle: o, mint: mints[0], system_program: sys() }, ins::StubOracleCreate { price: 3.0 });
            let _ = bank.exec(&i);
            o
        };
        let raydium = |bank: &mut Bank, n: u64| -> Pubkey {
            let k = key("raypool", n);
            let mut d = vec![0u8; 1544];
            d[..8].copy_from_slice(&[247, 237, 227, 245, 215, 195, 222, 70]);
            let owner = "CAMMCzo5YL8w4VFF8KVHrK22GGUsp5VTaW7grrKgrWqK".parse().unwrap();
            bank.put(k, Acc::from_bytes(1 << 40, &d, owner));
            k
        };
        let kind = r.below(4);
        let mut oracles = [None, None];
        if kind >= 1 {
            oracles[0] = Some(if kind == 3 { raydium(&mut bank, 2 * n as u64) } else { mk(&mut bank, 2 * n as u64) });
        }
        if kind == 2 {
            oracles[1] = Some(mk(&mut bank, 2 * n as u64 + 1));
        }
        match fault {
            7 => {
                // the second without the first
                oracles = [None, Some(mk(&mut bank, 2 * n as u64 + 1))];
                no(&mut ok, &mut why, "second oracle only");
            }
            8 => {
                // twice the same
                let o = mk(&mut bank, 2 * n as u64);
                oracles = [Some(o), Some(o)];
                no(&mut ok, &mut why, "same oracle twice");
            }
            9 => {
                // of different kinds
                oracles = [Some(mk(&mut bank, 2 * n as u64)), Some(raydium(&mut bank, 2 * n as u64 + 1))];
                if r.chance(1, 2) {
                    oracles.reverse();
                }
                no(&mut ok, &mut why, "oracles of two kinds");
            }
            10 => {
                // not an oracle at all
                oracles = [Some(admin), None];
                if r.chance(1, 2) {
                    oracles = [Some(mk(&mut bank, 2 * n as u64)), Some(mints[1])];
                }
                no(&mut ok, &mut why, "unknown oracle");
            }
            _ => {}
        }
        let adm = |r: &mut Row, i: u64| if r.chance(1, 2) { Some(key("role", 10 + i)) } else { None };
        let spec = MarketSpec {
            tag: 100 + n as u64,
            base_mint: mints[0],
            quote_mint: if fault == 11 { mints[0] } else { mints[1] },
            oracle: oracles,
            fee_admin: key("role", 1),
            oo_admin: adm(&mut r, 2),
            ce_admin: adm(&mut r, 3),
            close_admin: adm(&mut r, 4),
        };
        if fault == 11 {
            no(&mut ok, &mut why, "same mint");
        }
        let mut len = r.below(17) as usize;
        if fault == 12 {
            len = 17 + r.below(20) as usize;
            no(&mut ok, &mut why, "name");
        }
        let name: String = (0..len).map(|i| (b'a' + ((i as u64 + row[0]) % 26) as u8) as char).collect();
        let conf = *r.pick(&[0.1f32, 0.0, 1.0, 0.02, 5.5]);
        let stale = *r.pick(&[None, Some(0u32), Some(1), Some(100), Some(i32::MAX as u32)]);
        let k = market_keys(&mut bank, &spec);
        let args = ins::CreateMarket {
            name: name.clone(),
            oracle_config: openbook_v2::state::OracleConfigParams { conf_filter: conf, max_staleness_slots: stale },
            quote_lot_size: lots[1],
            base_lot_size: lots[0],
            maker_fee: maker,
            taker_fee: taker,
            time_expiry: expiry,
        };
        let mut i = create_market_ix(&k, admin, args);
        for a in i.accounts.iter_mut() {
            a.is_signer |= a.pubkey == k.market;
        }
        let snapshot = bank.clone();
        let res = bank.exec(&i);
        let desc = format!("lots {:?} fees {}/{} expiry {} oracles {:?} name of {} bytes{}", lots, maker, taker, expiry, oracles.map(|o| o.is_some()), len, if ok { String::new() } else { format!(" (wrong: {})", why) });
        if verbose {
            println!("{} -> {:?}", desc, res.as_ref().map(|_| ()));
        }
        sig = hash_mix(sig, hash_str(&desc));
        if summary.len() < 300 {
            summary.push_str(&format!("[{}] ", desc));
        }
        match (&res, ok) {
            (Ok(_), false) => return viol("accepted", format!("a market with inconsistent parameters is created: {}", desc)),
            (Err(e), true) => return viol("refused", format!("a market with consistent parameters is refused: {} {:?}", desc, e)),
            (Err(_), false) => {
                bad += 1;
                if bank.lamports(&k.market) != snapshot.lamports(&k.market) {
                    return viol("effect", "a refused creation left an account behind".to_string());
                }
                continue;
            }
            (Ok(_), true) => good += 1,
        }
        let m: &openbook_v2::state::Market = bank.zc(&k.market);
        let opt = |x: openbook_v2::pubkey_option::NonZeroPubkeyOption| -> Option<Pubkey> { x.into() };
        let mut nm = [0u8; 16];
        nm[..len].copy_from_slice(name.as_bytes());
        let checks: Vec<(&str, bool)> = vec![
            ("base lot size", m.base_lot_size == lots[0]),
            ("quote lot size", m.quote_lot_size == lots[1]),
            ("maker fee", m.maker_fee == maker),
            ("taker fee", m.taker_fee == taker),
            ("expiry", m.time_expiry == expiry),
            ("decimals", [m.base_decimals, m.quote_decimals] == decs),
            ("mints", [m.base_mint, m.quote_mint] == mints),
            ("vaults", [m.market_base_vault, m.market_quote_vault] == k.vaults),
            ("authority", m.market_authority == k.authority),
            ("book", (m.bids, m.asks, m.event_heap) == (k.bids, k.asks, k.heap)),
            ("oracles", [opt(m.oracle_a), opt(m.oracle_b)] == oracles),
            ("fee admin", m.collect_fee_admin == spec.fee_admin),
            ("order admin", opt(m.open_orders_admin) == spec.oo_admin),
            ("crank admin", opt(m.consume_events_admin) == spec.ce_admin),
            ("close admin", opt(m.close_market_admin) == spec.close_admin),
            ("name", m.name == nm),
            ("confidence limit", m.oracle_config.conf_filter == conf as f64),
            ("staleness", m.oracle_config.max_staleness_slots == stale.map(|x| x as i64).unwrap_or(-1)),
            ("registration time", m.registration_time == now),
            ("zero records", m.seq_num == 0 && m.fees_accrued == 0 && m.fees_to_referrers == 0 && m.referrer_rebates_accrued == 0 && m.fees_available == 0 && m.maker_volume == 0 && m.taker_volume_wo_oo == 0 && m.base_deposit_total == 0 && m.quote_deposit_total == 0),
        ];
        for (what, good) in checks {
            if !good {
                return viol("record", format!("{} is not recorded as given: {} in {:?}", what, desc, m));
            }
        }
        // the vaults belong to the market's authority
        for i in 0..2 {
            let v = bank.get(&k.vaults[i]).unwrap();
            if v.data()[..32] != mints[i].to_bytes() || v.data()[32..64] != k.authority.to_bytes() {
                return viol("vault", format!("vault {} has another mint or owner", i));
            }
        }
        // creating it again is refused
        if bank.exec(&i).is_ok() {
            return viol("accepted", "the same market is created twice".to_string());
        }
    }
    info.count("created", good);
    info.count("refused", bad);
    info.nontrivial = good > 0 && bad > 0;
    info.sig = sig;
    info.summary = Some(summary);
    Ok(())
}

/// may the market be closed in this state
fn closable(s: &State, now: i64) -> bool {
    s.mkt.expiry != 0 && s.mkt.expiry < now && s.vaults == [0, 0] && s.mkt.base_total == 0 && s.mkt.quote_total == 0 && s.mkt.fees_available == 0 && s.mkt.rebates_accrued == 0 && s.books.iter().all(|b| b.is_empty()) && s.events.is_empty()
}

const LIFE2: Profile = {
    let mut p = LIFE;
    p.w = [12, 3, 1, 1, 2, 4, 8, 4, 8, 10, 2, 2, 2, 12, 8, 5, 1, 1, 6, 16];
    p.extreme = 0;
    p
};

/// closing attempts after every instruction
pub fn c17_close(case: &Case, info: &mut Info, verbose: bool) -> Result<(), Violation> {
    let mut tried = [0u64; 2];
    let (_, _, st) = history(case, info, verbose, &LIFE2, |c| c.close_admin = true, &mut |s, _| {
        let can = closable(s.after, s.model.now);
        let mut b = s.w.bank.clone();
        let r = b.exec(&close_market_ix(s.w));
        if r.is_ok() != can {
            return viol(if can { "close refused" } else { "close accepted" }, format!("expiry {} now {} vaults {:?} records {:?} orders {} events {}: {:?}\n{}", s.after.mkt.expiry, s.model.now, s.after.vaults, s.after.mkt, s.after.books.iter().flatten().count(), s.after.events.len(), r.map(|_| ()), s.describe()));
        }
        tried[can as usize] += 1;
        Ok(())
    })?;
    info.count("close_refused", tried[0]);
    info.count("close_accepted", tried[1]);
    info.nontrivial = tried[1] > 0;
    info.summary = Some(format!("{} | closing refused {} times, accepted {} times", st.summary, tried[0], tried[1]));
    Ok(())
}

// ---- C18 ----

struct IndexRef {
    counter: u32,
    list: Vec<Pubkey>,
}

pub fn c18(case: &Case, info: &mut Info, verbose: bool, bulk: bool) -> Result<(), Violation> {
    let empty = vec![];
    let mut r0 = Row::new(case.get(0).unwrap_or(&empty));
    // with a fee of the whole amount a sale leaves rebates but no free tokens
    let taker_fee = *r0.pick(&[400, 1_000_000, 0]);
    let cfg = Cfg { users: 3, oos: vec![], wallets: vec![[1 << 40, 1 << 40]; 3], taker_fee, maker_fee: *r0.pick(&[0, -taker_fee / 2, 300, 1_000_000]), ..Cfg::default() };
    let mut w = match World::new(cfg) {
        Ok(w) => w,
        Err(e) => return viol("setup", e),
    };
    let mut idx: Vec<Option<IndexRef>> = (0..3).map(|_| Some(IndexRef { counter: 0, list: vec![] })).collect();
    // (owner, number) of the accounts the market knows about are kept in w.oos for placing orders
    let mut sig = 17;
    let (mut made, mut closed, mut refused, mut full) = (0u64, 0u64, 0u64, 0u64);
    let mut log = String::new();
    // addresses handed out since the index was made
    let mut seen: Vec<Vec<Pubkey>> = vec![vec![]; 3];
    for (step, row) in case.iter().enumerate().skip(1) {
        let words = long(row, 3, 64);
        let r = &mut Row::new(&words);
        let u = r.idx(3);
        let owner = w.users[u];
        let op = if bulk { r.weighted(&[60, 6, 6, 2, 2, 0, 0, 2]) } else { r.weighted(&[8, 12, 2, 1, 3, 24, 4, 1]) };
        let times = if bulk && op == 0 { 1 + r.idx(120) } else if bulk && op == 1 { 1 + r.idx(60) } else if op == 5 { 1 + r.idx(4) } else { 1 };
        sig = hash_mix(sig, op as u64 * 8 + u as u64 + row[0] % 5 * 100);
        for t in 0..times {
            match op {
                0 => {
                    // create, mostly with the right number
                    let next = idx[u].as_ref().map(|i| i.counter).unwrap_or(0) + 1;
                    let n = if r.chance(1, 6) { *r.pick(&[next + 1, next.saturating_sub(1), 0, 1, u32::MAX]) } else { next };
                    let dele = if r.chance(1, 3) { Some(w.users[r.idx(3)]) } else { None };
                    let long_name = r.chance(1, 8);
                    let (k, mut i) = w.create_oo_ix(u, n, dele);
                    let name = if long_name { "n".repeat(33) } else { "x".repeat(r.idx(33)) };
                    i.data = anchor_lang::InstructionData::data(&ins::CreateOpenOrdersAccount { name: name.clone() });
                    let can = idx[u].as_ref().map(|x| x.list.len() < 256).unwrap_or(false) && n == next && !long_name;
                    let res = w.bank.exec(&i);
                    if verbose {
                        println!("{} create {} of {} -> {:?}", step, n, u, res.as_ref().map(|_| ()));
                    }
                    if res.is_ok() != can {
                        return viol(if can { "create refused" } else { "create accepted" }, format!("account number {} (next is {}), {} listed, name of {} bytes: {:?}", n, next, idx[u].as_ref().map(|x| x.list.len()).unwrap_or(0), name.len(), res.map(|_| ())));
                    }
                    if !can {
                        refused += 1;
                        full += (idx[u].as_ref().map(|x| x.list.len()) == Some(256)) as u64;
                        continue;
                    }
                    made += 1;
                    if seen[u].contains(&k) {
                        return viol("address reused", format!("account number {} was handed out before", n));
                    }
                    seen[u].push(k);
                    let x = idx[u].as_mut().unwrap();
                    x.counter += 1;
                    x.list.push(k);
                    let a: &openbook_v2::state::OpenOrdersAccount = w.bank.zc(&k);
                    let mut nm = [0u8; 32];
                    nm[..name.len()].copy_from_slice(name.as_bytes());
                    let p = &a.position;
                    let empty = p.bids_base_lots == 0 && p.asks_base_lots == 0 && p.base_free_native == 0 && p.quote_free_native == 0 && p.locked_maker_fees == 0 && p.referrer_rebates_available == 0 && p.penalty_heap_count == 0 && p.maker_volume == 0 && p.taker_volume == 0 && p.bids_quote_lots == 0 && a.open_orders.iter().all(|o| o.is_free == 1);
                    if a.owner != owner || a.market != w.k.market || a.account_num != n || a.name != nm || Option::<Pubkey>::from(a.delegate) != dele || a.version == 0 || !empty {
                        return viol("new account", format!("owner {} market {} number {} delegate {:?} name {:?} empty {}", a.owner, a.market, a.account_num, Option::<Pubkey>::from(a.delegate), a.name, empty));
                    }
                }
                1 => {
                    // close one, sometimes somebody else's
                    let from = if r.chance(1, 8) { r.idx(3) } else { u };
                    let list = idx[from].as_ref().map(|x| x.list.clone()).unwrap_or_default();
                    if list.is_empty() {
                        continue;
                    }
                    let k = if times > 1 { list[(row[1] as usize + t * 7) % list.len()] } else { list[r.idx(list.len())] };
                    let by = if r.chance(1, 10) { r.idx(3) } else { from };
                    let i = close_oo_ix(&w, w.users[by], w.users[by], k);
                    if r.chance(1, 8) {
                        // accounts of the first version did not record the quote lots of bids properly
                        let mut a = *w.bank.zc::<openbook_v2::state::OpenOrdersAccount>(&k);
                        if a.position.bids_base_lots == 0 {
                            a.version = 0;
                            a.position.bids_quote_lots = r.range(-5, 5);
                            w.bank.get_mut(&k).data_mut()[8..].copy_from_slice(bytemuck::bytes_of(&a));
                            info.count("old_accounts", 1);
                        }
                    }
                    let a: &openbook_v2::state::OpenOrdersAccount = w.bank.zc(&k);
                    let p = &a.position;
                    let nothing = p.bids_base_lots == 0 && p.asks_base_lots == 0 && p.base_free_native == 0 && p.quote_free_native == 0 && p.locked_maker_fees == 0 && p.referrer_rebates_available == 0 && p.penalty_heap_count == 0 && (a.version == 0 || p.bids_quote_lots == 0) && a.open_orders.iter().all(|o| o.is_free == 1);
                    let can = by == from && nothing;
                    let tokens = p.bids_base_lots == 0 && p.asks_base_lots == 0 && p.base_free_native == 0 && p.quote_free_native == 0;
                    let rest = [p.penalty_heap_count, p.referrer_rebates_available, p.locked_maker_fees];
                    let only = [0, 1, 2].map(|i| tokens && (0..3).all(|j| (rest[j] != 0) == (i == j)));
                    let res = w.bank.exec(&i);
                    if verbose {
                        println!("{} close one of {} by {} -> {:?}", step, from, by, res.as_ref().map(|_| ()));
                    }
                    if res.is_ok() != can {
                        return viol(if can { "account close refused" } else { "account close accepted" }, format!("by the owner: {}, empty: {}: {:?}", by == from, nothing, res.map(|_| ())));
                    }
                    if by == from && !nothing {
                        info.count("close_with_something_left", 1);
                        info.count("close_with_penalty_only", only[0] as u64);
                        info.count("close_with_rebates_only", only[1] as u64);
                        info.count("close_with_locked_fees_only", only[2] as u64);
                    }
                    if can {
                        closed += 1;
                        idx[from].as_mut().unwrap().list.retain(|x| *x != k);
                        w.oos.retain(|x| *x != k);
                        if w.bank.lamports(&k) != 0 {
                            return viol("close", "a closed account is still there".to_string());
                        }
                    } else {
                        refused += 1;
                    }
                }
                2 | 3 => {
                    // close the index
                    let by = if op == 3 { r.idx(3) } else { u };
                    let can = by == u && idx[u].as_ref().map(|x| x.list.is_empty()).unwrap_or(false);
                    let i = close_indexer_ix(&w, w.users[by], owner);
                    let res = w.bank.exec(&i);
                    if res.is_ok() != can {
                        return viol(if can { "index close refused" } else { "index close accepted" }, format!("{} accounts listed: {:?}", idx[u].as_ref().map(|x| x.list.len()).unwrap_or(0), res.map(|_| ())));
                    }
                    if can {
                        idx[u] = None;
                        seen[u].clear();
                    } else {
                        refused += 1;
                    }
                }
                4 => {
                    let res = w.create_indexer(u);
                    if res.is_ok() != idx[u].is_none() {
                        return viol("index creation", format!("{:?}, existed {}", res.map(|_| ()), idx[u].is_some()));
                    }
                    if res.is_ok() {
                        idx[u] = Some(IndexRef { counter: 0, list: vec![] });
                    }
                }
                5 | 6 => {
                    // use an account: deposit, order, cancel, settle
                    let list = idx[u].as_ref().map(|x| x.list.clone()).unwrap_or_default();
                    if list.is_empty() {
                        continue;
                    }
                    let k = list[r.idx(list.len())];
                    let pos = match w.oos.iter().position(|x| *x == k) {
                        Some(p) => p,
                        None => {
                            w.oos.push(k);
                            w.oos.len() - 1
                        }
                    };
                    let now = w.bank.clock.unix_timestamp;
                    let o = OArgs {
                        side: r.idx(2),
                        peg: false,
                        price: *r.pick(&[1, 1, 2, 3]),
                        peg_limit: -1,
                        mb: r.range(1, 4),
                        mq: 1 << 30,
                        cid: 1,
                        typ: *r.pick(&[Typ::Limit, Typ::Ioc, Typ::Limit]),
                        exp: if r.chance(1, 3) { now as u64 + 1 } else { 0 },
                        stb: Stb::Decrement,
                        limit: 5,
                    };
                    if r.chance(1, 6) {
                        w.bank.clock.unix_timestamp += 5;
                    }
                    let op = match r.below(7) {
                        0 => Op::Deposit { user: u, oo: pos, b: r.below(500), q: r.below(500) },
                        1 | 2 => {
                            let rem = if r.chance(1, 2) { (0..w.oos.len()).filter(|x| *x != pos).collect() } else { vec![] };
                            Op::Place { oo: pos, signer: u, o, rem, wrong_vault: false }
                        }
                        3 => Op::CancelAll { oo: pos, signer: u, side: None, limit: 255 },
                        4 => Op::Consume { limit: 8, rem: (0..w.oos.len()).collect() },
                        _ => Op::Settle { oo: pos, signer: u, dest: u, referrer: false },
                    };
                    let res = w.exec(&op);
                    if verbose {
                        println!("{} {:?} -> {}", step, op, real_str(&res));
                    }
                }
                _ => {
                    // settle and empty an account completely, so that it can be closed
                    let list = idx[u].as_ref().map(|x| x.list.clone()).unwrap_or_default();
                    if let Some(k) = list.first() {
                        if let Some(pos) = w.oos.iter().position(|x| x == k) {
                            let _ = w.exec(&Op::CancelAll { oo: pos, signer: u, side: None, limit: 255 });
                            let _ = w.exec(&Op::Consume { limit: 8, rem: (0..w.oos.len()).collect() });
                            let _ = w.exec(&Op::Settle { oo: pos, signer: u, dest: u, referrer: false });
                        }
                    }
                }
            }
        }
        if log.len() < 300 {
            log.push_str(&format!("{}x{} ", ["create", "close", "close_index", "close_index_other", "create_index", "use", "use", "settle"][op], times));
        }
        // the indexes
        for v in 0..3 {
            let k = indexer_of(&w.users[v]);
            match &idx[v] {
                None => {
                    if w.bank.lamports(&k) != 0 {
                        return viol("index", "a closed index is still there".to_string());
                    }
                }
                Some(x) => {
                    let a = match w.bank.get(&k) {
                        Some(a) => a,
                        None => return viol("index", "the index is gone".to_string()),
                    };
                    let d = a.data();
                    let mut want = d[..9].to_vec();
                    want.extend(x.counter.to_le_bytes());
                    want.extend((x.list.len() as u32).to_le_bytes());
                    for p in &x.list {
                        want.extend(p.to_bytes());
                    }
                    if d.len() < want.len() || d[..want.len()] != want[..] {
                        return viol("index", format!("index of user {} does not list the {} accounts in order with counter {}", v, x.list.len(), x.counter));
                    }
                    for p in &x.list {
                        if w.bank.lamports(p) == 0 {
                            return viol("index", "a listed account does not exist".to_string());
                        }
                    }
                }
            }
        }
    }
    info.count("created", made);
    info.count("closed", closed);
    info.count("refused", refused);
    info.count("refused_full_index", full);
    info.nontrivial = made > 0 && closed > 0;
    info.sig = sig;
    info.summary = Some(format!("{}| {} created, {} closed, {} refused", log, made, closed, refused));
    Ok(())
}

pub fn plans(id: &str) -> Vec<Plan> {
    const R2: &str = "a case counts when the vaults held tokens before the market was emptied";
    const R7: &str = "a case counts when trades happened and more than one instruction was compared under two schedules";
    macro_rules! p {
        ($name:expr, $rule:expr, $rows:expr, $len:expr, $q:expr, $t:expr, $f:expr) => {
            Plan { name: $name, rule: $rule, rows: $rows, row_len: $len, quick: $q, thorough: $t, run: $f }
        };
    }
    match id {
        "C02" => vec![
            p!("general", R2, (2, 70), 72, 8000, 400000, |c, i, v| c02(c, i, v, &GENERAL)),
            p!("fees", R2, (2, 70), 72, 5000, 300000, |c, i, v| c02(c, i, v, &FEES_P)),
            p!("self-trades", R2, (2, 70), 72, 4000, 200000, |c, i, v| c02(c, i, v, &SELF)),
            p!("pegs", R2, (2, 70), 72, 4000, 200000, |c, i, v| c02(c, i, v, &PEGS)),
            p!("cancels", R2, (2, 70), 72, 3000, 200000, |c, i, v| c02(c, i, v, &CANCELS)),
            p!("crowded", R2, (30, 90), 72, 60, 4000, |c, i, v| c02(c, i, v, &CROWD)),
            p!("queue", R2, (40, 110), 72, 30, 3000, |c, i, v| c02(c, i, v, &QUEUE)),
        ],
        "C07" => vec![
            p!("general", R7, (3, 60), 72, 6000, 400000, |c, i, v| c07(c, i, v, &CRANKS)),
            p!("fees", R7, (3, 60), 72, 6000, 400000, |c, i, v| c07(c, i, v, &CRANKS_FEES)),
        ],
        "C17" => vec![
            p!("creation", "a case counts when markets were both created and refused", (2, 14), 64, 4000, 400000, c17_create),
            p!("closing", "a case counts when closing was accepted in some state of the history", (2, 60), 72, 6000, 300000, c17_close),
        ],
        _ => vec![
            p!("lifecycle", "a case counts when accounts were created and closed", (8, 90), 40, 12000, 600000, |c, i, v| c18(c, i, v, false)),
            p!("many accounts", "a case counts when accounts were created and closed", (3, 60), 40, 400, 20000, |c, i, v| c18(c, i, v, true)),
        ],
    }
}
