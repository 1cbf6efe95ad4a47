//! C12 (authorisation) and C13 (foreign or forged accounts).
//!
//! A random history is run, one instruction that succeeds is prepared, and then attacked: other signers, missing
//! signatures (C12); accounts of another market, of another kind, of another mint, look-alikes (C13). Every
//! attack must be refused.
use crate::engine::*;
use crate::model::*;
use crate::rt::{Acc, Bank, TxErr, TxOk};
use crate::sim::*;
use crate::world::*;
use openbook_v2::{accounts as ac, instruction as ins};
use solana_sdk::instruction::Instruction;
use solana_sdk::pubkey::Pubkey;

pub const KINDS: usize = 27;

pub struct Stage {
    pub w: World,
    pub m: Model,
    pub k2: Keys,
    /// one account per user on the other market
    pub oos2: Vec<Pubkey>,
    /// number the next account of each user gets
    pub next_num: Vec<u32>,
    /// oracles of somebody else for the same mints
    pub alien_oracle: [Pubkey; 2],
    pub sig: u64,
}

pub struct Target {
    pub name: &'static str,
    pub bank: Bank,
    pub ix: Instruction,
    /// instructions that lack the authority
    pub attacks: Vec<(String, Instruction)>,
    /// position of the first extra account
    pub fixed: usize,
    pub oo: Option<usize>,
}

const QUIET: Profile = {
    let mut p = GENERAL;
    p.extreme = 0;
    p.w = [26, 8, 2, 1, 4, 8, 3, 1, 1, 6, 2, 3, 3, 4, 0, 2, 8, 4, 3, 0];
    p.expiry = false;
    p
};

pub fn stage(case: &Case, info: &mut Info, verbose: bool) -> Result<Option<Stage>, Violation> {
    let n = case.len();
    if n < 2 {
        return Ok(None);
    }
    let body: Case = case[..n - 1].to_vec();
    let mut r = Row::new(&case[n - 1]);
    let (oa, ce, cl) = (r.chance(1, 2), r.chance(1, 3), !r.chance(1, 8));
    let (w, m, st) = history(
        &body,
        info,
        verbose,
        &QUIET,
        |c| {
            c.oo_admin = oa;
            c.ce_admin = ce;
            c.close_admin = cl;
            for x in c.wallets.iter_mut() {
                *x = [1 << 44, 1 << 44];
            }
        },
        &mut |_, _| Ok(()),
    )?;
    if st.cut {
        return Ok(None);
    }
    let mut w = w;
    let evil = key("evil", 0);
    put_wallet(&mut w.bank, evil);
    let mut alien_oracle = [Pubkey::default(); 2];
    for (i, mint) in [w.k.base_mint, w.k.quote_mint].iter().enumerate() {
        let o = Pubkey::find_program_address(&[b"StubOracle", evil.as_ref(), mint.as_ref()], &pid()).0;
        let i2 = ix(ac::StubOracleCreate { payer: evil, owner: evil, oracle: o, mint: *mint, system_program: sys() }, ins::StubOracleCreate { price: 3.0 });
        let _ = w.bank.exec(&i2);
        alien_oracle[i] = o;
    }
    let spec = MarketSpec {
        tag: 1,
        base_mint: w.k.base_mint,
        quote_mint: w.k.quote_mint,
        oracle: w.k.oracle,
        fee_admin: w.k.fee_admin,
        oo_admin: w.k.oo_admin,
        ce_admin: w.k.ce_admin,
        close_admin: w.k.close_admin,
    };
    let k2 = market_keys(&mut w.bank, &spec);
    let mut i = create_market_ix(
        &k2,
        w.admin,
        ins::CreateMarket {
            name: "other".into(),
            oracle_config: openbook_v2::state::OracleConfigParams { conf_filter: 0.1, max_staleness_slots: None },
            quote_lot_size: w.cfg.qls,
            base_lot_size: w.cfg.bls,
            maker_fee: w.cfg.maker_fee,
            taker_fee: w.cfg.taker_fee,
            time_expiry: 0,
        },
    );
    for a in i.accounts.iter_mut() {
        a.is_signer |= a.pubkey == k2.market;
    }
    if let Err(e) = w.bank.exec(&i) {
        return viol("setup", format!("second market: {:?}", e));
    }
    let mut next_num = vec![0u32; w.users.len()];
    for o in &w.cfg.oos {
        next_num[*o] += 1;
    }
    let mut oos2 = vec![];
    for u in 0..w.users.len() {
        next_num[u] += 1;
        let (k, mut i) = w.create_oo_ix(u, next_num[u], None);
        swap(&mut i, w.k.market, k2.market);
        if let Err(e) = w.bank.exec(&i) {
            return viol("setup", format!("account on the second market: {:?}", e));
        }
        // with funds, so that a mix-up would matter
        let d = w.build(&Op::Deposit { user: u, oo: 0, b: 1_000_000, q: 1_000_000 }).unwrap();
        let mut d = foreign(&w, &k2, &d);
        swap(&mut d, w.oos[0], k);
        let _ = w.bank.exec(&d);
        oos2.push(k);
        next_num[u] += 1;
    }
    let m = match w.model() {
        Ok(m) => m,
        Err(e) => return viol("setup", e),
    };
    info.sig = st.sig;
    Ok(Some(Stage { w, m, k2, oos2, next_num, alien_oracle, sig: st.sig }))
}

pub fn swap(i: &mut Instruction, a: Pubkey, b: Pubkey) {
    for m in i.accounts.iter_mut() {
        if m.pubkey == a {
            m.pubkey = b;
        }
    }
}
fn swapped(i: &Instruction, a: Pubkey, b: Pubkey) -> Instruction {
    let mut i = i.clone();
    swap(&mut i, a, b);
    i
}
/// the same instruction for the other market
fn foreign(w: &World, k2: &Keys, i: &Instruction) -> Instruction {
    let k = &w.k;
    let mut i = i.clone();
    for (a, b) in [(k.market, k2.market), (k.authority, k2.authority), (k.bids, k2.bids), (k.asks, k2.asks), (k.heap, k2.heap), (k.vaults[0], k2.vaults[0]), (k.vaults[1], k2.vaults[1])] {
        swap(&mut i, a, b);
    }
    i
}
fn unsigned(i: &Instruction, a: Pubkey) -> Instruction {
    let mut i = i.clone();
    for m in i.accounts.iter_mut() {
        if m.pubkey == a {
            m.is_signer = false;
        }
    }
    i
}
/// all but the first occurrence of `a` become `b`
fn split(i: &mut Instruction, a: Pubkey, b: Pubkey) {
    let mut seen = false;
    for m in i.accounts.iter_mut() {
        if m.pubkey == a {
            if seen {
                m.pubkey = b;
            }
            seen = true;
        }
    }
}

fn delegate_of(m: &Model, oo: usize) -> Option<usize> {
    m.s.oos[oo].delegate.and_then(|d| m.p.users.iter().position(|u| *u == d))
}

pub fn close_oo_ix(w: &World, owner: Pubkey, idx_owner: Pubkey, oo: Pubkey) -> Instruction {
    ix(
        ac::CloseOpenOrdersAccount { owner, open_orders_indexer: indexer_of(&idx_owner), open_orders_account: oo, sol_destination: w.admin, system_program: sys() },
        ins::CloseOpenOrdersAccount {},
    )
}
pub fn close_indexer_ix(w: &World, owner: Pubkey, idx_owner: Pubkey) -> Instruction {
    ix(ac::CloseOpenOrdersIndexer { owner, open_orders_indexer: indexer_of(&idx_owner), sol_destination: w.admin, token_program: spl_token::id() }, ins::CloseOpenOrdersIndexer {})
}
pub fn close_market_ix(w: &World) -> Instruction {
    ix(
        ac::CloseMarket {
            close_market_admin: w.k.close_admin.unwrap_or(key("role", 4)),
            market: w.k.market,
            bids: w.k.bids,
            asks: w.k.asks,
            event_heap: w.k.heap,
            sol_destination: w.admin,
            token_program: spl_token::id(),
        },
        ins::CloseMarket {},
    )
}

/// An instruction prepared so that it succeeds, and the same without authority.
pub fn target(s: &Stage, r: &mut Row) -> Option<Target> {
    let kind = r.idx(KINDS);
    let w = &s.w;
    let m = &s.m;
    let k = &w.k;
    let mut bank = w.bank.clone();
    let n = w.oos.len();
    let oo = r.idx(n);
    let owner = w.cfg.oos[oo];
    let delegate = delegate_of(m, oo);
    let by_delegate = r.chance(1, 2);
    let rightful = match delegate {
        Some(d) if by_delegate => d,
        _ => owner,
    };
    let strangers: Vec<usize> = (0..w.users.len()).filter(|u| *u != owner && Some(*u) != delegate).collect();
    let payer = key("role", 1);
    let mut ww = w.clone();
    ww.bank = bank.clone();
    let mut attacks: Vec<(String, Instruction)> = vec![];
    let mut name = "";
    let mut the_oo = Some(oo);
    // orders are paid from the account's own funds: the attack must not fail for lack of a token transfer
    let fund = |ww: &mut World| {
        let _ = ww.exec(&Op::Deposit { user: owner, oo, b: 1 << 40, q: 1 << 40 });
    };
    let base: Option<Instruction> = match kind {
        0..=8 => {
            fund(&mut ww);
            let pr = QUIET;
            let mut o = gen_order(r, w, m, &pr, kind == 1 || kind == 3);
            o.typ = [Typ::Limit, Typ::PostOnly, Typ::Ioc][r.idx(3)];
            o.stb = Stb::Decrement;
            o.mb = r.range(1, 5);
            o.mq = (o.price.max(o.peg_limit).max(1)).saturating_mul(20).min(m.p.max_quote());
            o.exp = 0;
            let cids: Vec<(u64, u128)> = m.s.oos[oo].slots.iter().flatten().filter(|x| m.s.books[x.side].iter().any(|b| b.peg == x.peg && b.key == x.id)).map(|x| (x.cid, x.id)).collect();
            let (cid, id) = if cids.is_empty() { (0, 0) } else { *r.pick(&cids) };
            let typ = o.typ;
            let lim = 8;
            let p = (o.price.max(1), o.mq, 0u64);
            let side = o.side;
            let ex = r.range(0, 20);
            let mk = |signer: usize| -> Op {
                match kind {
                    0 | 1 => Op::Place { oo, signer, o: o.clone(), rem: vec![], wrong_vault: false },
                    2 | 3 => Op::Edit { oo, signer, cid, expected: ex, o: o.clone(), rem: vec![] },
                    4 | 5 => {
                        let (b, a) = if side == BID { (vec![p], vec![]) } else { (vec![], vec![p]) };
                        Op::Multi { oo, signer, cancel: kind == 5, typ, bids: b, asks: a, limit: lim, rem: vec![] }
                    }
                    6 => Op::CancelId { oo, signer, id },
                    7 => Op::CancelCid { oo, signer, cid },
                    _ => Op::CancelAll { oo, signer, side: None, limit: 255 },
                }
            };
            name = ["place_order", "place_order_pegged", "edit_order", "edit_order_pegged", "place_orders", "cancel_all_and_place_orders", "cancel_order", "cancel_order_by_client_order_id", "cancel_all_orders"][kind];
            let i = ww.build(&mk(rightful)).unwrap();
            for u in &strangers {
                attacks.push((format!("signed by stranger {} instead of the owner", u), ww.build(&mk(*u)).unwrap()));
            }
            attacks.push(("without the signature of the owner or delegate".into(), unsigned(&i, w.users[rightful])));
            for a in [key("role", 1), key("role", 2), key("role", 3), key("role", 4), w.admin] {
                attacks.push(("signed by an admin".into(), swapped(&i, w.users[rightful], a)));
            }
            if kind < 6 {
                if let Some(a) = k.oo_admin {
                    attacks.push(("without the order admin's signature".into(), unsigned(&i, a)));
                    attacks.push(("without the order admin".into(), swapped(&i, a, pid())));
                    attacks.push(("another signer as order admin".into(), swapped(&i, a, key("role", 3))));
                    attacks.push(("the owner as order admin".into(), swapped(&i, a, w.users[rightful])));
                }
            }
            Some(i)
        }
        9 => {
            name = "settle_funds";
            fund(&mut ww);
            let refr = r.chance(1, 2);
            let dest = if rightful == owner { r.idx(w.users.len()) } else { owner };
            let mut i = ww.build(&Op::Settle { oo, signer: rightful, dest, referrer: refr }).unwrap();
            split(&mut i, w.users[rightful], payer);
            for u in &strangers {
                for d in [*u, owner] {
                    let mut a = ww.build(&Op::Settle { oo, signer: *u, dest: d, referrer: refr }).unwrap();
                    split(&mut a, w.users[*u], payer);
                    attacks.push((format!("signed by stranger {}, paid to {}", u, d), a));
                }
            }
            attacks.push(("without the signature of the owner or delegate".into(), unsigned(&i, w.users[rightful])));
            if let Some(d) = delegate {
                if d != owner {
                    let good = ww.build(&Op::Settle { oo, signer: d, dest: owner, referrer: refr }).unwrap();
                    for x in 0..w.users.len() {
                        if x != owner {
                            attacks.push((format!("delegate pays everything to {}", x), ww.build(&Op::Settle { oo, signer: d, dest: x, referrer: refr }).unwrap()));
                            attacks.push((format!("delegate pays base to {}", x), swapped(&good, w.toks[owner][0], w.toks[x][0])));
                            attacks.push((format!("delegate pays quote to {}", x), swapped(&good, w.toks[owner][1], w.toks[x][1])));
                        }
                    }
                }
            }
            Some(i)
        }
        10 => {
            name = "set_delegate";
            let d = [None, Some(0), Some(1), Some(2)][r.idx(4)].filter(|d| *d < w.users.len());
            let i = ww.build(&Op::SetDelegate { oo, signer: owner, delegate: d }).unwrap();
            for u in 0..w.users.len() {
                if u != owner {
                    attacks.push((format!("signed by {} (delegate is {:?})", u, delegate), ww.build(&Op::SetDelegate { oo, signer: u, delegate: Some(u) }).unwrap()));
                }
            }
            let mut i2 = i.clone();
            split(&mut i2, w.users[owner], w.users[(owner + 1) % w.users.len()]);
            attacks.push(("without the owner's signature".into(), unsigned(&i2, w.users[owner])));
            Some(i)
        }
        11 => {
            name = "close_open_orders_account";
            // a fresh account, with a delegate
            let d = strangers.first().copied();
            let (kk, r2) = ww.create_oo(owner, s.next_num[owner], d.map(|x| w.users[x]));
            if r2.is_err() {
                return None;
            }
            let o = w.users[owner];
            let i = close_oo_ix(w, o, o, kk);
            for u in 0..w.users.len() {
                if u != owner {
                    attacks.push((format!("signed by {} with its own index", u), close_oo_ix(w, w.users[u], w.users[u], kk)));
                    attacks.push((format!("signed by {} with the owner's index", u), close_oo_ix(w, w.users[u], o, kk)));
                }
            }
            attacks.push(("without the owner's signature".into(), unsigned(&i, o)));
            the_oo = None;
            Some(i)
        }
        12 => {
            name = "close_open_orders_indexer";
            let o = key("evil", 5);
            put_wallet(&mut ww.bank, o);
            let c = ix(ac::CreateOpenOrdersIndexer { payer: o, owner: o, open_orders_indexer: indexer_of(&o), system_program: sys() }, ins::CreateOpenOrdersIndexer {});
            if ww.bank.exec(&c).is_err() {
                return None;
            }
            let i = close_indexer_ix(w, o, o);
            for u in &w.users {
                attacks.push(("signed by somebody else".into(), close_indexer_ix(w, *u, o)));
            }
            attacks.push(("without the owner's signature".into(), unsigned(&i, o)));
            the_oo = None;
            Some(i)
        }
        13 => {
            name = "sweep_fees";
            the_oo = None;
            let i = ww.build(&Op::Sweep).unwrap();
            for a in [key("role", 2), key("role", 3), key("role", 4), w.admin, w.users[owner]] {
                attacks.push(("signed by somebody else".into(), swapped(&i, k.fee_admin, a)));
            }
            attacks.push(("without the fee admin's signature".into(), unsigned(&i, k.fee_admin)));
            Some(i)
        }
        14..=17 => {
            name = ["set_market_expired", "prune_orders", "settle_funds_expired", "close_market"][kind - 14];
            if kind > 14 && k.close_admin.is_some() && ww.exec(&Op::Expire).is_err() {
                return None;
            }
            if kind > 14 && k.close_admin.is_none() {
                // without an admin nobody may do it, even once the time is over
                ww.bank.get_mut(&k.market);
                let off = 8 + memoffset_time_expiry();
                ww.bank.get_mut(&k.market).data_mut()[off..off + 8].copy_from_slice(&(-1i64).to_le_bytes());
            }
            let i = match kind {
                14 => {
                    the_oo = None;
                    ww.build(&Op::Expire).unwrap()
                }
                15 => ww.build(&Op::Prune { oo, limit: 255 }).unwrap(),
                16 => {
                    let mut i = ww.build(&Op::SettleExpired { oo, signer: owner, dest: owner, referrer: r.chance(1, 2) }).unwrap();
                    split(&mut i, w.users[owner], payer);
                    for x in 0..w.users.len() {
                        if x != owner {
                            attacks.push((format!("admin pays base to {}", x), swapped(&i, w.toks[owner][0], w.toks[x][0])));
                            attacks.push((format!("admin pays quote to {}", x), swapped(&i, w.toks[owner][1], w.toks[x][1])));
                        }
                    }
                    i
                }
                _ => {
                    the_oo = None;
                    close_market_ix(w)
                }
            };
            if kind == 17 && !drain(&mut ww) {
                return None;
            }
            let adm = k.close_admin.unwrap_or(key("role", 4));
            if k.close_admin.is_none() {
                attacks.push(("market without a close admin".into(), i.clone()));
            }
            for a in [key("role", 1), key("role", 2), key("role", 3), w.admin, w.users[owner]] {
                attacks.push(("signed by somebody else".into(), swapped(&i, adm, a)));
            }
            attacks.push(("without the admin's signature".into(), unsigned(&i, adm)));
            attacks.push(("the null key as admin".into(), unsigned(&swapped(&i, adm, Pubkey::default()), Pubkey::default())));
            Some(i)
        }
        18 | 19 => {
            the_oo = None;
            name = ["consume_events", "consume_given_events"][kind - 18];
            let all: Vec<usize> = (0..n).collect();
            let i = ww
                .build(&if kind == 18 { Op::Consume { limit: 8, rem: all } } else { Op::ConsumeGiven { slots: w.heap().iter().map(|(_, s)| s).take(3).collect(), rem: all } })
                .unwrap();
            if let Some(a) = k.ce_admin {
                attacks.push(("without the crank admin's signature".into(), unsigned(&i, a)));
                attacks.push(("without the crank admin".into(), swapped(&i, a, pid())));
                for b in [key("role", 1), key("role", 2), key("role", 4), w.admin, w.users[owner]] {
                    attacks.push(("another signer as crank admin".into(), swapped(&i, a, b)));
                }
            }
            Some(i)
        }
        20 => {
            the_oo = None;
            name = "place_take_order";
            let user = r.idx(w.users.len());
            let side = r.idx(2);
            let mut o = gen_order(r, w, m, &QUIET, false);
            o.side = side;
            o.typ = Typ::Ioc;
            o.price = if side == BID { m.p.max_quote().min(1 << 30) } else { 1 };
            o.mb = r.range(1, 10);
            o.mq = (1 << 33i64).min(m.p.max_quote());
            o.limit = 20;
            let mut i = ww.build(&Op::Take { user, o, rem: vec![] }).unwrap();
            split(&mut i, w.users[user], payer);
            if let Some(a) = k.oo_admin {
                attacks.push(("without the order admin's signature".into(), unsigned(&i, a)));
                attacks.push(("without the order admin".into(), swapped(&i, a, pid())));
                attacks.push(("another signer as order admin".into(), swapped(&i, a, key("role", 3))));
            }
            Some(i)
        }
        21 | 22 => {
            the_oo = None;
            name = ["stub_oracle_set", "stub_oracle_close"][kind - 21];
            let which = r.idx(2);
            let o = k.oracle[which]?;
            let i = if kind == 21 {
                ww.build(&Op::SetOracle { which, price: 5.0 }).unwrap()
            } else {
                ix(ac::StubOracleClose { owner: w.admin, oracle: o, sol_destination: w.users[0], token_program: spl_token::id() }, ins::StubOracleClose {})
            };
            for a in [key("role", 1), key("evil", 0), w.users[owner]] {
                attacks.push(("signed by somebody else".into(), swapped(&i, w.admin, a)));
            }
            attacks.push(("without the owner's signature".into(), unsigned(&i, w.admin)));
            Some(i)
        }
        23 => {
            the_oo = None;
            name = "create_open_orders_account";
            let (_, mut i) = ww.create_oo_ix(owner, s.next_num[owner], None);
            // somebody else pays
            i.accounts[0].pubkey = payer;
            attacks.push(("without the owner's signature".into(), unsigned(&i, w.users[owner])));
            attacks.push(("for somebody else".into(), swapped(&i, w.users[owner], w.users[(owner + 1) % w.users.len()])));
            Some(i)
        }
        24 => {
            the_oo = None;
            name = "create_open_orders_indexer";
            let o = key("evil", 6);
            put_wallet(&mut ww.bank, o);
            let i = ix(ac::CreateOpenOrdersIndexer { payer, owner: o, open_orders_indexer: indexer_of(&o), system_program: sys() }, ins::CreateOpenOrdersIndexer {});
            attacks.push(("without the owner's signature".into(), unsigned(&i, o)));
            attacks.push(("for somebody else".into(), swapped(&i, o, w.admin)));
            Some(i)
        }
        _ => {
            name = ["deposit", "refill"][kind - 25];
            let user = r.idx(w.users.len());
            let (b, q) = (r.below(1000) + 1, r.below(1000) + 1);
            let op = if kind == 25 { Op::Deposit { user, oo, b, q } } else { Op::Refill { user, oo, b: b + m.s.oos[oo].pos.base_free as u64, q: q + m.s.oos[oo].pos.quote_free as u64 } };
            let i = ww.build(&op).unwrap();
            attacks.push(("from a wallet that did not sign".into(), unsigned(&i, w.users[user])));
            for u in 0..w.users.len() {
                if u != user {
                    attacks.push((format!("from the wallet of {}", user), swapped(&i, w.users[user], w.users[u])));
                }
            }
            Some(i)
        }
    };
    let i = base?;
    bank = ww.bank;
    let fixed = i.accounts.len() - if kind == 18 || kind == 19 { n } else { 0 };
    Some(Target { name, bank, ix: i, attacks, fixed, oo: the_oo })
}

fn memoffset_time_expiry() -> usize {
    let m: openbook_v2::state::Market = bytemuck::Zeroable::zeroed();
    (&m.time_expiry as *const i64 as usize) - (&m as *const _ as usize)
}

/// take everything out of an expired market
fn drain(w: &mut World) -> bool {
    let n = w.oos.len();
    for _ in 0..200 {
        if w.read_events().map(|e| e.is_empty()).unwrap_or(true) {
            break;
        }
        if w.exec(&Op::Consume { limit: 8, rem: (0..n).collect() }).is_err() {
            return false;
        }
    }
    for oo in 0..n {
        let u = w.cfg.oos[oo];
        if w.exec(&Op::CancelAll { oo, signer: u, side: None, limit: 255 }).is_err() || w.exec(&Op::Settle { oo, signer: u, dest: u, referrer: false }).is_err() {
            return false;
        }
    }
    w.exec(&Op::Sweep).is_ok()
}

fn show(i: &Instruction) -> String {
    i.accounts.iter().map(|m| format!("{}{}{}", &m.pubkey.to_string()[..6], if m.is_signer { "s" } else { "" }, if m.is_writable { "w" } else { "" })).collect::<Vec<_>>().join(" ")
}

fn attempt(t: &Target, i: &Instruction) -> (Bank, Result<TxOk, TxErr>) {
    let mut b = t.bank.clone();
    let r = b.exec(i);
    (b, r)
}

/// several targets per history
const TARGETS: usize = 6;

pub fn c12(case: &Case, info: &mut Info, verbose: bool) -> Result<(), Violation> {
    let s = match stage(case, info, verbose)? {
        Some(s) => s,
        None => return Ok(()),
    };
    let last = case.last().unwrap();
    let mut sig = s.sig;
    for t in 0..TARGETS {
        let words: Vec<u64> = last[4 + t..].to_vec();
        let mut r = Row::new(&words);
        let t = match target(&s, &mut r) {
            Some(t) => t,
            None => continue,
        };
        let (_, ok) = attempt(&t, &t.ix);
        let no_admin = s.w.k.close_admin.is_none();
        if ok.is_err() && !(no_admin && ["set_market_expired", "prune_orders", "settle_funds_expired", "close_market"].contains(&t.name)) {
            info.count(&format!("unusable {}", t.name), 1);
            continue;
        }
        if verbose {
            println!("target {} {}", t.name, show(&t.ix));
        }
        info.nontrivial = true;
        info.count(&format!("target {}", t.name), 1);
        sig = hash_mix(sig, hash_str(t.name));
        for (what, a) in &t.attacks {
            info.count("attacks", 1);
            if *a == t.ix && !no_admin {
                continue;
            }
            let (_, r) = attempt(&t, a);
            if r.is_ok() {
                return viol(format!("accepted {}", t.name), format!("{} succeeded {}\n  rightful: {}\n  accepted: {}", t.name, what, show(&t.ix), show(a)));
            }
        }
        if info.summary.is_none() {
            info.summary = Some(format!("{} after a history, {} attacks refused", t.name, t.attacks.len()));
        }
    }
    info.sig = sig;
    Ok(())
}

/// Replacements for one account of the instruction that must be refused: (what, key)
fn forgeries(s: &Stage, t: &Target, bank: &mut Bank, pos: usize) -> Vec<(String, Pubkey)> {
    let w = &s.w;
    let k = &w.k;
    let k2 = &s.k2;
    let key0 = t.ix.accounts[pos].pubkey;
    let mut v: Vec<(String, Pubkey)> = vec![];
    let copy = |bank: &mut Bank, src: Pubkey| -> Pubkey {
        let f = key("forged", crate::engine::hash_str(&src.to_string()));
        if let Some(a) = bank.get(&src) {
            let mut a: Acc = a.clone();
            a.owner = key("evilprogram", 0);
            bank.put(f, a);
        }
        f
    };
    let blank = |bank: &mut Bank, len: usize| -> Pubkey {
        let f = key("blank", len as u64);
        bank.put(f, Acc::new(10_000_000_000, len, pid()));
        f
    };
    let add = |v: &mut Vec<(String, Pubkey)>, s: &str, p: Pubkey| {
        if p != key0 {
            v.push((s.to_string(), p))
        }
    };
    let len = bank.get(&key0).map(|a| a.data().len()).unwrap_or(0);
    if key0 == k.bids || key0 == k.asks {
        let (o, f) = if key0 == k.bids { (k.asks, k2.bids) } else { (k.bids, k2.asks) };
        add(&mut v, "the other side of the book", o);
        add(&mut v, "the book side of another market", f);
        add(&mut v, "the opposite book side of another market", if key0 == k.bids { k2.asks } else { k2.bids });
        add(&mut v, "the event queue", k.heap);
        let c = copy(bank, key0);
        add(&mut v, "a look-alike of another program", c);
        let b = blank(bank, len);
        add(&mut v, "an uninitialised account", b);
    } else if key0 == k.heap {
        add(&mut v, "the event queue of another market", k2.heap);
        add(&mut v, "a book side", k.bids);
        let c = copy(bank, key0);
        add(&mut v, "a look-alike of another program", c);
        let b = blank(bank, len);
        add(&mut v, "an uninitialised account", b);
    } else if key0 == k.market {
        if t.name != "create_open_orders_account" && t.name != "set_market_expired" {
            add(&mut v, "another market", k2.market);
        }
        let c = copy(bank, key0);
        add(&mut v, "a look-alike of another program", c);
        add(&mut v, "a trading account", w.oos[0]);
        add(&mut v, "a book side", k.bids);
    } else if key0 == k.vaults[0] || key0 == k.vaults[1] {
        let i = if key0 == k.vaults[0] { 0 } else { 1 };
        add(&mut v, "the vault of the other token", k.vaults[1 - i]);
        add(&mut v, "the vault of another market", k2.vaults[i]);
        add(&mut v, "a user's token account", w.toks[0][i]);
        add(&mut v, "another user's token account", w.toks[w.users.len() - 1][i]);
        let c = copy(bank, key0);
        add(&mut v, "a look-alike of another program", c);
        // a token account with the market's authority that is not the vault
        let f = key("side vault", i as u64);
        put_token(bank, f, if i == 0 { k.base_mint } else { k.quote_mint }, k.authority, 1 << 40);
        add(&mut v, "another token account of the market's authority", f);
    } else if key0 == k.authority {
        add(&mut v, "the authority of another market", k2.authority);
        add(&mut v, "a user", w.users[0]);
    } else if Some(key0) == k.oracle[0] || Some(key0) == k.oracle[1] {
        if t.name.starts_with("stub_oracle") {
            add(&mut v, "somebody else's oracle", s.alien_oracle[0]);
            let c = copy(bank, key0);
            add(&mut v, "a look-alike of another program", c);
            add(&mut v, "a trading account", w.oos[0]);
        } else {
            let i = if Some(key0) == k.oracle[0] { 0 } else { 1 };
            add(&mut v, "somebody else's oracle", s.alien_oracle[i]);
            add(&mut v, "no oracle", pid());
            if let Some(o) = k.oracle[1 - i] {
                add(&mut v, "the other oracle", o);
            }
            let c = copy(bank, key0);
            add(&mut v, "a look-alike of another program", c);
        }
    } else if Some(pos) == t.oo.and_then(|o| t.ix.accounts.iter().position(|m| m.pubkey == w.oos[o])) || (t.name == "close_open_orders_account" && pos == 2) {
        let has_market = t.ix.accounts.iter().any(|m| m.pubkey == k.market);
        if has_market {
            for o in &s.oos2 {
                add(&mut v, "a trading account on another market", *o);
            }
        }
        if t.name == "close_open_orders_account" {
            for (i, o) in s.oos2.iter().enumerate() {
                if !t.ix.accounts.iter().any(|m| m.pubkey == w.users[i]) {
                    add(&mut v, "somebody else's trading account", *o);
                }
            }
        }
        let c = copy(bank, key0);
        add(&mut v, "a look-alike of another program", c);
        add(&mut v, "the market", k.market);
        let b = blank(bank, len);
        add(&mut v, "an uninitialised account", b);
    } else if let Some((_, i)) = w.toks.iter().flat_map(|x| x.iter().zip(0usize..)).find(|(x, _)| **x == key0).map(|(a, b)| (*a, b)) {
        // the owner of the replacement is the signer: only the mint or the program is wrong
        let owner = w.users[w.toks.iter().position(|x| x.contains(&key0)).unwrap()];
        token_forgeries(bank, &mut v, key0, owner, [k.base_mint, k.quote_mint][1 - i], copy);
    } else if key0 == k.ref_acct || key0 == k.fee_acct {
        token_forgeries(bank, &mut v, key0, key("refowner", 0), k.base_mint, copy);
    } else if w.users.iter().any(|u| indexer_of(u) == key0) {
        for u in &w.users {
            add(&mut v, "somebody else's index", indexer_of(u));
        }
        let c = copy(bank, key0);
        add(&mut v, "a look-alike of another program", c);
    } else if key0 == spl_token::id() || key0 == sys() {
        let f = key("evilprogram", 1);
        let mut a = Acc::new(1_000_000_000, 0, Pubkey::new_from_array([2; 32]));
        a.executable = true;
        bank.put(f, a);
        add(&mut v, "a fake program", f);
    }
    v
}

fn token_forgeries(bank: &mut Bank, v: &mut Vec<(String, Pubkey)>, key0: Pubkey, owner: Pubkey, other_mint: Pubkey, copy: impl Fn(&mut Bank, Pubkey) -> Pubkey) {
    let f = key("wrong mint", crate::engine::hash_str(&key0.to_string()));
    put_token(bank, f, other_mint, owner, 1 << 44);
    v.push(("a token account of the other mint".into(), f));
    let m3 = key("evilmint", 0);
    put_mint(bank, m3, 6);
    let g = key("wrong mint 3", crate::engine::hash_str(&key0.to_string()));
    put_token(bank, g, m3, owner, 1 << 44);
    v.push(("a token account of an unrelated mint".into(), g));
    v.push(("a look-alike of another program".into(), copy(bank, key0)));
    v.push(("a mint".into(), m3));
    v.push(("a wallet".into(), owner));
}

pub fn c13(case: &Case, info: &mut Info, verbose: bool) -> Result<(), Violation> {
    let s = match stage(case, info, verbose)? {
        Some(s) => s,
        None => return Ok(()),
    };
    let last = case.last().unwrap();
    let mut sig = s.sig;
    for tn in 0..TARGETS {
        let words: Vec<u64> = last[4 + tn..].to_vec();
        let mut r = Row::new(&words);
        let mut t = match target(&s, &mut r) {
            Some(t) => t,
            None => continue,
        };
        let (good_bank, ok) = attempt(&t, &t.ix);
        if ok.is_err() {
            info.count(&format!("unusable {}", t.name), 1);
            continue;
        }
        if verbose {
            println!("target {} {}", t.name, show(&t.ix));
        }
        info.nontrivial = true;
        info.count(&format!("target {}", t.name), 1);
        sig = hash_mix(sig, hash_str(t.name));
        let refuse = |t: &Target, i: &Instruction, what: String, info: &mut Info| -> Result<(), Violation> {
            info.count("attacks", 1);
            let (_, r) = attempt(t, i);
            if r.is_ok() {
                return viol(format!("accepted {}", t.name), format!("{} succeeded with {}\n  correct: {}\n  accepted: {}", t.name, what, show(&t.ix), show(i)));
            }
            Ok(())
        };
        for pos in 0..t.fixed {
            let mut b = t.bank.clone();
            let f = forgeries(&s, &t, &mut b, pos);
            t.bank = b;
            for (what, kk) in f {
                let mut i = t.ix.clone();
                i.accounts[pos].pubkey = kk;
                refuse(&t, &i, format!("{} in place of account {}", what, pos), info)?;
            }
        }
        // several accounts exchanged consistently
        let k = &s.w.k;
        let has = |p: Pubkey| t.ix.accounts.iter().any(|m| m.pubkey == p);
        if has(k.bids) && has(k.asks) {
            let mut i = t.ix.clone();
            for m in i.accounts.iter_mut() {
                if m.pubkey == k.bids {
                    m.pubkey = k.asks
                } else if m.pubkey == k.asks {
                    m.pubkey = k.bids
                }
            }
            refuse(&t, &i, "bids and asks exchanged".into(), info)?;
            let i = swapped(&swapped(&t.ix, k.bids, s.k2.bids), k.asks, s.k2.asks);
            refuse(&t, &i, "both book sides of another market".into(), info)?;
        }
        if has(k.vaults[0]) && has(k.vaults[1]) {
            let u: Vec<[Pubkey; 2]> = s.w.toks.clone();
            let mut i = t.ix.clone();
            for m in i.accounts.iter_mut() {
                for (a, b) in [(k.vaults[0], k.vaults[1])].iter().copied().chain(u.iter().map(|x| (x[0], x[1]))) {
                    if m.pubkey == a {
                        m.pubkey = b;
                        break;
                    } else if m.pubkey == b {
                        m.pubkey = a;
                        break;
                    }
                }
            }
            refuse(&t, &i, "base and quote exchanged".into(), info)?;
            let i = swapped(&swapped(&t.ix, k.vaults[0], s.k2.vaults[0]), k.vaults[1], s.k2.vaults[1]);
            refuse(&t, &i, "both vaults of another market".into(), info)?;
        }
        if t.oo.is_some() && has(k.market) {
            refuse(&t, &foreign(&s.w, &s.k2, &t.ix), "all accounts of another market but the trading account".into(), info)?;
        }
        // extra accounts that have nothing to do with the trades
        if ["place_order", "place_order_pegged", "edit_order", "edit_order_pegged", "place_orders", "cancel_all_and_place_orders", "place_take_order", "consume_events", "consume_given_events"].contains(&t.name) {
            let mut extra: Vec<Pubkey> = vec![];
            for _ in 0..1 + r.below(4) {
                let c = match r.below(7) {
                    0 => s.k2.market,
                    1 => s.w.users[r.idx(s.w.users.len())],
                    2 => s.k2.bids,
                    3 => key("nowhere", r.below(3)),
                    4 => s.w.toks[r.idx(s.w.users.len())][r.idx(2)],
                    _ => s.oos2[r.idx(s.oos2.len())],
                };
                extra.push(c);
            }
            let mut i = t.ix.clone();
            let at = if r.chance(1, 2) { i.accounts.len() } else { t.fixed };
            for e in &extra {
                i.accounts.insert(at, crate::rt::meta(*e, false, true));
            }
            let (b, res) = attempt(&t, &i);
            info.count("extra accounts", 1);
            // (put aside accounts this check itself added)
            if res.is_ok() {
                for (kk, a) in &good_bank.accs {
                    if b.accs.get(kk) != Some(a) {
                        return viol(format!("extra accounts {}", t.name), format!("{}: account {} ends up different when unrelated extra accounts {:?} are passed", t.name, kk, extra));
                    }
                }
            }
        }
        if info.summary.is_none() {
            info.summary = Some(format!("{} after a history, with every account exchanged in turn", t.name));
        }
    }
    info.sig = sig;
    Ok(())
}

pub fn plans(id: &str) -> Vec<Plan> {
    vec![if id == "C12" {
        Plan {
            name: "attack",
            rule: "a case counts when at least one instruction that succeeds with the right signatures was attacked",
            rows: (3, 50),
            row_len: 72,
            quick: 9000,
            thorough: 500_000,
            run: c12,
        }
    } else {
        Plan {
            name: "attack",
            rule: "a case counts when at least one instruction that succeeds with the right accounts was attacked",
            rows: (3, 50),
            row_len: 72,
            quick: 5000,
            thorough: 300_000,
            run: c13,
        }
    }]
}
