//! Random histories: configuration and operation generators, lock-step comparison with the model.
use crate::engine::*;
use crate::model::*;
use crate::rt::{TxErr, TxOk};
use crate::world::*;
use std::fmt::Write as _;

pub const N_KINDS: usize = 20;
/// relative weights of operation kinds, in the order of `Op` (plus bulk placement as the last one)
#[derive(Clone)]
pub struct Profile {
    pub w: [u32; N_KINDS],
    pub tif: u64,      // percent of orders with an expiry
    pub rem: u64,      // percent of orders with remaining accounts
    pub extreme: u64,  // percent of extreme values
    pub stb: [u32; 3], // decrement, cancel provide, abort
    pub typ: [u32; 6], // limit ioc postonly market slide fok
    pub same_owner: u64,
    pub crowd: u8, // 1: full book, 2: full queue
    pub fees: u8, // 0 any, 1 nonzero only, 2 positive maker fee, 3 rebate
    pub pegs: bool,
    pub expiry: bool,
    pub ample: bool,
    pub small_mid: bool,
}

pub const GENERAL: Profile = Profile {
    //  place peg edit editp multi take cid ccid call cons given dep refill settle settlx sweep deleg oracle clock misc
    w: [26, 10, 3, 2, 4, 8, 4, 2, 2, 8, 3, 2, 2, 5, 1, 2, 2, 5, 5, 2],
    tif: 25,
    rem: 45,
    extreme: 3,
    stb: [4, 3, 1],
    typ: [8, 3, 2, 2, 2, 2],
    same_owner: 0,
    crowd: 0,
    fees: 0,
    pegs: true,
    expiry: true,
    ample: false,
    small_mid: false,
};

pub fn gen_cfg(r: &mut Row, pr: &Profile) -> Cfg {
    let mut c = Cfg::default();
    c.bls = *r.pick(&[100, 1, 10, 1000, 7, 1_000_000]);
    c.qls = *r.pick(&[10, 1, 100, 1000, 3, 100_000]);
    let (mf, tf) = match r.below(9) {
        0 => (0, 0),
        1 => (-200, 400),
        2 => (200, 400),
        3 => (-1_000_000, 1_000_000),
        4 => (1_000_000, 1_000_000),
        5 => (0, 3_333),
        6 => {
            let t = r.range(0, 100_000);
            (r.range(-t, 100_000), t)
        }
        7 => (-37, 37),
        _ => (12_345, 50_001),
    };
    c.maker_fee = mf;
    c.taker_fee = tf;
    match pr.fees {
        1 if mf == 0 || tf == 0 => {
            c.maker_fee = -200;
            c.taker_fee = 400;
        }
        2 if mf <= 0 => {
            c.maker_fee = 12_345;
        }
        3 if mf >= 0 => {
            c.maker_fee = -200;
            c.taker_fee = 400.max(tf);
        }
        _ => {}
    }
    c.base_dec = *r.pick(&[6, 9, 0, 5]);
    c.quote_dec = *r.pick(&[6, 6, 2, 9]);
    c.oracles = *r.pick(&[1, 0, 2, 1, 1]);
    c.conf = *r.pick(&[0.1, 0.5, 0.01]);
    c.staleness = match r.below(4) {
        0 => Some(40),
        1 => Some(0),
        _ => None,
    };
    let e = r.below(100);
    c.expiry = if pr.expiry && e >= 88 { 20 + (e as i64 - 88) * 20 } else { 0 };
    c.oo_admin = r.chance(1, 5);
    c.ce_admin = r.chance(1, 5);
    c.close_admin = !r.chance(1, 4);
    c.mid = *r.pick(&[100, 5, 20, 1000, 50_000, 1_000_000_000]);
    if pr.small_mid {
        c.mid = *r.pick(&[5, 3, 10, 20]);
    }
    c.users = 4;
    c.oos = vec![0, 1, 2, 3];
    let extra = r.below(4);
    for i in 0..extra {
        c.oos.push(((r.next() + i) % 4) as usize);
    }
    if pr.crowd > 0 {
        c.mid = 1000;
        c.oos = (0..if pr.crowd == 1 { 26 } else { 44 }).map(|i| i % 4).collect();
    }
    if c.mid > 1000 {
        // keep amounts representable
        c.qls = c.qls.min(1000);
    }
    c.wallets = (0..4)
        .map(|_| {
            let k = r.below(10);
            let b = r.next();
            if pr.ample || pr.crowd > 0 || k < 7 {
                [1 << 58, 1 << 58]
            } else if k < 9 {
                [b % (60 * c.bls as u64), (b >> 20) % (60 * (c.qls * c.mid) as u64)]
            } else {
                [0, 0]
            }
        })
        .collect();
    c.aged = *r.pick(&[0, 0, 0, 0, 65_533, (1 << 32) - 4, (1 << 53) - 2, 1 << 63]);
    c
}

fn subset(r: &mut Row, n: usize, avoid: Option<usize>) -> Vec<usize> {
    let mut v: Vec<usize> = match r.below(3) {
        0 => (0..n).collect(),
        1 => {
            let m = r.next();
            (0..n).filter(|i| m >> i & 1 == 1).collect()
        }
        _ => vec![r.idx(n)],
    };
    if let Some(a) = avoid {
        v.retain(|x| *x != a);
    }
    v
}

fn gen_price(r: &mut Row, w: &World, m: &Model, side: usize, pr: &Profile) -> i64 {
    let mid = w.cfg.mid;
    let spread = 8.min(mid.max(3));
    if r.below(100) < pr.extreme {
        return *r.pick(&[1, i64::MAX, i64::MAX - 1, i64::MAX / 2, 0, -5, 1 << 40]);
    }
    match r.below(20) {
        0..=11 => (mid + r.range(-spread, spread)).max(1),
        12..=15 => {
            // price of a resting order
            let s = if r.chance(2, 3) { 1 - side } else { side };
            let o = m.oracle_lots().ok().flatten();
            let v = m.ranked(s, o);
            if v.is_empty() {
                (mid + r.range(-spread, spread)).max(1)
            } else {
                let i = r.idx(v.len().min(6));
                (v[i].1.saturating_add(r.range(-1, 1))).max(1)
            }
        }
        16..=17 => {
            // aggressive
            if side == BID {
                mid + spread + 3
            } else {
                (mid - spread - 3).max(1)
            }
        }
        _ => {
            // passive
            if side == ASK {
                mid + r.range(0, spread + 3)
            } else {
                (mid - r.range(0, spread + 3)).max(1)
            }
        }
    }
}

fn gen_qty(r: &mut Row, m: &Model, side: usize, pr: &Profile) -> i64 {
    if r.below(100) < pr.extreme {
        return *r.pick(&[0, -1, i64::MAX, m.p.max_base(), m.p.max_base().saturating_add(1), 1 << 40]);
    }
    match r.below(10) {
        0..=6 => r.range(1, 20),
        7..=8 => {
            let b = &m.s.books[1 - side];
            if b.is_empty() {
                r.range(1, 5)
            } else {
                let i = r.idx(b.len());
                b[i].qty.saturating_add(r.range(-1, 2)).max(1)
            }
        }
        _ => {
            let q = r.range(20, 400);
            if r.chance(1, 8) {
                q << *r.pick(&[28, 12, 20, 33])
            } else {
                q
            }
        }
    }
}

fn gen_mq(r: &mut Row, m: &Model, price: i64, qty: i64, pr: &Profile) -> i64 {
    if r.below(100) < pr.extreme {
        return *r.pick(&[0, -1, i64::MAX, m.p.max_quote(), m.p.max_quote().saturating_add(1)]);
    }
    let v = (price as i128).max(1) * (qty as i128).max(0);
    let v = v.min(1 << 100);
    let full = v * (SCALE + m.p.taker_fee as i128 + m.p.maker_fee.max(0) as i128) / SCALE + 2;
    let cap = m.p.max_quote() as i128;
    let x = match r.below(10) {
        0..=5 => full * 2 + 10,
        6 => v,
        7 => full - 2,
        8 => {
            let f = r.below(1000) as i128;
            v * f / 1000
        }
        _ => cap,
    };
    x.clamp(0, cap) as i64
}

fn gen_exp(r: &mut Row, m: &Model, pr: &Profile) -> u64 {
    if r.below(100) >= pr.tif {
        return 0;
    }
    let now = m.now as u64;
    match r.below(12) {
        0 => now,
        1 => now - 5,
        2 => now + 100_000,
        3 => now + 65_535,
        4 => u64::MAX,
        5 => now + *r.pick(&[254, 255, 256, 257, 300, 1000, 5000, 32_768, 40_000, 65_534, 65_536]),
        _ => now + 1 + r.below(20),
    }
}

pub fn gen_typ(r: &mut Row, pr: &Profile) -> Typ {
    [Typ::Limit, Typ::Ioc, Typ::PostOnly, Typ::Market, Typ::Slide, Typ::Fok][r.weighted(&pr.typ)]
}

pub fn gen_order(r: &mut Row, w: &World, m: &Model, pr: &Profile, peg: bool) -> OArgs {
    let side = r.idx(2);
    let typ = if peg && !r.chance(1, 20) { [Typ::Limit, Typ::PostOnly, Typ::Slide][r.weighted(&[5, 2, 2])] } else { gen_typ(r, pr) };
    let mut price = gen_price(r, w, m, side, pr);
    let mut peg_limit = -1;
    let mut lock = price;
    let oracle = m.oracle_lots().ok().flatten();
    if peg {
        let o = oracle.unwrap_or(w.cfg.mid);
        let eff = price;
        price = eff.saturating_sub(o);
        peg_limit = match r.below(8) {
            0 => *r.pick(&[1, i64::MAX, 0, -1, m.p.max_quote()]),
            1 => eff,
            2 => eff.saturating_add(r.range(-2, 2)),
            _ => {
                let d = r.range(0, 12);
                if side == BID {
                    eff.saturating_add(d)
                } else {
                    (eff.saturating_sub(d)).max(1)
                }
            }
        };
        lock = if side == BID { peg_limit.max(1) } else { eff.max(1) };
    }
    let mb = gen_qty(r, m, side, pr);
    let mq = gen_mq(r, m, if typ == Typ::Market { w.cfg.mid.saturating_mul(2) } else { lock }, mb, pr);
    if pr.crowd > 0 && r.chance(1, 2) {
        // sweep through many resting orders, or squeeze into a full side
        let sweep = if pr.crowd == 1 { r.chance(1, 6) } else { r.chance(2, 3) };
        let side = if r.chance(1, 8) { 1 - (sweep as usize) } else { sweep as usize };
        let far = if sweep { -360 } else { r.range(1, 345) };
        return OArgs {
            side,
            peg: false,
            price: if side == BID { 1000 - far } else { 1000 + far },
            peg_limit: -1,
            mb: if sweep { r.range(100, 800) } else { r.range(1, 4) },
            mq: 1 << 24,
            cid: r.below(6),
            typ: if r.chance(1, 4) { Typ::Ioc } else { Typ::Limit },
            exp: 0,
            stb: Stb::Decrement,
            limit: 255,
        };
    }
    OArgs {
        side,
        peg,
        price,
        peg_limit,
        mb,
        mq,
        cid: if r.chance(1, 12) { *r.pick(&[1 << 32, u64::MAX, (1 << 32) + 1, 1 << 63, (1 << 53) + 1]) } else { r.below(6) },
        typ,
        exp: gen_exp(r, m, pr),
        stb: [Stb::Decrement, Stb::CancelProvide, Stb::Abort][r.weighted(&pr.stb)],
        limit: *r.pick(&[8, 8, 50, 255, 1, 2, 0, 3]),
    }
}

fn signer_for(r: &mut Row, m: &Model, oo: usize) -> usize {
    let a = &m.s.oos[oo];
    let owner = m.p.users.iter().position(|u| *u == a.owner).unwrap();
    if let Some(d) = a.delegate {
        if r.chance(1, 2) {
            if let Some(i) = m.p.users.iter().position(|u| *u == d) {
                return i;
            }
        }
    }
    if r.chance(1, 40) {
        return r.idx(m.p.users.len());
    }
    owner
}

pub fn gen_ops(r: &mut Row, w: &World, m: &Model, pr: &Profile) -> Vec<Op> {
    let kind = r.weighted(&pr.w);
    let n = m.s.oos.len();
    let mut oo = r.idx(n);
    if r.below(100) < pr.same_owner {
        oo = 0;
    }
    let signer = signer_for(r, m, oo);
    let rem = if r.below(100) < pr.rem {
        let avoid = if r.chance(1, 30) { None } else { Some(oo) };
        subset(r, n, avoid)
    } else {
        r.next();
        r.next();
        vec![]
    };
    let own_cid = |r: &mut Row| -> u64 {
        let c: Vec<u64> = m.s.oos[oo].slots.iter().flatten().map(|s| s.cid).collect();
        if c.is_empty() || r.chance(1, 6) {
            r.below(6)
        } else {
            *r.pick(&c)
        }
    };
    let maker_rem = |r: &mut Row| -> Vec<usize> {
        if r.chance(3, 4) {
            (0..n).collect()
        } else {
            subset(r, n, None)
        }
    };
    let one = |o: Op| vec![o];
    match kind {
        0 => {
            let o = gen_order(r, w, m, pr, false);
            one(Op::Place { oo, signer, o, rem, wrong_vault: r.chance(1, 60) })
        }
        1 => {
            let o = gen_order(r, w, m, pr, pr.pegs);
            one(Op::Place { oo, signer, o, rem, wrong_vault: false })
        }
        2 | 3 => {
            let mut o = gen_order(r, w, m, pr, kind == 3 && pr.pegs);
            let cid = own_cid(r);
            let open: i64 = m.s.oos[oo]
                .slots
                .iter()
                .flatten()
                .filter(|s| s.cid == cid)
                .map(|s| m.s.books[s.side].iter().find(|b| b.peg == s.peg && b.key == s.id).map(|b| b.qty).unwrap_or(0))
                .sum();
            let expected = match r.below(8) {
                0 => open,
                1 => r.range(-1, 30),
                2 => i64::MAX,
                3 => (open - 1).max(0),
                _ => open + r.range(0, 8),
            };
            if r.chance(1, 2) {
                o.mb = expected.saturating_add(r.range(-3, 20));
                o.mq = m.p.max_quote().min((o.price.max(o.peg_limit).max(1)).saturating_mul(o.mb.max(1)).saturating_mul(2));
            }
            one(Op::Edit { oo, signer, cid, expected, o, rem })
        }
        4 => {
            let typ = gen_typ(r, pr);
            let mk = |r: &mut Row, side: usize| -> (i64, i64, u64) {
                let p = gen_price(r, w, m, side, pr);
                let q = gen_qty(r, m, side, pr);
                (p, gen_mq(r, m, p, q, pr), gen_exp(r, m, pr))
            };
            let most = if r.chance(1, 8) { 7 } else { 4 };
            let nb = r.below(most);
            let na = r.below(most);
            let bids = (0..nb).map(|_| mk(r, BID)).collect();
            let asks = (0..na).map(|_| mk(r, ASK)).collect();
            one(Op::Multi { oo, signer, cancel: r.chance(1, 2), typ, bids, asks, limit: *r.pick(&[8, 255, 1, 3]), rem })
        }
        5 => {
            let mut o = gen_order(r, w, m, pr, false);
            if !r.chance(1, 15) {
                o.typ = [Typ::Market, Typ::Ioc, Typ::Fok][r.idx(3)];
            }
            let user = r.idx(m.p.users.len());
            let rem = if r.chance(1, 2) { subset(r, n, None) } else { vec![] };
            one(Op::Take { user, o, rem })
        }
        6 => {
            let mut ids: Vec<u128> = m.s.oos[oo].slots.iter().flatten().map(|s| s.id).collect();
            if r.chance(1, 12) || ids.is_empty() {
                ids = m.s.books.iter().flatten().map(|b| b.key).collect();
                ids.push(0);
                ids.push(r.next() as u128);
            }
            one(Op::CancelId { oo, signer, id: *r.pick(&ids) })
        }
        7 => {
            let cid = own_cid(r);
            one(Op::CancelCid { oo, signer, cid })
        }
        8 => one(Op::CancelAll { oo, signer, side: *r.pick(&[None, Some(BID), Some(ASK)]), limit: *r.pick(&[255, 1, 2, 5, 0]) }),
        9 => {
            let limit = *r.pick(&[8, 1, 3, 100, 0, 5]) as usize;
            one(Op::Consume { limit, rem: maker_rem(r) })
        }
        10 => {
            let mut slots: Vec<usize> = vec![];
            let k = r.below(6);
            for _ in 0..k {
                let s = if m.s.events.is_empty() || r.chance(1, 8) {
                    let extra = if r.chance(1, 10) { 3 } else { 0 };
                    r.idx(HEAP + extra)
                } else {
                    let i = r.idx(m.s.events.len());
                    m.s.events[i].slot
                };
                slots.push(s);
            }
            one(Op::ConsumeGiven { slots, rem: maker_rem(r) })
        }
        11 | 12 => {
            let user = if r.chance(3, 4) { signer } else { r.idx(m.p.users.len()) };
            let b = match r.below(4) {
                0 => 0,
                1 => r.below(50),
                _ => r.below(100) * m.p.bls as u64,
            };
            let q = match r.below(4) {
                0 => 0,
                1 => r.below(50),
                _ => r.below(100).saturating_mul((m.p.qls as u64).saturating_mul(w.cfg.mid as u64)),
            };
            one(if kind == 11 { Op::Deposit { user, oo, b, q } } else { Op::Refill { user, oo, b, q } })
        }
        13 => {
            let owner = m.p.users.iter().position(|u| *u == m.s.oos[oo].owner).unwrap();
            let dest = if r.chance(1, 5) { r.idx(m.p.users.len()) } else { owner };
            one(Op::Settle { oo, signer, dest, referrer: r.chance(1, 2) })
        }
        14 => {
            let owner = m.p.users.iter().position(|u| *u == m.s.oos[oo].owner).unwrap();
            let dest = if r.chance(1, 5) { r.idx(m.p.users.len()) } else { owner };
            one(Op::SettleExpired { oo, signer, dest, referrer: r.chance(1, 2) })
        }
        15 => one(Op::Sweep),
        16 => {
            let owner = m.p.users.iter().position(|u| *u == m.s.oos[oo].owner).unwrap();
            let s = if r.chance(1, 8) { signer } else { owner };
            let d = if r.chance(2, 3) { Some(r.idx(m.p.users.len())) } else { None };
            one(Op::SetDelegate { oo, signer: s, delegate: d })
        }
        17 => {
            if m.p.oracles == 0 {
                return one(Op::Clock { dt: 1, dslot: 1 });
            }
            let which = if m.p.oracles == 2 && r.chance(1, 3) { 1 } else { 0 };
            let price = if which == 1 {
                *r.pick(&[1.0, 0.5, 2.0, 0.9, 1.1])
            } else {
                let mid = w.cfg.mid;
                let lots = match r.below(6) {
                    0 => mid as f64,
                    1 => r.range(0, 3) as f64,
                    2 => mid as f64 * *r.pick(&[2.0, 0.5, 10.0]),
                    _ => (mid + r.range(-15, 15)).max(0) as f64,
                };
                oracle_price_for(&w.cfg, lots + 0.25)
            };
            one(Op::SetOracle { which, price })
        }
        18 => {
            let dt = *r.pick(&[1, 0, 2, 5, 10, 25, 70_000, 90, 260, 3000, 33_000]);
            let dslot = *r.pick(&[1, 1, 2, 10, 50]);
            one(Op::Clock { dt: if pr.expiry || dt < 100 { dt } else { 20 }, dslot })
        }
        _ => {
            if pr.crowd > 0 {
                // fill the slots of the emptiest account
                let side = if r.chance(1, 12) { ASK } else { BID };
                // in half of the markets pegged orders come first only; all of them may be cancelled at once
                let early = w.cfg.maker_fee % 2 == 0;
                let pegged = m.s.books[side].iter().filter(|o| o.peg).count();
                if early && pegged > 0 && r.chance(1, 14) {
                    return m.s.books[side]
                        .iter()
                        .filter(|o| o.peg)
                        .filter_map(|o| {
                            let owner = m.s.oos.get(o.owner)?.owner;
                            let signer = m.p.users.iter().position(|u| *u == owner)?;
                            Some(Op::CancelId { oo: o.owner, signer, id: o.key })
                        })
                        .collect();
                }
                let more_pegs = !early || m.s.books[side].len() < 150;
                let base = r.range(0, 300);
                let k = 24 - r.below(4).saturating_sub(2);
                let oo = if r.chance(7, 8) { (0..n).min_by_key(|i| m.s.oos[*i].slots.iter().flatten().count()).unwrap() } else { oo };
                let owner = m.p.users.iter().position(|u| *u == m.s.oos[oo].owner).unwrap();
                return (0..k)
                    .map(|j| {
                        let d = base + (j as i64 * 7) % 40;
                        let p = if side == BID { 1000 - 1 - d } else { 1000 + 1 + d };
                        let peg = pr.pegs && more_pegs && j % 3 == 2 && w.cfg.oracles == 1 && w.cfg.staleness.is_none();
                        let o = OArgs {
                            side,
                            peg,
                            price: if peg { p - 1000 } else { p.max(1) },
                            peg_limit: if peg { p.max(1) } else { -1 },
                            mb: 1 + (j as i64 % 4),
                            mq: 1 << 24,
                            cid: j,
                            typ: Typ::Limit,
                            exp: if j % 11 == 10 { m.now as u64 + 3 } else { 0 },
                            stb: Stb::Decrement,
                            limit: 0,
                        };
                        Op::Place { oo, signer: owner, o, rem: vec![], wrong_vault: false }
                    })
                    .collect();
            }
            match r.below(8) {
                0 if pr.expiry => one(Op::Expire),
                1..=4 if pr.expiry => one(Op::Prune { oo, limit: *r.pick(&[255, 1, 3]) }),
                _ => one(Op::Clock { dt: 1, dslot: 1 }),
            }
        }
    }
}

bitflags_lite! {
    OUTCOME = 0, "outcome";
    WALLET = 1, "wallets";
    VAULT = 2, "vaults";
    TOTALS = 3, "deposit totals";
    FEES = 4, "market fee records";
    VOLUME = 5, "volumes";
    SEQ = 6, "order sequence number";
    EXPIRY = 7, "market expiry";
    BOOK = 8, "book";
    EVENTS = 9, "event queue";
    FREE = 10, "free balances";
    LOCKED = 11, "locked lots/fees";
    REBATES = 12, "referrer rebates";
    PENALTIES = 13, "penalties";
    SLOTS_A = 14, "order slots";
    DELEGATE = 15, "delegate";
    LAMPORTS = 16, "lamports";
    LOGS = 17, "logs";
    RET = 18, "return value";
    BROKEN = 19, "state unreadable";
    HEAPSEQ = 20, "event sequence number";
    FILLS = 21, "trades";
}

pub fn diff(exp: &State, got: &State) -> (u32, String) {
    let mut a = 0u32;
    let mut s = String::new();
    macro_rules! cmp {
        ($bit:expr, $name:expr, $e:expr, $g:expr) => {
            if $e != $g {
                a |= $bit;
                let _ = writeln!(s, "  {}: expected {:?}, got {:?}", $name, $e, $g);
            }
        };
    }
    cmp!(SEQ, "seq_num", exp.mkt.seq, got.mkt.seq);
    cmp!(FEES, "fees_accrued", exp.mkt.fees_accrued, got.mkt.fees_accrued);
    cmp!(FEES, "fees_to_referrers", exp.mkt.fees_to_referrers, got.mkt.fees_to_referrers);
    cmp!(FEES, "referrer_rebates_accrued", exp.mkt.rebates_accrued, got.mkt.rebates_accrued);
    cmp!(FEES, "fees_available", exp.mkt.fees_available, got.mkt.fees_available);
    cmp!(VOLUME, "maker_volume", exp.mkt.maker_volume, got.mkt.maker_volume);
    cmp!(VOLUME, "taker_volume_wo_oo", exp.mkt.taker_volume_wo_oo, got.mkt.taker_volume_wo_oo);
    cmp!(TOTALS, "base_deposit_total", exp.mkt.base_total, got.mkt.base_total);
    cmp!(TOTALS, "quote_deposit_total", exp.mkt.quote_total, got.mkt.quote_total);
    cmp!(EXPIRY, "time_expiry", exp.mkt.expiry, got.mkt.expiry);
    cmp!(WALLET, "wallets", exp.wallets, got.wallets);
    cmp!(WALLET, "referrer account", exp.ref_bal, got.ref_bal);
    cmp!(WALLET, "fee receiver account", exp.fee_bal, got.fee_bal);
    cmp!(VAULT, "vaults", exp.vaults, got.vaults);
    cmp!(LAMPORTS, "market lamports", exp.market_lamports, got.market_lamports);
    cmp!(HEAPSEQ, "heap seq_num", exp.heap_seq, got.heap_seq);
    for side in 0..2 {
        if exp.books[side] != got.books[side] {
            a |= BOOK;
            for o in &exp.books[side] {
                if !got.books[side].contains(o) {
                    let _ = writeln!(s, "  {}: expected but missing {:?}", ["bids", "asks"][side], o);
                }
            }
            for o in &got.books[side] {
                if !exp.books[side].contains(o) {
                    let _ = writeln!(s, "  {}: unexpected {:?}", ["bids", "asks"][side], o);
                }
            }
        }
    }
    let e: Vec<&Ev> = exp.events.iter().map(|x| &x.ev).collect();
    let g: Vec<&Ev> = got.events.iter().map(|x| &x.ev).collect();
    if e != g {
        a |= EVENTS;
        let i = e.iter().zip(&g).position(|(x, y)| x != y).unwrap_or(e.len().min(g.len()));
        let _ = writeln!(s, "  events: expected {} got {}; first difference at {}: expected {:?}, got {:?}", e.len(), g.len(), i, e.get(i), g.get(i));
    }
    for (i, (x, y)) in exp.oos.iter().zip(&got.oos).enumerate() {
        let n = |f: &str| format!("account {} {}", i, f);
        cmp!(FREE, n("base_free"), x.pos.base_free, y.pos.base_free);
        cmp!(FREE, n("quote_free"), x.pos.quote_free, y.pos.quote_free);
        cmp!(LOCKED, n("bids_base_lots"), x.pos.bids_base, y.pos.bids_base);
        cmp!(LOCKED, n("asks_base_lots"), x.pos.asks_base, y.pos.asks_base);
        cmp!(LOCKED, n("bids_quote_lots"), x.pos.bids_quote, y.pos.bids_quote);
        cmp!(LOCKED, n("locked_maker_fees"), x.pos.locked_fees, y.pos.locked_fees);
        cmp!(REBATES, n("referrer_rebates_available"), x.pos.rebates, y.pos.rebates);
        cmp!(PENALTIES, n("penalty_heap_count"), x.pos.penalty, y.pos.penalty);
        cmp!(VOLUME, n("maker_volume"), x.pos.maker_volume, y.pos.maker_volume);
        cmp!(VOLUME, n("taker_volume"), x.pos.taker_volume, y.pos.taker_volume);
        cmp!(DELEGATE, n("delegate"), x.delegate, y.delegate);
        cmp!(DELEGATE, n("owner"), x.owner, y.owner);
        if x.slots != y.slots {
            a |= SLOTS_A;
            for (j, (p, q)) in x.slots.iter().zip(&y.slots).enumerate() {
                if p != q {
                    let _ = writeln!(s, "  account {} slot {}: expected {:?}, got {:?}", i, j, p, q);
                }
            }
        }
    }
    (a, s)
}

/// One executed operation with what was predicted and what happened
pub struct Step<'a> {
    pub i: usize,
    pub op: &'a Op,
    pub w: &'a World,
    pub before: &'a State,
    pub model_before: &'a Model,
    pub model: &'a Model,
    pub after: &'a State,
    pub pred: &'a Res<Out>,
    pub real: &'a Result<TxOk, TxErr>,
    /// trades the program made (taken from its logs and new queue entries)
    pub fills: &'a [Fill],
    /// bits of what differs from the prediction
    pub aspects: u32,
    pub detail: &'a str,
}

impl<'a> Step<'a> {
    pub fn ok(&self) -> bool {
        self.real.is_ok()
    }
    pub fn out(&self) -> Option<&Out> {
        self.pred.as_ref().ok()
    }
    pub fn describe(&self) -> String {
        format!("step {} {:?}\n  predicted {}, program {}\n{}", self.i, self.op, pred_str(self.pred), real_str(self.real), self.detail)
    }
}

pub fn pred_str(p: &Res<Out>) -> String {
    match p {
        Ok(o) => format!("success ({} fills, {} posted)", o.fills.len(), o.posted),
        Err(e) => format!("{:?}", e),
    }
}
pub fn real_str(r: &Result<TxOk, TxErr>) -> String {
    match r {
        Ok(_) => "success".into(),
        Err(e) => format!("{:?}", e),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Fill {
    pub taker_side: usize,
    pub maker: usize,
    pub price: i64,
    pub qty: i64,
}

pub fn is_trading(op: &Op) -> bool {
    matches!(op, Op::Place { .. } | Op::Edit { .. } | Op::Multi { .. } | Op::Take { .. })
}

/// Trades made by an order instruction: fills applied at once appear in the logs, others in the queue.
fn real_fills(w: &World, before: &State, after: &State, t: &TxOk) -> Vec<Fill> {
    use anchor_lang::{AnchorDeserialize, Discriminator};
    let mut v = vec![];
    for l in &t.logs {
        if l.len() > 8 && l[..8] == openbook_v2::logs::FillLog::DISCRIMINATOR {
            if let Ok(f) = openbook_v2::logs::FillLog::try_from_slice(&l[8..]) {
                let maker = w.oos.iter().position(|k| *k == f.maker).unwrap_or(usize::MAX);
                v.push(Fill { taker_side: f.taker_side as usize, maker, price: f.price, qty: f.quantity });
            }
        }
    }
    for e in after.events.iter().skip(before.events.len()) {
        if let Ev::Fill { taker_side, maker, price, qty, .. } = &e.ev {
            v.push(Fill { taker_side: *taker_side, maker: *maker, price: *price, qty: *qty });
        }
    }
    v
}

pub struct HistStats {
    pub ops_ok: u64,
    pub ops: u64,
    pub fills: u64,
    pub sig: u64,
    pub summary: String,
    pub cut: bool,
}

/// One instruction on the program and the model.
pub struct Done {
    pub before: State,
    pub model_before: Model,
    pub after: State,
    pub pred: Res<Out>,
    pub real: Result<TxOk, TxErr>,
    pub fills: Vec<Fill>,
    pub aspects: u32,
    pub detail: String,
}

pub fn lockstep(w: &mut World, m: &mut Model, op: &Op, info: &mut Info) -> Done {
    let before = m.s.clone();
    let mb = m.clone();
    let pred = m.apply(op);
    let real = w.exec(op);
    let mut aspects = 0;
    let mut detail = String::new();
    let after = match w.read() {
        Ok(s) => s,
        Err(e) => {
            aspects |= BROKEN;
            detail = e;
            before.clone()
        }
    };
    match (&pred, &real) {
        (Ok(_), Err(_)) | (Err(Fail::Rej(_)), Ok(_)) => aspects |= OUTCOME,
        // arithmetic that the model considers unrepresentable but the program handles: take the program's word
        (Err(Fail::Ovf(_)), Ok(_)) => {
            info.count("range_disagreement", 1);
            aspects |= 1 << 31;
        }
        _ => {}
    }
    if aspects == 0 {
        let (a, d) = diff(&m.s, &after);
        aspects |= a;
        detail.push_str(&d);
        if let (Ok(o), Ok(t)) = (&pred, &real) {
            let mut x = o.logs.clone();
            let mut y = t.logs.clone();
            x.sort();
            y.sort();
            if x != y {
                aspects |= LOGS;
                let _ = writeln!(detail, "  logs: expected {} entries, got {}", x.len(), y.len());
                for e in &x {
                    if !y.contains(e) {
                        let _ = writeln!(detail, "   missing {}", show_log(e));
                    }
                }
                for e in &y {
                    if !x.contains(e) {
                        let _ = writeln!(detail, "   unexpected {}", show_log(e));
                    }
                }
            }
            if o.ret != t.ret {
                aspects |= RET;
                let _ = writeln!(detail, "  return data: expected {:?}, got {:?}", o.ret, t.ret);
            }
        }
    }
    let real_fills = match &real {
        Ok(t) if is_trading(op) => real_fills(w, &before, &after, t),
        _ => vec![],
    };
    if is_trading(op) && aspects & BROKEN == 0 {
        let mut x: Vec<Fill> = match &pred {
            Ok(o) => o.fills.iter().map(|f| Fill { taker_side: f.taker_side, maker: f.maker, price: f.price, qty: f.qty }).collect(),
            Err(_) => vec![],
        };
        let mut y = real_fills.clone();
        x.sort();
        y.sort();
        if x != y && aspects >> 31 == 0 {
            aspects |= FILLS;
            let _ = writeln!(detail, "  trades: expected {:?}, got {:?}", x, y);
        }
    }
    Done { before, model_before: mb, after, pred, real, fills: real_fills, aspects, detail }
}

impl Done {
    /// continue from the program's state: identical up to the positions of events in the queue and
    /// node allocation, or entirely new after a difference which is not judged here
    pub fn adopt(self, w: &World, m: &mut Model) -> Result<(), Violation> {
        if self.aspects != 0 {
            *m = match w.model() {
                Ok(m) => m,
                Err(e) => return viol("state", e),
            };
        } else if self.real.is_ok() {
            m.s = self.after;
            m.alloc = w.alloc();
        }
        Ok(())
    }

    pub fn step<'a>(&'a self, i: usize, op: &'a Op, w: &'a World, m: &'a Model) -> Step<'a> {
        Step { i, op, w, before: &self.before, model_before: &self.model_before, model: m, after: &self.after, pred: &self.pred, real: &self.real, fills: &self.fills, aspects: self.aspects, detail: &self.detail }
    }
}

/// Runs a history in lock step with the model; `hook` judges every step.
/// A difference the hook does not object to resynchronises the model with the program's state.
pub fn history(case: &Case, info: &mut Info, verbose: bool, pr: &Profile, mut tweak: impl FnMut(&mut Cfg), hook: &mut dyn FnMut(&Step, &mut Info) -> Result<(), Violation>) -> Result<(World, Model, HistStats), Violation> {
    let empty = vec![];
    let mut r0 = Row::new(case.get(0).unwrap_or(&empty));
    let mut cfg = gen_cfg(&mut r0, pr);
    tweak(&mut cfg);
    if verbose {
        println!("config {:?}", cfg);
    }
    let mut st = HistStats { ops_ok: 0, ops: 0, fills: 0, sig: hash_str(&format!("{:?}", cfg)), summary: String::new(), cut: false };
    let mut w = match World::new(cfg.clone()) {
        Ok(w) => w,
        Err(e) => return viol("setup", format!("cannot set up a market with {:?}: {}", cfg, e)),
    };
    let mut m = match w.model() {
        Ok(m) => m,
        Err(e) => return viol("setup", e),
    };
    let _ = write!(
        st.summary,
        "fees {}/{} lots {}/{} oracles {} accounts {}:",
        cfg.maker_fee,
        cfg.taker_fee,
        cfg.bls,
        cfg.qls,
        cfg.oracles,
        cfg.oos.len()
    );
    let mut i = 0;
    for row in case.iter().skip(1) {
        let mut r = Row::new(row);
        let ops = gen_ops(&mut r, &w, &m, pr);
        for op in ops {
            i += 1;
            let d = lockstep(&mut w, &mut m, &op, info);
            let (pred, real, aspects, detail) = (&d.pred, &d.real, d.aspects, &d.detail);
            st.ops += 1;
            info.count(&format!("op {}", op.name()), 1);
            if real.is_ok() {
                st.ops_ok += 1;
                info.count(&format!("ok {}", op.name()), 1);
            }
            if let Ok(o) = pred {
                st.fills += o.fills.len() as u64;
                info.count("fills", o.fills.len() as u64);
                info.count("evictions", o.evicted as u64);
                info.count("dropped_orders", o.dropped as u64);
                info.count("self_trade_fills", o.fills.iter().filter(|f| f.self_trade).count() as u64);
                info.count("self_cancelled", o.self_cancelled as u64);
                info.count("pegged_fills", o.fills.iter().filter(|f| f.pegged).count() as u64);
                info.count("events_consumed", o.consumed as u64);
                if op.name() != "clock" && st.summary.len() < 400 {
                    let _ = write!(st.summary, " {}{}", op.name(), if o.fills.is_empty() { String::new() } else { format!("[{} fills]", o.fills.len()) });
                }
            }
            if *pred == Err(Fail::Rej("book full")) {
                info.count("refused_by_full_book", 1);
            }
            if *pred == Err(Fail::Rej("no free order slot")) {
                info.count("refused_by_full_account", 1);
            }
            if m.s.events.len() >= HEAP - 1 {
                info.count("queue_full_steps", 1);
            }
            st.sig = hash_mix(st.sig, hash_str(&format!("{:?}", op)));
            if verbose {
                println!("{} {:?}\n    -> {} / {}", i, op, pred_str(pred), real_str(real));
            }
            let step = d.step(i, &op, &w, &m);
            hook(&step, info)?;
            if aspects & BROKEN != 0 {
                st.cut = true;
                info.count("cut", 1);
                info.sig = st.sig;
                return Ok((w, m, st));
            }
            if aspects != 0 {
                if verbose {
                    println!("    (difference not judged here, model resynchronised)\n{}", detail);
                }
                info.count("resync", 1);
            }
            d.adopt(&w, &mut m)?;
        }
    }
    info.sig = st.sig;
    info.summary = Some(st.summary.clone());
    Ok((w, m, st))
}

pub fn show_log(b: &[u8]) -> String {
    use anchor_lang::{AnchorDeserialize, Discriminator};
    use openbook_v2::logs as l;
    if b.len() < 8 {
        return format!("{:?}", b);
    }
    let d = &b[8..];
    macro_rules! t {
        ($t:ident, $f:expr) => {
            if b[..8] == l::$t::DISCRIMINATOR {
                if let Ok(x) = l::$t::try_from_slice(d) {
                    return $f(x);
                }
            }
        };
    }
    t!(FillLog, |x: l::FillLog| format!(
        "FillLog side {} slot {} out {} ts {} seq {} maker {} mcid {} mfee {} mts {} taker {} tcid {} tfee {} price {} qty {}",
        x.taker_side, x.maker_slot, x.maker_out, x.timestamp, x.seq_num, x.maker, x.maker_client_order_id, x.maker_fee, x.maker_timestamp, x.taker, x.taker_client_order_id, x.taker_fee_ceil, x.price, x.quantity
    ));
    t!(TotalOrderFillEvent, |x: l::TotalOrderFillEvent| format!("TotalOrderFillEvent side {} taker {} paid {} received {} fees {}", x.side, x.taker, x.total_quantity_paid, x.total_quantity_received, x.fees));
    t!(OpenOrdersPositionLog, |x: l::OpenOrdersPositionLog| format!(
        "OpenOrdersPositionLog owner {} num {} bids {} bidsq {} asks {} base {} quote {} locked {} reb {} mv {} tv {}",
        x.owner, x.open_orders_account_num, x.bids_base_lots, x.bids_quote_lots, x.asks_base_lots, x.base_free_native, x.quote_free_native, x.locked_maker_fees, x.referrer_rebates_available, x.maker_volume, x.taker_volume
    ));
    t!(TakerSignatureLog, |x: l::TakerSignatureLog| format!("TakerSignatureLog seq {}", x.seq_num));
    t!(SettleFundsLog, |x: l::SettleFundsLog| format!("SettleFundsLog {} base {} quote {} rebate {} referrer {:?}", x.open_orders_account, x.base_native, x.quote_native, x.referrer_rebate, x.referrer));
    t!(DepositLog, |x: l::DepositLog| format!("DepositLog {} {} {} {}", x.open_orders_account, x.signer, x.base_amount, x.quote_amount));
    t!(SweepFeesLog, |x: l::SweepFeesLog| format!("SweepFeesLog {} {}", x.amount, x.receiver));
    t!(SetDelegateLog, |x: l::SetDelegateLog| format!("SetDelegateLog {} {:?}", x.open_orders_account, x.delegate));
    format!("{:02x?}", b)
}
