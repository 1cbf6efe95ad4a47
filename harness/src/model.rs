//! Reference model of one market: plain lists and i128 arithmetic, written from the documented behaviour.
//! Every instruction is predicted exactly: success or failure, resulting balances, book, queue, logs, return data.
use anchor_lang::AnchorSerialize;
use openbook_v2::logs as l;
use solana_sdk::pubkey::Pubkey;

pub const BID: usize = 0;
pub const ASK: usize = 1;
pub const SCALE: i128 = 1_000_000;
pub const PENALTY: u64 = 500;
pub const SLOTS: usize = 24;
pub const HEAP: usize = 600;
pub const NODES: usize = 1024;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fail {
    Rej(&'static str),
    /// arithmetic outside the representable range (the program panics)
    Ovf(&'static str),
}
pub type Res<T> = Result<T, Fail>;

pub fn rej<T>(s: &'static str) -> Res<T> {
    Err(Fail::Rej(s))
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MOrder {
    pub peg: bool,
    pub key: u128,
    pub owner: usize,
    pub slot: u8,
    pub qty: i64,
    pub ts: u64,
    pub tif: u16,
    pub peg_limit: i64,
    pub cid: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OState {
    Valid,
    Invalid,
    Skipped,
}

impl MOrder {
    pub fn seq(&self, side: usize) -> u64 {
        if side == BID {
            !(self.key as u64)
        } else {
            self.key as u64
        }
    }
    pub fn expired(&self, now: u64) -> bool {
        self.tif > 0 && now >= self.ts + self.tif as u64
    }
    pub fn expiry(&self) -> u64 {
        if self.tif == 0 {
            u64::MAX
        } else {
            self.ts + self.tif as u64
        }
    }
    pub fn offset(&self) -> i64 {
        (((self.key >> 64) as u64 as i128) - (1i128 << 63)) as i64
    }
    /// state and effective price given the oracle price in lots
    pub fn price(&self, side: usize, oracle: Option<i64>, now: u64) -> (OState, i64) {
        if !self.peg {
            let p = (self.key >> 64) as i64;
            return (if self.expired(now) { OState::Invalid } else { OState::Valid }, p);
        }
        let o = match oracle {
            None => return (OState::Skipped, 0),
            Some(o) => o,
        };
        let p = o as i128 + self.offset() as i128;
        if p < 1 || p >= i64::MAX as i128 {
            return (OState::Skipped, p.clamp(1, i64::MAX as i128) as i64);
        }
        let p = p as i64;
        if self.expired(now) || (self.peg_limit != -1 && better(side, p, self.peg_limit)) {
            (OState::Invalid, p)
        } else {
            (OState::Valid, p)
        }
    }
}

/// is `a` strictly better (for an order resting on `side`) than `b`
pub fn better(side: usize, a: i64, b: i64) -> bool {
    if side == BID {
        a > b
    } else {
        a < b
    }
}

pub fn node_key(side: usize, price_data: u64, seq: u64) -> u128 {
    ((price_data as u128) << 64) | (if side == BID { !seq } else { seq }) as u128
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Fill {
        taker_side: usize,
        maker_out: bool,
        maker_slot: u8,
        ts: u64,
        seq: u64,
        maker: usize,
        maker_ts: u64,
        taker: Pubkey,
        taker_cid: u64,
        price: i64,
        peg_limit: i64,
        qty: i64,
        maker_cid: u64,
    },
    Out {
        side: usize,
        slot: u8,
        ts: u64,
        seq: u64,
        owner: usize,
        qty: i64,
    },
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MEv {
    pub slot: usize,
    pub ev: Ev,
}

impl MEv {
    pub fn owner(&self) -> usize {
        match &self.ev {
            Ev::Fill { maker, .. } => *maker,
            Ev::Out { owner, .. } => *owner,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Pos {
    pub bids_base: i128,
    pub asks_base: i128,
    pub base_free: i128,
    pub quote_free: i128,
    pub locked_fees: i128,
    pub rebates: i128,
    pub penalty: i128,
    pub maker_volume: i128,
    pub taker_volume: i128,
    pub bids_quote: i128,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Slot {
    pub id: u128,
    pub cid: u64,
    pub price: i64,
    pub side: usize,
    pub peg: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MOO {
    pub key: Pubkey,
    pub owner: Pubkey,
    pub num: u32,
    pub delegate: Option<Pubkey>,
    pub pos: Pos,
    pub slots: Vec<Option<Slot>>,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Mkt {
    pub seq: u64,
    pub fees_accrued: i128,
    pub fees_to_referrers: i128,
    pub rebates_accrued: i128,
    pub fees_available: i128,
    pub maker_volume: i128,
    pub taker_volume_wo_oo: i128,
    pub base_total: i128,
    pub quote_total: i128,
    pub expiry: i64,
}

/// Immutable parameters of the market
#[derive(Clone, Debug)]
pub struct Params {
    pub key: Pubkey,
    pub bls: i64,
    pub qls: i64,
    pub maker_fee: i64,
    pub taker_fee: i64,
    pub base_dec: u8,
    pub quote_dec: u8,
    pub oracles: usize,
    pub conf: f64,
    pub staleness: Option<u32>,
    pub has_close_admin: bool,
    pub users: Vec<Pubkey>,
    pub ref_acct: Pubkey,
    pub fee_acct: Pubkey,
}

#[derive(Clone, Debug, PartialEq)]
pub struct OracleAcc {
    pub price: f64,
    pub slot: u64,
    pub dev: f64,
}

/// Everything observable about the market
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct State {
    pub mkt: Mkt,
    pub books: [Vec<MOrder>; 2],
    pub events: Vec<MEv>,
    pub heap_seq: u64,
    pub oos: Vec<MOO>,
    /// users' wallets: [base, quote]
    pub wallets: Vec<[i128; 2]>,
    pub vaults: [i128; 2],
    pub ref_bal: i128,
    pub fee_bal: i128,
    pub market_lamports: u64,
}

#[derive(Clone, Debug)]
pub struct Model {
    pub p: Params,
    pub s: State,
    /// (bump index, free list length) per side
    pub alloc: [(usize, usize); 2],
    pub oracle: Vec<OracleAcc>,
    pub now: i64,
    pub slot: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Typ {
    Limit,
    Ioc,
    PostOnly,
    Market,
    Slide,
    Fok,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Stb {
    Decrement,
    CancelProvide,
    Abort,
}

#[derive(Clone, Debug, PartialEq)]
pub struct OArgs {
    pub side: usize,
    pub peg: bool,
    /// price in lots, or the offset for pegged orders
    pub price: i64,
    pub peg_limit: i64,
    pub mb: i64,
    pub mq: i64,
    pub cid: u64,
    pub typ: Typ,
    pub exp: u64,
    pub stb: Stb,
    pub limit: u8,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Place { oo: usize, signer: usize, o: OArgs, rem: Vec<usize>, wrong_vault: bool },
    Edit { oo: usize, signer: usize, cid: u64, expected: i64, o: OArgs, rem: Vec<usize> },
    Multi { oo: usize, signer: usize, cancel: bool, typ: Typ, bids: Vec<(i64, i64, u64)>, asks: Vec<(i64, i64, u64)>, limit: u8, rem: Vec<usize> },
    Take { user: usize, o: OArgs, rem: Vec<usize> },
    CancelId { oo: usize, signer: usize, id: u128 },
    CancelCid { oo: usize, signer: usize, cid: u64 },
    CancelAll { oo: usize, signer: usize, side: Option<usize>, limit: u8 },
    Consume { limit: usize, rem: Vec<usize> },
    ConsumeGiven { slots: Vec<usize>, rem: Vec<usize> },
    Deposit { user: usize, oo: usize, b: u64, q: u64 },
    Refill { user: usize, oo: usize, b: u64, q: u64 },
    Settle { oo: usize, signer: usize, dest: usize, referrer: bool },
    SettleExpired { oo: usize, signer: usize, dest: usize, referrer: bool },
    Sweep,
    SetDelegate { oo: usize, signer: usize, delegate: Option<usize> },
    SetOracle { which: usize, price: f64 },
    Clock { dt: i64, dslot: u64 },
    Expire,
    Prune { oo: usize, limit: u8 },
}

impl Op {
    pub fn name(&self) -> &'static str {
        match self {
            Op::Place { o, .. } if o.peg => "place_order_pegged",
            Op::Place { .. } => "place_order",
            Op::Edit { o, .. } if o.peg => "edit_order_pegged",
            Op::Edit { .. } => "edit_order",
            Op::Multi { cancel: true, .. } => "cancel_all_and_place_orders",
            Op::Multi { .. } => "place_orders",
            Op::Take { .. } => "place_take_order",
            Op::CancelId { .. } => "cancel_order",
            Op::CancelCid { .. } => "cancel_order_by_client_order_id",
            Op::CancelAll { .. } => "cancel_all_orders",
            Op::Consume { .. } => "consume_events",
            Op::ConsumeGiven { .. } => "consume_given_events",
            Op::Deposit { .. } => "deposit",
            Op::Refill { .. } => "refill",
            Op::Settle { .. } => "settle_funds",
            Op::SettleExpired { .. } => "settle_funds_expired",
            Op::Sweep => "sweep_fees",
            Op::SetDelegate { .. } => "set_delegate",
            Op::SetOracle { .. } => "stub_oracle_set",
            Op::Clock { .. } => "clock",
            Op::Expire => "set_market_expired",
            Op::Prune { .. } => "prune_orders",
        }
    }
}

/// One match against a resting order
#[derive(Clone, Debug, PartialEq)]
pub struct FillRec {
    pub taker_side: usize,
    pub maker: usize,
    pub taker: Pubkey,
    pub price: i64,
    pub qty: i64,
    pub self_trade: bool,
    pub inline: bool,
    pub pegged: bool,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Out {
    pub logs: Vec<Vec<u8>>,
    pub ret: Option<Vec<u8>>,
    pub fills: Vec<FillRec>,
    /// expired or invalid orders taken off the book, evictions
    pub dropped: usize,
    pub evicted: usize,
    pub self_cancelled: usize,
    pub cancelled: usize,
    pub posted: usize,
    pub consumed: usize,
    /// the instruction was skipped because the order was expired already
    pub skipped: bool,
    /// lamports paid by the penalty payer
    pub penalty_paid: u64,
}

#[derive(Clone, Debug)]
pub enum Kind {
    Market,
    Ioc(i64),
    Fok(i64),
    Fixed(i64, Typ),
    Peg(i64, Typ, i64),
}

#[derive(Clone, Debug)]
pub struct Ord_ {
    pub side: usize,
    pub mb: i64,
    pub mq: i64,
    pub cid: u64,
    pub tif: u16,
    pub stb: Stb,
    pub kind: Kind,
}

#[derive(Default, Debug)]
pub struct Amounts {
    pub id: Option<u128>,
    pub posted_base: i128,
    pub posted_quote: i128,
    pub base_taken: i128,
    pub quote_taken: i128,
    pub taker_fees: i128,
    pub maker_fees: i128,
    pub referrer: i128,
}

pub fn log<T: anchor_lang::Event>(e: T) -> Vec<u8> {
    e.data()
}

impl Params {
    pub fn maker_fee_floor(&self, a: i128) -> i128 {
        if self.maker_fee > 0 {
            a * self.maker_fee as i128 / SCALE
        } else {
            0
        }
    }
    pub fn rebate_floor(&self, a: i128) -> i128 {
        if self.maker_fee > 0 {
            0
        } else {
            a * -(self.maker_fee as i128) / SCALE
        }
    }
    pub fn maker_fee_ceil(&self, a: i128) -> i128 {
        if self.maker_fee > 0 {
            (a * self.maker_fee as i128 + SCALE - 1) / SCALE
        } else {
            0
        }
    }
    pub fn taker_fee_ceil(&self, a: i128) -> i128 {
        (a * self.taker_fee as i128 + SCALE - 1) / SCALE
    }
    pub fn max_base(&self) -> i64 {
        i64::MAX / self.bls
    }
    pub fn max_quote(&self) -> i64 {
        i64::MAX / self.qls
    }
}

impl State {
    pub fn sort_books(&mut self) {
        for b in self.books.iter_mut() {
            b.sort_by_key(|o| (o.peg, o.key));
        }
    }
}

/// f64 to 80.48 fixed point bits, nearest, ties to even
pub fn to_i80f48(x: f64) -> Option<i128> {
    if !x.is_finite() {
        return None;
    }
    let s = x * (1u64 << 48) as f64; // exact unless it overflows
    if s.abs() >= 1.7e38 {
        return None;
    }
    let fl = s.floor();
    let d = s - fl;
    let mut v = fl as i128;
    if d > 0.5 || (d == 0.5 && v & 1 == 1) {
        v += 1;
    }
    Some(v)
}

impl Model {
    pub fn expired(&self) -> bool {
        self.s.mkt.expiry != 0 && self.s.mkt.expiry < self.now
    }
    pub fn now_u(&self) -> u64 {
        self.now as u64
    }

    pub fn oracle_lots(&self) -> Res<Option<i64>> {
        let p = &self.p;
        if p.oracles == 0 {
            return Ok(None);
        }
        for o in &self.oracle[..p.oracles] {
            let last = if o.slot == 0 { u64::MAX } else { o.slot };
            if let Some(m) = p.staleness {
                if last.saturating_add(m as u64) < self.slot {
                    return Ok(None);
                }
            }
        }
        let a = &self.oracle[0];
        let price = if p.oracles == 1 {
            if a.dev > p.conf * a.price {
                return Ok(None);
            }
            a.price
        } else {
            let b = &self.oracle[1];
            let v = (a.dev / a.price).powi(2) + (b.dev / b.price).powi(2);
            // undefined when a price is zero
            if v.is_nan() || v > p.conf.powi(2) {
                return Ok(None);
            }
            a.price / b.price
        };
        let adj = 10f64.powi(p.quote_dec as i32 - p.base_dec as i32);
        let bits = match to_i80f48(price * adj) {
            Some(b) => b,
            None => return Ok(None),
        };
        // floor(bits * bls / qls) in 80.48, then floor to an integer
        let m = match bits.checked_mul(p.bls as i128) {
            Some(m) => m,
            None => return rej("oracle price overflow"),
        };
        let q = m / p.qls as i128;
        let lots = q >> 48;
        if lots > i64::MAX as i128 || lots < i64::MIN as i128 {
            return rej("oracle price out of range");
        }
        Ok(Some(lots as i64))
    }

    /// Orders of a side in matching order, with state and price; orders without a price are left out
    pub fn ranked(&self, side: usize, oracle: Option<i64>) -> Vec<(OState, i64, MOrder)> {
        let now = self.now_u();
        let mut v: Vec<(OState, i64, MOrder)> = self.s.books[side]
            .iter()
            .map(|o| {
                let (st, p) = o.price(side, oracle, now);
                (st, p, o.clone())
            })
            .filter(|x| x.0 != OState::Skipped)
            .collect();
        v.sort_by(|a, b| {
            let pr = if side == BID { b.1.cmp(&a.1) } else { a.1.cmp(&b.1) };
            pr.then(a.2.seq(side).cmp(&b.2.seq(side)))
        });
        v
    }

    fn tree_len(&self, side: usize, peg: bool) -> usize {
        self.s.books[side].iter().filter(|o| o.peg == peg).count()
    }

    fn remove(&mut self, side: usize, peg: bool, key: u128) -> Option<MOrder> {
        let i = self.s.books[side].iter().position(|o| o.peg == peg && o.key == key)?;
        let n = self.tree_len(side, peg);
        self.alloc[side].1 += if n == 1 { 1 } else { 2 };
        Some(self.s.books[side].remove(i))
    }

    fn insert(&mut self, side: usize, o: MOrder) -> Res<()> {
        let n = self.tree_len(side, o.peg);
        for _ in 0..(if n == 0 { 1 } else { 2 }) {
            if self.alloc[side].1 > 0 {
                self.alloc[side].1 -= 1;
            } else if self.alloc[side].0 < NODES {
                self.alloc[side].0 += 1;
            } else {
                return rej("no free node");
            }
        }
        self.s.books[side].push(o);
        self.s.sort_books();
        Ok(())
    }

    fn book_full(&self, side: usize) -> bool {
        self.alloc[side].1 <= 1 && self.alloc[side].0 >= NODES - 1
    }

    fn push_event(&mut self, ev: Ev) -> Res<()> {
        if self.s.events.len() >= HEAP {
            return Err(Fail::Ovf("event queue full"));
        }
        self.s.heap_seq += 1;
        self.s.events.push(MEv { slot: usize::MAX, ev });
        Ok(())
    }

    /// frees the order's slot and what it still locks
    fn release(&mut self, oo: usize, slot: u8, qty: i64) -> Res<()> {
        let p = self.p.clone();
        let a = &mut self.s.oos[oo];
        let s = match a.slots[slot as usize] {
            Some(s) => s,
            None => return Err(Fail::Ovf("slot is free")),
        };
        if s.side == BID {
            let quote = qty as i128 * s.price as i128 * p.qls as i128;
            let fees = p.maker_fee_ceil(quote);
            a.pos.quote_free += quote + fees;
            a.pos.locked_fees -= fees;
            a.pos.bids_base -= qty as i128;
            a.pos.bids_quote -= qty as i128 * s.price as i128;
        } else {
            a.pos.base_free += qty as i128 * p.bls as i128;
            a.pos.asks_base -= qty as i128;
        }
        a.slots[slot as usize] = None;
        Ok(())
    }

    fn out_event(&mut self, side: usize, o: &MOrder, own: Option<usize>, rem: &[usize]) -> Res<()> {
        if own == Some(o.owner) || rem.contains(&o.owner) {
            return self.release(o.owner, o.slot, o.qty);
        }
        let ev = Ev::Out { side, slot: o.slot, ts: self.now_u(), seq: self.s.heap_seq, owner: o.owner, qty: o.qty };
        self.push_event(ev)
    }

    fn pos_log(&self, oo: usize) -> Vec<u8> {
        let a = &self.s.oos[oo];
        let pa = &a.pos;
        log(l::OpenOrdersPositionLog {
            owner: a.owner,
            open_orders_account_num: a.num,
            market: self.p.key,
            bids_base_lots: pa.bids_base as i64,
            bids_quote_lots: pa.bids_quote as i64,
            asks_base_lots: pa.asks_base as i64,
            base_free_native: pa.base_free as u64,
            quote_free_native: pa.quote_free as u64,
            locked_maker_fees: pa.locked_fees as u64,
            referrer_rebates_available: pa.rebates as u64,
            maker_volume: pa.maker_volume as u128,
            taker_volume: pa.taker_volume as u128,
        })
    }

    /// the maker's side of a fill
    fn settle_fill(&mut self, ev: &Ev, out: &mut Out) -> Res<()> {
        let p = self.p.clone();
        if let Ev::Fill { taker_side, maker_out, maker_slot, ts, seq, maker, maker_ts, taker, taker_cid, price, peg_limit, qty, maker_cid } = ev {
            let side = 1 - taker_side;
            let self_trade = self.s.oos[*maker].key == *taker;
            let quote = *qty as i128 * *price as i128 * p.qls as i128;
            let fee = if self_trade { 0 } else { p.maker_fee_floor(quote) };
            let rebate = if self_trade { 0 } else { p.rebate_floor(quote) };
            let lock_price = if side == BID && *peg_limit != -1 { *peg_limit } else { *price };
            let a = &mut self.s.oos[*maker];
            if side == BID {
                // what had been locked for this quantity: at the peg limit for pegged orders
                let locked_quote = *qty as i128 * lock_price as i128 * p.qls as i128;
                let locked_fee = p.maker_fee_floor(locked_quote);
                a.pos.base_free += *qty as i128 * p.bls as i128;
                a.pos.quote_free += rebate + (locked_quote - quote) + (locked_fee - fee);
                a.pos.locked_fees -= locked_fee;
                a.pos.bids_base -= *qty as i128;
                a.pos.bids_quote -= *qty as i128 * lock_price as i128;
            } else {
                a.pos.quote_free += quote + rebate - fee;
                a.pos.asks_base -= *qty as i128;
            }
            a.pos.maker_volume += quote;
            a.pos.rebates += fee;
            if *maker_out {
                if a.slots[*maker_slot as usize].is_none() {
                    return Err(Fail::Ovf("slot is free"));
                }
                a.slots[*maker_slot as usize] = None;
            }
            let m = &mut self.s.mkt;
            m.rebates_accrued += fee;
            m.maker_volume += quote;
            m.fees_accrued += fee;
            let a = &self.s.oos[*maker];
            out.logs.push(log(l::FillLog {
                market: p.key,
                taker_side: *taker_side as u8,
                maker_slot: *maker_slot,
                maker_out: *maker_out,
                timestamp: *ts,
                seq_num: *seq,
                maker: a.key,
                maker_client_order_id: *maker_cid,
                maker_fee: fee as u64,
                maker_timestamp: *maker_ts,
                taker: *taker,
                taker_client_order_id: *taker_cid,
                taker_fee_ceil: if self_trade { 0 } else { p.taker_fee_ceil(quote) as u64 },
                price: *price,
                quantity: *qty,
            }));
            let lg = self.pos_log(*maker);
            out.logs.push(lg);
        }
        Ok(())
    }

    fn new_order(&mut self, o: &Ord_, oo: Option<usize>, owner: Pubkey, rem: &[usize], mut limit: u8, oracle: Option<i64>, out: &mut Out) -> Res<Amounts> {
        let p = self.p.clone();
        let side = o.side;
        let other = 1 - side;
        let now = self.now_u();
        let (post_type, peg_limit) = match &o.kind {
            Kind::Fixed(_, t) => (Some(*t), -1),
            Kind::Peg(_, t, l) => (Some(*t), *l),
            _ => (None, -1),
        };
        let peg = matches!(o.kind, Kind::Peg(..));
        let post_only = matches!(post_type, Some(Typ::PostOnly) | Some(Typ::Slide));
        let ranked = self.ranked(other, oracle);
        let slide = |limit: i64| -> i64 {
            if post_type == Some(Typ::Slide) {
                if let Some(b) = ranked.iter().find(|x| x.0 == OState::Valid) {
                    return if side == BID { limit.min(b.1 - 1) } else { limit.max(b.1.saturating_add(1)) };
                }
            }
            limit
        };
        let price = match &o.kind {
            Kind::Market => {
                if side == BID {
                    i64::MAX
                } else {
                    1
                }
            }
            Kind::Ioc(pr) | Kind::Fok(pr) => *pr,
            Kind::Fixed(pr, _) => slide(*pr),
            Kind::Peg(off, _, _) => {
                let orc = match oracle {
                    None => return rej("no oracle price"),
                    Some(x) => x,
                };
                match orc.checked_add(*off) {
                    None => return rej("peg price overflow"),
                    Some(pr) => slide(pr),
                }
            }
        };
        if price < 1 {
            return rej("price below 1");
        }
        let price_data = if peg {
            let off = match price.checked_sub(oracle.unwrap()) {
                None => return Err(Fail::Ovf("peg offset")),
                Some(x) => x,
            };
            (off as i128 + (1i128 << 63)) as u64
        } else {
            price as u64
        };
        self.s.mkt.seq += 1;
        let seq = self.s.mkt.seq;
        let key = node_key(side, price_data, seq);

        let max_quote = if side == BID && !post_only { o.mq as i128 * SCALE / (SCALE + p.taker_fee as i128) } else { o.mq as i128 };
        if o.mb > p.max_base() || max_quote > p.max_quote() as i128 {
            return rej("more lots than representable");
        }
        let mut rem_base = o.mb as i128;
        let mut rem_quote = max_quote;
        let mut post = post_type.is_some();
        let mut dropped = 0;
        let mut inline_fills = 0;
        let mut self_quote = 0i128;
        let mut rebates = 0i128;
        for (st, bp, mo) in ranked {
            if rem_base == 0 || rem_quote == 0 {
                break;
            }
            if st == OState::Invalid {
                if dropped < 5 {
                    dropped += 1;
                    out.dropped += 1;
                    self.out_event(other, &mo, oo, rem)?;
                    self.remove(other, mo.peg, mo.key);
                }
                continue;
            }
            if better(other, price, bp) && price != bp {
                // the limit price is beyond the resting order's price: not crossing
            }
            let within = if side == BID { bp <= price } else { bp >= price };
            if !within {
                break;
            }
            if post_only || limit == 0 {
                post = false;
                break;
            }
            let by_quote = rem_quote / bp as i128;
            if by_quote == 0 {
                post = false;
                break;
            }
            let qty = rem_base.min(mo.qty as i128).min(by_quote);
            let quote = qty * bp as i128;
            let self_trade = oo == Some(mo.owner);
            if self_trade {
                match o.stb {
                    Stb::Decrement => self_quote += quote,
                    Stb::CancelProvide => {
                        out.self_cancelled += 1;
                        self.release(mo.owner, mo.slot, mo.qty)?;
                        self.remove(other, mo.peg, mo.key);
                        continue;
                    }
                    Stb::Abort => return rej("would self trade"),
                }
            } else {
                rebates += p.rebate_floor(quote * p.qls as i128);
            }
            rem_base -= qty;
            rem_quote -= quote;
            let gone = qty == mo.qty as i128;
            if gone {
                self.remove(other, mo.peg, mo.key);
            } else {
                let r = self.s.books[other].iter_mut().find(|x| x.peg == mo.peg && x.key == mo.key).unwrap();
                r.qty -= qty as i64;
            }
            let ev = Ev::Fill {
                taker_side: side,
                maker_out: gone,
                maker_slot: mo.slot,
                ts: now,
                seq,
                maker: mo.owner,
                maker_ts: mo.ts,
                taker: owner,
                taker_cid: o.cid,
                price: bp,
                peg_limit: mo.peg_limit,
                qty: qty as i64,
                maker_cid: mo.cid,
            };
            out.logs.push(log(l::TakerSignatureLog { market: p.key, seq_num: seq }));
            let inline = rem.contains(&mo.owner) && inline_fills < 15;
            out.fills.push(FillRec { taker_side: side, maker: mo.owner, taker: owner, price: bp, qty: qty as i64, self_trade, inline, pegged: mo.peg });
            if inline {
                if self_trade {
                    return rej("own account also passed as remaining account");
                }
                inline_fills += 1;
                self.settle_fill(&ev, out)?;
            } else {
                self.push_event(ev)?;
            }
            limit -= 1;
            if !gone && rem_base > 0 {
                // funds exhausted at this price
                post = false;
                break;
            }
        }

        let quote_lots = max_quote - rem_quote;
        let base_lots = o.mb as i128 - rem_base;
        let mut am = Amounts { base_taken: base_lots * p.bls as i128, quote_taken: quote_lots * p.qls as i128, ..Default::default() };
        if quote_lots > 0 || base_lots > 0 {
            let fee_base = (quote_lots - self_quote) * p.qls as i128;
            if fee_base > 0 {
                am.taker_fees = p.taker_fee_ceil(fee_base);
                am.referrer = am.taker_fees - rebates;
            }
            if let Some(i) = oo {
                self.s.mkt.fees_accrued += am.referrer;
                let pa = &mut self.s.oos[i].pos;
                if side == BID {
                    pa.base_free += am.base_taken;
                } else {
                    pa.quote_free += am.quote_taken - am.taker_fees;
                }
                pa.taker_volume += am.quote_taken;
                pa.rebates += am.referrer;
                self.s.mkt.rebates_accrued += am.referrer;
                let lg = self.pos_log(i);
                out.logs.push(lg);
            } else {
                self.s.mkt.taker_volume_wo_oo += am.quote_taken;
            }
            // without an open orders account only the makers' rebates are paid
            let fees = if oo.is_some() { am.taker_fees } else { am.taker_fees - am.referrer };
            let (paid, received) = if side == BID { (am.quote_taken + fees, am.base_taken) } else { (am.base_taken, am.quote_taken - fees) };
            out.logs.push(log(l::TotalOrderFillEvent {
                side: side as u8,
                taker: owner,
                total_quantity_paid: paid as u64,
                total_quantity_received: received as u64,
                fees: fees as u64,
            }));
        }
        let fee_lots = (am.taker_fees + p.qls as i128 - 1) / p.qls as i128;
        let mut left = o.mq as i128 - quote_lots - fee_lots;
        left -= p.maker_fee_ceil(left);
        let lock_price = if peg && side == BID { peg_limit } else { price };
        let qty = rem_base.min(left / lock_price as i128);
        if qty <= 0 || (peg && better(side, price, peg_limit)) {
            post = false;
        }
        if matches!(o.kind, Kind::Fok(_)) && rem_base > 0 {
            return rej("fill or kill");
        }
        if post {
            let i = oo.unwrap();
            if qty * lock_price as i128 > p.max_quote() as i128 {
                return rej("posted amount too large");
            }
            am.posted_base = qty * p.bls as i128;
            am.posted_quote = qty * lock_price as i128 * p.qls as i128;
            if side == BID {
                am.maker_fees = p.maker_fee_ceil(am.posted_quote);
                self.s.oos[i].pos.locked_fees += am.maker_fees;
            }
            // one expired order of the own side makes room, from the tree posted to if possible
            for tree in [peg, !peg] {
                let e = self.s.books[side].iter().filter(|x| x.peg == tree).min_by_key(|x| (x.expiry(), x.key)).cloned();
                if let Some(e) = e {
                    if e.expiry() < now {
                        self.remove(side, tree, e.key);
                        out.dropped += 1;
                        self.out_event(side, &e, Some(i), rem)?;
                        break;
                    }
                }
            }
            if self.book_full(side) {
                let worst = |peg: bool| -> Option<MOrder> {
                    let it = self.s.books[side].iter().filter(|x| x.peg == peg);
                    if side == BID {
                        it.min_by_key(|x| x.key).cloned()
                    } else {
                        it.max_by_key(|x| x.key).cloned()
                    }
                };
                let mut cands: Vec<(i64, MOrder)> = vec![];
                if let Some(w) = worst(false) {
                    cands.push((w.price(side, oracle, now).1, w));
                }
                if oracle.is_some() {
                    if let Some(w) = worst(true) {
                        cands.push((w.price(side, oracle, now).1, w));
                    }
                }
                cands.sort_by(|a, b| {
                    let pr = if side == BID { a.0.cmp(&b.0) } else { b.0.cmp(&a.0) };
                    pr.then(b.1.seq(side).cmp(&a.1.seq(side)))
                });
                let (wp, w) = match cands.into_iter().next() {
                    Some(x) => x,
                    None => return Err(Fail::Ovf("nothing to evict")),
                };
                if !better(side, price, wp) {
                    return rej("book full");
                }
                out.evicted += 1;
                self.remove(side, w.peg, w.key);
                self.out_event(side, &w, Some(i), rem)?;
            }
            let slot = match self.s.oos[i].slots.iter().position(|s| s.is_none()) {
                Some(s) => s,
                None => return rej("no free order slot"),
            };
            self.insert(side, MOrder { peg, key, owner: i, slot: slot as u8, qty: qty as i64, ts: now, tif: o.tif, peg_limit, cid: o.cid })?;
            let a = &mut self.s.oos[i];
            a.slots[slot] = Some(Slot { id: key, cid: o.cid, price: lock_price, side, peg });
            if side == BID {
                a.pos.bids_base += qty;
                a.pos.bids_quote += qty * lock_price as i128;
            } else {
                a.pos.asks_base += qty;
            }
            am.id = Some(key);
            out.posted += 1;
        }
        Ok(am)
    }

    fn tif(&self, exp: u64) -> Option<u16> {
        if exp == 0 {
            return Some(0);
        }
        let t = exp.saturating_sub(self.now_u()).min(65535);
        if t == 0 {
            None
        } else {
            Some(t as u16)
        }
    }

    fn may_act(&self, oo: usize, signer: usize) -> bool {
        let k = self.p.users[signer];
        let a = &self.s.oos[oo];
        a.owner == k || a.delegate == Some(k)
    }

    fn pay(&mut self, user: usize, which: usize, amount: i128) -> Res<()> {
        if amount > self.s.wallets[user][which] {
            return rej("insufficient funds");
        }
        self.s.wallets[user][which] -= amount;
        self.s.vaults[which] += amount;
        Ok(())
    }

    fn kind(o: &OArgs) -> Kind {
        if o.peg {
            return Kind::Peg(o.price, o.typ, o.peg_limit);
        }
        match o.typ {
            Typ::Market => Kind::Market,
            Typ::Ioc => Kind::Ioc(o.price),
            Typ::Fok => Kind::Fok(o.price),
            t => Kind::Fixed(o.price, t),
        }
    }

    /// checks made before anything else; Ok(None) means the instruction is skipped
    fn pre(&self, o: &OArgs) -> Res<Option<u16>> {
        if o.peg {
            if self.p.oracles == 0 {
                return rej("pegs disabled");
            }
            if o.peg_limit <= 0 {
                return rej("peg limit");
            }
        } else if o.price < 1 {
            return rej("price lots");
        }
        let t = match self.tif(o.exp) {
            None => return Ok(None),
            Some(t) => t,
        };
        if o.peg && !matches!(o.typ, Typ::Limit | Typ::PostOnly | Typ::Slide) {
            return rej("order type");
        }
        Ok(Some(t))
    }

    fn place(&mut self, oo: usize, signer: usize, ord: &Ord_, limit: u8, rem: &[usize], wrong_vault: bool, out: &mut Out) -> Res<Option<u128>> {
        if ord.mb < 0 || ord.mq < 0 {
            return rej("negative lots");
        }
        if wrong_vault {
            return rej("vault");
        }
        if self.expired() {
            return rej("market expired");
        }
        let oracle = self.oracle_lots()?;
        let before = self.s.events.len();
        let key = self.s.oos[oo].key;
        let am = self.new_order(ord, Some(oo), key, rem, limit, oracle, out)?;
        let pa = &mut self.s.oos[oo].pos;
        if ord.side == BID {
            let cost = am.quote_taken + am.posted_quote + am.taker_fees + am.maker_fees;
            let own = cost.min(pa.quote_free);
            pa.quote_free -= own;
            self.s.mkt.quote_total += cost - own;
            self.pay(signer, 1, cost - own)?;
        } else {
            let cost = am.base_taken + am.posted_base;
            let own = cost.min(pa.base_free);
            pa.base_free -= own;
            self.s.mkt.base_total += cost - own;
            self.pay(signer, 0, cost - own)?;
        }
        if self.s.events.len() > before {
            self.s.oos[oo].pos.penalty += 1;
        }
        Ok(am.id)
    }

    /// cancels up to `limit` orders; returns the cancelled quantity
    fn cancel_many(&mut self, oo: usize, mut limit: u8, side: Option<usize>, cid: Option<u64>, out: &mut Out) -> Res<i64> {
        let mut total = 0i64;
        for i in 0..SLOTS {
            let s = match self.s.oos[oo].slots[i] {
                None => continue,
                Some(s) => s,
            };
            if side.map(|x| x != s.side).unwrap_or(false) || cid.map(|c| c != s.cid).unwrap_or(false) {
                continue;
            }
            if limit == 0 {
                break;
            }
            if let Some(o) = self.remove(s.side, s.peg, s.id) {
                self.release(oo, o.slot, o.qty)?;
                out.cancelled += 1;
                total += o.qty;
            }
            limit -= 1;
        }
        Ok(total)
    }

    fn consume(&mut self, given: &[usize], limit: usize, rem: &[usize], out: &mut Out) -> Res<()> {
        let mut todo: Vec<usize> = vec![];
        for s in given.iter().copied().filter(|s| self.s.events.iter().any(|e| e.slot == *s)).chain(self.s.events.iter().map(|e| e.slot)) {
            if !todo.contains(&s) {
                todo.push(s);
            }
        }
        todo.truncate(limit.min(8));
        for s in todo {
            let i = self.s.events.iter().position(|e| e.slot == s).unwrap();
            let e = self.s.events[i].clone();
            if !rem.contains(&e.owner()) {
                continue;
            }
            match &e.ev {
                Ev::Fill { .. } => self.settle_fill(&e.ev, out)?,
                Ev::Out { slot, owner, qty, .. } => self.release(*owner, *slot, *qty)?,
            }
            self.s.events.remove(i);
            out.consumed += 1;
        }
        Ok(())
    }

    fn settle(&mut self, oo: usize, dest: usize, referrer: bool, out: &mut Out) -> Res<()> {
        let p = self.p.clone();
        let pa_key = self.s.oos[oo].key;
        let pa = &mut self.s.oos[oo].pos;
        let mut dust = 0;
        if p.maker_fee > 0 && pa.bids_base == 0 {
            dust = pa.locked_fees;
            pa.locked_fees = 0;
        }
        let reb = pa.rebates + dust;
        let m = &mut self.s.mkt;
        if referrer {
            m.fees_to_referrers += reb;
            m.quote_total -= reb;
            self.s.vaults[1] -= reb;
            self.s.ref_bal += reb;
        } else {
            m.fees_available += reb;
        }
        m.base_total -= pa.base_free;
        m.quote_total -= pa.quote_free;
        m.rebates_accrued -= pa.rebates;
        out.penalty_paid = pa.penalty as u64 * PENALTY;
        self.s.market_lamports += out.penalty_paid;
        self.s.vaults[0] -= pa.base_free;
        self.s.vaults[1] -= pa.quote_free;
        self.s.wallets[dest][0] += pa.base_free;
        self.s.wallets[dest][1] += pa.quote_free;
        out.logs.push(log(l::SettleFundsLog {
            open_orders_account: pa_key,
            base_native: pa.base_free as u64,
            quote_native: pa.quote_free as u64,
            referrer_rebate: reb as u64,
            referrer: if referrer { Some(p.ref_acct) } else { None },
        }));
        let pa = &mut self.s.oos[oo].pos;
        pa.penalty = 0;
        pa.base_free = 0;
        pa.quote_free = 0;
        pa.rebates = 0;
        Ok(())
    }

    /// Applies the operation; on failure nothing changes.
    pub fn apply(&mut self, op: &Op) -> Res<Out> {
        let save = (self.s.clone(), self.alloc);
        let mut out = Out::default();
        let r = self.run(op, &mut out).and_then(|_| self.in_range());
        match r {
            Ok(()) => Ok(out),
            Err(e) => {
                self.s = save.0;
                self.alloc = save.1;
                Err(e)
            }
        }
    }

    fn in_range(&self) -> Res<()> {
        let u = u64::MAX as i128;
        for a in &self.s.oos {
            let q = &a.pos;
            for v in [q.base_free, q.quote_free, q.locked_fees, q.rebates, q.penalty] {
                if v < 0 || v > u {
                    return Err(Fail::Ovf("position"));
                }
            }
            for v in [q.bids_base, q.asks_base, q.bids_quote] {
                if v > i64::MAX as i128 || v < i64::MIN as i128 {
                    return Err(Fail::Ovf("position lots"));
                }
            }
        }
        let m = &self.s.mkt;
        for v in [m.rebates_accrued, m.fees_available, m.base_total, m.quote_total] {
            if v < 0 || v > u {
                return Err(Fail::Ovf("market"));
            }
        }
        for v in self.s.wallets.iter().flatten().chain(self.s.vaults.iter()) {
            if *v < 0 || *v > u {
                return Err(Fail::Ovf("tokens"));
            }
        }
        Ok(())
    }

    fn run(&mut self, op: &Op, out: &mut Out) -> Res<()> {
        let ret_id = |id: Option<u128>| Some(id.try_to_vec().unwrap());
        match op {
            Op::Place { oo, signer, o, rem, wrong_vault } => {
                if !self.may_act(*oo, *signer) {
                    return rej("signer");
                }
                let tif = match self.pre(o)? {
                    None => {
                        out.skipped = true;
                        out.ret = ret_id(None);
                        return Ok(());
                    }
                    Some(t) => t,
                };
                let ord = Ord_ { side: o.side, mb: o.mb, mq: o.mq, cid: o.cid, tif, stb: o.stb, kind: Self::kind(o) };
                let id = self.place(*oo, *signer, &ord, o.limit, rem, *wrong_vault, out)?;
                out.ret = ret_id(id);
            }
            Op::Edit { oo, signer, cid, expected, o, rem } => {
                if !self.may_act(*oo, *signer) {
                    return rej("signer");
                }
                let tif = match self.pre(o)? {
                    None => {
                        out.skipped = true;
                        out.ret = ret_id(None);
                        return Ok(());
                    }
                    Some(t) => t,
                };
                if *expected < 0 {
                    return rej("expected size");
                }
                let done = self.cancel_many(*oo, 255, None, Some(*cid), out)?;
                let filled = *expected as i128 - done as i128;
                let mut id = None;
                if filled >= EDIT_MIN_FILLED && o.mb as i128 > filled {
                    let ord = Ord_ { side: o.side, mb: (o.mb as i128 - filled) as i64, mq: o.mq, cid: o.cid, tif, stb: o.stb, kind: Self::kind(o) };
                    id = self.place(*oo, *signer, &ord, o.limit, rem, false, out)?;
                }
                out.ret = ret_id(id);
            }
            Op::Multi { oo, signer, cancel, typ, bids, asks, limit, rem } => {
                if !self.may_act(*oo, *signer) {
                    return rej("signer");
                }
                let mut orders = vec![];
                for (i, (price, mq, exp)) in bids.iter().chain(asks).enumerate() {
                    if *price < 1 {
                        return rej("price lots");
                    }
                    let tif = match self.tif(*exp) {
                        None => continue,
                        Some(t) => t,
                    };
                    let side = if i < bids.len() { BID } else { ASK };
                    let oa = OArgs { side, peg: false, price: *price, peg_limit: -1, mb: 0, mq: *mq, cid: i as u64, typ: *typ, exp: *exp, stb: Stb::CancelProvide, limit: *limit };
                    orders.push(Ord_ { side, mb: 0, mq: *mq, cid: i as u64, tif, stb: Stb::CancelProvide, kind: Self::kind(&oa) });
                }
                if self.expired() {
                    return rej("market expired");
                }
                let oracle = self.oracle_lots()?;
                let before = self.s.events.len();
                if *cancel {
                    self.cancel_many(*oo, 255, None, None, out)?;
                }
                let (mut base, mut quote) = (0i128, 0i128);
                let mut ids = vec![];
                for mut ord in orders {
                    ord.mb = self.p.max_base();
                    if ord.mq < 0 {
                        return rej("negative lots");
                    }
                    let pa = &self.s.oos[*oo].pos;
                    if ord.side == ASK {
                        let avail = self.s.wallets[*signer][0] + pa.base_free - base;
                        if avail < 0 {
                            return Err(Fail::Ovf("base available"));
                        }
                        ord.mb = ((avail / self.p.bls as i128).min(self.p.max_base() as i128) as i64).min(ord.mb);
                    } else {
                        let avail = self.s.wallets[*signer][1] + pa.quote_free - quote;
                        if avail < 0 {
                            return Err(Fail::Ovf("quote available"));
                        }
                        ord.mq = ((avail / self.p.qls as i128).min(self.p.max_quote() as i128) as i64).min(ord.mq);
                    }
                    let key = self.s.oos[*oo].key;
                    let am = self.new_order(&ord, Some(*oo), key, rem, *limit, oracle, out)?;
                    if ord.side == BID {
                        quote += am.quote_taken + am.posted_quote + am.taker_fees + am.maker_fees;
                    } else {
                        base += am.base_taken + am.posted_base;
                    }
                    ids.push(am.id);
                }
                let pa = &mut self.s.oos[*oo].pos;
                let fb = base.min(pa.base_free);
                let fq = quote.min(pa.quote_free);
                pa.base_free -= fb;
                pa.quote_free -= fq;
                if self.s.events.len() > before {
                    pa.penalty += 1;
                }
                self.s.mkt.base_total += base - fb;
                self.s.mkt.quote_total += quote - fq;
                self.pay(*signer, 1, quote - fq)?;
                self.pay(*signer, 0, base - fb)?;
                out.ret = Some(ids.try_to_vec().unwrap());
            }
            Op::Take { user, o, rem } => {
                if o.price < 1 {
                    return rej("price lots");
                }
                if !matches!(o.typ, Typ::Market | Typ::Ioc | Typ::Fok) {
                    return rej("order type");
                }
                if o.mb < 0 || o.mq < 0 {
                    return rej("negative lots");
                }
                if self.expired() {
                    return rej("market expired");
                }
                let oracle = self.oracle_lots()?;
                let before = self.s.events.len();
                let key = self.p.users[*user];
                let ord = Ord_ { side: o.side, mb: o.mb, mq: o.mq, cid: 0, tif: 0, stb: Stb::Decrement, kind: Self::kind(o) };
                let am = self.new_order(&ord, None, key, rem, o.limit, oracle, out)?;
                let reb = am.taker_fees - am.referrer;
                let (inn, pay, outw, recv) = if o.side == BID { (1, am.quote_taken + reb, 0, am.base_taken) } else { (0, am.base_taken, 1, am.quote_taken - reb) };
                if o.side == BID {
                    self.s.mkt.base_total -= recv;
                    self.s.mkt.quote_total += pay;
                } else {
                    self.s.mkt.base_total += pay;
                    self.s.mkt.quote_total -= recv;
                }
                if self.s.events.len() > before {
                    out.penalty_paid = PENALTY;
                    self.s.market_lamports += PENALTY;
                }
                self.pay(*user, inn, pay)?;
                self.s.vaults[outw] -= recv;
                self.s.wallets[*user][outw] += recv;
            }
            Op::CancelId { oo, signer, id } => {
                if !self.may_act(*oo, *signer) {
                    return rej("signer");
                }
                if *id == 0 {
                    return rej("order id");
                }
                let s = match self.s.oos[*oo].slots.iter().flatten().find(|s| s.id == *id) {
                    None => return rej("not this account's order"),
                    Some(s) => *s,
                };
                let o = match self.remove(s.side, s.peg, s.id) {
                    None => return rej("not on the book any more"),
                    Some(o) => o,
                };
                self.release(*oo, o.slot, o.qty)?;
                out.cancelled += 1;
            }
            Op::CancelCid { oo, signer, cid } => {
                if !self.may_act(*oo, *signer) {
                    return rej("signer");
                }
                let n = self.cancel_many(*oo, 255, None, Some(*cid), out)?;
                out.ret = Some(n.try_to_vec().unwrap());
            }
            Op::CancelAll { oo, signer, side, limit } => {
                if !self.may_act(*oo, *signer) {
                    return rej("signer");
                }
                self.cancel_many(*oo, *limit, *side, None, out)?;
            }
            Op::Consume { limit, rem } => self.consume(&[], *limit, rem, out)?,
            Op::ConsumeGiven { slots, rem } => {
                if slots.iter().any(|s| *s >= HEAP) {
                    return rej("slot out of range");
                }
                self.consume(slots, slots.len(), rem, out)?
            }
            Op::Deposit { user, oo, b, q } | Op::Refill { user, oo, b, q } => {
                let (mut b, mut q) = (*b as i128, *q as i128);
                if matches!(op, Op::Refill { .. }) {
                    let pa = &self.s.oos[*oo].pos;
                    b = (b - pa.base_free).max(0);
                    q = (q - pa.quote_free).max(0);
                }
                if self.expired() {
                    return rej("market expired");
                }
                self.pay(*user, 0, b)?;
                self.pay(*user, 1, q)?;
                let pa = &mut self.s.oos[*oo].pos;
                pa.base_free += b;
                pa.quote_free += q;
                self.s.mkt.base_total += b;
                self.s.mkt.quote_total += q;
                if b > 0 || q > 0 {
                    out.logs.push(log(l::DepositLog { open_orders_account: self.s.oos[*oo].key, signer: self.p.users[*user], base_amount: b as u64, quote_amount: q as u64 }));
                }
            }
            Op::Settle { oo, signer, dest, referrer } => {
                if !self.may_act(*oo, *signer) {
                    return rej("signer");
                }
                let a = &self.s.oos[*oo];
                let sk = self.p.users[*signer];
                // a delegate may only pay out to the owner; the owner anywhere
                let ok = if a.delegate == Some(sk) { self.p.users[*dest] == a.owner } else { sk == a.owner };
                if !ok {
                    return rej("destination");
                }
                self.settle(*oo, *dest, *referrer, out)?;
            }
            Op::SettleExpired { oo, signer: _, dest, referrer } => {
                if !self.p.has_close_admin {
                    return rej("no close admin");
                }
                if self.p.users[*dest] != self.s.oos[*oo].owner {
                    return rej("destination");
                }
                if !self.expired() {
                    return rej("not expired");
                }
                self.settle(*oo, *dest, *referrer, out)?;
            }
            Op::Sweep => {
                let a = self.s.mkt.fees_available;
                self.s.mkt.fees_available = 0;
                self.s.mkt.quote_total -= a;
                self.s.vaults[1] -= a;
                self.s.fee_bal += a;
                out.logs.push(log(l::SweepFeesLog { market: self.p.key, amount: a as u64, receiver: self.p.fee_acct }));
            }
            Op::SetDelegate { oo, signer, delegate } => {
                if self.p.users[*signer] != self.s.oos[*oo].owner {
                    return rej("signer");
                }
                let d = delegate.map(|d| self.p.users[d]);
                self.s.oos[*oo].delegate = d;
                out.logs.push(log(l::SetDelegateLog { open_orders_account: self.s.oos[*oo].key, delegate: d }));
            }
            Op::SetOracle { which, price } => {
                if *which >= self.oracle.len() {
                    return rej("no such oracle");
                }
                self.oracle[*which].price = *price;
                self.oracle[*which].slot = self.slot;
            }
            Op::Clock { dt, dslot } => {
                self.now += dt;
                self.slot += dslot;
            }
            Op::Expire => {
                if !self.p.has_close_admin {
                    return rej("no close admin");
                }
                if self.expired() {
                    return rej("already expired");
                }
                self.s.mkt.expiry = -1;
            }
            Op::Prune { oo, limit } => {
                if !self.p.has_close_admin {
                    return rej("no close admin");
                }
                if !self.expired() {
                    return rej("not expired");
                }
                self.cancel_many(*oo, *limit, None, None, out)?;
            }
        }
        Ok(())
    }
}

/// edit places the new order when at least this much of the old one had been filled
pub const EDIT_MIN_FILLED: i128 = 0;
