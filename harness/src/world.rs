//! A market with users on the mini runtime; builds the real instructions and reads the real state back.
use crate::model::*;
use crate::rt::{self, Acc, Bank, TxErr, TxOk};
use anchor_lang::{InstructionData, ToAccountMetas};
use openbook_v2::state as st;
use openbook_v2::{accounts as ac, instruction as ins};
use solana_sdk::instruction::{AccountMeta, Instruction};
use solana_sdk::program_pack::Pack;
use solana_sdk::pubkey::Pubkey;

pub const T0: i64 = 1_600_000_000;
pub const SLOT0: u64 = 1_000_000;

/// where keys come from when somebody has to sign for them
pub static KEYS: std::sync::OnceLock<fn(&str, u64) -> Option<Pubkey>> = std::sync::OnceLock::new();

pub fn key(tag: &str, n: u64) -> Pubkey {
    if let Some(k) = KEYS.get().and_then(|f| f(tag, n)) {
        return k;
    }
    let mut h = crate::engine::hash_str(tag) ^ n.wrapping_mul(0x9E3779B97F4A7C15);
    let mut b = [0u8; 32];
    for i in 0..4 {
        h = crate::engine::hash_mix(h, i as u64 + 17);
        b[i * 8..i * 8 + 8].copy_from_slice(&h.to_le_bytes());
    }
    Pubkey::new_from_array(b)
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub bls: i64,
    pub qls: i64,
    pub maker_fee: i64,
    pub taker_fee: i64,
    pub base_dec: u8,
    pub quote_dec: u8,
    pub oracles: usize,
    pub conf: f64,
    pub staleness: Option<u32>,
    /// 0 or seconds after T0
    pub expiry: i64,
    pub oo_admin: bool,
    pub ce_admin: bool,
    pub close_admin: bool,
    pub users: usize,
    /// owner of each trading account
    pub oos: Vec<usize>,
    /// wallets, native units: [base, quote] per user
    pub wallets: Vec<[u64; 2]>,
    /// typical price in lots
    pub mid: i64,
    /// number of orders the market has seen before, 0 for a new one
    pub aged: u64,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            bls: 100,
            qls: 10,
            maker_fee: 0,
            taker_fee: 0,
            base_dec: 6,
            quote_dec: 6,
            oracles: 1,
            conf: 0.1,
            staleness: None,
            expiry: 0,
            oo_admin: false,
            ce_admin: false,
            close_admin: true,
            users: 4,
            oos: vec![0, 1, 2, 3],
            wallets: vec![[1 << 40, 1 << 40]; 4],
            mid: 100,
            aged: 0,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Keys {
    pub market: Pubkey,
    pub authority: Pubkey,
    pub bids: Pubkey,
    pub asks: Pubkey,
    pub heap: Pubkey,
    pub base_mint: Pubkey,
    pub quote_mint: Pubkey,
    pub vaults: [Pubkey; 2],
    pub oracle: [Option<Pubkey>; 2],
    pub fee_admin: Pubkey,
    pub oo_admin: Option<Pubkey>,
    pub ce_admin: Option<Pubkey>,
    pub close_admin: Option<Pubkey>,
    pub ref_acct: Pubkey,
    pub fee_acct: Pubkey,
}

#[derive(Clone)]
pub struct World {
    pub bank: Bank,
    pub cfg: Cfg,
    pub k: Keys,
    pub admin: Pubkey,
    pub users: Vec<Pubkey>,
    /// [base, quote] token accounts per user
    pub toks: Vec<[Pubkey; 2]>,
    pub oos: Vec<Pubkey>,
    pub last_penalty_payer: Option<Pubkey>,
}

pub fn pid() -> Pubkey {
    openbook_v2::id()
}
pub fn sys() -> Pubkey {
    solana_sdk::system_program::id()
}
pub fn ata_program() -> Pubkey {
    anchor_spl::associated_token::ID
}

pub fn ix(accs: impl ToAccountMetas, data: impl InstructionData) -> Instruction {
    Instruction { program_id: pid(), accounts: accs.to_account_metas(None), data: data.data() }
}

pub fn put_wallet(bank: &mut Bank, k: Pubkey) {
    bank.put(k, Acc::new(1_000_000_000_000, 0, sys()));
}

pub fn put_mint(bank: &mut Bank, k: Pubkey, decimals: u8) {
    let m = spl_token::state::Mint {
        mint_authority: solana_sdk::program_option::COption::None,
        supply: u64::MAX,
        decimals,
        is_initialized: true,
        freeze_authority: solana_sdk::program_option::COption::None,
    };
    let mut b = vec![0u8; spl_token::state::Mint::LEN];
    m.pack_into_slice(&mut b);
    bank.put(k, Acc::from_bytes(10_000_000, &b, spl_token::id()));
}

pub fn put_token(bank: &mut Bank, k: Pubkey, mint: Pubkey, owner: Pubkey, amount: u64) {
    let t = rt::token_account(mint, owner, amount);
    let mut b = vec![0u8; spl_token::state::Account::LEN];
    t.pack_into_slice(&mut b);
    bank.put(k, Acc::from_bytes(10_000_000, &b, spl_token::id()));
}

pub fn zero_acc(bank: &mut Bank, k: Pubkey, len: usize) {
    bank.put(k, Acc::new(10_000_000_000, len, pid()));
}

pub fn indexer_of(owner: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[b"OpenOrdersIndexer", owner.as_ref()], &pid()).0
}
pub fn oo_of(owner: &Pubkey, n: u32) -> Pubkey {
    Pubkey::find_program_address(&[b"OpenOrders", owner.as_ref(), &n.to_le_bytes()], &pid()).0
}
pub fn event_authority() -> Pubkey {
    Pubkey::find_program_address(&[b"__event_authority"], &pid()).0
}

pub struct MarketSpec {
    pub tag: u64,
    pub base_mint: Pubkey,
    pub quote_mint: Pubkey,
    pub oracle: [Option<Pubkey>; 2],
    pub fee_admin: Pubkey,
    pub oo_admin: Option<Pubkey>,
    pub ce_admin: Option<Pubkey>,
    pub close_admin: Option<Pubkey>,
}

pub fn create_market_ix(k: &Keys, payer: Pubkey, args: ins::CreateMarket) -> Instruction {
    ix(
        ac::CreateMarket {
            market: k.market,
            market_authority: k.authority,
            bids: k.bids,
            asks: k.asks,
            event_heap: k.heap,
            payer,
            market_base_vault: k.vaults[0],
            market_quote_vault: k.vaults[1],
            base_mint: k.base_mint,
            quote_mint: k.quote_mint,
            system_program: sys(),
            token_program: spl_token::id(),
            associated_token_program: ata_program(),
            oracle_a: k.oracle[0],
            oracle_b: k.oracle[1],
            collect_fee_admin: k.fee_admin,
            open_orders_admin: k.oo_admin,
            consume_events_admin: k.ce_admin,
            close_market_admin: k.close_admin,
            event_authority: event_authority(),
            program: pid(),
        },
        args,
    )
}

pub fn market_keys(bank: &mut Bank, s: &MarketSpec) -> Keys {
    let market = key("market", s.tag);
    let authority = Pubkey::find_program_address(&[b"Market", market.as_ref()], &pid()).0;
    let vault = |m: &Pubkey| Pubkey::find_program_address(&[authority.as_ref(), spl_token::id().as_ref(), m.as_ref()], &ata_program()).0;
    let k = Keys {
        market,
        authority,
        bids: key("bids", s.tag),
        asks: key("asks", s.tag),
        heap: key("heap", s.tag),
        base_mint: s.base_mint,
        quote_mint: s.quote_mint,
        vaults: [vault(&s.base_mint), vault(&s.quote_mint)],
        oracle: s.oracle,
        fee_admin: s.fee_admin,
        oo_admin: s.oo_admin,
        ce_admin: s.ce_admin,
        close_admin: s.close_admin,
        ref_acct: key("referrer", s.tag),
        fee_acct: key("feedest", s.tag),
    };
    zero_acc(bank, k.bids, 8 + std::mem::size_of::<st::BookSide>());
    zero_acc(bank, k.asks, 8 + std::mem::size_of::<st::BookSide>());
    zero_acc(bank, k.heap, 8 + std::mem::size_of::<st::EventHeap>());
    k
}

pub fn oracle_price_for(cfg: &Cfg, lots: f64) -> f64 {
    lots * cfg.qls as f64 / cfg.bls as f64 / 10f64.powi(cfg.quote_dec as i32 - cfg.base_dec as i32)
}

impl World {
    pub fn new(cfg: Cfg) -> Result<World, String> {
        let mut bank = Bank::new();
        bank.clock.unix_timestamp = T0;
        bank.clock.slot = SLOT0;
        let admin = key("admin", 0);
        put_wallet(&mut bank, admin);
        let base_mint = key("basemint", 0);
        let quote_mint = key("quotemint", 0);
        put_mint(&mut bank, base_mint, cfg.base_dec);
        put_mint(&mut bank, quote_mint, cfg.quote_dec);
        for n in 1..=4 {
            put_wallet(&mut bank, key("role", n));
        }
        let users: Vec<Pubkey> = (0..cfg.users).map(|i| key("user", i as u64)).collect();
        let mut toks = vec![];
        for (i, u) in users.iter().enumerate() {
            put_wallet(&mut bank, *u);
            let t = [key("utok0", i as u64), key("utok1", i as u64)];
            put_token(&mut bank, t[0], base_mint, *u, cfg.wallets[i][0]);
            put_token(&mut bank, t[1], quote_mint, *u, cfg.wallets[i][1]);
            toks.push(t);
        }
        let mut oracle = [None, None];
        for w in 0..cfg.oracles {
            let mint = if w == 0 { base_mint } else { quote_mint };
            let o = Pubkey::find_program_address(&[b"StubOracle", admin.as_ref(), mint.as_ref()], &pid()).0;
            let i = ix(
                ac::StubOracleCreate { payer: admin, owner: admin, oracle: o, mint, system_program: sys() },
                ins::StubOracleCreate { price: if w == 0 { oracle_price_for(&cfg, cfg.mid as f64 + 0.5) } else { 1.0 } },
            );
            bank.exec(&i).map_err(|e| format!("stub_oracle_create: {:?}", e))?;
            oracle[w] = Some(o);
        }
        let spec = MarketSpec {
            tag: 0,
            base_mint,
            quote_mint,
            oracle,
            fee_admin: key("role", 1),
            oo_admin: if cfg.oo_admin { Some(key("role", 2)) } else { None },
            ce_admin: if cfg.ce_admin { Some(key("role", 3)) } else { None },
            close_admin: if cfg.close_admin { Some(key("role", 4)) } else { None },
        };
        let k = market_keys(&mut bank, &spec);
        put_wallet(&mut bank, key("refowner", 0));
        put_token(&mut bank, k.ref_acct, quote_mint, key("refowner", 0), 0);
        put_token(&mut bank, k.fee_acct, quote_mint, key("refowner", 1), 0);
        let i = create_market_ix(
            &k,
            admin,
            ins::CreateMarket {
                name: "m".into(),
                oracle_config: st::OracleConfigParams { conf_filter: cfg.conf as f32, max_staleness_slots: cfg.staleness },
                quote_lot_size: cfg.qls,
                base_lot_size: cfg.bls,
                maker_fee: cfg.maker_fee,
                taker_fee: cfg.taker_fee,
                time_expiry: if cfg.expiry == 0 { 0 } else { T0 + cfg.expiry },
            },
        );
        let mut i = i;
        for m in i.accounts.iter_mut() {
            if m.pubkey == k.market {
                m.is_signer = true;
            }
        }
        bank.exec(&i).map_err(|e| format!("create_market: {:?}", e))?;
        let mut w = World { bank, cfg: cfg.clone(), k, admin, users, toks, oos: vec![], last_penalty_payer: None };
        for u in 0..cfg.users {
            w.create_indexer(u).map_err(|e| format!("create_indexer: {:?}", e))?;
        }
        let mut nums = vec![0u32; cfg.users];
        for o in &cfg.oos {
            nums[*o] += 1;
            let n = nums[*o];
            let (k, r) = w.create_oo(*o, n, None);
            r.map_err(|e| format!("create_open_orders_account: {:?}", e))?;
            w.oos.push(k);
        }
        w.age();
        Ok(w)
    }

    /// a long past: orders and events have been numbered, others have traded and paid fees to referrers
    fn age(&mut self) {
        if self.cfg.aged == 0 {
            return;
        }
        let volume = u64::MAX as u128 - 5000;
        let fees = u64::MAX as u128 - 50;
        let mut m = *self.market();
        m.seq_num = self.cfg.aged;
        m.maker_volume = volume;
        m.taker_volume_wo_oo = volume;
        m.fees_accrued = fees;
        m.fees_to_referrers = fees;
        self.bank.get_mut(&self.k.market).data_mut()[8..].copy_from_slice(bytemuck::bytes_of(&m));
        let mut h = self.heap().header;
        h.seq_num = self.cfg.aged - 1;
        let b = bytemuck::bytes_of(&h);
        self.bank.get_mut(&self.k.heap).data_mut()[8..8 + b.len()].copy_from_slice(b);
        if let Some(k) = self.oos.first().copied() {
            let mut a = *self.oo(0);
            a.position.maker_volume = volume;
            self.bank.get_mut(&k).data_mut()[8..].copy_from_slice(bytemuck::bytes_of(&a));
        }
    }

    pub fn create_indexer(&mut self, u: usize) -> Result<TxOk, TxErr> {
        let owner = self.users[u];
        let i = ix(
            ac::CreateOpenOrdersIndexer { payer: owner, owner, open_orders_indexer: indexer_of(&owner), system_program: sys() },
            ins::CreateOpenOrdersIndexer {},
        );
        self.bank.exec(&i)
    }

    pub fn create_oo_ix(&self, u: usize, n: u32, delegate: Option<Pubkey>) -> (Pubkey, Instruction) {
        let owner = self.users[u];
        let k = oo_of(&owner, n);
        (
            k,
            ix(
                ac::CreateOpenOrdersAccount {
                    payer: owner,
                    owner,
                    delegate_account: delegate,
                    open_orders_indexer: indexer_of(&owner),
                    open_orders_account: k,
                    market: self.k.market,
                    system_program: sys(),
                },
                ins::CreateOpenOrdersAccount { name: format!("oo{}", n) },
            ),
        )
    }

    pub fn create_oo(&mut self, u: usize, n: u32, delegate: Option<Pubkey>) -> (Pubkey, Result<TxOk, TxErr>) {
        let (k, i) = self.create_oo_ix(u, n, delegate);
        (k, self.bank.exec(&i))
    }

    fn side(s: usize) -> st::Side {
        if s == BID {
            st::Side::Bid
        } else {
            st::Side::Ask
        }
    }
    pub fn typ(t: Typ) -> st::PlaceOrderType {
        match t {
            Typ::Limit => st::PlaceOrderType::Limit,
            Typ::Ioc => st::PlaceOrderType::ImmediateOrCancel,
            Typ::PostOnly => st::PlaceOrderType::PostOnly,
            Typ::Market => st::PlaceOrderType::Market,
            Typ::Slide => st::PlaceOrderType::PostOnlySlide,
            Typ::Fok => st::PlaceOrderType::FillOrKill,
        }
    }
    pub fn stb(s: Stb) -> st::SelfTradeBehavior {
        match s {
            Stb::Decrement => st::SelfTradeBehavior::DecrementTake,
            Stb::CancelProvide => st::SelfTradeBehavior::CancelProvide,
            Stb::Abort => st::SelfTradeBehavior::AbortTransaction,
        }
    }
    pub fn order_args(o: &OArgs) -> openbook_v2::PlaceOrderArgs {
        openbook_v2::PlaceOrderArgs {
            side: Self::side(o.side),
            price_lots: o.price,
            max_base_lots: o.mb,
            max_quote_lots_including_fees: o.mq,
            client_order_id: o.cid,
            order_type: Self::typ(o.typ),
            expiry_timestamp: o.exp,
            self_trade_behavior: Self::stb(o.stb),
            limit: o.limit,
        }
    }
    pub fn peg_args(o: &OArgs) -> openbook_v2::PlaceOrderPeggedArgs {
        openbook_v2::PlaceOrderPeggedArgs {
            side: Self::side(o.side),
            price_offset_lots: o.price,
            peg_limit: o.peg_limit,
            max_base_lots: o.mb,
            max_quote_lots_including_fees: o.mq,
            client_order_id: o.cid,
            order_type: Self::typ(o.typ),
            expiry_timestamp: o.exp,
            self_trade_behavior: Self::stb(o.stb),
            limit: o.limit,
        }
    }

    fn place_accounts(&self, oo: usize, signer: usize, side: usize, wrong_vault: bool) -> ac::PlaceOrder {
        let which = if (side == BID) ^ wrong_vault { 1 } else { 0 };
        ac::PlaceOrder {
            signer: self.users[signer],
            open_orders_account: self.oos[oo],
            open_orders_admin: self.k.oo_admin,
            user_token_account: self.toks[signer][which],
            market: self.k.market,
            bids: self.k.bids,
            asks: self.k.asks,
            event_heap: self.k.heap,
            market_vault: self.k.vaults[which],
            oracle_a: self.k.oracle[0],
            oracle_b: self.k.oracle[1],
            token_program: spl_token::id(),
        }
    }

    fn with_rem(&self, mut i: Instruction, rem: &[usize]) -> Instruction {
        for r in rem {
            i.accounts.push(AccountMeta::new(self.oos[*r], false));
        }
        i
    }

    fn cancel_accounts(&self, oo: usize, signer: usize) -> ac::CancelOrder {
        ac::CancelOrder { signer: self.users[signer], open_orders_account: self.oos[oo], market: self.k.market, bids: self.k.bids, asks: self.k.asks }
    }

    /// The instruction for an operation (None for things that are not instructions).
    pub fn build(&self, op: &Op) -> Option<Instruction> {
        let k = &self.k;
        Some(match op {
            Op::Place { oo, signer, o, rem, wrong_vault } => {
                let a = self.place_accounts(*oo, *signer, o.side, *wrong_vault);
                let i = if o.peg { ix(a, ins::PlaceOrderPegged { args: Self::peg_args(o) }) } else { ix(a, ins::PlaceOrder { args: Self::order_args(o) }) };
                self.with_rem(i, rem)
            }
            Op::Edit { oo, signer, cid, expected, o, rem } => {
                let a = self.place_accounts(*oo, *signer, o.side, false);
                let i = if o.peg {
                    ix(a, ins::EditOrderPegged { client_order_id: *cid, expected_cancel_size: *expected, place_order: Self::peg_args(o) })
                } else {
                    ix(a, ins::EditOrder { client_order_id: *cid, expected_cancel_size: *expected, place_order: Self::order_args(o) })
                };
                self.with_rem(i, rem)
            }
            Op::Multi { oo, signer, cancel, typ, bids, asks, limit, rem } => {
                let a = ac::CancelAllAndPlaceOrders {
                    signer: self.users[*signer],
                    open_orders_account: self.oos[*oo],
                    open_orders_admin: k.oo_admin,
                    user_quote_account: self.toks[*signer][1],
                    user_base_account: self.toks[*signer][0],
                    market: k.market,
                    bids: k.bids,
                    asks: k.asks,
                    event_heap: k.heap,
                    market_quote_vault: k.vaults[1],
                    market_base_vault: k.vaults[0],
                    oracle_a: k.oracle[0],
                    oracle_b: k.oracle[1],
                    token_program: spl_token::id(),
                };
                let conv = |v: &Vec<(i64, i64, u64)>| -> Vec<openbook_v2::PlaceMultipleOrdersArgs> {
                    v.iter()
                        .map(|(p, q, e)| openbook_v2::PlaceMultipleOrdersArgs { price_lots: *p, max_quote_lots_including_fees: *q, expiry_timestamp: *e })
                        .collect()
                };
                let t = Self::typ(*typ);
                let i = if *cancel {
                    ix(a, ins::CancelAllAndPlaceOrders { orders_type: t, bids: conv(bids), asks: conv(asks), limit: *limit })
                } else {
                    ix(a, ins::PlaceOrders { orders_type: t, bids: conv(bids), asks: conv(asks), limit: *limit })
                };
                self.with_rem(i, rem)
            }
            Op::Take { user, o, rem } => {
                let a = ac::PlaceTakeOrder {
                    signer: self.users[*user],
                    penalty_payer: self.users[*user],
                    market: k.market,
                    market_authority: k.authority,
                    bids: k.bids,
                    asks: k.asks,
                    market_base_vault: k.vaults[0],
                    market_quote_vault: k.vaults[1],
                    event_heap: k.heap,
                    user_base_account: self.toks[*user][0],
                    user_quote_account: self.toks[*user][1],
                    oracle_a: k.oracle[0],
                    oracle_b: k.oracle[1],
                    token_program: spl_token::id(),
                    system_program: sys(),
                    open_orders_admin: k.oo_admin,
                };
                let i = ix(
                    a,
                    ins::PlaceTakeOrder {
                        args: openbook_v2::PlaceTakeOrderArgs {
                            side: Self::side(o.side),
                            price_lots: o.price,
                            max_base_lots: o.mb,
                            max_quote_lots_including_fees: o.mq,
                            order_type: Self::typ(o.typ),
                            limit: o.limit,
                        },
                    },
                );
                self.with_rem(i, rem)
            }
            Op::CancelId { oo, signer, id } => ix(self.cancel_accounts(*oo, *signer), ins::CancelOrder { order_id: *id }),
            Op::CancelCid { oo, signer, cid } => ix(self.cancel_accounts(*oo, *signer), ins::CancelOrderByClientOrderId { client_order_id: *cid }),
            Op::CancelAll { oo, signer, side, limit } => {
                ix(self.cancel_accounts(*oo, *signer), ins::CancelAllOrders { side_option: side.map(Self::side), limit: *limit })
            }
            Op::Consume { limit, rem } => {
                let a = ac::ConsumeEvents { consume_events_admin: k.ce_admin, market: k.market, event_heap: k.heap };
                self.with_rem(ix(a, ins::ConsumeEvents { limit: *limit }), rem)
            }
            Op::ConsumeGiven { slots, rem } => {
                let a = ac::ConsumeEvents { consume_events_admin: k.ce_admin, market: k.market, event_heap: k.heap };
                self.with_rem(ix(a, ins::ConsumeGivenEvents { slots: slots.clone() }), rem)
            }
            Op::Deposit { user, oo, b, q } | Op::Refill { user, oo, b, q } => {
                let a = ac::Deposit {
                    owner: self.users[*user],
                    user_base_account: self.toks[*user][0],
                    user_quote_account: self.toks[*user][1],
                    open_orders_account: self.oos[*oo],
                    market: k.market,
                    market_base_vault: k.vaults[0],
                    market_quote_vault: k.vaults[1],
                    token_program: spl_token::id(),
                };
                if matches!(op, Op::Deposit { .. }) {
                    ix(a, ins::Deposit { base_amount: *b, quote_amount: *q })
                } else {
                    ix(a, ins::Refill { base_amount: *b, quote_amount: *q })
                }
            }
            Op::Settle { oo, signer, dest, referrer } => ix(
                ac::SettleFunds {
                    owner: self.users[*signer],
                    penalty_payer: self.users[*signer],
                    open_orders_account: self.oos[*oo],
                    market: k.market,
                    market_authority: k.authority,
                    market_base_vault: k.vaults[0],
                    market_quote_vault: k.vaults[1],
                    user_base_account: self.toks[*dest][0],
                    user_quote_account: self.toks[*dest][1],
                    referrer_account: if *referrer { Some(k.ref_acct) } else { None },
                    token_program: spl_token::id(),
                    system_program: sys(),
                },
                ins::SettleFunds {},
            ),
            Op::SettleExpired { oo, signer, dest, referrer } => ix(
                ac::SettleFundsExpired {
                    close_market_admin: k.close_admin.unwrap_or(key("role", 4)),
                    owner: self.users[*signer],
                    penalty_payer: self.users[*signer],
                    open_orders_account: self.oos[*oo],
                    market: k.market,
                    market_authority: k.authority,
                    market_base_vault: k.vaults[0],
                    market_quote_vault: k.vaults[1],
                    user_base_account: self.toks[*dest][0],
                    user_quote_account: self.toks[*dest][1],
                    referrer_account: if *referrer { Some(k.ref_acct) } else { None },
                    token_program: spl_token::id(),
                    system_program: sys(),
                },
                ins::SettleFundsExpired {},
            ),
            Op::Sweep => ix(
                ac::SweepFees {
                    collect_fee_admin: k.fee_admin,
                    market: k.market,
                    market_authority: k.authority,
                    market_quote_vault: k.vaults[1],
                    token_receiver_account: k.fee_acct,
                    token_program: spl_token::id(),
                },
                ins::SweepFees {},
            ),
            Op::SetDelegate { oo, signer, delegate } => ix(
                ac::SetDelegate { owner: self.users[*signer], open_orders_account: self.oos[*oo], delegate_account: delegate.map(|d| self.users[d]) },
                ins::SetDelegate {},
            ),
            Op::SetOracle { which, price } => ix(
                ac::StubOracleSet { owner: self.admin, oracle: k.oracle[*which].unwrap_or(k.market) },
                ins::StubOracleSet { price: *price },
            ),
            Op::Clock { .. } => return None,
            Op::Expire => ix(
                ac::SetMarketExpired { close_market_admin: k.close_admin.unwrap_or(key("role", 4)), market: k.market },
                ins::SetMarketExpired {},
            ),
            Op::Prune { oo, limit } => ix(
                ac::PruneOrders {
                    close_market_admin: k.close_admin.unwrap_or(key("role", 4)),
                    open_orders_account: self.oos[*oo],
                    market: k.market,
                    bids: k.bids,
                    asks: k.asks,
                },
                ins::PruneOrders { limit: *limit },
            ),
        })
    }

    pub fn exec(&mut self, op: &Op) -> Result<TxOk, TxErr> {
        if let Op::Clock { dt, dslot } = op {
            self.bank.clock.unix_timestamp += dt;
            self.bank.clock.slot += dslot;
            return Ok(TxOk::default());
        }
        let i = self.build(op).unwrap();
        self.bank.exec(&i)
    }

    pub fn market(&self) -> &st::Market {
        self.bank.zc(&self.k.market)
    }
    pub fn bookside(&self, side: usize) -> &st::BookSide {
        self.bank.zc(if side == BID { &self.k.bids } else { &self.k.asks })
    }
    pub fn heap(&self) -> &st::EventHeap {
        self.bank.zc(&self.k.heap)
    }
    pub fn oo(&self, i: usize) -> &st::OpenOrdersAccount {
        self.bank.zc(&self.oos[i])
    }
    fn oo_idx(&self, k: &Pubkey) -> usize {
        self.oos.iter().position(|x| x == k).unwrap_or(usize::MAX)
    }

    pub fn params(&self) -> Params {
        let c = &self.cfg;
        Params {
            key: self.k.market,
            bls: c.bls,
            qls: c.qls,
            maker_fee: c.maker_fee,
            taker_fee: c.taker_fee,
            base_dec: c.base_dec,
            quote_dec: c.quote_dec,
            oracles: c.oracles,
            conf: c.conf as f32 as f64,
            staleness: c.staleness,
            has_close_admin: c.close_admin,
            users: self.users.clone(),
            ref_acct: self.k.ref_acct,
            fee_acct: self.k.fee_acct,
        }
    }

    pub fn model(&self) -> Result<Model, String> {
        let s = self.read()?;
        let mut oracle = vec![];
        for w in 0..self.cfg.oracles {
            let o: &st::StubOracle = self.bank.zc(&self.k.oracle[w].unwrap());
            oracle.push(OracleAcc { price: o.price, slot: o.last_update_slot, dev: o.deviation });
        }
        Ok(Model { p: self.params(), s, alloc: self.alloc(), oracle, now: self.bank.clock.unix_timestamp, slot: self.bank.clock.slot })
    }

    pub fn alloc(&self) -> [(usize, usize); 2] {
        let f = |s| {
            let n = &self.bookside(s).nodes;
            (n.bump_index as usize, n.free_list_len as usize)
        };
        [f(BID), f(ASK)]
    }

    /// Leaves of a book side by walking the nodes directly.
    pub fn read_book(&self, side: usize) -> Result<Vec<MOrder>, String> {
        let b = self.bookside(side);
        let mut v = vec![];
        for peg in [false, true] {
            let root = &b.roots[peg as usize];
            if root.leaf_count == 0 {
                continue;
            }
            let mut stack = vec![root.maybe_node];
            let mut n = 0;
            while let Some(h) = stack.pop() {
                if h as usize >= NODES || n > 4 * NODES {
                    return Err(format!("broken tree: node {}", h));
                }
                n += 1;
                let node = &b.nodes.nodes[h as usize];
                if let Some(l) = node.as_leaf() {
                    v.push(MOrder {
                        peg,
                        key: l.key,
                        owner: self.oo_idx(&l.owner),
                        slot: l.owner_slot,
                        qty: l.quantity,
                        ts: l.timestamp,
                        tif: l.time_in_force,
                        peg_limit: l.peg_limit,
                        cid: l.client_order_id,
                    });
                } else if let Some(i) = node.as_inner() {
                    stack.push(i.children[0]);
                    stack.push(i.children[1]);
                } else {
                    return Err("broken tree: free node reachable".into());
                }
            }
        }
        v.sort_by_key(|o| (o.peg, o.key));
        Ok(v)
    }

    pub fn read_events(&self) -> Result<Vec<MEv>, String> {
        // own walk over the raw account: used_head and count in the header, nodes of 152 bytes linked by next
        let raw = &self.bank.get(&self.k.heap).unwrap().data()[8..];
        let u16_at = |o: usize| u16::from_le_bytes([raw[o], raw[o + 1]]) as usize;
        let (head, count) = (u16_at(2), u16_at(4));
        if count > HEAP {
            return Err("event queue has more than 600 entries".into());
        }
        let mut v: Vec<MEv> = vec![];
        let mut at = head;
        let mut seen = vec![false; HEAP];
        for _ in 0..count {
            let slot = at;
            if slot >= HEAP || seen[slot] {
                return Err(format!("broken event queue: position {}", slot));
            }
            seen[slot] = true;
            at = u16_at(16 + slot * 152);
            let e: &st::AnyEvent = bytemuck::from_bytes(&raw[16 + slot * 152 + 8..16 + slot * 152 + 152]);
            let ev = if e.event_type == st::EventType::Fill as u8 {
                let f: &st::FillEvent = bytemuck::cast_ref(e);
                Ev::Fill {
                    taker_side: f.taker_side as usize,
                    maker_out: f.maker_out == 1,
                    maker_slot: f.maker_slot,
                    ts: f.timestamp,
                    seq: f.market_seq_num,
                    maker: self.oo_idx(&f.maker),
                    maker_ts: f.maker_timestamp,
                    taker: f.taker,
                    taker_cid: f.taker_client_order_id,
                    price: f.price,
                    peg_limit: f.peg_limit,
                    qty: f.quantity,
                    maker_cid: f.maker_client_order_id,
                }
            } else if e.event_type == st::EventType::Out as u8 {
                let o: &st::OutEvent = bytemuck::cast_ref(e);
                Ev::Out { side: o.side as usize, slot: o.owner_slot, ts: o.timestamp, seq: o.seq_num, owner: self.oo_idx(&o.owner), qty: o.quantity }
            } else {
                return Err(format!("unknown event type {}", e.event_type));
            };
            v.push(MEv { slot, ev });
        }
        Ok(v)
    }

    pub fn read_oo(&self, i: usize) -> Result<MOO, String> {
        let a = self.oo(i);
        let q = &a.position;
        let mut slots = vec![];
        for o in a.open_orders.iter() {
            slots.push(if o.is_free == 1 {
                None
            } else {
                if o.side_and_tree > 3 {
                    return Err("bad side_and_tree".into());
                }
                let (side, peg) = match o.side_and_tree {
                    0 => (BID, false),
                    1 => (ASK, false),
                    2 => (BID, true),
                    _ => (ASK, true),
                };
                Some(Slot { id: o.id, cid: o.client_id, price: o.locked_price, side, peg })
            });
        }
        Ok(MOO {
            key: self.oos[i],
            owner: a.owner,
            num: a.account_num,
            delegate: Option::<Pubkey>::from(a.delegate),
            pos: Pos {
                bids_base: q.bids_base_lots as i128,
                asks_base: q.asks_base_lots as i128,
                base_free: q.base_free_native as i128,
                quote_free: q.quote_free_native as i128,
                locked_fees: q.locked_maker_fees as i128,
                rebates: q.referrer_rebates_available as i128,
                penalty: q.penalty_heap_count as i128,
                maker_volume: q.maker_volume as i128,
                taker_volume: q.taker_volume as i128,
                bids_quote: q.bids_quote_lots as i128,
            },
            slots,
        })
    }

    pub fn read(&self) -> Result<State, String> {
        let m = self.market();
        let mut oos = vec![];
        for i in 0..self.oos.len() {
            oos.push(self.read_oo(i)?);
        }
        let tok = |k: &Pubkey| self.bank.token_amount(k) as i128;
        Ok(State {
            mkt: Mkt {
                seq: m.seq_num,
                fees_accrued: m.fees_accrued as i128,
                fees_to_referrers: m.fees_to_referrers as i128,
                rebates_accrued: m.referrer_rebates_accrued as i128,
                fees_available: m.fees_available as i128,
                maker_volume: m.maker_volume as i128,
                taker_volume_wo_oo: m.taker_volume_wo_oo as i128,
                base_total: m.base_deposit_total as i128,
                quote_total: m.quote_deposit_total as i128,
                expiry: m.time_expiry,
            },
            books: [self.read_book(BID)?, self.read_book(ASK)?],
            events: self.read_events()?,
            heap_seq: self.heap().header.seq_num,
            oos,
            wallets: self.toks.iter().map(|t| [tok(&t[0]), tok(&t[1])]).collect(),
            vaults: [tok(&self.k.vaults[0]), tok(&self.k.vaults[1])],
            ref_bal: tok(&self.k.ref_acct),
            fee_bal: tok(&self.k.fee_acct),
            market_lamports: self.bank.lamports(&self.k.market),
        })
    }
}
