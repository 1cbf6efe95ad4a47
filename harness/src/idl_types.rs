//! C23: the interface description against the program's own types.
use crate::engine::*;
use crate::idl::*;
use anchor_lang::{AnchorDeserialize, Discriminator, Event, InstructionData, ToAccountMetas};
use openbook_v2::error::OpenBookError;
use openbook_v2::state as st;
use openbook_v2::{accounts as ac, instruction as ins, logs};
use rand::{RngCore, SeedableRng};
use serde_json::{json, Value};
use solana_sdk::instruction::AccountMeta;
use solana_sdk::pubkey::Pubkey;

pub trait ToV {
    fn v(&self) -> V;
}
macro_rules! nums { ($($t:ident),*) => { $(impl ToV for $t { fn v(&self) -> V { V::N(stringify!($t).to_string(), *self as i128) } })* } }
nums!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);
impl ToV for usize {
    fn v(&self) -> V {
        (*self as u64).v()
    }
}
impl ToV for f64 {
    fn v(&self) -> V {
        V::N("f64".into(), self.to_bits() as i128)
    }
}
impl ToV for f32 {
    fn v(&self) -> V {
        V::N("f32".into(), self.to_bits() as i128)
    }
}
impl ToV for bool {
    fn v(&self) -> V {
        V::B(*self)
    }
}
impl ToV for String {
    fn v(&self) -> V {
        V::S(self.as_bytes().to_vec())
    }
}
impl ToV for Pubkey {
    fn v(&self) -> V {
        V::K(*self)
    }
}
impl<T: ToV> ToV for Option<T> {
    fn v(&self) -> V {
        V::O(self.as_ref().map(|x| Box::new(x.v())))
    }
}
impl<T: ToV> ToV for Vec<T> {
    fn v(&self) -> V {
        V::L(self.iter().map(|x| x.v()).collect())
    }
}
impl<T: ToV, const N: usize> ToV for [T; N] {
    fn v(&self) -> V {
        V::L(self.iter().map(|x| x.v()).collect())
    }
}
impl ToV for openbook_v2::pubkey_option::NonZeroPubkeyOption {
    fn v(&self) -> V {
        t(&[("key", V::K(Pubkey::try_from(bytemuck::bytes_of(self)).unwrap()))])
    }
}
macro_rules! enums { ($($t:ty),*) => { $(impl ToV for $t { fn v(&self) -> V { V::E(format!("{:?}", self)) } })* } }
enums!(st::Side, st::PlaceOrderType, st::SelfTradeBehavior);
macro_rules! fields {
    ($x:expr; $($f:ident),*) => { V::T(vec![$((camel(stringify!($f)), $x.$f.v())),*]) };
}
macro_rules! structs { ($($t:ty { $($f:ident),* })*) => { $(impl ToV for $t { fn v(&self) -> V { fields!(self; $($f),*) } })* } }
structs! {
    openbook_v2::PlaceOrderArgs { side, price_lots, max_base_lots, max_quote_lots_including_fees, client_order_id, order_type, expiry_timestamp, self_trade_behavior, limit }
    openbook_v2::PlaceMultipleOrdersArgs { price_lots, max_quote_lots_including_fees, expiry_timestamp }
    openbook_v2::PlaceOrderPeggedArgs { side, price_offset_lots, peg_limit, max_base_lots, max_quote_lots_including_fees, client_order_id, order_type, expiry_timestamp, self_trade_behavior, limit }
    openbook_v2::PlaceTakeOrderArgs { side, price_lots, max_base_lots, max_quote_lots_including_fees, order_type, limit }
    st::OracleConfigParams { conf_filter, max_staleness_slots }
    st::OracleConfig { conf_filter, max_staleness_slots }
    st::Position { bids_base_lots, asks_base_lots, base_free_native, quote_free_native, locked_maker_fees, referrer_rebates_available, penalty_heap_count, maker_volume, taker_volume, bids_quote_lots }
    st::OpenOrder { id, client_id, locked_price, is_free, side_and_tree }
    st::Market { bump, base_decimals, quote_decimals, market_authority, time_expiry, collect_fee_admin, open_orders_admin, consume_events_admin, close_market_admin, name, bids, asks, event_heap, oracle_a, oracle_b, oracle_config, quote_lot_size, base_lot_size, seq_num, registration_time, maker_fee, taker_fee, fees_accrued, fees_to_referrers, referrer_rebates_accrued, fees_available, maker_volume, taker_volume_wo_oo, base_mint, quote_mint, market_base_vault, base_deposit_total, market_quote_vault, quote_deposit_total }
    st::OpenOrdersAccount { owner, market, name, delegate, account_num, bump, version, position, open_orders }
    st::OpenOrdersIndexer { bump, created_counter, addresses }
    st::StubOracle { owner, mint, price, last_update_ts, last_update_slot, deviation }
    st::OrderTreeRoot { maybe_node, leaf_count }
    st::InnerNode { tag, prefix_len, key, children, child_earliest_expiry }
    st::LeafNode { tag, owner_slot, time_in_force, key, owner, quantity, timestamp, peg_limit, client_order_id }
    st::FillEvent { event_type, taker_side, maker_out, maker_slot, timestamp, market_seq_num, maker, maker_timestamp, taker, taker_client_order_id, price, peg_limit, quantity, maker_client_order_id }
    st::OutEvent { event_type, side, owner_slot, timestamp, seq_num, owner, quantity }
    logs::DepositLog { open_orders_account, signer, base_amount, quote_amount }
    logs::FillLog { market, taker_side, maker_slot, maker_out, timestamp, seq_num, maker, maker_client_order_id, maker_fee, maker_timestamp, taker, taker_client_order_id, taker_fee_ceil, price, quantity }
    logs::TakerSignatureLog { market, seq_num }
    logs::MarketMetaDataLog { market, name, base_mint, quote_mint, base_decimals, quote_decimals, base_lot_size, quote_lot_size }
    logs::TotalOrderFillEvent { side, taker, total_quantity_paid, total_quantity_received, fees }
    logs::SetDelegateLog { open_orders_account, delegate }
    logs::SettleFundsLog { open_orders_account, base_native, quote_native, referrer_rebate, referrer }
    logs::SweepFeesLog { market, amount, receiver }
    logs::OpenOrdersPositionLog { owner, open_orders_account_num, market, bids_base_lots, bids_quote_lots, asks_base_lots, base_free_native, quote_free_native, locked_maker_fees, referrer_rebates_available, maker_volume, taker_volume }
}

/// what the description says about a value must be what the program takes it for
fn same(path: &str, idl: &V, prog: &V) -> Result<(), String> {
    match (idl, prog) {
        (V::T(_), V::T(p)) => {
            for (k, x) in p {
                // the description knows the number of a match by its older name
                let i = idl.get(k).or_else(|e| if k == "marketSeqNum" { idl.get("seqNum") } else { Err(e) });
                same(&format!("{}.{}", path, k), i.map_err(|e| format!("{}: {} in the interface", path, e))?, x)?;
            }
            Ok(())
        }
        (V::L(i), V::L(p)) if i.len() == p.len() => i.iter().zip(p).enumerate().try_for_each(|(n, (i, p))| same(&format!("{}[{}]", path, n), i, p)),
        (V::O(Some(i)), V::O(Some(p))) => same(path, i, p),
        (i, p) if i == p => Ok(()),
        _ => Err(format!("{} is {:?} by the interface, {:?} to the program", path, idl, prog)),
    }
}
/// every named part of the description is known to the program as well
fn covered(path: &str, idl: &V, prog: &V) -> Result<(), String> {
    match (idl, prog) {
        (V::T(i), V::T(_)) => i.iter().try_for_each(|(k, x)| covered(&format!("{}.{}", path, k), x, prog.get(k).map_err(|_| format!("{}.{} is not known to the program", path, k))?)),
        _ => Ok(()),
    }
}

trait Acct: Sized {
    fn mk(r: &mut Row) -> (Self, Option<Pubkey>, bool);
}
impl Acct for Pubkey {
    fn mk(r: &mut Row) -> (Self, Option<Pubkey>, bool) {
        let k = key(r);
        (k, Some(k), false)
    }
}
impl Acct for Option<Pubkey> {
    fn mk(r: &mut Row) -> (Self, Option<Pubkey>, bool) {
        let k = Some(key(r)).filter(|_| r.chance(1, 2));
        (k, k, true)
    }
}
type Given = Vec<(String, Option<Pubkey>, bool)>;
macro_rules! accts {
    ($r:expr, $t:ident, $($f:ident),*) => {{
        let mut g: Given = vec![];
        let s = ac::$t { $($f: { let (a, k, o) = Acct::mk($r); g.push((camel(stringify!($f)), k, o)); a }),* };
        (g, s.to_account_metas(None))
    }};
}
fn place(r: &mut Row) -> (Given, Vec<AccountMeta>) {
    accts!(r, PlaceOrder, signer, open_orders_account, open_orders_admin, user_token_account, market, bids, asks, event_heap, market_vault, oracle_a, oracle_b, token_program)
}
fn batch(r: &mut Row) -> (Given, Vec<AccountMeta>) {
    accts!(r, CancelAllAndPlaceOrders, signer, open_orders_account, open_orders_admin, user_quote_account, user_base_account, market, bids, asks, event_heap, market_quote_vault, market_base_vault, oracle_a, oracle_b, token_program)
}
fn cancel(r: &mut Row) -> (Given, Vec<AccountMeta>) {
    accts!(r, CancelOrder, signer, open_orders_account, market, bids, asks)
}
fn consume(r: &mut Row) -> (Given, Vec<AccountMeta>) {
    accts!(r, ConsumeEvents, consume_events_admin, market, event_heap)
}
fn deposit(r: &mut Row) -> (Given, Vec<AccountMeta>) {
    accts!(r, Deposit, owner, user_base_account, user_quote_account, open_orders_account, market, market_base_vault, market_quote_vault, token_program)
}

/// name, discriminator, reading of the arguments and writing them again, accounts
type Ins = (&'static str, [u8; 8], fn(&[u8]) -> Result<(V, Vec<u8>), String>, fn(&mut Row) -> (Given, Vec<AccountMeta>));
macro_rules! ixs {
    ($($n:literal $t:ident { $($f:ident),* } $acc:expr;)*) => {
        fn ixs() -> Vec<Ins> {
            vec![$({
                fn read(b: &[u8]) -> Result<(V, Vec<u8>), String> {
                    let x = ins::$t::try_from_slice(b).map_err(|e| format!("the program cannot read the arguments: {}", e))?;
                    let v = V::T(vec![$((camel(stringify!($f)), x.$f.v())),*]);
                    Ok((v, x.data()))
                }
                ($n, <ins::$t as Discriminator>::DISCRIMINATOR, read, $acc)
            }),*]
        }
    };
}
ixs! {
    "createMarket" CreateMarket { name, oracle_config, quote_lot_size, base_lot_size, maker_fee, taker_fee, time_expiry } |r| accts!(r, CreateMarket, market, market_authority, bids, asks, event_heap, payer, market_base_vault, market_quote_vault, base_mint, quote_mint, system_program, token_program, associated_token_program, oracle_a, oracle_b, collect_fee_admin, open_orders_admin, consume_events_admin, close_market_admin, event_authority, program);
    "closeMarket" CloseMarket {} |r| accts!(r, CloseMarket, close_market_admin, market, bids, asks, event_heap, sol_destination, token_program);
    "createOpenOrdersIndexer" CreateOpenOrdersIndexer {} |r| accts!(r, CreateOpenOrdersIndexer, payer, owner, open_orders_indexer, system_program);
    "closeOpenOrdersIndexer" CloseOpenOrdersIndexer {} |r| accts!(r, CloseOpenOrdersIndexer, owner, open_orders_indexer, sol_destination, token_program);
    "createOpenOrdersAccount" CreateOpenOrdersAccount { name } |r| accts!(r, CreateOpenOrdersAccount, payer, owner, delegate_account, open_orders_indexer, open_orders_account, market, system_program);
    "closeOpenOrdersAccount" CloseOpenOrdersAccount {} |r| accts!(r, CloseOpenOrdersAccount, owner, open_orders_indexer, open_orders_account, sol_destination, system_program);
    "placeOrder" PlaceOrder { args } place;
    "editOrder" EditOrder { client_order_id, expected_cancel_size, place_order } place;
    "editOrderPegged" EditOrderPegged { client_order_id, expected_cancel_size, place_order } place;
    "placeOrders" PlaceOrders { orders_type, bids, asks, limit } batch;
    "cancelAllAndPlaceOrders" CancelAllAndPlaceOrders { orders_type, bids, asks, limit } batch;
    "placeOrderPegged" PlaceOrderPegged { args } place;
    "placeTakeOrder" PlaceTakeOrder { args } |r| accts!(r, PlaceTakeOrder, signer, penalty_payer, market, market_authority, bids, asks, market_base_vault, market_quote_vault, event_heap, user_base_account, user_quote_account, oracle_a, oracle_b, token_program, system_program, open_orders_admin);
    "consumeEvents" ConsumeEvents { limit } consume;
    "consumeGivenEvents" ConsumeGivenEvents { slots } consume;
    "cancelOrder" CancelOrder { order_id } cancel;
    "cancelOrderByClientOrderId" CancelOrderByClientOrderId { client_order_id } cancel;
    "cancelAllOrders" CancelAllOrders { side_option, limit } cancel;
    "deposit" Deposit { base_amount, quote_amount } deposit;
    "refill" Refill { base_amount, quote_amount } deposit;
    "settleFunds" SettleFunds {} |r| accts!(r, SettleFunds, owner, penalty_payer, open_orders_account, market, market_authority, market_base_vault, market_quote_vault, user_base_account, user_quote_account, referrer_account, token_program, system_program);
    "settleFundsExpired" SettleFundsExpired {} |r| accts!(r, SettleFundsExpired, close_market_admin, owner, penalty_payer, open_orders_account, market, market_authority, market_base_vault, market_quote_vault, user_base_account, user_quote_account, referrer_account, token_program, system_program);
    "sweepFees" SweepFees {} |r| accts!(r, SweepFees, collect_fee_admin, market, market_authority, market_quote_vault, token_receiver_account, token_program);
    "setDelegate" SetDelegate {} |r| accts!(r, SetDelegate, owner, open_orders_account, delegate_account);
    "setMarketExpired" SetMarketExpired {} |r| accts!(r, SetMarketExpired, close_market_admin, market);
    "pruneOrders" PruneOrders { limit } |r| accts!(r, PruneOrders, close_market_admin, open_orders_account, market, bids, asks);
    "stubOracleCreate" StubOracleCreate { price } |r| accts!(r, StubOracleCreate, payer, owner, oracle, mint, system_program);
    "stubOracleClose" StubOracleClose {} |r| accts!(r, StubOracleClose, owner, oracle, sol_destination, token_program);
    "stubOracleSet" StubOracleSet { price } |r| accts!(r, StubOracleSet, owner, oracle);
}

fn instruction(idl: &Idl, r: &mut Row, info: &mut Info) -> Result<(), String> {
    let all = ixs();
    let (name, disc8, read, accs) = all[r.idx(all.len())];
    let d = idl.find("instructions", name)?;
    info.summary = Some(name.to_string());
    let mut b = vec![];
    let mut v = vec![];
    for a in d["args"].as_array().unwrap_or(&vec![]) {
        let x = idl.gen(&a["type"], r)?;
        idl.enc(&a["type"], &x, &mut b)?;
        v.push((a["name"].as_str().unwrap_or("").to_string(), x));
    }
    let v = V::T(v);
    info.summary = Some(format!("{} {:?}", name, v));
    let (p, again) = read(&b).map_err(|e| format!("{} {:?}: {}", name, v, e))?;
    same(name, &v, &p)?;
    covered(name, &v, &p)?;
    let sent = [&disc("global", &snake(name))[..], &b[..]].concat();
    if disc8[..] != sent[..8] || again != sent {
        return Err(format!("{}: the interface encodes {:?}, the program {:?}", name, sent, again));
    }
    let (given, metas) = accs(r);
    let list = d["accounts"].as_array().cloned().unwrap_or_default();
    if list.len() != metas.len() {
        return Err(format!("{}: {} accounts in the interface, {} in the program", name, list.len(), metas.len()));
    }
    for (a, m) in list.iter().zip(&metas) {
        let n = a["name"].as_str().unwrap_or("");
        let (_, k, opt) = given.iter().find(|g| g.0 == n).ok_or_else(|| format!("{}: the program has no account {}", name, n))?;
        let flag = |f: &str| a[f].as_bool().unwrap_or(false);
        let want = match k {
            Some(k) => AccountMeta { pubkey: *k, is_signer: flag("isSigner"), is_writable: flag("isMut") },
            None => AccountMeta { pubkey: openbook_v2::id(), is_signer: false, is_writable: false },
        };
        // the description may ask for more write access than the program needs
        if (m.pubkey, m.is_signer) != (want.pubkey, want.is_signer) || m.is_writable > want.is_writable || flag("isOptional") != *opt {
            return Err(format!("{}: account {} is {:?} (optional {}) by the interface, {:?} (optional {}) to the program", name, n, want, flag("isOptional"), m, opt));
        }
    }
    Ok(())
}

fn rng(r: &mut Row) -> rand_chacha::ChaCha8Rng {
    rand_chacha::ChaCha8Rng::seed_from_u64(r.next())
}
/// aligned random bytes
fn noise(r: &mut Row, len: usize) -> crate::rt::Acc {
    let mut a = crate::rt::Acc::new(1, len, Pubkey::default());
    let mut g = rng(r);
    g.fill_bytes(a.data_mut());
    a
}

fn pod<T: bytemuck::Pod>(a: &crate::rt::Acc) -> &T {
    bytemuck::from_bytes(a.data())
}

fn layout<T: bytemuck::Pod + ToV>(idl: &Idl, name: &str, size: usize, r: &mut Row) -> Result<(), String> {
    let ty = Idl::def(name);
    let got = (idl.size(&ty)?, std::mem::size_of::<T>());
    if got != (size, size) {
        return Err(format!("{} takes {} bytes by the interface and {} in the program; it was {}", name, got.0, got.1, size));
    }
    let a = noise(r, size);
    same(name, &idl.dec_all(&ty, a.data())?, &pod::<T>(&a).v())
}

fn disc_of<T: Discriminator>(name: &str) -> Result<(), String> {
    if T::DISCRIMINATOR != disc("account", name) {
        return Err(format!("{} starts with {:?} in the program", name, T::DISCRIMINATOR));
    }
    Ok(())
}

fn contents(idl: &Idl, r: &mut Row, info: &mut Info) -> Result<(), String> {
    let what = r.below(12);
    info.sig = hash_mix(what, r.clone().next());
    let probe = |ty: &Value, a: &crate::rt::Acc, path: String, v: V| -> Result<(), String> { same(&format!("{}.{}", ty["defined"].as_str().unwrap_or(""), path), &idl.at(ty, a.data(), &path)?, &v) };
    let name = match what {
        0 | 1 => {
            disc_of::<st::Market>("Market")?;
            layout::<st::Market>(idl, "Market", 840, r)?;
            "Market"
        }
        2 | 3 => {
            disc_of::<st::OpenOrdersAccount>("OpenOrdersAccount")?;
            layout::<st::OpenOrdersAccount>(idl, "OpenOrdersAccount", 1256, r)?;
            "OpenOrdersAccount"
        }
        4 => {
            disc_of::<st::StubOracle>("StubOracle")?;
            layout::<st::StubOracle>(idl, "StubOracle", 200, r)?;
            "StubOracle"
        }
        5 => {
            disc_of::<st::OpenOrdersIndexer>("OpenOrdersIndexer")?;
            let ty = Idl::def("OpenOrdersIndexer");
            let v = idl.gen(&ty, r)?;
            let mut b = vec![];
            idl.enc(&ty, &v, &mut b)?;
            let x = st::OpenOrdersIndexer::try_from_slice(&b).map_err(|e| format!("the program cannot read the indexer {:?}: {}", v, e))?;
            same("OpenOrdersIndexer", &v, &x.v())?;
            "OpenOrdersIndexer"
        }
        6 => {
            layout::<st::LeafNode>(idl, "LeafNode", 88, r)?;
            "LeafNode"
        }
        7 => {
            layout::<st::InnerNode>(idl, "InnerNode", 88, r)?;
            "InnerNode"
        }
        8 => {
            layout::<st::FillEvent>(idl, "FillEvent", 144, r)?;
            "FillEvent"
        }
        9 => {
            layout::<st::OutEvent>(idl, "OutEvent", 144, r)?;
            "OutEvent"
        }
        10 => {
            disc_of::<st::BookSide>("BookSide")?;
            let ty = Idl::def("BookSide");
            let n = std::mem::size_of::<st::BookSide>();
            if (idl.size(&ty)?, n) != (90944, 90944) {
                return Err(format!("BookSide takes {} bytes by the interface and {} in the program", idl.size(&ty)?, n));
            }
            let a = noise(r, n);
            let b: &st::BookSide = pod(&a);
            for i in 0..2 {
                probe(&ty, &a, format!("roots.{}", i), b.roots[i].v())?;
            }
            probe(&ty, &a, "nodes.orderTreeType".into(), b.nodes.order_tree_type.v())?;
            for i in [0, 1023, r.idx(1024), r.idx(1024)] {
                let leaf: &st::LeafNode = bytemuck::from_bytes(bytemuck::bytes_of(&b.nodes.nodes[i]));
                let at = &bytemuck::bytes_of(leaf)[0] as *const u8 as usize - a.data().as_ptr() as usize;
                let w = idl.size(&Idl::def("AnyNode"))?;
                same("LeafNode", &idl.dec_all(&Idl::def("LeafNode"), &a.data()[at..at + w])?, &leaf.v())?;
                probe(&ty, &a, format!("nodes.nodes.{}.tag", i), leaf.tag.v())?;
            }
            "BookSide"
        }
        _ => {
            disc_of::<st::EventHeap>("EventHeap")?;
            let ty = Idl::def("EventHeap");
            let n = std::mem::size_of::<st::EventHeap>();
            if (idl.size(&ty)?, n) != (91280, 91280) {
                return Err(format!("EventHeap takes {} bytes by the interface and {} in the program", idl.size(&ty)?, n));
            }
            let a = noise(r, n);
            let h: &st::EventHeap = pod(&a);
            probe(&ty, &a, "header.seqNum".into(), h.header.seq_num.v())?;
            for (f, x) in [("freeHead", h.header.free_head()), ("usedHead", h.header.used_head()), ("count", h.header.count())] {
                let v = idl.at(&ty, a.data(), &format!("header.{}", f))?.num()?;
                if v != x as i128 {
                    return Err(format!("EventHeap.header.{} is {} by the interface, {} to the program", f, v, x));
                }
            }
            for i in [0, 599, r.idx(600), r.idx(600)] {
                let e: &st::FillEvent = bytemuck::from_bytes(bytemuck::bytes_of(&h.nodes[i].event));
                let at = e as *const _ as usize - a.data().as_ptr() as usize;
                same("FillEvent", &idl.dec_all(&Idl::def("FillEvent"), &a.data()[at..at + 144])?, &e.v())?;
                probe(&ty, &a, format!("nodes.{}.event.eventType", i), e.event_type.v())?;
            }
            "EventHeap"
        }
    };
    info.summary = Some(format!("random bytes as {}", name));
    Ok(())
}

type Ev = (&'static str, [u8; 8], fn(&[u8]) -> Result<(V, Vec<u8>), String>);
macro_rules! evs {
    ($($t:ident),*) => {
        fn evs() -> Vec<Ev> {
            vec![$({
                fn read(b: &[u8]) -> Result<(V, Vec<u8>), String> {
                    let x = logs::$t::try_from_slice(b).map_err(|e| format!("the program cannot read it: {}", e))?;
                    Ok((x.v(), x.data()))
                }
                (stringify!($t), <logs::$t as Discriminator>::DISCRIMINATOR, read)
            }),*]
        }
    };
}
evs!(DepositLog, FillLog, TakerSignatureLog, MarketMetaDataLog, TotalOrderFillEvent, SetDelegateLog, SettleFundsLog, SweepFeesLog, OpenOrdersPositionLog);

fn event(idl: &Idl, r: &mut Row, info: &mut Info) -> Result<(), String> {
    let all = evs();
    let (name, disc8, read) = all[r.idx(all.len())];
    let d = idl.find("events", name)?;
    let mut b = vec![];
    let mut v = vec![];
    for f in d["fields"].as_array().unwrap_or(&vec![]) {
        let x = idl.gen(&f["type"], r)?;
        idl.enc(&f["type"], &x, &mut b)?;
        v.push((f["name"].as_str().unwrap_or("").to_string(), x));
    }
    let v = V::T(v);
    info.summary = Some(format!("{} {:?}", name, v));
    let (p, again) = read(&b).map_err(|e| format!("{} {:?}: {}", name, v, e))?;
    same(name, &v, &p)?;
    covered(name, &v, &p)?;
    let want = [&disc("event", name)[..], &b[..]].concat();
    if disc8[..] != want[..8] || again != want {
        return Err(format!("{}: {:?} by the interface, {:?} by the program", name, want, again));
    }
    Ok(())
}

macro_rules! errs { ($($e:ident),*) => { fn errs() -> Vec<(&'static str, u32, String)> { vec![$((stringify!($e), OpenBookError::$e.into(), OpenBookError::$e.to_string())),*] } } }
errs!(
    SomeError, InvalidInputNameLength, InvalidInputMarketExpired, InvalidInputMarketFees, InvalidInputLots, InvalidInputLotsSize,
    InvalidInputOrdersAmounts, InvalidInputCancelSize, InvalidInputPriceLots, InvalidInputPegLimit, InvalidInputOrderType, InvalidInputOrderId,
    InvalidInputHeapSlots, InvalidOracleTypes, InvalidSecondOracle, NoCloseMarketAdmin, InvalidCloseMarketAdmin, InvalidOpenOrdersAdmin,
    InvalidConsumeEventsAdmin, InvalidMarketVault, IndexerActiveOO, OraclePegInvalidOracleState, UnknownOracleType, OracleConfidence, OracleStale,
    OrderIdNotFound, EventHeapContainsElements, InvalidOrderPostIOC, InvalidOrderPostMarket, WouldSelfTrade, MarketHasExpired, InvalidPriceLots,
    InvalidOraclePrice, MarketHasNotExpired, NoOwnerOrDelegate, NoOwner, OpenOrdersFull, BookContainsElements, OpenOrdersOrderNotFound,
    InvalidPostAmount, DisabledOraclePeg, NonEmptyMarket, NonEmptyOpenOrdersPosition, WouldExecutePartially
);

fn error(idl: &Idl, r: &mut Row, info: &mut Info) -> Result<(), String> {
    let all = errs();
    let (name, code, text) = all[r.idx(all.len())].clone();
    info.summary = Some(format!("error {} {}", code, name));
    let d = idl.find("errors", name)?;
    if d["code"] != json!(code) || d["msg"] != json!(text) {
        return Err(format!("error {}: {} {} by the interface, {} {:?} by the program", name, d["code"], d["msg"], code, text));
    }
    Ok(())
}

pub fn run(case: &Case, info: &mut Info, verbose: bool) -> Result<(), Violation> {
    let mut r = Row::new(&case[0]);
    let all = match idls() {
        Ok(a) => a,
        Err(e) => return viol("idl", e.clone()),
    };
    let (src, idl) = &all[[0, 0, 1, 2][r.idx(4)].min(all.len() - 1)];
    let mut text = String::new();
    for (i, w) in case[1..].iter().enumerate() {
        let mut r = Row::new(w);
        let mut one = Info::default();
        let res = match r.below(8) {
            0 | 1 | 2 => instruction(idl, &mut r, &mut one),
            3 | 4 => contents(idl, &mut r, &mut one),
            5 | 6 => event(idl, &mut r, &mut one),
            _ => error(idl, &mut r, &mut one),
        };
        let s = one.summary.unwrap_or_default();
        if verbose {
            println!("{}: {}", src, s);
        }
        info.sig = hash_mix(info.sig, hash_mix(hash_str(&s), one.sig));
        if i < 2 {
            text += &s;
            text += "; ";
        }
        if let Err(e) = res {
            return viol("idl", format!("{} (interface: {})", e, src));
        }
        info.count("values", 1);
    }
    info.nontrivial = case.len() > 1;
    info.summary = Some(text);
    Ok(())
}
