//! C30: what the Rust client's calls send, executed, against the requests they name.
use crate::engine::*;
use crate::model::*;
use crate::node::*;
use crate::rt::*;
use crate::sim::*;
use crate::world::*;
use openbook_v2::state as st;
use openbook_v2::{accounts as ac, instruction as ins};
use openbook_v2_client::{Client, OpenBookClient, RpcAccountFetcher, TransactionBuilder, TransactionBuilderConfig};
use solana_sdk::address_lookup_table_account::AddressLookupTableAccount;
use solana_sdk::commitment_config::CommitmentConfig;
use solana_sdk::instruction::Instruction;
use solana_sdk::pubkey::Pubkey;
use solana_sdk::signature::{Keypair, Signature, Signer};
use std::sync::Arc;

fn client(payer: &Arc<Keypair>, price: Option<u64>) -> Client {
    Client::new(
        standin::Cluster::Localnet,
        CommitmentConfig::processed(),
        payer.clone(),
        None,
        TransactionBuilderConfig { prioritization_micro_lamports: price },
    )
}

/// runs a call of the client against a node with this state
fn ask<T>(bank: &Bank, f: impl std::future::Future<Output = anyhow::Result<T>>) -> Result<(anyhow::Result<T>, Shared), Violation> {
    ask_with(bank, &[], f)
}
fn ask_with<T>(bank: &Bank, tables: &[AddressLookupTableAccount], f: impl std::future::Future<Output = anyhow::Result<T>>) -> Result<(anyhow::Result<T>, Shared), Violation> {
    let (r, s) = with_node(bank, tables, || guarded(|| standin::block_on(f)));
    match r {
        Ok(Some(r)) => Ok((r, s)),
        Ok(None) => viol("hang", "the call never ends"),
        Err(e) => viol("panic", format!("the call panics: {}", e)),
    }
}

fn name_of(w: &World, k: &Pubkey) -> String {
    for (n, p) in [("market", w.k.market), ("bids", w.k.bids), ("asks", w.k.asks), ("event heap", w.k.heap), ("base vault", w.k.vaults[0]), ("quote vault", w.k.vaults[1]), ("referrer's tokens", w.k.ref_acct)] {
        if p == *k {
            return n.into();
        }
    }
    for (i, o) in w.oos.iter().enumerate() {
        if o == k {
            return format!("trading account {}", i);
        }
    }
    for (i, o) in w.users.iter().enumerate() {
        if o == k {
            return format!("wallet of user {}", i);
        }
        if w.toks[i].contains(k) {
            return format!("tokens of user {}", i);
        }
    }
    k.to_string()
}

/// what was sent: once, with the priority asked for, and with the effect of `ours` if its signers are there
fn judge(what: &str, w: &World, bank: &Bank, ours: &[Instruction], have: &[Pubkey], price: Option<u64>, payer: &Pubkey, r: &anyhow::Result<Signature>, s: &Shared) -> Result<Option<Bank>, Violation> {
    let s = s.borrow();
    let allowed = ours.iter().all(|i| i.accounts.iter().all(|m| !m.is_signer || have.contains(&m.pubkey)));
    let mut want = bank.clone();
    let direct = if allowed { execute(&mut want, ours).map_err(|e| format!("{:?}", e)) } else { Err("a signature is missing".into()) };
    for (tx, res) in &s.sent {
        if tx.message.static_account_keys().get(0) != Some(payer) {
            return viol("payer", format!("{}: the transaction is paid by {:?} instead of {}", what, tx.message.static_account_keys().get(0), payer));
        }
        let ixs = match unpack(tx, &s.tables) {
            Some(i) => i,
            None => return viol("signatures", format!("{}: the transaction sent is not valid", what)),
        };
        let set: Vec<&Instruction> = ixs.iter().filter(|i| i.program_id == solana_sdk::compute_budget::id()).collect();
        let p = solana_sdk::compute_budget::ComputeBudgetInstruction::set_compute_unit_price(price.unwrap_or(0));
        let n = set.iter().filter(|i| i.data.first() == p.data.first()).count();
        if n != price.is_some() as usize || (price.is_some() && !set.iter().any(|i| i.data == p.data)) {
            return viol("priority", format!("{}: a priority price of {:?} becomes {:?}", what, price, set));
        }
        let _ = res;
    }
    match (&direct, r) {
        (Ok(()), Ok(sig)) => {
            if s.sent.len() != 1 {
                return viol("sent", format!("{} sends {} transactions", what, s.sent.len()));
            }
            if s.sent[0].0.signatures.get(0) != Some(sig) {
                return viol("sent", format!("{} gives back the signature of something else", what));
            }
            match differ(&want, &s.bank) {
                Some(k) => viol("effect", format!("{}: {} is left otherwise than by the request itself", what, name_of(w, &k))),
                None => Ok(Some(want)),
            }
        }
        (Ok(()), Err(e)) => viol("outcome", format!("{} fails where the request itself succeeds: {:?}", what, e)),
        (Err(e), Ok(_)) => viol("outcome", format!("{} succeeds where the request itself fails: {}", what, e)),
        (Err(_), Err(_)) => match differ(bank, &s.bank) {
            Some(k) => viol("effect", format!("{} fails, and changes {}", what, name_of(w, &k))),
            None => Ok(None),
        },
    }
}

/// the client's form of an operation: it takes no makers along
fn reduced(op: &Op) -> Option<Op> {
    let mut op = op.clone();
    match &mut op {
        Op::Place { rem, .. } | Op::Multi { cancel: true, rem, .. } | Op::Consume { rem, .. } => rem.clear(),
        Op::CancelId { .. } | Op::CancelAll { .. } | Op::Deposit { .. } | Op::Settle { .. } => {}
        _ => return None,
    }
    Some(op)
}

fn signer_of(w: &World, op: &Op, r: &mut Row) -> (usize, usize) {
    match op {
        Op::Place { oo, signer, .. } | Op::Multi { oo, signer, .. } | Op::CancelId { oo, signer, .. } | Op::CancelAll { oo, signer, .. } | Op::Settle { oo, signer, .. } => (*signer, *oo),
        Op::Deposit { user, oo, .. } => (*user, *oo),
        _ => (r.idx(w.users.len()), r.idx(w.oos.len())),
    }
}

async fn call(w: &World, c: OpenBookClient, op: &Op, fetched: bool) -> anyhow::Result<Signature> {
    let k = &w.k;
    let market: st::Market = if fetched { c.client.rpc_anchor_account(&k.market).await? } else { *w.market() };
    match op {
        Op::Place { signer, o, wrong_vault, .. } => {
            let which = if (o.side == BID) ^ wrong_vault { 1 } else { 0 };
            let (t, v) = (w.toks[*signer][which], k.vaults[which]);
            if o.peg {
                let a = World::peg_args(o);
                c.place_order_pegged(
                    market,
                    k.market,
                    a.side,
                    a.price_offset_lots,
                    a.peg_limit,
                    a.max_base_lots,
                    a.max_quote_lots_including_fees,
                    a.client_order_id,
                    a.order_type,
                    a.expiry_timestamp,
                    a.limit,
                    t,
                    v,
                    a.self_trade_behavior,
                )
                .await
            } else {
                let a = World::order_args(o);
                c.place_order(
                    market,
                    k.market,
                    a.side,
                    a.price_lots,
                    a.max_base_lots,
                    a.max_quote_lots_including_fees,
                    a.client_order_id,
                    a.order_type,
                    a.expiry_timestamp,
                    a.limit,
                    t,
                    v,
                    a.self_trade_behavior,
                )
                .await
            }
        }
        Op::Multi { signer, typ, bids, asks, limit, .. } => {
            let l = |v: &Vec<(i64, i64, u64)>| v.iter().map(|(p, q, e)| openbook_v2::PlaceMultipleOrdersArgs { price_lots: *p, max_quote_lots_including_fees: *q, expiry_timestamp: *e }).collect();
            c.cancel_all_and_place_orders(market, k.market, w.toks[*signer][0], w.toks[*signer][1], World::typ(*typ), l(bids), l(asks), *limit).await
        }
        Op::CancelId { id, .. } => c.cancel_order(market, k.market, *id).await,
        Op::CancelAll { side, limit, .. } => {
            let s = side.map(|s| if s == BID { st::Side::Bid } else { st::Side::Ask });
            c.cancel_all_orders(market, k.market, s, *limit).await
        }
        Op::Deposit { user, b, q, .. } => c.deposit(k.market, *b, *q, w.toks[*user][0], w.toks[*user][1], k.vaults[0], k.vaults[1]).await,
        Op::Settle { dest, referrer, .. } => {
            let rf = if *referrer { Some(k.ref_acct) } else { None };
            c.settle_funds(market, k.market, w.toks[*dest][0], w.toks[*dest][1], k.vaults[0], k.vaults[1], rf).await
        }
        Op::Consume { limit, .. } => c.consume_events(market, k.market, *limit).await,
        _ => unreachable!(),
    }
}

fn gen_payer(r: &mut Row, w: &World, who: usize) -> (Arc<Keypair>, Option<u64>) {
    let p = match r.weighted(&[4, 3, 4, 3]) {
        0 => pair("user", who as u64),
        1 => pair("newcomer", 9),
        2 => pair("role", 2),
        _ => pair("role", 3),
    };
    let _ = w;
    (p, *r.pick(&[None, Some(1), Some(0), Some(77_000)]))
}

/// reading: trading accounts as the chain holds them
fn reads(w: &World, r: &mut Row, info: &mut Info) -> Result<(), Violation> {
    let u = r.idx(w.users.len());
    let owner = pair("user", u as u64);
    let cl = client(&owner, None);
    // other accounts of the program may name the owner at the same place
    let mut bank = w.bank.clone();
    if r.chance(1, 2) {
        use anchor_lang::Discriminator;
        let mut o: st::StubOracle = bytemuck::Zeroable::zeroed();
        o.owner = owner.pubkey();
        o.mint = w.k.market;
        let data = [&st::StubOracle::DISCRIMINATOR[..], bytemuck::bytes_of(&o)].concat();
        bank.accs.insert(key("stub", u as u64), std::rc::Rc::new(Acc::from_bytes(1, &data, pid())));
    }
    let (found, s) = ask(&bank, OpenBookClient::find_accounts(&cl, &owner))?;
    let found = match found {
        Ok(f) => f,
        Err(e) => return viol("find", format!("find_accounts fails: {:?}", e)),
    };
    let mut got: Vec<(Pubkey, Vec<u8>)> = found.iter().map(|(k, a)| (*k, bytemuck::bytes_of(a).to_vec())).collect();
    let mut want: Vec<(Pubkey, Vec<u8>)> = accounts_of(&w.bank, &owner.pubkey()).into_iter().map(|(k, a)| (k, bytemuck::bytes_of(&a).to_vec())).collect();
    got.sort();
    want.sort();
    if got != want {
        return viol("find", format!("find_accounts of user {} gives {} accounts, {} are there (or their data differ)", u, got.len(), want.len()));
    }
    if !s.borrow().sent.is_empty() {
        return viol("find", "find_accounts sends a transaction");
    }
    info.count("find_accounts", 1);
    let oo = r.idx(w.oos.len());
    let key = if r.chance(1, 8) { w.k.market } else { w.oos[oo] };
    let mine = want.iter().any(|x| x.0 == key);
    let cl = client(&owner, None);
    let oc = owner.clone();
    let (a, _) = ask(&w.bank, async move {
        let c = OpenBookClient::new_for_existing_account(cl, key, oc).await?;
        let a = c.openorders_account().await?;
        Ok((c.owner(), c.open_orders_account, a))
    })?;
    match (a, mine) {
        (Ok((o, k, a)), true) => {
            if o != owner.pubkey() || k != key || Some(bytemuck::bytes_of(&a)) != w.bank.get(&key).map(|x| &x.data()[8..]) {
                return viol("find", "a client for an existing account shows another one");
            }
        }
        (Ok(_), false) => return viol("find", format!("new_for_existing_account takes an account ({}) that is not the owner's", name_of(w, &key))),
        (Err(e), true) => return viol("find", format!("new_for_existing_account refuses the owner's account: {:?}", e)),
        (Err(_), false) => {}
    }
    info.count("new_for_existing_account", 1);
    Ok(())
}

fn accounts_of(bank: &Bank, owner: &Pubkey) -> Vec<(Pubkey, st::OpenOrdersAccount)> {
    use anchor_lang::Discriminator;
    bank.accs
        .iter()
        .filter(|(_, a)| a.owner == pid() && a.data().len() == 8 + std::mem::size_of::<st::OpenOrdersAccount>() && a.data()[..8] == st::OpenOrdersAccount::DISCRIMINATOR)
        .map(|(k, _)| (*k, *bank.zc::<st::OpenOrdersAccount>(k)))
        .filter(|(_, a)| a.owner == *owner)
        .collect()
}

/// ready-made instructions, sent as one transaction
fn batch(w: &World, op: &Op, i: Instruction, r: &mut Row, info: &mut Info, verbose: bool) -> Result<(), Violation> {
    let (who, oo) = signer_of(w, op, r);
    let (payer, price) = gen_payer(r, w, who);
    let owner = pair("user", who as u64);
    let mut ours = vec![i];
    if r.chance(1, 2) {
        let n = r.idx(2);
        ours.insert(n, w.build(&Op::CancelAll { oo, signer: who, side: None, limit: 2 }).unwrap());
    }
    if r.chance(1, 4) {
        ours.push(w.build(&Op::Consume { limit: 3, rem: vec![] }).unwrap());
    }
    let cl = client(&payer, price);
    let rpc = cl.rpc_async();
    let way = r.below(4);
    let mut tables = vec![];
    let mut have = vec![payer.pubkey()];
    let (res, s) = match way {
        0 | 1 => {
            let c = OpenBookClient::new_detail(cl, w.oos[oo], owner.clone(), Arc::new(RpcAccountFetcher { rpc }));
            let l = ours.clone();
            if way == 0 {
                have.push(owner.pubkey());
            }
            ask(&w.bank, async move {
                let c = c?;
                if way == 0 {
                    c.send_and_confirm_owner_tx(l).await
                } else {
                    c.send_and_confirm_permissionless_tx(l).await
                }
            })?
        }
        _ => {
            let mut all: Vec<Pubkey> = ours.iter().flat_map(|i| i.accounts.iter().map(|m| m.pubkey)).collect();
            let by = r.idx(all.len());
            all.rotate_left(by);
            if r.chance(2, 3) {
                let cut = r.idx(all.len());
                for (n, part) in [&all[..cut], &all[cut..]].iter().enumerate() {
                    tables.push(AddressLookupTableAccount { key: key("table", n as u64), addresses: part.to_vec() });
                }
                tables.truncate(1 + r.idx(2));
            }
            let mut signers = vec![&*payer];
            if r.chance(5, 6) {
                have.push(owner.pubkey());
                signers.insert(r.idx(2), &*owner);
            }
            let b = TransactionBuilder { instructions: ours.clone(), address_lookup_tables: tables.clone(), signers, payer: payer.pubkey(), config: TransactionBuilderConfig { prioritization_micro_lamports: price } };
            ask_with(&w.bank, &tables, async {
                if way == 2 {
                    b.send(&cl).await
                } else {
                    b.send_and_confirm(&cl).await
                }
            })?
        }
    };
    let what = format!("sending {} instructions ({:?} among them) by way {}", ours.len(), op, way);
    // the tables given are for making it short
    let mut all = ours.clone();
    if let Some(p) = price {
        all.insert(0, solana_sdk::compute_budget::ComputeBudgetInstruction::set_compute_unit_price(p));
    }
    if let Ok(m) = solana_sdk::message::v0::Message::try_compile(&payer.pubkey(), &all, &tables, Default::default()) {
        let room = solana_sdk::message::VersionedMessage::V0(m).serialize().len();
        if s.borrow().sent.iter().any(|(t, _)| t.message.serialize().len() > room) {
            return viol("tables", format!("{}: the transaction is longer than the lookup tables given allow", what));
        }
    }
    if verbose {
        println!("{}: {:?}", what, res);
    }
    info.count(&format!("call way {}", way), 1);
    if judge(&what, w, &w.bank, &ours, &have, price, &payer.pubkey(), &res, &s)?.is_some() {
        info.count(&format!("done way {}", way), 1);
    }
    Ok(())
}

fn trade(case: &Case, info: &mut Info, verbose: bool, pr: &Profile) -> Result<(), Violation> {
    let empty = vec![];
    let mut r0 = Row::new(case.get(0).unwrap_or(&empty));
    let cfg = gen_cfg(&mut r0, pr);
    let mut w = match World::new(cfg.clone()) {
        Ok(w) => w,
        Err(_) => return Ok(()),
    };
    let mut m = match w.model() {
        Ok(m) => m,
        Err(_) => return Ok(()),
    };
    let mut sig = hash_str(&format!("{:?}", cfg));
    let mut text = String::new();
    let (mut placed, mut other) = (0, 0);
    for row in case.iter().skip(1) {
        let mut r = Row::new(row);
        let mut dice = Row::new(&row[row.len().saturating_sub(8)..]);
        for op in gen_ops(&mut r, &w, &m, pr) {
            sig = hash_mix(sig, hash_str(&format!("{:?}", op)));
            if let Some(cop) = reduced(&op) {
                let (who, oo) = signer_of(&w, &cop, &mut dice);
                let (payer, price) = gen_payer(&mut dice, &w, who);
                let owner = pair("user", who as u64);
                let cl = client(&payer, price);
                let rpc = cl.rpc_async();
                let c = match OpenBookClient::new_detail(cl, w.oos[oo], owner.clone(), Arc::new(RpcAccountFetcher { rpc })) {
                    Ok(c) => c,
                    Err(e) => return viol("client", format!("{:?}", e)),
                };
                let fetched = (sig >> 9) % 2 == 1;
                let (res, s) = ask(&w.bank, call(&w, c, &cop, fetched))?;
                let what = format!("{} {:?} by user {} on trading account {}", cop.name(), cop, who, oo);
                if verbose {
                    println!("{} paid by {}: {:?}", what, payer.pubkey(), res);
                }
                let ours = [w.build(&cop).unwrap()];
                info.count(&format!("call {}", cop.name()), 1);
                if judge(&what, &w, &w.bank, &ours, &[owner.pubkey(), payer.pubkey()], price, &payer.pubkey(), &res, &s)?.is_some() {
                    info.count(&format!("done {}", cop.name()), 1);
                    if matches!(cop, Op::Place { .. } | Op::Multi { .. }) {
                        placed += 1;
                    } else {
                        other += 1;
                    }
                    if text.len() < 300 {
                        text.push_str(cop.name());
                        text.push_str("; ");
                    }
                }
            }
            if let (Some(i), true) = (w.build(&op), dice.chance(1, 3)) {
                let seed = dice.next() ^ sig;
                let words: Vec<u64> = (0..20).map(|n| hash_mix(seed, n)).collect();
                batch(&w, &op, i, &mut Row::new(&words), info, verbose)?;
            }
            let d = lockstep(&mut w, &mut m, &op, info);
            if d.aspects & BROKEN != 0 {
                return Ok(());
            }
            if d.adopt(&w, &mut m).is_err() {
                return Ok(());
            }
        }
        if dice.chance(1, 6) {
            reads(&w, &mut dice, info)?;
        }
    }
    info.nontrivial = placed > 0 && other > 0;
    info.sig = sig;
    info.summary = Some(text);
    Ok(())
}

fn trade_general(case: &Case, info: &mut Info, verbose: bool) -> Result<(), Violation> {
    trade(case, info, verbose, &GENERAL)
}

/// owners open and close trading accounts of two markets; a market is opened
fn lives(case: &Case, info: &mut Info, verbose: bool) -> Result<(), Violation> {
    let empty = vec![];
    let mut r0 = Row::new(case.get(0).unwrap_or(&empty));
    let mut cfg = Cfg { oos: vec![0, 1], oracles: r0.idx(3), ..Cfg::default() };
    cfg.close_admin = r0.chance(1, 2);
    let mut w = match World::new(cfg.clone()) {
        Ok(w) => w,
        Err(_) => return Ok(()),
    };
    let mut markets = vec![w.k.market];
    for n in 0..12 {
        put_wallet(&mut w.bank, key("newcomer", n));
    }
    let mut sig = 0;
    let mut text = String::new();
    let (mut made, mut closed) = (0, false);
    for row in case.iter().skip(1) {
        let mut r = Row::new(row);
        let kind = r.weighted(&[3, 6, 4, 8, 2, 2]);
        let owner = match r.below(4) {
            0 => pair("user", r.below(2)),
            _ => pair("newcomer", r.below(2)),
        };
        let me = owner.pubkey();
        let payer = if r.chance(1, 2) { owner.clone() } else { pair("newcomer", 9) };
        let price = *r.pick(&[None, Some(5), Some(0)]);
        // calls without a client of their own are paid by the payer named in the call
        let cl = client(&if r.chance(1, 2) { payer.clone() } else { pair("role", 1) }, price);
        let market = *r.pick(&markets);
        let name = match r.below(8) {
            0 => "n".repeat(r.below(40) as usize),
            1 => String::new(),
            k => ["one", "two", "one ", "oo1", "döner", "one"][k as usize - 2].to_string(),
        };
        let delegate = if r.chance(1, 2) { Some(w.users[r.idx(2)]) } else { None };
        let counter = |b: &Bank| -> Option<u32> { b.get(&indexer_of(&me)).map(|a| u32::from_le_bytes(a.data()[9..13].try_into().unwrap())) };
        let open_indexer = ix(ac::CreateOpenOrdersIndexer { payer: payer.pubkey(), owner: me, open_orders_indexer: indexer_of(&me), system_program: sys() }, ins::CreateOpenOrdersIndexer {});
        let open = |n: u32, delegate: Option<Pubkey>| {
            ix(
                ac::CreateOpenOrdersAccount { payer: payer.pubkey(), owner: me, delegate_account: delegate, open_orders_indexer: indexer_of(&me), open_orders_account: oo_of(&me, n), market, system_program: sys() },
                ins::CreateOpenOrdersAccount { name: name.clone() },
            )
        };
        let have = [me, payer.pubkey()];
        match kind {
            0 => {
                let (res, s) = ask(&w.bank, OpenBookClient::create_open_orders_indexer(&cl, &owner, &payer))?;
                if let Ok((k, _)) = &res {
                    if *k != indexer_of(&me) {
                        return viol("address", format!("create_open_orders_indexer names {} instead of the owner's list", k));
                    }
                }
                let res = res.map(|x| x.1);
                info.count("call create_open_orders_indexer", 1);
                if let Some(b) = judge("create_open_orders_indexer", &w, &w.bank, &[open_indexer], &have, price, &payer.pubkey(), &res, &s)? {
                    w.bank = b;
                    info.count("done create_open_orders_indexer", 1);
                }
            }
            1 => {
                let n = counter(&w.bank).unwrap_or(0) + *r.pick(&[1, 1, 1, 1, 1, 0, 2]);
                let (res, s) = ask(&w.bank, OpenBookClient::create_open_orders_account(&cl, market, &owner, &payer, delegate, n, &name))?;
                if let Ok((k, _)) = &res {
                    if *k != oo_of(&me, n) {
                        return viol("address", format!("create_open_orders_account names {} instead of the owner's account {}", k, n));
                    }
                }
                let res = res.map(|x| x.1);
                info.count("call create_open_orders_account", 1);
                if let Some(b) = judge(&format!("create_open_orders_account {} {:?}", n, name), &w, &w.bank, &[open(n, delegate)], &have, price, &payer.pubkey(), &res, &s)? {
                    w.bank = b;
                    made += 1;
                    info.count("done create_open_orders_account", 1);
                }
            }
            2 => {
                // not a call of the client
                let l = accounts_of(&w.bank, &me);
                if !l.is_empty() {
                    let k = l[r.idx(l.len())].0;
                    let i = ix(
                        ac::CloseOpenOrdersAccount { owner: me, open_orders_indexer: indexer_of(&me), open_orders_account: k, sol_destination: me, system_program: sys() },
                        ins::CloseOpenOrdersAccount {},
                    );
                    closed |= w.bank.exec(&i).is_ok();
                }
            }
            3 => {
                let before = accounts_of(&w.bank, &me);
                let fits = |a: &st::OpenOrdersAccount| a.market == market && a.name() == name;
                let old: Vec<Pubkey> = before.iter().filter(|(_, a)| fits(a)).map(|x| x.0).collect();
                let (res, s) = ask(&w.bank, OpenBookClient::find_or_create_account(&cl, &owner, &payer, market, &name))?;
                let s = s.borrow();
                let what = format!("find_or_create_account {:?} (the owner has {:?})", name, before.iter().map(|(_, a)| (a.account_num, a.name().to_string(), a.market == market)).collect::<Vec<_>>());
                if verbose {
                    println!("{}: {:?}", what, res);
                }
                info.count("call find_or_create_account", 1);
                if !old.is_empty() {
                    match res {
                        Ok(k) if old.contains(&k) && s.sent.is_empty() => info.count("found by name", 1),
                        Ok(k) => return viol("find or create", format!("{} gives {} ({} transactions) instead of an account that is there", what, k, s.sent.len())),
                        Err(e) => return viol("find or create", format!("{} fails: {:?}", what, e)),
                    }
                } else {
                    let mut ours = vec![];
                    if counter(&w.bank).is_none() {
                        ours.push(open_indexer);
                    }
                    let n = counter(&w.bank).unwrap_or(0) + 1;
                    ours.push(open(n, None));
                    let mut want = w.bank.clone();
                    match (execute(&mut want, &ours), res) {
                        (Ok(()), Ok(k)) => {
                            if k != oo_of(&me, n) {
                                return viol("find or create", format!("{} gives {} instead of the new account {}", what, k, n));
                            }
                            if let Some(k) = differ(&want, &s.bank) {
                                return viol("find or create", format!("{} leaves {} otherwise than the creation itself", what, name_of(&w, &k)));
                            }
                            made += 1;
                            info.count("created by name", 1);
                        }
                        (Ok(()), Err(e)) => return viol("find or create", format!("{} fails: {:?}", what, e)),
                        (Err(e), Ok(k)) => return viol("find or create", format!("{} gives {}, although creation fails: {:?}", what, k, e)),
                        (Err(_), Err(_)) => {
                            if accounts_of(&s.bank, &me).len() != before.len() {
                                return viol("find or create", format!("{} fails and leaves another account", what));
                            }
                        }
                    }
                    w.bank = s.bank.clone();
                }
            }
            4 => {
                let (found, s) = ask(&w.bank, OpenBookClient::find_accounts(&cl, &owner))?;
                let found = match found {
                    Ok(f) => f,
                    Err(e) => return viol("find", format!("find_accounts fails: {:?}", e)),
                };
                let mut got: Vec<(Pubkey, Vec<u8>)> = found.iter().map(|(k, a)| (*k, bytemuck::bytes_of(a).to_vec())).collect();
                let mut want: Vec<(Pubkey, Vec<u8>)> = accounts_of(&w.bank, &me).into_iter().map(|(k, a)| (k, bytemuck::bytes_of(&a).to_vec())).collect();
                got.sort();
                want.sort();
                if got != want || !s.borrow().sent.is_empty() {
                    return viol("find", format!("find_accounts gives {} accounts, {} are there (or their data differ)", got.len(), want.len()));
                }
            }
            _ => {
                if markets.len() > 3 {
                    continue;
                }
                let tag = markets.len() as u64;
                let mut role = |n: u64| if r.chance(1, 2) { Some(key("role", n)) } else { None };
                let spec = MarketSpec {
                    tag,
                    base_mint: w.k.base_mint,
                    quote_mint: w.k.quote_mint,
                    oracle: w.k.oracle,
                    fee_admin: key("role", 1),
                    oo_admin: role(2),
                    ce_admin: role(3),
                    close_admin: role(4),
                };
                let mut bank = w.bank.clone();
                let k = market_keys(&mut bank, &spec);
                let args = |r: &mut Row| ins::CreateMarket {
                    name: name.clone(),
                    oracle_config: st::OracleConfigParams { conf_filter: *r.pick(&[0.1, 0.02, 1.0]), max_staleness_slots: *r.pick(&[None, Some(7)]) },
                    quote_lot_size: *r.pick(&[10, 1, 0, 1000]),
                    base_lot_size: *r.pick(&[100, 1, 37]),
                    maker_fee: *r.pick(&[0, 200, -300]),
                    taker_fee: *r.pick(&[400, 1000, 300]),
                    time_expiry: *r.pick(&[0, T0 + 500, T0 - 500]),
                };
                let mut c = Row::new(&row[row.len().saturating_sub(8)..]);
                let mut c2 = Row::new(&row[row.len().saturating_sub(8)..]);
                let a = args(&mut c);
                let mut i = create_market_ix(&k, me, args(&mut c2));
                for m in i.accounts.iter_mut() {
                    if m.pubkey == k.market {
                        m.is_signer = true;
                    }
                }
                let fee = if r.chance(1, 2) { owner.clone() } else { pair("newcomer", 9) };
                let cl = client(&fee, price);
                let rpc = cl.rpc_async();
                let oc = match OpenBookClient::new_detail(cl, w.oos[0], owner.clone(), Arc::new(RpcAccountFetcher { rpc })) {
                    Ok(c) => c,
                    Err(e) => return viol("client", format!("{:?}", e)),
                };
                let mk = pair("market", tag);
                let (res, s) = ask(&bank, async {
                    oc.create_market(
                        &mk,
                        k.authority,
                        k.bids,
                        k.asks,
                        k.heap,
                        k.base_mint,
                        k.quote_mint,
                        k.oracle[0],
                        k.oracle[1],
                        k.fee_admin,
                        k.oo_admin,
                        k.ce_admin,
                        k.close_admin,
                        event_authority(),
                        a.name.clone(),
                        a.oracle_config.clone(),
                        a.base_lot_size,
                        a.quote_lot_size,
                        a.maker_fee,
                        a.taker_fee,
                        a.time_expiry,
                    )
                    .await
                })?;
                info.count("call create_market", 1);
                if let Some(b) = judge("create_market", &w, &bank, &[i], &[me, fee.pubkey(), k.market], price, &fee.pubkey(), &res, &s)? {
                    info.count("done create_market", 1);
                    w.bank = b;
                    markets.push(k.market);
                }
            }
        }
        sig = hash_mix(sig, hash_str(&format!("{} {} {} {:?} {}", kind, me, payer.pubkey(), name, market)));
        if text.len() < 300 {
            text.push_str(["indexer; ", "account; ", "close; ", "find or create; ", "find; ", "market; "][kind]);
        }
    }
    info.nontrivial = made > 1 && closed;
    info.sig = sig;
    info.summary = Some(text);
    Ok(())
}

pub fn plans() -> Vec<Plan> {
    vec![
        Plan { name: "trading", rule: "a case counts when the client placed an order and did something else with success", rows: (6, 60), row_len: 40, quick: 5000, thorough: 300000, run: trade_general },
        Plan { name: "accounts", rule: "a case counts when two accounts were made and one was closed", rows: (6, 40), row_len: 28, quick: 3000, thorough: 200000, run: lives },
        crate::fate::plan(),
    ]
}
