//! C28: what the TypeScript client shows, against the accounts themselves.
use crate::engine::*;
use crate::model::*;
use crate::profiles::*;
use crate::rt::*;
use crate::sim::*;
use crate::ts_io::*;
use crate::world::*;
use openbook_v2::state as st;
use serde_json::{json, Value};
use solana_sdk::pubkey::Pubkey;

fn s(v: &Value) -> &str {
    v.as_str().unwrap_or("?")
}

fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * a.abs().max(b.abs())
}

fn pow10(n: i32) -> f64 {
    10f64.powi(n)
}

fn tick(c: &Cfg) -> f64 {
    c.qls as f64 * pow10(c.base_dec as i32 - c.quote_dec as i32) / c.bls as f64
}

/// orders with a fixed price, best first
fn fixed(w: &World, side: usize) -> Result<Vec<MOrder>, String> {
    let mut v: Vec<MOrder> = w.read_book(side)?.into_iter().filter(|o| !o.peg).collect();
    v.sort_by_key(|o| o.key);
    if side == BID {
        v.reverse();
    }
    Ok(v)
}

fn expired(o: &MOrder, now: i64) -> bool {
    o.tif != 0 && now >= 0 && now as u64 >= o.ts.saturating_add(o.tif as u64)
}

fn order_is(w: &World, side: usize, o: &MOrder, v: &Value, now: i64) -> Result<(), String> {
    let price = (o.key >> 64) as u64;
    let seq = if side == BID { !(o.key as u64) } else { o.key as u64 };
    let owner = w.oos.get(o.owner).map(hex).unwrap_or_default();
    let want = json!({"price": price.to_string(), "size": o.qty.to_string(), "seq": seq.to_string(), "key": o.key.to_string(), "owner": owner,
        "cid": o.cid.to_string(), "expired": expired(o, now), "bid": side == BID, "pegged": false, "slot": o.slot});
    for (k, x) in want.as_object().unwrap() {
        if &v[k] != x {
            return Err(format!("order {}: {} shown as {}, is {}", o.key, k, v[k], x));
        }
    }
    let ui = [price as f64 * tick(&w.cfg), o.qty as f64 * w.cfg.bls as f64 / pow10(w.cfg.base_dec as i32)];
    for i in 0..2 {
        if !close(v["ui"][i].as_f64().unwrap_or(f64::NAN), ui[i]) {
            return Err(format!("order {}: {} in units shown as {}, is {}", o.key, ["price", "size"][i], v["ui"][i], ui[i]));
        }
    }
    Ok(())
}

fn orders_are(w: &World, side: usize, want: &[MOrder], v: &Value, now: i64) -> Result<(), String> {
    let got = v.as_array().cloned().unwrap_or_default();
    for (i, o) in want.iter().enumerate() {
        match got.get(i) {
            Some(g) => order_is(w, side, o, g, now).map_err(|e| format!("position {}: {}", i, e))?,
            None => return Err(format!("order {} is not shown ({} of {})", o.key, got.len(), want.len())),
        }
    }
    if got.len() > want.len() {
        return Err(format!("{} orders shown, there are {}", got.len(), want.len()));
    }
    Ok(())
}

fn book_is(w: &World, side: usize, v: &Value, now: i64, depth: usize) -> Result<(), String> {
    let want = fixed(w, side)?;
    let pegged = w.read_book(side)?.iter().any(|o| o.peg);
    orders_are(w, side, &want, &v["fixed"], now).map_err(|e| format!("fixed orders: {}", e))?;
    if pegged {
        return Ok(()); // the client does not price pegged orders
    }
    for k in ["items", "best", "l2"] {
        if v[k].get("ok").is_none() {
            return Err(format!("{} fails: {}", k, v[k]["err"]));
        }
    }
    orders_are(w, side, &want, &v["items"]["ok"], now).map_err(|e| format!("all orders: {}", e))?;
    match want.first() {
        None => {
            if !v["best"]["ok"].is_null() {
                return Err("a best order of an empty side".into());
            }
        }
        Some(o) => order_is(w, side, o, &v["best"]["ok"], now).map_err(|e| format!("best order: {}", e))?,
    }
    let mut levels: Vec<(u64, i64)> = vec![];
    for o in &want {
        let p = (o.key >> 64) as u64;
        match levels.last_mut() {
            Some(l) if l.0 == p => l.1 += o.qty,
            _ => levels.push((p, o.qty)),
        }
    }
    levels.truncate(depth);
    let got = v["l2"]["ok"].as_array().cloned().unwrap_or_default();
    if got.len() != levels.len() {
        return Err(format!("{} levels of {}", got.len(), levels.len()));
    }
    for (l, g) in levels.iter().zip(&got) {
        if s(&g[2]) != l.0.to_string() || s(&g[3]) != l.1.to_string() {
            return Err(format!("level shown as {}, is {:?}", g, l));
        }
        let ui = [l.0 as f64 * tick(&w.cfg), l.1 as f64 * w.cfg.bls as f64 / pow10(w.cfg.base_dec as i32)];
        for i in 0..2 {
            if !close(g[i].as_f64().unwrap_or(f64::NAN), ui[i]) {
                return Err(format!("level in units shown as {}, is {:?}", g, ui));
            }
        }
    }
    Ok(())
}

fn events_are(w: &World, v: &Value) -> Result<(), String> {
    let want = w.read_events()?;
    let got = v.as_array().cloned().unwrap_or_default();
    if want.len() != got.len() {
        return Err(format!("{} events shown, {} are pending", got.len(), want.len()));
    }
    let pk = |i: usize| json!({"pk": w.oos.get(i).map(hex).unwrap_or_default()});
    let bn = |x: String| json!({ "bn": x });
    for (i, (e, g)) in want.iter().zip(&got).enumerate() {
        let f = match &e.ev {
            Ev::Fill { taker_side, maker_out, maker_slot, ts, seq, maker, maker_ts, taker, taker_cid, price, peg_limit, qty, maker_cid } => json!({
                "eventType": 0, "takerSide": taker_side, "makerOut": *maker_out as u8, "makerSlot": maker_slot, "timestamp": bn(ts.to_string()),
                "seqNum": bn(seq.to_string()), "maker": pk(*maker), "makerTimestamp": bn(maker_ts.to_string()), "taker": {"pk": hex(taker)},
                "takerClientOrderId": bn(taker_cid.to_string()), "price": bn(price.to_string()), "pegLimit": bn(peg_limit.to_string()),
                "quantity": bn(qty.to_string()), "makerClientOrderId": bn(maker_cid.to_string())}),
            Ev::Out { side, slot, ts, seq, owner, qty } => json!({
                "eventType": 1, "side": side, "ownerSlot": slot, "timestamp": bn(ts.to_string()), "seqNum": bn(seq.to_string()), "owner": pk(*owner),
                "quantity": bn(qty.to_string())}),
        };
        for (k, x) in f.as_object().unwrap() {
            if &g[k] != x {
                return Err(format!("event {}: {} shown as {}, is {}", i, k, g[k], x));
            }
        }
    }
    Ok(())
}

fn market_is(w: &World, v: &Value, now: i64, depth: usize) -> Result<(), String> {
    book_is(w, BID, &v["bids"], now, depth).map_err(|e| format!("bids: {}", e))?;
    book_is(w, ASK, &v["asks"], now, depth).map_err(|e| format!("asks: {}", e))?;
    events_are(w, &v["events"])?;
    let c = &w.cfg;
    if !close(v["tickSize"].as_f64().unwrap_or(f64::NAN), tick(c)) || !close(v["minOrderSize"].as_f64().unwrap_or(f64::NAN), c.bls as f64 / pow10(c.base_dec as i32)) {
        return Err(format!("tick size {} and minimal order {} of {:?}", v["tickSize"], v["minOrderSize"], c));
    }
    if s(&v["lots"][0]) != c.bls.to_string() || s(&v["lots"][1]) != c.qls.to_string() || s(&v["name"]) != "m" {
        return Err(format!("market shown with lots {} and name {}", v["lots"], v["name"]));
    }
    let pegs = [BID, ASK].iter().any(|x| w.read_book(*x).map(|b| b.iter().any(|o| o.peg)).unwrap_or(true));
    if !pegs && v["pretty"].get("ok").is_none() {
        return Err(format!("cannot be printed: {}", v["pretty"]["err"]));
    }
    Ok(())
}

/// native amounts held by an account, locked ones included
fn held(w: &World, i: usize) -> Result<[i128; 2], String> {
    let p = w.read_oo(i)?.pos;
    Ok([p.asks_base * w.cfg.bls as i128 + p.base_free, p.bids_quote * w.cfg.qls as i128 + p.quote_free + p.locked_fees])
}

/// the world after all events have been processed, if they can be
fn cranked(w: &World) -> Result<Option<World>, String> {
    let mut c = w.clone();
    let rem: Vec<usize> = (0..c.oos.len()).collect();
    for _ in 0..200 {
        if c.read_events()?.is_empty() {
            return Ok(Some(c));
        }
        if c.exec(&Op::Consume { limit: 8, rem: rem.clone() }).is_err() {
            return Ok(None);
        }
    }
    Ok(None)
}

fn oo_is(w: &World, i: usize, v: &Value, now: i64, after: Option<&World>) -> Result<(), String> {
    if s(&v["key"]) != hex(&w.oos[i]) {
        return Err(format!("is shown as {}", v["key"]));
    }
    let have = held(w, i)?;
    let what = ["base", "quote"];
    let dec = [w.cfg.base_dec, w.cfg.quote_dec];
    for k in 0..2 {
        if s(&v["native"][k]) != have[k].to_string() {
            return Err(format!("{} held is shown as {}, is {}", what[k], v["native"][k], have[k]));
        }
        if !close(v["ui"][k].as_f64().unwrap_or(f64::NAN), have[k] as f64 / pow10(dec[k] as i32)) {
            return Err(format!("{} held in units is shown as {}, is {} native", what[k], v["ui"][k], have[k]));
        }
    }
    if let Some(a) = after {
        let then = held(a, i)?;
        for k in 0..2 {
            if s(&v["balance"][k]) != then[k].to_string() {
                return Err(format!("{} balance is shown as {}; once the pending events are processed it is {} (now {})", what[k], v["balance"][k], then[k], have[k]));
            }
        }
    }
    let mut want: Vec<(usize, MOrder)> = vec![];
    let mut peg = false;
    let books = [w.read_book(BID)?, w.read_book(ASK)?];
    for sl in w.read_oo(i)?.slots.iter().flatten() {
        peg |= sl.peg;
        if let Some(o) = books[sl.side].iter().find(|o| o.key == sl.id && o.peg == sl.peg) {
            want.push((sl.side, o.clone()));
        }
    }
    if peg {
        return Ok(());
    }
    let got = match v["items"]["ok"].as_array() {
        Some(g) => g,
        None => return Err(format!("its orders cannot be listed: {}", v["items"]["err"])),
    };
    if got.len() != want.len() {
        return Err(format!("{} orders are shown, {} rest on the book", got.len(), want.len()));
    }
    for ((side, o), g) in want.iter().zip(got) {
        order_is(w, *side, o, g, now)?;
    }
    if v["pretty"].get("ok").is_none() {
        return Err(format!("cannot be printed: {}", v["pretty"]["err"]));
    }
    Ok(())
}

/// a second market and further accounts, some of them closed again; returns all accounts by owner
fn more_accounts(w: &mut World, r: &mut Row) -> Result<(Keys, Vec<Vec<(Pubkey, bool)>>), String> {
    let (base, quote) = match r.below(3) {
        0 => (w.k.base_mint, w.k.quote_mint),
        1 => (w.k.quote_mint, w.k.base_mint),
        _ => (key("othermint", 0), w.k.quote_mint),
    };
    put_mint(&mut w.bank, key("othermint", 0), 4);
    let spec = MarketSpec { tag: 1, base_mint: base, quote_mint: quote, oracle: [None, None], fee_admin: w.admin, oo_admin: None, ce_admin: None, close_admin: None };
    let k2 = market_keys(&mut w.bank, &spec);
    let mut i = create_market_ix(
        &k2,
        w.admin,
        openbook_v2::instruction::CreateMarket {
            name: "second".into(),
            oracle_config: st::OracleConfigParams { conf_filter: 0.1, max_staleness_slots: None },
            quote_lot_size: 1,
            base_lot_size: 1,
            maker_fee: 0,
            taker_fee: 0,
            time_expiry: 0,
        },
    );
    for m in i.accounts.iter_mut() {
        m.is_signer |= m.pubkey == k2.market;
    }
    w.bank.exec(&i).map_err(|e| format!("second market: {:?}", e))?;
    // someone who trades elsewhere first
    w.users.push(key("newcomer", 0));
    put_wallet(&mut w.bank, key("newcomer", 0));
    w.create_indexer(w.users.len() - 1).map_err(|e| format!("index account: {:?}", e))?;
    let mut lists: Vec<Vec<(Pubkey, bool)>> = vec![vec![]; w.users.len()];
    let mut nums = vec![0u32; w.users.len()];
    for (j, o) in w.cfg.oos.iter().enumerate() {
        lists[*o].push((w.oos[j], true));
        nums[*o] += 1;
    }
    let k1 = w.k.clone();
    for _ in 0..r.below(6) {
        let u = if r.chance(1, 2) { w.users.len() - 1 } else { r.idx(w.users.len()) };
        let first = r.chance(1, 2);
        w.k = if first { k1.clone() } else { k2.clone() };
        nums[u] += 1;
        let (k, res) = w.create_oo(u, nums[u], None);
        res.map_err(|e| format!("further account: {:?}", e))?;
        lists[u].push((k, first));
        if r.chance(1, 3) {
            // an account without funds can be closed
            let i = ix(
                openbook_v2::accounts::CloseOpenOrdersAccount {
                    owner: w.users[u],
                    open_orders_indexer: indexer_of(&w.users[u]),
                    open_orders_account: k,
                    sol_destination: w.users[u],
                    system_program: sys(),
                },
                openbook_v2::instruction::CloseOpenOrdersAccount {},
            );
            w.bank.exec(&i).map_err(|e| format!("closing an account: {:?}", e))?;
            lists[u].pop();
        }
    }
    w.k = k1;
    Ok((k2, lists))
}

fn fail<T>(what: &str, e: String) -> Result<T, Violation> {
    viol(what, e)
}

fn run(case: &Case, info: &mut Info, verbose: bool, pr: &Profile, pegs: bool) -> Result<(), Violation> {
    reset();
    let zero = vec![];
    let mut r = Row::new(case.last().unwrap_or(&zero));
    let at = r.below(case.len() as u64 + 1) as usize;
    let mut watched: Option<World> = None;
    let n = case.len().saturating_sub(1).max(1);
    let hist: Case = case[..n.min(case.len())].to_vec();
    let tweak = |c: &mut Cfg| {
        if !pegs {
            c.oracles = 0;
        }
        if c.mid > 1000 {
            c.mid = 1000;
        }
    };
    let (w, _, _) = history(&hist, info, verbose, pr, tweak, &mut |st, _| {
        if st.i == at + 1 {
            watched = Some(st.w.clone());
        }
        Ok(())
    })?;
    let mut w = w;
    if w.read().is_err() {
        return Ok(());
    }
    // accounts whose sums leave the 64 bit range are of no interest
    for i in 0..w.oos.len() {
        if held(&w, i).map(|h| h.iter().any(|x| *x < 0 || *x > u64::MAX as i128)).unwrap_or(true) {
            return Ok(());
        }
    }
    let now = w.bank.clock.unix_timestamp + *r.pick(&[0i64, 0, 1, -1, 5, 100, 1 << 33]);
    let depth = r.below(6) as usize;
    if let Some(o) = watched.as_ref() {
        let oos: Vec<String> = o.oos.iter().map(hex).collect();
        let a = ask(&o.bank, json!({"t": "watch", "wallet": hex(&o.users[0]), "market": hex(&o.k.market), "oos": oos}));
        if a.get("err").is_some() {
            return fail("watch", format!("loading a market fails: {}", a["err"]));
        }
        let changed: Vec<String> = w.bank.accs.iter().filter(|(k, a)| o.bank.accs.get(*k).map(|b| !std::rc::Rc::ptr_eq(*a, b)).unwrap_or(true)).map(|(k, _)| hex(k)).collect();
        info.count("watched changes", changed.len() as u64);
        let a = ask(&w.bank, json!({"t": "watchView", "changed": changed, "now": now.to_string(), "depth": depth}));
        let v = &a["ok"];
        if !v.is_object() {
            return fail("watch", format!("a watched market cannot be shown: {}", a["err"]));
        }
        if v["failed"].as_array().map(|x| !x.is_empty()).unwrap_or(true) {
            return fail("watch", format!("an account change is not taken: {}", v["failed"]));
        }
        if let Err(e) = market_is(&w, &v["market"], now, depth) {
            return fail("watch", format!("after account changes, the watched market: {}", e));
        }
        for i in 0..w.oos.len() {
            if let Err(e) = oo_is(&w, i, &v["oos"][i], now, None) {
                return fail("watch", format!("after account changes, watched account {}: {}", i, e));
            }
        }
        if v["left"] != json!(0) {
            return fail("watch", format!("{} subscriptions remain after clearing", v["left"]));
        }
    }
    let after = match cranked(&w) {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    let (k2, lists) = match more_accounts(&mut w, &mut r) {
        Ok(x) => x,
        Err(e) => {
            if verbose {
                println!("no further accounts: {}", e);
            }
            info.count("no further accounts", 1);
            return Ok(());
        }
    };
    let oos: Vec<String> = w.oos.iter().map(hex).collect();
    let mut owners: Vec<String> = w.users.iter().map(hex).collect();
    owners.push(hex(&w.admin));
    let indices: Vec<u32> = vec![1, 2, r.below(1000) as u32 + 250, 1 << 20];
    let a = ask(
        &w.bank,
        json!({"t": "view", "wallet": hex(&w.users[0]), "market": hex(&w.k.market), "oos": oos, "owners": owners, "indices": indices, "now": now.to_string(), "depth": depth}),
    );
    let v = &a["ok"];
    if !v.is_object() {
        return fail("view", format!("a market cannot be shown: {}", a["err"]));
    }
    if let Err(e) = market_is(&w, &v["market"], now, depth) {
        return fail("book", e);
    }
    for (side, k) in [(BID, "fetched_bids"), (ASK, "fetched_asks")] {
        if let Err(e) = fixed(&w, side).and_then(|f| orders_are(&w, side, &f, &v[k], now)) {
            return fail("book", format!("{}: {}", k, e));
        }
    }
    for i in 0..w.oos.len() {
        if let Err(e) = oo_is(&w, i, &v["oos"][i], now, after.as_ref()) {
            return fail("account", format!("account {}: {}", i, e));
        }
        // without a clock all orders count as live
        if let Err(e) = oo_is(&w, i, &v["reloaded"][i], 0, None) {
            return fail("account", format!("account {} after a reload: {}", i, e));
        }
    }
    for (u, v) in v["owners"].as_array().cloned().unwrap_or_default().iter().enumerate() {
        let owner = if u < w.users.len() { w.users[u] } else { w.admin };
        let none = vec![];
        let list = lists.get(u).unwrap_or(&none);
        let all: Vec<String> = list.iter().map(|x| hex(&x.0)).collect();
        let mine: Vec<String> = list.iter().filter(|x| x.1).map(|x| hex(&x.0)).collect();
        if v["indexer"] != json!(hex(&indexer_of(&owner))) {
            return fail("lists", format!("owner {}: index account {}", u, v["indexer"]));
        }
        if v["all"] != json!(all) {
            return fail("lists", format!("owner {}: accounts {} instead of {:?}", u, v["all"], all));
        }
        if v["market"] != json!(mine) {
            return fail("lists", format!("owner {}: accounts of the market {} instead of {:?}", u, v["market"], mine));
        }
        if v["one"] != json!(mine.first()) {
            return fail("lists", format!("owner {}: account of the market {} instead of {:?}", u, v["one"], mine.first()));
        }
        for (j, n) in indices.iter().enumerate() {
            if v["at"][j] != json!(hex(&oo_of(&owner, *n))) {
                return fail("lists", format!("owner {}: account number {} at {}", u, n, v["at"][j]));
            }
        }
        if u >= w.users.len() {
            if !v["loaded"].is_null() {
                return fail("lists", "an index account that does not exist is loaded".into());
            }
            continue;
        }
        let n = |side| fixed(&w, side).map(|f| f.len()).unwrap_or(0);
        let want: Vec<Value> = list.iter().map(|x| if x.1 { json!([hex(&x.0), hex(&w.k.market), n(BID), n(ASK)]) } else { json!([hex(&x.0), hex(&k2.market), 0, 0]) }).collect();
        if v["loaded"]["ok"] != json!(want) {
            return fail("lists", format!("owner {}: loaded {} instead of {:?}", u, v["loaded"], want));
        }
    }
    // what has to be given to the crank
    let ev = match w.read_events() {
        Ok(e) => e,
        Err(_) => return Ok(()),
    };
    let who = |e: &MEv| match &e.ev {
        Ev::Fill { maker, .. } => *maker,
        Ev::Out { owner, .. } => *owner,
    };
    let mut need: Vec<String> = ev.iter().filter_map(|e| w.oos.get(who(e)).map(hex)).collect();
    need.sort();
    need.dedup();
    let mut got: Vec<String> = v["consume"]["accounts"].as_array().cloned().unwrap_or_default().iter().map(|x| s(x).to_string()).collect();
    let len = got.len();
    got.sort();
    got.dedup();
    let ok = len == got.len() && got.iter().all(|x| need.contains(x)) && (got == need || got.len() >= 20);
    if !ok {
        return fail("crank", format!("accounts for the crank {}, pending events concern {:?}", v["consume"]["accounts"], need));
    }
    for i in 0..w.oos.len() {
        let mut want: Vec<usize> = ev.iter().filter(|e| who(e) == i).map(|e| e.slot).collect();
        want.sort();
        let mut got: Vec<usize> = v["consume"]["slots"][i].as_array().cloned().unwrap_or_default().iter().map(|x| x.as_u64().unwrap_or(9999) as usize).collect();
        got.sort();
        if want != got {
            return fail("crank", format!("positions of the events of account {}: {:?} instead of {:?}", i, got, want));
        }
    }
    // markets by their mints
    for k in [&w.k, &k2] {
        let a = ask(&w.bank, json!({"t": "byMints", "base": hex(&k.base_mint), "quote": hex(&k.quote_mint)}));
        let mut want: Vec<String> = [&w.k, &k2].iter().filter(|x| x.base_mint == k.base_mint && x.quote_mint == k.quote_mint).map(|x| hex(&x.market)).collect();
        want.sort();
        let mut got: Vec<String> = a["ok"]["ok"].as_array().cloned().unwrap_or_default().iter().map(|x| s(&x[0]).to_string()).collect();
        got.sort();
        if want != got {
            return fail("lists", format!("markets by mints: {} instead of {:?}", a, want));
        }
    }
    let orders = w.read_book(BID).map(|b| b.len()).unwrap_or(0) + w.read_book(ASK).map(|b| b.len()).unwrap_or(0);
    info.count("orders shown", orders as u64);
    info.count("events shown", ev.len() as u64);
    info.nontrivial = orders >= 2;
    Ok(())
}

/// units and lots: exact up to the precision of a double, and back again
fn convert(case: &Case, info: &mut Info, _verbose: bool) -> Result<(), Violation> {
    let zero = vec![];
    let mut r = Row::new(case.first().unwrap_or(&zero));
    let bd = r.below(11) as i32;
    let qd = r.below(11) as i32;
    let lot = |r: &mut Row| -> i64 {
        match r.below(4) {
            0 => 1,
            1 | 2 => 10i64.pow(r.below(9) as u32),
            _ => 1 + r.below(5000) as i64,
        }
    };
    let bls = lot(&mut r);
    let qls = lot(&mut r);
    let fee = r.range(-1000, 1000);
    let values: Vec<i64> = (0..6)
        .map(|_| {
            let b = r.below(40);
            (r.next() % (1 << b).max(1)) as i64 + if b < 3 { r.range(0, 3) } else { 0 }
        })
        .collect();
    let bank = Bank::new();
    let a = ask(
        &bank,
        json!({"t": "convert", "baseDecimals": bd, "quoteDecimals": qd, "baseLotSize": bls.to_string(), "quoteLotSize": qls.to_string(), "makerFee": fee.to_string(),
            "values": values.iter().map(|v| v.to_string()).collect::<Vec<_>>()}),
    );
    let list = match a["ok"].as_array() {
        Some(l) => l.clone(),
        None => return viol("units", format!("decimals {}/{} lots {}/{} values {:?}: {}", bd, qd, bls, qls, values, a["err"])),
    };
    let tick = qls as f64 * pow10(bd - qd) / bls as f64;
    info.summary = Some(format!("decimals {}/{} lots {}/{} values {:?}", bd, qd, bls, qls, values));
    info.sig = values.iter().fold(hash_str(&format!("{} {} {} {}", bd, qd, bls, qls)), |h, v| hash_mix(h, *v as u64));
    // twenty decimal places are kept of a price
    let fine = tick >= 1e-8;
    for (v, g) in values.iter().zip(&list) {
        let ctx = format!("decimals {}/{} lots {}/{} value {}", bd, qd, bls, qls, v);
        let x = *v as f64;
        let base = x * bls as f64 / pow10(bd);
        let quote = x * qls as f64 / pow10(qd);
        let want = [base, quote, x * tick, x / pow10(bd), x / pow10(qd)];
        let names = ["base lots", "quote lots", "price", "base amount", "quote amount"];
        for i in 0..5 {
            if i == 2 && !fine {
                continue;
            }
            if !close(g["cls"][i].as_f64().unwrap_or(f64::NAN), want[i]) {
                return viol("units", format!("{}: {} in units {} instead of {}", ctx, names[i], g["cls"][i], want[i]));
            }
            if i < 3 && !close(g["fun"][i].as_f64().unwrap_or(f64::NAN), want[i]) {
                return viol("units", format!("{}: {} in units (function) {} instead of {}", ctx, names[i], g["fun"][i], want[i]));
            }
        }
        // back: amounts that a double holds exactly
        let native = [*v as i128 * bls as i128, *v as i128 * qls as i128, *v as i128 * qls as i128 * 10i128.pow(bd as u32)];
        for i in 0..3 {
            if native[i] >= 1 << 50 || (i == 2 && (!fine || native[i] as f64 * 1e-20 / tick > 0.1)) {
                continue;
            }
            for k in ["back", "back_fun"] {
                if s(&g[k][i]) != v.to_string() {
                    return viol("units", format!("{}: {} to units and back ({}) gives {}", ctx, names[i], k, g[k][i]));
                }
            }
            info.nontrivial = true;
        }
        let want = (*v as i128 * fee as i128) / 1_000_000;
        if s(&g["fee"]) != want.to_string() {
            return viol("units", format!("{}: maker fee {} of {} is {}, not {}", ctx, fee, v, want, g["fee"]));
        }
        let want = *v as i128 * qls as i128 / bls as i128;
        if s(&g["native"]) != want.to_string() {
            return viol("units", format!("{}: native price {} instead of {}", ctx, g["native"], want));
        }
        if !close(g["misc"][0].as_f64().unwrap_or(f64::NAN), x * pow10(bd - qd)) || !close(g["misc"][1].as_f64().unwrap_or(f64::NAN), x / pow10(bd)) {
            return viol("units", format!("{}: {}", ctx, g["misc"]));
        }
    }
    Ok(())
}

fn base58(d: &[u8]) -> String {
    const A: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let mut out: Vec<u8> = vec![];
    for b in d {
        let mut c = *b as u32;
        for x in out.iter_mut() {
            c += (*x as u32) << 8;
            *x = (c % 58) as u8;
            c /= 58;
        }
        while c > 0 {
            out.push((c % 58) as u8);
            c /= 58;
        }
    }
    let mut s: String = d.iter().take_while(|b| **b == 0).map(|_| '1').collect();
    s.extend(out.iter().rev().map(|x| A[*x as usize] as char));
    s
}

/// every created market is listed once
fn markets(case: &Case, info: &mut Info, _verbose: bool) -> Result<(), Violation> {
    reset();
    let mut bank = Bank::new();
    bank.clock.unix_timestamp = 1_700_000_000;
    let admin = key("admin", 0);
    put_wallet(&mut bank, admin);
    let mints = [key("mint", 0), key("mint", 1), key("mint", 2)];
    for m in mints {
        put_mint(&mut bank, m, 6);
    }
    let zero = vec![];
    let mut r = Row::new(case.first().unwrap_or(&zero));
    let n = *r.pick(&[1u64, 0, 2, 3, 5, 49, 50, 51, 99, 100, 101, 130]);
    let real = n.min(4);
    // real markets, repeated with other keys: what matters is the transaction history
    let mut evs: Vec<(Vec<u8>, Pubkey, Pubkey, Pubkey, String)> = vec![];
    for i in 0..real {
        let b = r.idx(3);
        let q = (b + 1 + r.idx(2)) % 3;
        let name: String = format!("M{}{}", i, "x".repeat(r.below(12) as usize));
        let spec = MarketSpec { tag: 50 + i, base_mint: mints[b], quote_mint: mints[q], oracle: [None, None], fee_admin: admin, oo_admin: None, ce_admin: None, close_admin: None };
        let k = market_keys(&mut bank, &spec);
        let mut ix = create_market_ix(
            &k,
            admin,
            openbook_v2::instruction::CreateMarket {
                name: name.clone(),
                oracle_config: st::OracleConfigParams { conf_filter: 0.1, max_staleness_slots: None },
                quote_lot_size: 1,
                base_lot_size: 1,
                maker_fee: 0,
                taker_fee: 0,
                time_expiry: 0,
            },
        );
        for m in ix.accounts.iter_mut() {
            m.is_signer |= m.pubkey == k.market;
        }
        match bank.exec(&ix) {
            Ok(t) if t.cpi_events.len() == 1 => evs.push((t.cpi_events[0].clone(), k.market, mints[b], mints[q], name)),
            _ => return Ok(()), // market creation itself is judged elsewhere
        }
    }
    let mut txs = vec![];
    let mut want = vec![];
    for i in 0..n {
        let (ev, market, b, q, name) = evs[(i % real.max(1)) as usize].clone();
        let time = 1_700_000_000 + i;
        // 11 inner instructions for the accounts come before the event
        let filler = json!({"programIdIndex": 2, "accounts": [0, 1], "data": "11"});
        let mut inner: Vec<Value> = vec![filler; 11];
        let authority = if r.chance(1, 8) { 0 } else { 3 };
        inner.push(json!({"programIdIndex": 4, "accounts": [authority], "data": base58(&ev)}));
        let keys: Vec<String> = [admin, market, sys(), event_authority(), pid()].iter().map(hex).collect();
        match r.below(10) {
            0 => txs.push(Value::Null), // the node no longer has it
            1 => txs.push(json!({"time": time, "inner": null, "keys": keys})),
            2 => txs.push(json!({"time": time, "inner": [], "keys": keys})),
            _ => {
                txs.push(json!({"time": time, "inner": [{"index": 0, "instructions": inner}], "keys": keys}));
                if authority == 3 {
                    want.push(json!({"market": market.to_string(), "baseMint": b.to_string(), "quoteMint": q.to_string(), "name": name, "timestamp": time}));
                }
            }
        }
    }
    let a = ask(&bank, json!({"t": "markets", "wallet": hex(&admin), "txs": txs}));
    info.sig = case.first().map(|c| c.iter().fold(7, |h, x| hash_mix(h, *x))).unwrap_or(0);
    info.nontrivial = want.len() > 1;
    info.count("markets listed", want.len() as u64);
    let mut got = match a["ok"]["ok"].as_array() {
        Some(g) => g.clone(),
        None => return viol("markets", format!("listing markets fails: {}", a)),
    };
    let order = |v: &Value| (v["timestamp"].as_u64(), v.to_string());
    got.sort_by_key(order);
    want.sort_by_key(order);
    if got != want {
        return viol("markets", format!("of {} transactions {} markets are listed instead of {}", n, got.len(), want.len()));
    }
    Ok(())
}

const PLAIN: Profile = {
    let mut p = GENERAL;
    //     place peg edit editp multi take cid ccid call cons given dep refill settle settlx sweep deleg oracle clock misc
    p.w = [40, 0, 3, 0, 6, 8, 3, 2, 1, 4, 2, 4, 1, 2, 0, 1, 1, 0, 6, 3];
    p.extreme = 0;
    p.tif = 35;
    p.pegs = false;
    p
};
const FULL: Profile = {
    let mut p = CROWD;
    p.w[1] = 0;
    p.w[3] = 0;
    p.tif = 20;
    p.pegs = false;
    p
};
const OWN: Profile = {
    let mut p = PLAIN;
    p.same_owner = 50;
    p.fees = 1;
    p
};

pub fn plans() -> Vec<Plan> {
    const R: &str = "a case counts when at least two orders are shown";
    vec![
        Plan { name: "views", rule: R, rows: (4, 60), row_len: 72, quick: 1200, thorough: 60000, run: |c, i, v| run(c, i, v, &PLAIN, false) },
        Plan { name: "own trades", rule: R, rows: (4, 60), row_len: 72, quick: 600, thorough: 30000, run: |c, i, v| run(c, i, v, &OWN, false) },
        Plan { name: "pegs", rule: R, rows: (4, 60), row_len: 72, quick: 300, thorough: 15000, run: |c, i, v| run(c, i, v, &PEGS, true) },
        Plan { name: "crowded", rule: R, rows: (6, 20), row_len: 72, quick: 24, thorough: 1500, run: |c, i, v| run(c, i, v, &FULL, false) },
        Plan { name: "units", rule: "a case counts when a value goes to units and back", rows: (1, 1), row_len: 40, quick: 20000, thorough: 1000000, run: convert },
        Plan { name: "markets", rule: "a case counts with two or more markets", rows: (1, 1), row_len: 400, quick: 400, thorough: 20000, run: markets },
    ]
}
