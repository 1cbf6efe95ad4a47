//! C29: the instructions the TypeScript client builds, executed and compared with instructions written down
//! from the program's definition.
use crate::engine::*;
use crate::model::*;
use crate::profiles::*;
use crate::rt::*;
use crate::sim::*;
use crate::ts_io::*;
use crate::world::*;
use openbook_v2::state as st;
use openbook_v2::{accounts as ac, instruction as ins};
use serde_json::{json, Value};
use solana_sdk::instruction::{AccountMeta, Instruction};
use solana_sdk::pubkey::Pubkey;

fn pk(k: &Pubkey) -> Value {
    json!({ "pk": hex(k) })
}
fn kp(k: &Pubkey) -> Value {
    json!({ "kp": hex(k) })
}
fn bn(x: impl std::fmt::Display) -> Value {
    json!({"bn": x.to_string()})
}
fn none() -> Value {
    json!({"none": 1})
}
fn opt(k: &Option<Pubkey>) -> Value {
    k.as_ref().map(pk).unwrap_or(Value::Null)
}
fn acc(w: &World, name: &str, k: &Pubkey) -> Value {
    let _ = w;
    json!({"acc": name, "key": hex(k)})
}
fn side(s: usize) -> Value {
    if s == BID {
        json!({"bid": {}})
    } else {
        json!({"ask": {}})
    }
}
fn typ(t: Typ) -> Value {
    match t {
        Typ::Limit => json!({"limit": {}}),
        Typ::Ioc => json!({"immediateOrCancel": {}}),
        Typ::PostOnly => json!({"postOnly": {}}),
        Typ::Market => json!({"market": {}}),
        Typ::Slide => json!({"postOnlySlide": {}}),
        Typ::Fok => json!({"fillOrKill": {}}),
    }
}
fn stb(s: Stb) -> Value {
    match s {
        Stb::Decrement => json!({"decrementTake": {}}),
        Stb::CancelProvide => json!({"cancelProvide": {}}),
        Stb::Abort => json!({"abortTransaction": {}}),
    }
}
fn pks(w: &World, rem: &[usize]) -> Value {
    Value::Array(rem.iter().map(|r| pk(&w.oos[*r])).collect())
}

fn to_ix(v: &Value) -> Option<Instruction> {
    let v = v.get("ix")?;
    Some(Instruction {
        program_id: key_of(&v["p"]),
        accounts: v["k"]
            .as_array()?
            .iter()
            .map(|m| AccountMeta { pubkey: key_of(&m[0]), is_signer: m[1].as_bool().unwrap_or(false), is_writable: m[2].as_bool().unwrap_or(false) })
            .collect(),
        data: unhex(v["d"].as_str()?),
    })
}

fn ixs_of(v: &Value, out: &mut Vec<Instruction>) {
    if let Some(i) = to_ix(v) {
        out.push(i);
    } else if let Some(a) = v.as_array() {
        for x in a {
            ixs_of(x, out);
        }
    }
}

fn kps_of(v: &Value, out: &mut Vec<Pubkey>) {
    if let Some(k) = v.get("kp") {
        out.push(key_of(k));
    } else if let Some(a) = v.as_array() {
        for x in a {
            kps_of(x, out);
        }
    }
}

/// what the client gives back: instructions and further signers
struct Built {
    ixs: Vec<Instruction>,
    signers: Vec<Pubkey>,
}

fn built(what: &str, a: &Value) -> Result<Built, Violation> {
    let r = match a.get("ok").and_then(|x| x["r"].get("ok")) {
        Some(r) => r,
        None => return viol("build", format!("{} fails: {}", what, a)),
    };
    let mut b = Built { ixs: vec![], signers: vec![] };
    ixs_of(r, &mut b.ixs);
    kps_of(r, &mut b.signers);
    if b.ixs.is_empty() {
        return viol("build", format!("{} gives no instruction: {}", what, a));
    }
    Ok(b)
}

/// what the client sent: one transaction
fn sent(what: &str, a: &Value) -> Result<Built, Violation> {
    let v = &a["ok"];
    if v["r"].get("ok").is_none() {
        return viol("send", format!("{} fails: {}", what, a));
    }
    let l = v["sent"].as_array().cloned().unwrap_or_default();
    if l.len() != 1 {
        return viol("send", format!("{} sends {} transactions", what, l.len()));
    }
    let mut b = Built { ixs: vec![], signers: vec![] };
    ixs_of(&l[0]["ixs"], &mut b.ixs);
    b.signers = l[0]["signed"].as_array().cloned().unwrap_or_default().iter().map(key_of).collect();
    if b.ixs.is_empty() {
        return viol("send", format!("{} sends nothing: {}", what, a));
    }
    Ok(b)
}

/// every signature an instruction asks for is there: of the wallet, of the signers given back, or of an admin
fn signed(what: &str, b: &Built, have: &[Pubkey]) -> Result<(), Violation> {
    for i in &b.ixs {
        for m in &i.accounts {
            if m.is_signer && !have.contains(&m.pubkey) && !b.signers.contains(&m.pubkey) {
                return viol("signers", format!("{} asks for the signature of {}, which nobody gives", what, m.pubkey));
            }
        }
    }
    Ok(())
}

fn needed(what: &str, b: &Built) -> Result<(), Violation> {
    for s in &b.signers {
        if !b.ixs.iter().any(|i| i.accounts.iter().any(|m| m.is_signer && m.pubkey == *s)) {
            return viol("signers", format!("{} gives back the signer {}, whose signature no instruction takes", what, s));
        }
    }
    Ok(())
}

fn ata(owner: &Pubkey, mint: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[owner.as_ref(), spl_token::id().as_ref(), mint.as_ref()], &ata_program()).0
}

/// account creation of any size
fn create(b: &mut Bank, i: &Instruction) -> Result<(), TxErr> {
    use solana_sdk::system_instruction::SystemInstruction;
    match bincode::deserialize(&i.data) {
        Ok(SystemInstruction::CreateAccount { lamports, space, owner })
            if i.accounts.len() == 2 && i.accounts.iter().all(|m| m.is_signer && m.is_writable) && b.get(&i.accounts[1].pubkey).is_none() && b.lamports(&i.accounts[0].pubkey) > lamports =>
        {
            b.get_mut(&i.accounts[0].pubkey).lamports -= lamports;
            b.put(i.accounts[1].pubkey, Acc::new(lamports, space as usize, owner));
            Ok(())
        }
        _ => Err(TxErr::Runtime("account creation")),
    }
}

fn run_all(bank: &Bank, ixs: &[Instruction]) -> Result<Bank, TxErr> {
    let mut b = bank.clone();
    for i in ixs {
        if i.program_id == ata_program() {
            continue; // the account exists already (checked separately)
        }
        if i.program_id == sys() {
            create(&mut b, i)?;
            continue;
        }
        b.exec(i)?;
    }
    Ok(b)
}

fn differ(a: &Bank, b: &Bank) -> Option<String> {
    let keys: std::collections::BTreeSet<&Pubkey> = a.accs.keys().chain(b.accs.keys()).collect();
    for k in keys {
        let same = match (a.get(k), b.get(k)) {
            (Some(x), Some(y)) => x.lamports == y.lamports && x.owner == y.owner && x.data() == y.data(),
            (None, None) => true,
            (Some(x), None) | (None, Some(x)) => x.lamports == 0,
        };
        if !same {
            return Some(k.to_string());
        }
    }
    None
}

fn name_of(w: &World, k: &str) -> String {
    let t = |p: &Pubkey| p.to_string() == k;
    for (n, p) in [("market", w.k.market), ("bids", w.k.bids), ("asks", w.k.asks), ("event heap", w.k.heap), ("base vault", w.k.vaults[0]), ("quote vault", w.k.vaults[1])] {
        if t(&p) {
            return n.into();
        }
    }
    for (i, o) in w.oos.iter().enumerate() {
        if t(o) {
            return format!("account {}", i);
        }
    }
    k.into()
}

/// both do the same to the same state
fn same(what: &str, w: &World, ours: &[Instruction], theirs: &[Instruction]) -> Result<Option<Bank>, Violation> {
    let x = run_all(&w.bank, ours);
    let y = run_all(&w.bank, theirs);
    match (x, y) {
        (Ok(x), Ok(y)) => match differ(&x, &y) {
            Some(k) => viol("effect", format!("{}: the client's instruction leaves {} otherwise than it should", what, name_of(w, &k))),
            None => Ok(Some(y)),
        },
        (Err(_), Err(_)) => Ok(None),
        (Ok(_), Err(e)) => viol("effect", format!("{}: the client's instruction fails ({:?}) where the one it names succeeds", what, e)),
        (Err(e), Ok(_)) => viol("effect", format!("{}: the client's instruction succeeds where the one it names fails ({:?})", what, e)),
    }
}

fn admins(w: &World) -> Vec<Pubkey> {
    [w.k.oo_admin, w.k.ce_admin, w.k.close_admin].iter().flatten().copied().collect()
}

fn order_args(o: &OArgs) -> Value {
    json!({"side": side(o.side), "priceLots": bn(o.price), "maxBaseLots": bn(o.mb), "maxQuoteLotsIncludingFees": bn(o.mq), "clientOrderId": bn(o.cid),
        "orderType": typ(o.typ), "expiryTimestamp": bn(o.exp), "selfTradeBehavior": stb(o.stb), "limit": o.limit})
}

fn peg_args(o: &OArgs) -> Value {
    json!({"side": side(o.side), "priceOffsetLots": bn(o.price), "pegLimit": bn(o.peg_limit), "maxBaseLots": bn(o.mb), "maxQuoteLotsIncludingFees": bn(o.mq),
        "clientOrderId": bn(o.cid), "orderType": typ(o.typ), "expiryTimestamp": bn(o.exp), "selfTradeBehavior": stb(o.stb), "limit": o.limit})
}

/// the client's call for an operation: function, arguments, wallet, and the operation as the client can express it
fn call_for(w: &World, op: &Op, r: &mut Row) -> Option<(&'static str, Vec<Value>, Pubkey, Op)> {
    let k = &w.k;
    let market = || acc(w, "market", &k.market);
    let owner = |oo: usize| w.users[w.cfg.oos[oo]];
    // the signer is the wallet itself or a delegate next to the owner's wallet
    let who = |oo: usize, signer: usize, r: &mut Row| -> (Pubkey, Value) {
        let s = w.users[signer];
        if s == owner(oo) {
            (s, none())
        } else if r.chance(1, 2) {
            (owner(oo), kp(&s))
        } else {
            (s, kp(&s))
        }
    };
    let toks = |u: usize, i: usize| pk(&w.toks[u][i]);
    Some(match op {
        // without an oracle a pegged order is refused in any case, sooner or later
        Op::Place { oo, signer, o, rem, wrong_vault: false } if !o.peg || k.oracle[0].is_some() => {
            let (wallet, d) = who(*oo, *signer, r);
            let t = toks(*signer, if o.side == BID { 1 } else { 0 });
            if o.peg {
                ("placeOrderPeggedIx", vec![pk(&w.oos[*oo]), pk(&k.market), market(), t, opt(&k.oo_admin), peg_args(o), pks(w, rem), d], wallet, op.clone())
            } else {
                ("placeOrderIx", vec![pk(&w.oos[*oo]), pk(&k.market), market(), t, order_args(o), pks(w, rem), d], wallet, op.clone())
            }
        }
        Op::Take { user, o, rem } => (
            "placeTakeOrderIx",
            vec![pk(&k.market), market(), toks(*user, 0), toks(*user, 1), opt(&k.oo_admin), order_args(o), pks(w, rem), none()],
            w.users[*user],
            op.clone(),
        ),
        Op::Multi { oo, signer, cancel, typ: t, bids, asks, limit, .. } => {
            let (wallet, d) = who(*oo, *signer, r);
            let l = |v: &Vec<(i64, i64, u64)>| {
                Value::Array(v.iter().map(|(p, q, e)| json!({"priceLots": bn(p), "maxQuoteLotsIncludingFees": bn(q), "expiryTimestamp": bn(e)})).collect())
            };
            (
                if *cancel { "cancelAllAndPlaceOrdersIx" } else { "placeOrdersIx" },
                vec![pk(&w.oos[*oo]), pk(&k.market), market(), toks(*signer, 0), toks(*signer, 1), opt(&k.oo_admin), typ(*t), l(bids), l(asks), json!(limit), d],
                wallet,
                Op::Multi { oo: *oo, signer: *signer, cancel: *cancel, typ: *t, bids: bids.clone(), asks: asks.clone(), limit: *limit, rem: vec![] },
            )
        }
        Op::CancelId { oo, signer, id } => {
            let (wallet, d) = who(*oo, *signer, r);
            ("cancelOrderByIdIx", vec![pk(&w.oos[*oo]), acc(w, "openOrdersAccount", &w.oos[*oo]), market(), bn(id), d], wallet, op.clone())
        }
        Op::CancelCid { oo, signer, cid } => {
            let (wallet, d) = who(*oo, *signer, r);
            ("cancelOrderByClientIdIx", vec![pk(&w.oos[*oo]), acc(w, "openOrdersAccount", &w.oos[*oo]), market(), bn(cid), d], wallet, op.clone())
        }
        Op::CancelAll { oo, signer, side: s, limit } => {
            let (wallet, d) = who(*oo, *signer, r);
            (
                "cancelAllOrdersIx",
                vec![pk(&w.oos[*oo]), acc(w, "openOrdersAccount", &w.oos[*oo]), market(), json!(limit), s.map(side).unwrap_or(Value::Null), d],
                wallet,
                op.clone(),
            )
        }
        Op::Settle { oo, signer, dest, referrer } => {
            let (wallet, d) = who(*oo, *signer, r);
            let rf = if *referrer { pk(&k.ref_acct) } else { Value::Null };
            (
                "settleFundsIx",
                vec![pk(&w.oos[*oo]), acc(w, "openOrdersAccount", &w.oos[*oo]), pk(&k.market), market(), toks(*dest, 0), toks(*dest, 1), rf, pk(&w.users[*signer]), d],
                wallet,
                op.clone(),
            )
        }
        Op::Deposit { oo, b, q, .. } => {
            let u = w.cfg.oos[*oo];
            (
                "depositIx",
                vec![pk(&w.oos[*oo]), acc(w, "openOrdersAccount", &w.oos[*oo]), market(), toks(u, 0), toks(u, 1), bn(b), bn(q)],
                w.users[u],
                Op::Deposit { user: u, oo: *oo, b: *b, q: *q },
            )
        }
        Op::Consume { limit, rem } => ("consumeEventsIx", vec![pk(&k.market), market(), bn(limit), pks(w, rem)], w.users[0], op.clone()),
        Op::ConsumeGiven { slots, rem } => (
            "consumeGivenEventsIx",
            vec![pk(&k.market), market(), Value::Array(slots.iter().map(bn).collect()), pks(w, rem)],
            w.users[0],
            op.clone(),
        ),
        Op::Prune { oo, limit } if k.close_admin.is_some() => {
            let c = k.close_admin.unwrap();
            let (wallet, d) = if r.chance(1, 2) { (c, Value::Null) } else { (w.users[0], kp(&c)) };
            ("pruneOrdersIx", vec![pk(&k.market), market(), pk(&w.oos[*oo]), json!(limit), d], wallet, op.clone())
        }
        _ => return None,
    })
}

fn check_op(w: &World, op: &Op, r: &mut Row, info: &mut Info) -> Result<(), Violation> {
    let (f, args, wallet, ours) = match call_for(w, op, r) {
        Some(x) => x,
        None => return Ok(()),
    };
    // numbers outside of the instruction's types cannot be given
    let a = ask(&w.bank, json!({"t": "call", "wallet": hex(&wallet), "fn": f, "args": args}));
    let b = built(f, &a)?;
    let what = format!("{} for {:?}", f, ours);
    let mut have = admins(w);
    have.push(wallet);
    signed(&what, &b, &have)?;
    needed(&what, &b)?;
    let i = w.build(&ours).unwrap();
    info.count(&format!("built {}", f), 1);
    if same(&what, w, &[i], &b.ixs)?.is_some() {
        info.count(&format!("executed {}", f), 1);
    }
    Ok(())
}

/// ATAs with the money of the user's other token accounts
fn with_atas(w: &World, u: usize) -> World {
    let mut c = w.clone();
    let owner = w.users[u];
    for (i, mint) in [w.k.base_mint, w.k.quote_mint].iter().enumerate() {
        let a = ata(&owner, mint);
        let amount = w.bank.token_amount(&w.toks[u][i]);
        put_token(&mut c.bank, a, *mint, owner, amount);
        c.toks[u][i] = a;
    }
    c
}

/// the OpenOrders class: places, cancels and settles for its account
fn check_hi(w: &World, m: &Model, pr: &Profile, r: &mut Row, info: &mut Info) -> Result<(), Violation> {
    let oo = r.idx(w.oos.len());
    let u = w.cfg.oos[oo];
    let owner = w.users[u];
    let mut c = with_atas(w, u);
    let delegate = if r.chance(1, 4) {
        let d = m.s.oos[oo].delegate.filter(|_| r.chance(3, 4));
        Some(d.and_then(|d| w.users.iter().position(|x| *x == d)).unwrap_or_else(|| r.idx(w.users.len())))
    } else {
        None
    };
    let signer = delegate.unwrap_or(u);
    // the delegate acts on the owner's token accounts
    let mut d = c.clone();
    if delegate.is_some() {
        d.toks[signer] = c.toks[u];
    }
    let referrer = if r.chance(1, 3) { Some(key("refowner", 0)) } else { None };
    if let Some(x) = referrer {
        let a = ata(&x, &w.k.quote_mint);
        put_token(&mut c.bank, a, w.k.quote_mint, x, 5);
        put_token(&mut d.bank, a, w.k.quote_mint, x, 5);
        d.k.ref_acct = a;
    }
    let direct = r.chance(1, 2);
    let mut q = json!({"t": "hi", "wallet": hex(&owner), "direct": direct, "market": hex(&w.k.market), "oo": hex(&w.oos[oo]), "book": false});
    if let Some(x) = delegate {
        q["delegate"] = json!(hex(&w.users[x]));
    }
    if let Some(x) = referrer {
        q["referrer"] = json!(hex(&x));
    }
    let mut have = admins(w);
    match r.below(4) {
        0 | 1 => {
            let mut o = gen_order(r, w, m, pr, false);
            o.price = o.price.clamp(1, 100_000);
            o.mb = o.mb.clamp(1, 1 << 24);
            if o.cid == 0 || o.cid >= 1 << 50 {
                o.cid = 1 + r.below(1 << 40);
            }
            o.exp = o.exp.min(1 << 50);
            let t = w.cfg.qls as f64 * 10f64.powi(w.cfg.base_dec as i32 - w.cfg.quote_dec as i32) / w.cfg.bls as f64;
            let native = [o.mb as f64 * w.cfg.bls as f64, o.price as f64 * w.cfg.qls as f64 * 10f64.powi(w.cfg.base_dec as i32)];
            if native.iter().any(|x| *x >= 1e14) {
                return Ok(());
            }
            let mut a = json!({"side": side(o.side), "price": o.price as f64 * t, "size": o.mb as f64 * w.cfg.bls as f64 / 10f64.powi(w.cfg.base_dec as i32),
                "clientOrderId": o.cid, "orderType": typ(o.typ), "expiryTimestamp": o.exp, "selfTradeBehavior": stb(o.stb), "matchLoopLimit": o.limit});
            if r.chance(1, 2) && o.mq > 0 && o.mq < 1 << 50 {
                a["quoteLimit"] = json!(o.mq);
            } else {
                o.mq = i64::MAX;
            }
            for (f, v) in [("orderType", 0), ("selfTradeBehavior", 1), ("matchLoopLimit", 2), ("expiryTimestamp", 3)] {
                if r.chance(1, 4) {
                    a.as_object_mut().unwrap().remove(f);
                    match v {
                        0 => o.typ = Typ::Limit,
                        1 => o.stb = Stb::Decrement,
                        2 => o.limit = 16,
                        _ => o.exp = 0,
                    }
                }
            }
            let pegs = m.s.books[1 - o.side].iter().any(|x| x.peg);
            q["book"] = json!(!pegs && r.chance(2, 3));
            q["fn"] = json!("placeOrder");
            q["args"] = json!([a]);
            let ans = ask(&c.bank, q);
            let b = sent("placeOrder", &ans)?;
            let what = format!("placeOrder {:?} account {} signer {}", o, oo, signer);
            have.push(owner);
            signed(&what, &Built { ixs: b.ixs.clone(), signers: b.signers.clone() }, &admins(w))?;
            // the accounts of possible counterparts are its own choice
            let mut rem = vec![];
            for i in b.ixs.iter().filter(|i| i.program_id == pid()) {
                for x in i.accounts.iter().skip(12) {
                    match w.oos.iter().position(|y| *y == x.pubkey) {
                        Some(p) if x.is_writable && !rem.contains(&p) => rem.push(p),
                        _ => return viol("send", format!("{}: further account {}", what, x.pubkey)),
                    }
                }
            }
            let i = d.build(&Op::Place { oo, signer, o, rem, wrong_vault: false }).unwrap();
            info.count("sent placeOrder", 1);
            if same(&what, &d, &[i], &b.ixs)?.is_some() {
                info.count("executed placeOrder", 1);
            }
        }
        2 => {
            let slots: Vec<Slot> = m.s.oos[oo].slots.iter().flatten().cloned().collect();
            let by_id = r.chance(1, 2);
            let s = if slots.is_empty() { None } else { Some(slots[r.idx(slots.len())].clone()) };
            let id = s.as_ref().map(|s| s.id).unwrap_or(r.next() as u128);
            let cid = s.as_ref().map(|s| s.cid).unwrap_or(7);
            let (a, op) = if by_id {
                (json!({"leafNode": {"key": bn(id)}}), Op::CancelId { oo, signer, id })
            } else {
                if cid >= 1 << 53 {
                    return Ok(());
                }
                (json!({ "clientOrderId": cid }), Op::CancelCid { oo, signer, cid })
            };
            q["fn"] = json!("cancelOrder");
            q["args"] = json!([a]);
            let ans = ask(&c.bank, q);
            let b = sent("cancelOrder", &ans)?;
            let what = format!("cancelOrder {:?}", op);
            signed(&what, &b, &[])?;
            info.count("sent cancelOrder", 1);
            if same(&what, &d, &[d.build(&op).unwrap()], &b.ixs)?.is_some() {
                info.count("executed cancelOrder", 1);
            }
        }
        _ => {
            let s = *r.pick(&[None, Some(BID), Some(ASK)]);
            q["fn"] = json!("cancelAllOrders");
            q["args"] = json!([s.map(side)]);
            let ans = ask(&c.bank, q);
            let b = sent("cancelAllOrders", &ans)?;
            let what = format!("cancelAllOrders {:?} account {} signer {}", s, oo, signer);
            signed(&what, &b, &[])?;
            for i in b.ixs.iter().filter(|i| i.program_id == ata_program()) {
                let a = &i.accounts;
                let ok = a.len() >= 6 && i.data == [1] && a[0].is_signer && a[1].pubkey == ata(&a[2].pubkey, &a[3].pubkey) && a[4].pubkey == sys() && a[5].pubkey == spl_token::id();
                if !ok {
                    return viol("send", format!("{}: creation of a token account {:?}", what, i));
                }
            }
            let ours = [
                d.build(&Op::CancelAll { oo, signer, side: s, limit: 24 }).unwrap(),
                d.build(&Op::Settle { oo, signer, dest: signer, referrer: referrer.is_some() }).unwrap(),
            ];
            info.count("sent cancelAllOrders", 1);
            if same(&what, &d, &ours, &b.ixs)?.is_some() {
                info.count("executed cancelAllOrders", 1);
            }
        }
    }
    Ok(())
}

/// events of one account
fn check_consume(w: &World, m: &Model, r: &mut Row, info: &mut Info) -> Result<(), Violation> {
    if w.oos.is_empty() {
        return Ok(());
    }
    let oo = r.idx(w.oos.len());
    let a = ask(&w.bank, json!({"t": "call", "wallet": hex(&w.users[0]), "fn": "consumeEventsForAccountIx", "args": [pk(&w.k.market), acc(w, "market", &w.k.market), pk(&w.oos[oo])]}));
    let what = format!("consumeEventsForAccountIx for account {}", oo);
    let b = built(&what, &a)?;
    let mut have = admins(w);
    have.push(w.users[0]);
    signed(&what, &b, &have)?;
    let who = |e: &MEv| match &e.ev {
        Ev::Fill { maker, .. } => *maker,
        Ev::Out { owner, .. } => *owner,
    };
    let n = m.s.events.iter().filter(|e| who(e) == oo).count();
    let ours = w.build(&Op::Consume { limit: 8, rem: (0..w.oos.len()).collect() }).unwrap();
    match run_all(&w.bank, &b.ixs) {
        Err(e) => {
            if run_all(&w.bank, &[ours]).is_ok() {
                return viol("effect", format!("{} fails: {:?}", what, e));
            }
        }
        Ok(x) => {
            let mut c = w.clone();
            c.bank = x;
            let left = match c.read_events() {
                Ok(l) => l,
                Err(_) => return Ok(()),
            };
            let still = left.iter().filter(|e| who(e) == oo).count();
            if still > n.saturating_sub(8) {
                return viol("effect", format!("{}: {} of {} events are left", what, still, n));
            }
            if n > 0 {
                info.count("executed consumeEventsForAccountIx", 1);
            }
        }
    }
    Ok(())
}

/// accounts are created and closed
fn check_accounts(w: &World, r: &mut Row, info: &mut Info) -> Result<(), Violation> {
    let wallet = w.users[r.idx(w.users.len())];
    let fresh = key("newcomer", r.below(3));
    let mut c = w.clone();
    put_wallet(&mut c.bank, fresh);
    let owner = *r.pick(&[wallet, w.users[0], fresh, fresh]);
    let delegate = if r.chance(1, 2) { Some(w.users[r.idx(w.users.len())]) } else { None };
    let name = format!("n{}", "y".repeat(r.below(30) as usize));
    let mut last = owner;
    let rounds = 1 + r.below(3);
    let again = r.chance(1, 2);
    for round in 0..rounds + 2 {
        if round >= rounds {
            // another one after closing one
            if !again || round > rounds {
                break;
            }
            let i = ix(
                ac::CloseOpenOrdersAccount { owner, open_orders_indexer: indexer_of(&owner), open_orders_account: last, sol_destination: wallet, system_program: sys() },
                ins::CloseOpenOrdersAccount {},
            );
            if c.bank.exec(&i).is_err() {
                break;
            }
        }
        let known = c.bank.get(&indexer_of(&owner)).is_some();
        let n = if known { indexer(&c.bank, &owner).0 } else { 0 } + 1;
        let mut ours = vec![];
        if !known {
            ours.push(ix(
                ac::CreateOpenOrdersIndexer { payer: wallet, owner, open_orders_indexer: indexer_of(&owner), system_program: sys() },
                ins::CreateOpenOrdersIndexer {},
            ));
        }
        let k = oo_of(&owner, n);
        ours.push(ix(
            ac::CreateOpenOrdersAccount { payer: wallet, owner, delegate_account: delegate, open_orders_indexer: indexer_of(&owner), open_orders_account: k, market: w.k.market, system_program: sys() },
            ins::CreateOpenOrdersAccount { name: name.clone() },
        ));
        let (what, b) = if r.chance(1, 2) {
            let ixr = if r.chance(1, 2) { none() } else { pk(&indexer_of(&owner)) };
            let a = ask(&c.bank, json!({"t": "call", "wallet": hex(&wallet), "fn": "createOpenOrdersIx", "args": [pk(&w.k.market), name, pk(&owner), opt(&delegate), ixr]}));
            let b = built("createOpenOrdersIx", &a)?;
            if a["ok"]["r"]["ok"][1] != pk(&k) {
                return viol("effect", format!("createOpenOrdersIx names {} instead of account {} of the owner", a["ok"]["r"]["ok"][1], n));
            }
            signed("createOpenOrdersIx", &b, &[wallet, owner])?;
            ("createOpenOrdersIx", b)
        } else {
            let o = if owner == wallet { none() } else { kp(&owner) };
            let a = ask(&c.bank, json!({"t": "call", "wallet": hex(&wallet), "direct": r.chance(1, 2), "fn": "createOpenOrders", "args": [kp(&wallet), pk(&w.k.market), name, o, opt(&delegate)]}));
            let b = sent("createOpenOrders", &a)?;
            if a["ok"]["r"]["ok"] != pk(&k) {
                return viol("effect", format!("createOpenOrders names {} instead of account {} of the owner", a["ok"]["r"]["ok"], n));
            }
            signed("createOpenOrders", &b, &[])?;
            ("createOpenOrders", b)
        };
        info.count("accounts created", 1);
        match same(&format!("{} round {}", what, round), &c, &ours, &b.ixs)? {
            Some(x) => c.bank = x,
            None => break,
        }
        last = k;
    }
    // closing
    let dest = if r.chance(1, 2) { None } else { Some(w.users[r.idx(w.users.len())]) };
    let with_ixr = r.chance(1, 2);
    let target = if r.chance(1, 2) { last } else { w.oos[r.idx(w.oos.len())] };
    let i = ix(
        ac::CloseOpenOrdersAccount { owner, open_orders_indexer: indexer_of(&owner), open_orders_account: target, sol_destination: dest.unwrap_or(wallet), system_program: sys() },
        ins::CloseOpenOrdersAccount {},
    );
    let d = dest.as_ref().map(pk).unwrap_or(none());
    let x = if with_ixr { pk(&indexer_of(&owner)) } else { none() };
    let a = ask(&c.bank, json!({"t": "call", "wallet": hex(&wallet), "fn": "closeOpenOrdersAccountIx", "args": [kp(&owner), pk(&target), d, x]}));
    let b = built("closeOpenOrdersAccountIx", &a)?;
    signed("closeOpenOrdersAccountIx", &b, &[wallet])?;
    needed("closeOpenOrdersAccountIx", &b)?;
    if let Some(x) = same("closeOpenOrdersAccountIx", &c, &[i], &b.ixs)? {
        c.bank = x;
        info.count("executed closeOpenOrdersAccountIx", 1);
    }
    let x = if with_ixr { pk(&indexer_of(&owner)) } else { none() };
    let a = ask(&c.bank, json!({"t": "call", "wallet": hex(&wallet), "fn": "closeOpenOrdersIndexerIx", "args": [kp(&owner), acc(w, "market", &w.k.market), x]}));
    let b = built("closeOpenOrdersIndexerIx", &a)?;
    signed("closeOpenOrdersIndexerIx", &b, &[wallet])?;
    needed("closeOpenOrdersIndexerIx", &b)?;
    // the rent goes to the wallet or the owner
    let ours: Vec<Instruction> = [wallet, owner]
        .iter()
        .map(|d| {
            ix(
                ac::CloseOpenOrdersIndexer { owner, open_orders_indexer: indexer_of(&owner), sol_destination: *d, token_program: spl_token::id() },
                ins::CloseOpenOrdersIndexer {},
            )
        })
        .collect();
    let first = same("closeOpenOrdersIndexerIx", &c, &ours[..1], &b.ixs);
    let r = if first.is_err() { same("closeOpenOrdersIndexerIx", &c, &ours[1..], &b.ixs) } else { first };
    if r?.is_some() {
        info.count("executed closeOpenOrdersIndexerIx", 1);
    }
    // an index account of its own
    let other = key("newcomer", 7);
    put_wallet(&mut c.bank, other);
    let a = ask(&c.bank, json!({"t": "call", "wallet": hex(&other), "fn": "createOpenOrdersIndexer", "args": [pk(&indexer_of(&other))]}));
    let b = sent("createOpenOrdersIndexer", &a)?;
    signed("createOpenOrdersIndexer", &b, &[])?;
    let i = ix(
        ac::CreateOpenOrdersIndexer { payer: other, owner: other, open_orders_indexer: indexer_of(&other), system_program: sys() },
        ins::CreateOpenOrdersIndexer {},
    );
    same("createOpenOrdersIndexer", &c, &[i], &b.ixs)?;
    Ok(())
}

/// created_counter and addresses of an index account, read from its bytes
fn indexer(bank: &Bank, owner: &Pubkey) -> (u32, usize) {
    let a = bank.get(&indexer_of(owner)).unwrap();
    let d = a.data();
    let u = |o: usize| u32::from_le_bytes(d[o..o + 4].try_into().unwrap());
    (u(9), u(13) as usize)
}

/// a market is created as asked for
fn check_market(w: &World, r: &mut Row, info: &mut Info) -> Result<(), Violation> {
    let payer = w.users[r.idx(w.users.len())];
    let mint = [w.k.base_mint, w.k.quote_mint];
    let flip = r.idx(2);
    let (base, quote) = (mint[flip], mint[1 - flip]);
    let name = "x".repeat(r.below(18) as usize);
    let qls = *r.pick(&[1i64, 10, 1000, 0, 77]);
    let bls = *r.pick(&[1i64, 100, 1_000_000, -1, 13]);
    let maker = *r.pick(&[0i64, 100, -100, 500, -5000, 1_000_000]);
    let taker = *r.pick(&[0i64, 200, 1000, 6000, -1]);
    let expiry = *r.pick(&[0i64, 0, 1, -1]) * (w.bank.clock.unix_timestamp + 1000);
    let o = [0, 1].map(|i| if r.chance(2, 3) { w.k.oracle[i] } else { None });
    let role = |r: &mut Row, n: u64| if r.chance(1, 2) { Some(key("role", n)) } else { None };
    let (oa, ca, cl) = (role(r, 2), role(r, 3), role(r, 4));
    let fee = role(r, 1);
    let conf = *r.pick(&[0.1f32, 0.5, 0.0, 2.0]);
    let stale = *r.pick(&[None, Some(100u32), Some(0), Some(u32::MAX)]);
    let given = r.chance(1, 2);
    let market = key("tsmarket", r.below(2));
    let default_oracle = r.chance(1, 4);
    let cfg = if default_oracle { none() } else { json!({"confFilter": conf, "maxStalenessSlots": stale}) };
    let a = ask(
        &w.bank,
        json!({"t": "call", "wallet": hex(&payer), "fn": "createMarketIx", "args": [pk(&payer), name, pk(&quote), pk(&base), bn(qls), bn(bls), bn(maker), bn(taker), bn(expiry),
            opt(&o[0]), opt(&o[1]), opt(&oa), opt(&ca), opt(&cl), cfg, if given { kp(&market) } else { none() }, fee.as_ref().map(pk).unwrap_or(none())]}),
    );
    let b = built("createMarketIx", &a)?;
    signed("createMarketIx", &b, &[payer])?;
    needed("createMarketIx", &b)?;
    let n = b.ixs.len();
    let last = &b.ixs[n - 1];
    if n != 4 || last.accounts.len() < 21 {
        // other ways to set up the accounts are fine as long as the result is right
        info.count("market set up otherwise", 1);
    }
    // ours: the same keys, roles by name
    let (mk, bids, asks, heap) = (last.accounts[0].pubkey, last.accounts[2].pubkey, last.accounts[3].pubkey, last.accounts[4].pubkey);
    if given && mk != market {
        return viol("effect", format!("createMarketIx uses {} instead of the given market key", mk));
    }
    let authority = Pubkey::find_program_address(&[b"Market", mk.as_ref()], &pid()).0;
    let k = Keys {
        market: mk,
        authority,
        bids,
        asks,
        heap,
        base_mint: base,
        quote_mint: quote,
        vaults: [ata(&authority, &base), ata(&authority, &quote)],
        oracle: o,
        fee_admin: fee.unwrap_or(payer),
        oo_admin: oa,
        ce_admin: ca,
        close_admin: cl,
        ref_acct: mk,
        fee_acct: mk,
    };
    let mut ours: Vec<Instruction> = [(bids, std::mem::size_of::<st::BookSide>()), (asks, std::mem::size_of::<st::BookSide>()), (heap, std::mem::size_of::<st::EventHeap>())]
        .iter()
        .map(|(a, len)| {
            let space = *len as u64 + 8;
            solana_sdk::system_instruction::create_account(&payer, a, (space + 128) * 6960, space, &pid())
        })
        .collect();
    let mut i = create_market_ix(
        &k,
        payer,
        ins::CreateMarket {
            name: name.clone(),
            oracle_config: if default_oracle {
                st::OracleConfigParams { conf_filter: 0.1, max_staleness_slots: Some(100) }
            } else {
                st::OracleConfigParams { conf_filter: conf, max_staleness_slots: stale }
            },
            quote_lot_size: qls,
            base_lot_size: bls,
            maker_fee: maker,
            taker_fee: taker,
            time_expiry: expiry,
        },
    );
    for m in i.accounts.iter_mut() {
        m.is_signer |= m.pubkey == mk;
    }
    ours.push(i);
    info.count("built createMarketIx", 1);
    if same("createMarketIx", w, &ours, &b.ixs)?.is_some() {
        info.count("executed createMarketIx", 1);
    }
    Ok(())
}

/// at the end the market is closed by the client
fn check_close(w: &World, r: &mut Row, info: &mut Info) -> Result<(), Violation> {
    let admin = match w.k.close_admin {
        Some(a) => a,
        None => return Ok(()),
    };
    let mut c = w.clone();
    if r.chance(3, 4) {
        let _ = c.exec(&Op::Expire);
        let rem: Vec<usize> = (0..c.oos.len()).collect();
        for _ in 0..100 {
            for oo in 0..c.oos.len() {
                let op = Op::Prune { oo, limit: *r.pick(&[24, 3]) };
                if r.chance(1, 6) {
                    check_op(&c, &op, r, info)?;
                }
                let _ = c.exec(&op);
            }
            if c.exec(&Op::Consume { limit: 8, rem: rem.clone() }).is_err() || c.read_events().map(|e| e.is_empty()).unwrap_or(true) {
                break;
            }
        }
        for oo in 0..c.oos.len() {
            let s = c.cfg.oos[oo];
            let _ = c.exec(&Op::SettleExpired { oo, signer: s, dest: s, referrer: false });
        }
        let _ = c.exec(&Op::Sweep);
    }
    let dest = w.users[r.idx(w.users.len())];
    let (wallet, d) = if r.chance(1, 2) { (admin, Value::Null) } else { (w.users[0], kp(&admin)) };
    let a = ask(&c.bank, json!({"t": "call", "wallet": hex(&wallet), "fn": "closeMarketIx", "args": [pk(&w.k.market), acc(w, "market", &w.k.market), pk(&dest), d]}));
    let b = built("closeMarketIx", &a)?;
    signed("closeMarketIx", &b, &[wallet])?;
    needed("closeMarketIx", &b)?;
    let i = ix(
        ac::CloseMarket { close_market_admin: admin, market: w.k.market, bids: w.k.bids, asks: w.k.asks, event_heap: w.k.heap, sol_destination: dest, token_program: spl_token::id() },
        ins::CloseMarket {},
    );
    info.count("built closeMarketIx", 1);
    if same("closeMarketIx", &c, &[i], &b.ixs)?.is_some() {
        info.count("executed closeMarketIx", 1);
    }
    Ok(())
}

fn run(case: &Case, info: &mut Info, verbose: bool, pr: &Profile) -> Result<(), Violation> {
    reset();
    let zero = vec![];
    let mut r0 = Row::new(case.first().unwrap_or(&zero));
    let mut cfg = gen_cfg(&mut r0, pr);
    cfg.base_dec = cfg.base_dec.min(9);
    cfg.quote_dec = cfg.quote_dec.min(9);
    if verbose {
        println!("config {:?}", cfg);
    }
    info.sig = hash_str(&format!("{:?}", cfg));
    let mut w = match World::new(cfg) {
        Ok(w) => w,
        Err(_) => return Ok(()),
    };
    let mut m = match w.model() {
        Ok(m) => m,
        Err(_) => return Ok(()),
    };
    let mut calls = 0;
    for row in case.iter().skip(1) {
        let mut r = Row::new(row);
        let sel = r.below(100);
        // further choices come from the end of the row, so that the operations stay those of other checks
        let back: Vec<u64> = row.iter().rev().copied().collect();
        let mut rb = Row::new(&back);
        let ops = gen_ops(&mut r, &w, &m, pr);
        for op in ops {
            if verbose {
                println!("{:?}", op);
            }
            info.sig = hash_mix(info.sig, hash_str(&format!("{:?}", op)));
            if w.oos.len() > 0 && sel < 60 && calls < 200 {
                check_op(&w, &op, &mut rb, info)?;
                calls += 1;
            }
            let d = lockstep(&mut w, &mut m, &op, info);
            if d.real.is_ok() {
                info.count(&format!("ok {}", op.name()), 1);
            }
            if d.aspects & BROKEN != 0 || d.adopt(&w, &mut m).is_err() {
                return Ok(());
            }
        }
        match sel {
            60..=79 => check_hi(&w, &m, pr, &mut rb, info)?,
            80..=89 => check_consume(&w, &m, &mut rb, info)?,
            90..=93 => check_accounts(&w, &mut rb, info)?,
            94..=96 => check_market(&w, &mut rb, info)?,
            _ => {}
        }
    }
    let last: Vec<u64> = case.last().unwrap_or(&zero).iter().rev().copied().collect();
    check_close(&w, &mut Row::new(&last), info)?;
    info.nontrivial = info.counters.keys().any(|k| k.starts_with("executed"));
    Ok(())
}

pub fn plans() -> Vec<Plan> {
    const R: &str = "a case counts when an instruction of the client was executed with success";
    vec![
        Plan { name: "instructions", rule: R, rows: (4, 50), row_len: 72, quick: 1500, thorough: 80000, run: |c, i, v| run(c, i, v, &GENERAL) },
        Plan { name: "own trades", rule: R, rows: (4, 50), row_len: 72, quick: 400, thorough: 20000, run: |c, i, v| run(c, i, v, &SELF) },
        Plan { name: "pegs", rule: R, rows: (4, 50), row_len: 72, quick: 500, thorough: 20000, run: |c, i, v| run(c, i, v, &PEGS) },
    ]
}
