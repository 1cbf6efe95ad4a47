//! C23: a client that knows the program by its interface description only. It builds every instruction, and
//! reads every account, log, return value and error, by what the description says.
use crate::engine::*;
use crate::idl::*;
use crate::rt::{self, Acc, Bank, TxErr};
use serde_json::Value;
use solana_sdk::instruction::{AccountMeta, Instruction};
use solana_sdk::program_pack::Pack;
use solana_sdk::pubkey::Pubkey;

const T0: i64 = 1_600_000_000;

fn pda(seeds: &[&[u8]]) -> Pubkey {
    Pubkey::find_program_address(seeds, &openbook_v2::id()).0
}
fn k(tag: u8, n: u8) -> Pubkey {
    let mut b = [7u8; 32];
    b[0] = tag;
    b[1] = n;
    Pubkey::new_from_array(b)
}
fn ensure(ok: bool, what: impl FnOnce() -> String) -> Result<(), String> {
    if ok {
        Ok(())
    } else {
        Err(what())
    }
}

#[derive(Clone, Debug)]
struct Leaf {
    id: i128,
    price: i128,
    v: V,
}

struct Got {
    ret: Option<V>,
    logs: Vec<(String, V)>,
}
impl Got {
    fn log(&self, name: &str) -> Result<&V, String> {
        self.logs.iter().find(|l| l.0 == name).map(|l| &l.1).ok_or_else(|| format!("no {} was logged", name))
    }
}

struct Client<'a> {
    idl: &'a Idl,
    bank: Bank,
    users: [Pubkey; 2],
    /// further accounts of an instruction: oracle, and who is set in each optional place
    oracle: bool,
    second: bool,
    oo_admin: bool,
    ce_admin: bool,
    referrer: bool,
    delegate: Option<Pubkey>,
    cid: u64,
    text: String,
    verbose: bool,
}

const MARKET: (u8, u8) = (1, 0);

impl<'a> Client<'a> {
    fn acct(&self, name: &str, u: usize, ask: bool) -> Result<Option<Pubkey>, String> {
        let market = k(MARKET.0, MARKET.1);
        let auth = pda(&[b"Market", market.as_ref()]);
        let ata = anchor_spl::associated_token::ID;
        let vault = |m: Pubkey| Pubkey::find_program_address(&[auth.as_ref(), spl_token::id().as_ref(), m.as_ref()], &ata).0;
        let (bm, qm) = (k(2, 0), k(2, 1));
        let oracle = |m: Pubkey| pda(&[b"StubOracle", k(4, 0).as_ref(), m.as_ref()]);
        Ok(Some(match name {
            "market" => market,
            "marketAuthority" => auth,
            "bids" => k(3, 0),
            "asks" => k(3, 1),
            "eventHeap" => k(3, 2),
            "payer" | "solDestination" | "penaltyPayer" => k(4, 0),
            "marketBaseVault" => vault(bm),
            "marketQuoteVault" => vault(qm),
            "marketVault" => vault(if ask { bm } else { qm }),
            "baseMint" => bm,
            "quoteMint" => qm,
            "mint" => if ask { qm } else { bm },
            "oracle" => oracle(if ask { qm } else { bm }),
            "systemProgram" => solana_sdk::system_program::id(),
            "tokenProgram" => spl_token::id(),
            "associatedTokenProgram" => ata,
            "oracleA" => return Ok(Some(oracle(bm)).filter(|_| self.oracle)),
            "oracleB" => return Ok(Some(oracle(qm)).filter(|_| self.second)),
            "collectFeeAdmin" => k(5, 0),
            "openOrdersAdmin" => return Ok(Some(k(5, 1)).filter(|_| self.oo_admin)),
            "consumeEventsAdmin" => return Ok(Some(k(5, 2)).filter(|_| self.ce_admin)),
            "closeMarketAdmin" => k(5, 3),
            "eventAuthority" => pda(&[b"__event_authority"]),
            "program" => openbook_v2::id(),
            "owner" | "signer" => self.users[u],
            "openOrdersIndexer" => pda(&[b"OpenOrdersIndexer", self.users[u].as_ref()]),
            "openOrdersAccount" => self.oo(u),
            "delegateAccount" => return Ok(self.delegate),
            "userTokenAccount" => k(if ask { 6 } else { 7 }, u as u8),
            "userBaseAccount" => k(6, u as u8),
            "userQuoteAccount" => k(7, u as u8),
            "referrerAccount" => return Ok(Some(k(8, 0)).filter(|_| self.referrer)),
            "tokenReceiverAccount" => k(8, 1),
            _ => return Err(format!("the account {} of the interface is not known", name)),
        }))
    }
    fn oo(&self, u: usize) -> Pubkey {
        pda(&[b"OpenOrders", self.users[u].as_ref(), &1u32.to_le_bytes()])
    }
    fn build(&self, name: &str, u: usize, ask: bool, args: &[(&str, V)], rest: &[Pubkey]) -> Result<Instruction, String> {
        let d = self.idl.find("instructions", name)?;
        let mut data = disc("global", &snake(name)).to_vec();
        let given = t(args);
        for a in d["args"].as_array().unwrap_or(&vec![]) {
            self.idl.enc(&a["type"], given.get(a["name"].as_str().unwrap_or(""))?, &mut data).map_err(|e| format!("{}: {}", name, e))?;
        }
        let mut accounts = vec![];
        for a in d["accounts"].as_array().unwrap_or(&vec![]) {
            let flag = |f: &str| a[f].as_bool().unwrap_or(false);
            let (owner_is_admin, n) = (name.starts_with("stubOracle"), a["name"].as_str().unwrap_or(""));
            let key = if owner_is_admin && n == "owner" { Some(k(4, 0)) } else { self.acct(n, u, ask)? };
            accounts.push(match key {
                Some(key) => AccountMeta { pubkey: key, is_signer: flag("isSigner"), is_writable: flag("isMut") },
                None if flag("isOptional") => AccountMeta { pubkey: openbook_v2::id(), is_signer: false, is_writable: false },
                None => return Err(format!("{}: {} is not optional by the interface", name, n)),
            });
        }
        for r in rest {
            accounts.push(AccountMeta { pubkey: *r, is_signer: false, is_writable: true });
        }
        Ok(Instruction { program_id: openbook_v2::id(), accounts, data })
    }
    fn send(&mut self, name: &str, u: usize, ask: bool, args: &[(&str, V)], rest: &[Pubkey]) -> Result<Result<Got, TxErr>, String> {
        let ix = self.build(name, u, ask, args, rest)?;
        if self.verbose {
            println!("user {} {} {:?}", u, name, t(args));
        }
        if self.text.len() < 500 {
            self.text += &format!("{} {:?}; ", name, t(args));
        }
        let ok = match self.bank.exec(&ix) {
            Ok(o) => o,
            Err(e) => return Ok(Err(e)),
        };
        let ret = match (&self.idl.find("instructions", name)?["returns"], &ok.ret) {
            (Value::Null, _) => None,
            (ty, Some(b)) => Some(self.idl.dec_all(ty, b).map_err(|e| format!("{} returned {:?}: {}", name, b, e))?),
            (_, None) => return Err(format!("{} returned nothing", name)),
        };
        let mut logs = vec![];
        // events sent by a call of the program to itself carry a tag in front
        for b in ok.logs.iter().map(|b| &b[..]).chain(ok.cpi_events.iter().map(|b| &b[8.min(b.len())..])) {
            let ev = self.idl.names("events").into_iter().find(|n| b.len() >= 8 && disc("event", n) == b[..8]).ok_or_else(|| format!("{} logged an event the interface does not know: {:?}", name, b))?;
            let mut at = &b[8..];
            let mut v = vec![];
            for f in self.idl.find("events", &ev)?["fields"].as_array().unwrap_or(&vec![]) {
                v.push((f["name"].as_str().unwrap_or("").to_string(), self.idl.dec(&f["type"], &mut at).map_err(|e| format!("{} in a log of {}: {}", ev, name, e))?));
            }
            ensure(at.is_empty(), || format!("{} in a log of {}: {} bytes left over", ev, name, at.len()))?;
            logs.push((ev, V::T(v)));
        }
        Ok(Ok(Got { ret, logs }))
    }
    fn must(&mut self, name: &str, u: usize, ask: bool, args: &[(&str, V)], rest: &[Pubkey]) -> Result<Got, String> {
        let r = self.send(name, u, ask, args, rest)?;
        r.map_err(|e| format!("{} {:?} was refused: {:?} {}", name, t(args), e, e.code().and_then(|c| self.error_name(c)).unwrap_or_default()))
    }
    fn error_name(&self, code: u32) -> Option<String> {
        self.idl.v["errors"].as_array()?.iter().find(|e| e["code"] == code).and_then(|e| e["name"].as_str().map(|s| s.to_string()))
    }
    fn refused(&mut self, want: &str, name: &str, u: usize, ask: bool, args: &[(&str, V)]) -> Result<(), String> {
        match self.send(name, u, ask, args, &[])? {
            Ok(_) => Err(format!("{} {:?} was accepted", name, t(args))),
            Err(e) => {
                let got = e.code().and_then(|c| self.error_name(c)).unwrap_or_default();
                ensure(got == want, || format!("{} {:?}: the error is {:?} by the interface, not {} ({:?})", name, t(args), got, want, e))
            }
        }
    }
    fn data(&self, key: &Pubkey, ty: &str) -> Result<&[u8], String> {
        let d = self.bank.get(key).ok_or_else(|| format!("no account {}", ty))?.data();
        ensure(d.len() >= 8 && d[..8] == disc("account", ty), || format!("the account does not start like {}", ty))?;
        Ok(&d[8..])
    }
    fn read(&self, key: &Pubkey, ty: &str) -> Result<V, String> {
        self.idl.dec_all(&Idl::def(ty), self.data(key, ty)?).map_err(|e| format!("{}: {}", ty, e))
    }
    fn market(&self) -> Result<V, String> {
        self.read(&k(MARKET.0, MARKET.1), "Market")
    }
    fn account(&self, u: usize) -> Result<V, String> {
        self.read(&self.oo(u), "OpenOrdersAccount")
    }
    fn variant(&self, en: &str, name: &str) -> Result<i128, String> {
        self.idl.variants(en)?.iter().position(|v| v == name).map(|i| i as i128).ok_or_else(|| format!("{} has no variant {}", en, name))
    }
    fn slice<'b>(&self, ty: &str, d: &'b [u8], path: &str, of: &str) -> Result<&'b [u8], String> {
        // where the path leads to, found by the values around it
        let part = self.idl.offset(&Idl::def(ty), path)?;
        let w = self.idl.size(&Idl::def(of))?;
        d.get(part..part + w).ok_or_else(|| format!("{} lies beyond the end of {}", path, ty))
    }
    fn book(&self, ask: bool) -> Result<Vec<Leaf>, String> {
        let d = self.data(&k(3, ask as u8), "BookSide")?;
        let ty = Idl::def("BookSide");
        let tag = self.variant("NodeTag", "LeafNode")?;
        let want: i128 = self.idl.at(&ty, d, "roots.0.leafCount")?.num()? + self.idl.at(&ty, d, "roots.1.leafCount")?.num()?;
        let mut v = vec![];
        for i in 0..self.idl.at(&ty, d, "nodes.bumpIndex")?.num()?.min(1024) {
            let p = format!("nodes.nodes.{}", i);
            if self.idl.at(&ty, d, &format!("{}.tag", p))?.num()? == tag {
                let leaf = self.idl.dec_all(&Idl::def("LeafNode"), self.slice("BookSide", d, &p, "LeafNode")?)?;
                let id = leaf.f("key")?;
                v.push(Leaf { id, price: ((id as u128) >> 64) as i128, v: leaf });
            }
        }
        ensure(v.len() as i128 == want, || format!("{} leaves found by the interface, {} counted", v.len(), want))?;
        Ok(v)
    }
    fn events(&self) -> Result<Vec<(i128, V)>, String> {
        let d = self.data(&k(3, 2), "EventHeap")?;
        let ty = Idl::def("EventHeap");
        let n = self.idl.at(&ty, d, "header.count")?.num()?;
        let mut at = self.idl.at(&ty, d, "header.usedHead")?.num()?;
        let mut v = vec![];
        for _ in 0..n {
            let kind = self.idl.at(&ty, d, &format!("nodes.{}.event.eventType", at))?.num()?;
            let of = if kind == self.variant("EventType", "Fill")? { "FillEvent" } else { "OutEvent" };
            let e = self.idl.dec_all(&Idl::def(of), self.slice("EventHeap", d, &format!("nodes.{}.event", at), of)?)?;
            v.push((at, e));
            at = self.idl.at(&ty, d, &format!("nodes.{}.next", at))?.num()?;
        }
        Ok(v)
    }
    fn wallet(&self, u: usize) -> (u64, u64) {
        (self.bank.token_amount(&k(6, u as u8)), self.bank.token_amount(&k(7, u as u8)))
    }
    fn place_args(&self, ask: bool, price: i64, qty: i64, typ: &str, expiry: u64, stb: &str) -> V {
        t(&[
            ("side", e(if ask { "Ask" } else { "Bid" })),
            ("priceLots", n(price)),
            ("maxBaseLots", n(qty)),
            ("maxQuoteLotsIncludingFees", n(10_000_000)),
            ("clientOrderId", n(self.cid)),
            ("orderType", e(typ)),
            ("expiryTimestamp", n(expiry)),
            ("selfTradeBehavior", e(stb)),
            ("limit", n(10)),
        ])
    }
    fn peg_args(&self, ask: bool, offset: i64, limit: i64, qty: i64, typ: &str, expiry: u64) -> V {
        t(&[
            ("side", e(if ask { "Ask" } else { "Bid" })),
            ("priceOffsetLots", n(offset)),
            ("pegLimit", n(limit)),
            ("maxBaseLots", n(qty)),
            ("maxQuoteLotsIncludingFees", n(10_000_000)),
            ("clientOrderId", n(self.cid)),
            ("orderType", e(typ)),
            ("expiryTimestamp", n(expiry)),
            ("selfTradeBehavior", e("DecrementTake")),
            ("limit", n(10)),
        ])
    }
    /// an order has come to rest as asked for
    fn rests(&self, id: i128, ask: bool, price: Option<i64>, qty: i64, expiry: u64, peg: Option<i64>) -> Result<(), String> {
        let l = self.book(ask)?.into_iter().find(|l| l.id == id).ok_or_else(|| format!("order {} is not on the book", id))?;
        let v = &l.v;
        let tif = if expiry == 0 { 0 } else { expiry as i128 - T0 as i128 };
        let ok = v.f("quantity")? == qty as i128
            && v.f("clientOrderId")? == self.cid as i128
            && v.k("owner")? == self.oo(0)
            && v.f("timeInForce")? == tif
            && v.f("timestamp")? == T0 as i128
            && price.map(|p| p as i128 == l.price).unwrap_or(true)
            && v.f("pegLimit")? == peg.unwrap_or(-1) as i128;
        ensure(ok, || format!("the order rests as {:?}, price {}", v, l.price))?;
        let a = self.account(0)?;
        let slot = v.f("ownerSlot")? as usize;
        let o = match a.get("openOrders")? {
            V::L(l) => l.get(slot).cloned().ok_or("no such slot")?,
            _ => return Err("openOrders is not a list".into()),
        };
        let tree = format!("{}{}", if ask { "Ask" } else { "Bid" }, if peg.is_some() { "OraclePegged" } else { "Fixed" });
        let ok = o.f("id")? == id && o.f("clientId")? == self.cid as i128 && o.f("isFree")? == 0 && o.f("sideAndTree")? == self.variant("SideAndOrderTree", &tree)? && (peg.is_some() || o.f("lockedPrice")? == price.unwrap() as i128);
        ensure(ok, || format!("the order is recorded as {:?} in slot {}", o, slot))
    }
    fn some_id(&self, g: &Got) -> Result<i128, String> {
        match &g.ret {
            Some(V::O(Some(v))) => v.num(),
            r => Err(format!("an order was placed, but {:?} returned", r)),
        }
    }
}

fn put_token(bank: &mut Bank, key: Pubkey, mint: Pubkey, owner: Pubkey, amount: u64) {
    let mut b = vec![0u8; spl_token::state::Account::LEN];
    rt::token_account(mint, owner, amount).pack_into_slice(&mut b);
    bank.put(key, Acc::from_bytes(10_000_000, &b, spl_token::id()));
}

fn start<'a>(idl: &'a Idl, r: &mut Row, verbose: bool) -> Result<Client<'a>, String> {
    let mut bank = Bank::new();
    bank.clock.unix_timestamp = T0;
    bank.clock.slot = 1_000_000;
    for w in [k(4, 0), k(5, 0), k(5, 1), k(5, 2), k(5, 3), k(9, 0), k(9, 1)] {
        bank.put(w, Acc::new(1_000_000_000_000, 0, solana_sdk::system_program::id()));
    }
    let dec = [r.below(10) as u8, r.below(10) as u8];
    for i in 0..2 {
        let m = spl_token::state::Mint { supply: u64::MAX, decimals: dec[i as usize], is_initialized: true, ..Default::default() };
        let mut b = vec![0u8; spl_token::state::Mint::LEN];
        m.pack_into_slice(&mut b);
        bank.put(k(2, i), Acc::from_bytes(10_000_000, &b, spl_token::id()));
        put_token(&mut bank, k(6, i), k(2, 0), k(9, i), 1 << 50);
        put_token(&mut bank, k(7, i), k(2, 1), k(9, i), 1 << 50);
        put_token(&mut bank, k(8, i), k(2, 1), k(9, 7), 0);
    }
    let size = |n: &str| idl.size(&Idl::def(n));
    for (i, n) in [(0, size("BookSide")?), (1, size("BookSide")?), (2, size("EventHeap")?)] {
        bank.put(k(3, i), Acc::new(10_000_000_000, 8 + n, openbook_v2::id()));
    }
    let oracle = r.chance(3, 4);
    let mut c = Client {
        idl,
        bank,
        users: [k(9, 0), k(9, 1)],
        oracle,
        second: oracle && r.chance(1, 3),
        oo_admin: r.chance(1, 3),
        ce_admin: r.chance(1, 3),
        referrer: r.chance(1, 2),
        delegate: None,
        cid: 1,
        text: String::new(),
        verbose,
    };
    // lots and price: 1000 lots is 100 quote per base, both in native units
    let (q, b) = (10 * (1 + r.below(3) as i64), 100 * (1 + r.below(3) as i64));
    let price = 1000.5 * q as f64 / b as f64 / 10f64.powi(dec[1] as i32 - dec[0] as i32);
    for i in 0..(c.oracle as usize + c.second as usize) {
        let p = if i == 0 { price } else { 1.0 };
        c.must("stubOracleCreate", 0, i == 1, &[("price", n(p.to_bits() as i128))], &[])?;
        let key = c.acct("oracle", 0, i == 1)?.unwrap();
        let o = c.read(&key, "StubOracle")?;
        let ok = o.f("price")? == p.to_bits() as i128 && o.f("lastUpdateTs")? == T0 as i128 && o.f("lastUpdateSlot")? == 1_000_000 && o.k("owner")? == k(4, 0) && o.k("mint")? == k(2, i as u8) && o.f("deviation")? == 0;
        ensure(ok, || format!("the oracle is {:?}", o))?;
    }
    let taker = r.below(1000) as i64;
    let maker = r.range(-taker, 500);
    let expiry = if r.chance(1, 2) { T0 + 1 + r.below(1 << 40) as i64 } else { 0 };
    let name: String = (0..1 + r.below(16)).map(|_| (b'a' + (r.next() % 26) as u8) as char).collect();
    let conf = 0.01f32 * (1 + r.below(100)) as f32;
    let stale = if r.chance(1, 2) { Some(1000 + r.below(1 << 31) as u32) } else { None };
    let args = [
        ("name", V::S(name.as_bytes().to_vec())),
        ("oracleConfig", t(&[("confFilter", n(conf.to_bits() as i128)), ("maxStalenessSlots", V::O(stale.map(|s| Box::new(n(s)))))])),
        ("quoteLotSize", n(q)),
        ("baseLotSize", n(b)),
        ("makerFee", n(maker)),
        ("takerFee", n(taker)),
        ("timeExpiry", n(expiry)),
    ];
    let g = c.must("createMarket", 0, false, &args, &[])?;
    let m = c.market()?;
    let mut chars = name.as_bytes().to_vec();
    chars.resize(16, 0);
    let same_name = m.get("name")? == &V::L(chars.iter().map(|x| V::N("u8".into(), *x as i128)).collect());
    let key = |n: &str| c.acct(n, 0, false).map(|x| x.unwrap_or_default());
    let mut ok = same_name && m.f("quoteLotSize")? == q as i128 && m.f("baseLotSize")? == b as i128 && m.f("makerFee")? == maker as i128 && m.f("takerFee")? == taker as i128;
    ok &= m.f("timeExpiry")? == expiry as i128 && m.f("registrationTime")? == T0 as i128 && m.f("baseDecimals")? == dec[0] as i128 && m.f("quoteDecimals")? == dec[1] as i128;
    for f in ["bids", "asks", "eventHeap", "oracleA", "oracleB", "collectFeeAdmin", "openOrdersAdmin", "consumeEventsAdmin", "closeMarketAdmin", "baseMint", "quoteMint", "marketBaseVault", "marketQuoteVault", "marketAuthority"] {
        ok &= m.k(f)? == key(f)?;
    }
    let oc = m.get("oracleConfig")?;
    ok &= oc.f("confFilter")? == (conf as f64).to_bits() as i128 && oc.f("maxStalenessSlots")? == stale.map(|s| s as i128).unwrap_or(-1);
    for f in ["seqNum", "feesAccrued", "feesToReferrers", "referrerRebatesAccrued", "feesAvailable", "makerVolume", "takerVolumeWoOo", "baseDepositTotal", "quoteDepositTotal"] {
        ok &= m.f(f)? == 0;
    }
    ensure(ok, || format!("the market created is {:?}", m))?;
    let l = g.log("MarketMetaDataLog")?;
    let ok = l.k("market")? == key("market")? && l.get("name")? == &V::S(name.as_bytes().to_vec()) && l.k("baseMint")? == k(2, 0) && l.k("quoteMint")? == k(2, 1) && l.f("baseDecimals")? == dec[0] as i128 && l.f("quoteDecimals")? == dec[1] as i128 && l.f("baseLotSize")? == b as i128 && l.f("quoteLotSize")? == q as i128;
    ensure(ok, || format!("the market was announced as {:?}", l))?;
    for u in 0..2 {
        c.must("createOpenOrdersIndexer", u, false, &[], &[])?;
        c.delegate = if u == 1 && r.chance(1, 2) { Some(k(9, 5)) } else { None };
        c.must("createOpenOrdersAccount", u, false, &[("name", V::S(vec![b'x'; u + 1]))], &[])?;
        let a = c.account(u)?;
        let mut chars = vec![V::N("u8".into(), 0); 32];
        chars[..u + 1].fill(V::N("u8".into(), b'x' as i128));
        let ok = a.k("owner")? == c.users[u] && a.k("market")? == k(MARKET.0, MARKET.1) && a.f("accountNum")? == 1 && a.k("delegate")? == c.delegate.unwrap_or_default() && a.get("name")? == &V::L(chars);
        ensure(ok, || format!("the account created is {:?}", a))?;
        let key = c.acct("openOrdersIndexer", u, false)?.unwrap();
        let i = c.read(&key, "OpenOrdersIndexer")?;
        ensure(i.f("createdCounter")? == 1 && i.get("addresses")? == &V::L(vec![V::K(c.oo(u))]), || format!("the indexer created is {:?}", i))?;
    }
    c.delegate = None;
    Ok(c)
}

fn step(c: &mut Client, r: &mut Row, info: &mut Info) -> Result<(), String> {
    let ask = r.chance(1, 2);
    let (op, u) = (r.below(20), r.idx(2));
    c.cid = r.next() >> r.below(60);
    let resting: Vec<(bool, Leaf)> = c.book(false)?.into_iter().map(|l| (false, l)).chain(c.book(true)?.into_iter().map(|l| (true, l))).collect();
    while resting.iter().any(|(_, l)| l.v.f("clientOrderId") == Ok(c.cid as i128)) {
        c.cid += 1;
    }
    let qty = 2 + r.below(50) as i64;
    let expiry = if r.chance(1, 3) { (T0 + 1 + r.below(60000) as i64) as u64 } else { 0 };
    let price = if ask { 1001 + r.below(100) as i64 } else { 999 - r.below(100) as i64 };
    let typ = *r.pick(&["Limit", "PostOnly", "PostOnlySlide"]);
    let room = resting.len() < 18;
    match op {
        0 | 1 => {
            let (b, q) = (r.below(1 << 20), r.below(1 << 20));
            let before = c.account(u)?;
            let name = if op == 0 { "deposit" } else { "refill" };
            let g = c.must(name, u, ask, &[("baseAmount", n(b)), ("quoteAmount", n(q))], &[])?;
            let after = c.account(u)?;
            let free = |a: &V, f: &str| a.get("position")?.f(f);
            let add = |f: &str, x: u64| -> Result<i128, String> { Ok(if op == 0 { x as i128 } else { (x as i128 - free(&before, f)?).max(0) }) };
            let (db, dq) = (add("baseFreeNative", b)?, add("quoteFreeNative", q)?);
            if (db, dq) == (0, 0) {
                return Ok(());
            }
            let l = g.log("DepositLog")?;
            let ok = free(&after, "baseFreeNative")? == free(&before, "baseFreeNative")? + db
                && free(&after, "quoteFreeNative")? == free(&before, "quoteFreeNative")? + dq
                && l.f("baseAmount")? == db
                && l.f("quoteAmount")? == dq
                && l.k("signer")? == c.users[u]
                && l.k("openOrdersAccount")? == c.oo(u);
            ensure(ok, || format!("{} {} {}: {:?} then {:?}, logged {:?}", name, b, q, before.get("position"), after.get("position"), l))?;
        }
        2 | 3 | 4 if room => {
            let a = c.place_args(ask, price, qty, typ, expiry, "DecrementTake");
            let g = c.must("placeOrder", 0, ask, &[("args", a)], &[])?;
            let id = c.some_id(&g)?;
            c.rests(id, ask, Some(price), qty, expiry, None)?;
            info.count("orders", 1);
        }
        5 | 6 if room && c.oracle => {
            let off = if ask { 1 + r.below(90) as i64 } else { -1 - r.below(90) as i64 };
            let lim = if ask { 1 + r.below(800) as i64 } else { 1200 + r.below(800) as i64 };
            let a = c.peg_args(ask, off, lim, qty, typ, expiry);
            let g = c.must("placeOrderPegged", 0, ask, &[("args", a)], &[])?;
            let id = c.some_id(&g)?;
            c.rests(id, ask, None, qty, expiry, Some(lim))?;
            info.count("pegged orders", 1);
        }
        7 | 8 => {
            // the other user takes one lot of the best order opposite
            if !resting.iter().any(|(s, _)| *s != ask) {
                return Ok(());
            }
            if r.chance(1, 4) {
                let a = c.place_args(ask, if ask { 500 } else { 1500 }, 1, "ImmediateOrCancel", 0, "AbortTransaction");
                info.count("refusals", 1);
                return c.refused("WouldSelfTrade", "placeOrder", 0, ask, &[("args", a)]);
            }
            let had = c.events()?.len();
            let typ = *r.pick(&["Limit", "ImmediateOrCancel", "Market", "FillOrKill"]);
            let lim = if ask { 500 } else { 1500 };
            let taker = if op == 7 {
                let a = c.place_args(ask, lim, 1, typ, 0, "DecrementTake");
                let g = c.must("placeOrder", 1, ask, &[("args", a)], &[])?;
                let l = g.log("OpenOrdersPositionLog")?;
                let acc = c.account(1)?;
                let p = acc.get("position")?;
                let mut ok = l.k("owner")? == c.users[1] && l.f("openOrdersAccountNum")? == 1 && l.k("market")? == k(MARKET.0, MARKET.1);
                for f in ["bidsBaseLots", "bidsQuoteLots", "asksBaseLots", "lockedMakerFees", "makerVolume", "takerVolume"] {
                    ok &= l.f(f)? == p.f(f)?;
                }
                ensure(ok, || format!("{:?} was logged for {:?}", l, p))?;
                c.oo(1)
            } else {
                let a = t(&[("side", e(if ask { "Ask" } else { "Bid" })), ("priceLots", n(lim)), ("maxBaseLots", n(1)), ("maxQuoteLotsIncludingFees", n(10_000_000)), ("orderType", e(if typ == "Limit" { "Market" } else { typ })), ("limit", n(10))]);
                let before = c.wallet(1);
                let g = c.must("placeTakeOrder", 1, ask, &[("args", a)], &[])?;
                let after = c.wallet(1);
                let l = g.log("TotalOrderFillEvent")?;
                let d = |a: u64, b: u64| (a as i128 - b as i128).abs();
                let (base, quote) = (d(after.0, before.0), d(after.1, before.1));
                let (paid, got) = if ask { (base, quote) } else { (quote, base) };
                let ok = l.f("totalQuantityPaid")? == paid && l.f("totalQuantityReceived")? == got && l.k("taker")? == c.users[1] && l.f("side")? == c.variant("Side", if ask { "Ask" } else { "Bid" })?;
                ensure(ok, || format!("{:?} was logged, {} paid and {} received", l, paid, got))?;
                c.users[1]
            };
            let ev = c.events()?;
            ensure(ev.len() == had + 1, || format!("{} events after {} and one match", ev.len(), had))?;
            let f = &ev[had].1;
            let cid = f.f("makerClientOrderId")?;
            let old = resting.iter().find(|(s, l)| *s != ask && l.v.f("clientOrderId") == Ok(cid) && l.v.f("ownerSlot") == f.f("makerSlot")).ok_or_else(|| format!("{:?} matched no order", f))?;
            let left = c.book(!ask)?.into_iter().find(|l| l.id == old.1.id);
            let rest = match &left {
                Some(l) => l.v.f("quantity")?,
                None => 0,
            };
            let pegged = old.1.v.f("pegLimit")? != -1;
            let ok = f.f("takerSide")? == c.variant("Side", if ask { "Ask" } else { "Bid" })?
                && f.f("makerSlot")? == old.1.v.f("ownerSlot")?
                && f.f("makerOut")? == (rest == 0) as i128
                && f.f("timestamp")? == T0 as i128
                && f.k("maker")? == c.oo(0)
                && f.f("makerTimestamp")? == old.1.v.f("timestamp")?
                && f.k("taker")? == taker
                && f.f("takerClientOrderId")? == if op == 7 { c.cid as i128 } else { 0 }
                && f.f("quantity")? == 1
                && f.f("pegLimit")? == old.1.v.f("pegLimit")?
                && (pegged || f.f("price")? == old.1.price)
                && old.1.v.f("quantity")? == rest + 1;
            ensure(ok, || format!("{:?} left of {:?}: {:?}", f, old.1.v, left))?;
            info.count("matches", 1);
        }
        9 | 10 => {
            let ev = c.events()?;
            if ev.is_empty() {
                return Ok(());
            }
            let rest = [c.oo(0), c.oo(1)];
            let (g, gone) = if r.chance(1, 2) {
                let take = 1 + r.idx(8);
                (c.must("consumeEvents", 0, ask, &[("limit", n(take as i128))], &rest)?, ev[..take.min(ev.len())].to_vec())
            } else {
                let i = r.idx(ev.len());
                (c.must("consumeGivenEvents", 0, ask, &[("slots", V::L(vec![n(ev[i].0)]))], &rest)?, vec![ev[i].clone()])
            };
            let left = c.events()?;
            ensure(left.len() + gone.len() == ev.len() && gone.iter().all(|x| !left.iter().any(|y| y.0 == x.0)), || format!("{:?} consumed, {:?} left of {:?}", gone, left, ev))?;
            for (_, x) in &gone {
                let seq = x.f("seqNum").or_else(|_| x.f("marketSeqNum"))?;
                let l = g.logs.iter().find(|l| l.0 == "FillLog" && l.1.f("makerClientOrderId") == x.f("makerClientOrderId") && l.1.f("seqNum") == Ok(seq)).ok_or_else(|| format!("no log for {:?}", x))?;
                let l = &l.1;
                let mut ok = l.k("market")? == k(MARKET.0, MARKET.1) && l.k("maker")? == x.k("maker")? && l.k("taker")? == x.k("taker")?;
                for f in ["takerSide", "makerSlot", "makerOut", "timestamp", "makerTimestamp", "takerClientOrderId", "price", "quantity"] {
                    ok &= l.f(f)? == x.f(f)?;
                }
                ensure(ok, || format!("{:?} was logged for {:?}", l, x))?;
            }
            info.count("events", gone.len() as u64);
        }
        11 | 12 | 13 => {
            if resting.is_empty() {
                return Ok(());
            }
            let (side, l) = &resting[r.idx(resting.len())];
            // orders placed in a batch share their ids
            if (op == 12 || op == 14) && resting.iter().filter(|x| x.1.v.f("clientOrderId") == l.v.f("clientOrderId")).count() > 1 {
                return Ok(());
            }
            let have = |c: &Client| -> Result<usize, String> { Ok(c.book(false)?.len() + c.book(true)?.len()) };
            match op {
                11 => {
                    c.must("cancelOrder", 0, ask, &[("orderId", V::N("u128".into(), l.id))], &[])?;
                }
                12 => {
                    let g = c.must("cancelOrderByClientOrderId", 0, ask, &[("clientOrderId", n(l.v.f("clientOrderId")?))], &[])?;
                    ensure(g.ret.as_ref().map(|v| v.num()) == Some(l.v.f("quantity")), || format!("{:?} returned for {:?}", g.ret, l))?;
                }
                _ => {
                    let s = if r.chance(1, 2) { Some(Box::new(e(if *side { "Ask" } else { "Bid" }))) } else { None };
                    let gone = resting.iter().filter(|(x, _)| s.is_none() || x == side).count();
                    c.must("cancelAllOrders", 0, ask, &[("sideOption", V::O(s)), ("limit", n(255))], &[])?;
                    let left = have(c)?;
                    ensure(left + gone == resting.len(), || format!("{} orders left of {}, {} to be cancelled", left, resting.len(), gone))?;
                }
            }
            let left = have(c)?;
            ensure(op == 13 || (left + 1 == resting.len() && !c.book(*side)?.iter().any(|x| x.id == l.id)), || format!("{:?} cancelled, {} orders left of {}", l, left, resting.len()))?;
            info.count("cancellations", 1);
        }
        14 => {
            if resting.is_empty() {
                return Ok(());
            }
            let (side, l) = &resting[r.idx(resting.len())];
            // orders placed in a batch share their ids
            if (op == 12 || op == 14) && resting.iter().filter(|x| x.1.v.f("clientOrderId") == l.v.f("clientOrderId")).count() > 1 {
                return Ok(());
            }
            let (old, had) = (l.v.f("clientOrderId")?, l.v.f("quantity")?);
            let ask = *side;
            let price = if ask { 1001 + r.below(100) as i64 } else { 999 - r.below(100) as i64 };
            let peg = c.oracle && r.chance(1, 2);
            let g = if peg {
                let (off, lim) = if ask { (5, 300) } else { (-5, 1300) };
                let a = c.peg_args(ask, off, lim, qty, typ, expiry);
                c.must("editOrderPegged", 0, ask, &[("clientOrderId", n(old)), ("expectedCancelSize", n(had)), ("placeOrder", a)], &[])?
            } else {
                let a = c.place_args(ask, price, qty, typ, expiry, "DecrementTake");
                c.must("editOrder", 0, ask, &[("clientOrderId", n(old)), ("expectedCancelSize", n(had)), ("placeOrder", a)], &[])?
            };
            let id = c.some_id(&g)?;
            if peg {
                c.rests(id, ask, None, qty, expiry, Some(if ask { 300 } else { 1300 }))?;
            } else {
                c.rests(id, ask, Some(price), qty, expiry, None)?;
            }
            ensure(!c.book(ask)?.iter().any(|x| x.id == l.id), || format!("{:?} was replaced and is still there", l))?;
            info.count("edits", 1);
        }
        15 if room => {
            let one = |r: &mut Row, ask: bool| t(&[("priceLots", n(if ask { 1001 + r.below(100) as i64 } else { 999 - r.below(100) as i64 })), ("maxQuoteLotsIncludingFees", n(100_000 + r.below(100_000))), ("expiryTimestamp", n(expiry))]);
            let b: Vec<V> = (0..r.below(3)).map(|_| one(r, false)).collect();
            let a: Vec<V> = (0..r.below(3)).map(|_| one(r, true)).collect();
            let name = *r.pick(&["placeOrders", "cancelAllAndPlaceOrders"]);
            let (nb, na) = (b.len(), a.len());
            let prices: Vec<i128> = b.iter().chain(&a).map(|x| x.f("priceLots").unwrap()).collect();
            let g = c.must(name, 0, ask, &[("ordersType", e(typ)), ("bids", V::L(b)), ("asks", V::L(a)), ("limit", n(10))], &[])?;
            let ids = match &g.ret {
                Some(V::L(l)) => l.clone(),
                r => return Err(format!("{} returned {:?}", name, r)),
            };
            ensure(ids.len() == na + nb, || format!("{} returned {:?} for {} bids and {} asks", name, ids, nb, na))?;
            for (i, id) in ids.iter().enumerate() {
                let id = match id {
                    V::O(Some(x)) => x.num()?,
                    _ => return Err(format!("{} returned {:?}", name, ids)),
                };
                let l = c.book(i >= nb)?.into_iter().find(|l| l.id == id).ok_or("an order placed in a batch is not on the book")?;
                ensure(l.price == prices[i], || format!("{:?} rests for the price {}", l, prices[i]))?;
            }
            let left = c.book(false)?.len() + c.book(true)?.len();
            ensure(left == na + nb + if name == "placeOrders" { resting.len() } else { 0 }, || format!("{}: {} orders after {}", name, left, resting.len()))?;
            info.count("batches", 1);
        }
        16 => {
            c.delegate = if r.chance(2, 3) { Some(key(r)) } else { None };
            let g = c.must("setDelegate", u, ask, &[], &[])?;
            let l = g.log("SetDelegateLog")?;
            let a = c.account(u)?;
            let ok = a.k("delegate")? == c.delegate.unwrap_or_default() && l.k("openOrdersAccount")? == c.oo(u) && l.get("delegate")? == &V::O(c.delegate.map(|d| Box::new(V::K(d))));
            ensure(ok, || format!("delegate {:?} set: {:?} {:?}", c.delegate, a.get("delegate"), l))?;
            c.delegate = None;
        }
        17 => settle(c, u, "settleFunds")?,
        18 => {
            if c.oracle {
                let p = f64::from_bits(c.read(&c.acct("oracle", 0, false)?.unwrap(), "StubOracle")?.f("price")? as u64);
                c.bank.clock.slot += r.below(3);
                c.must("stubOracleSet", 0, false, &[("price", n(p.to_bits() as i128))], &[])?;
                let o = c.read(&c.acct("oracle", 0, false)?.unwrap(), "StubOracle")?;
                ensure(o.f("lastUpdateSlot")? == c.bank.clock.slot as i128 && o.f("price")? == p.to_bits() as i128, || format!("the oracle is {:?}", o))?;
            }
            sweep(c)?;
        }
        _ => {
            info.count("refusals", 1);
            let a = c.place_args(ask, 0, qty, typ, 0, "DecrementTake");
            c.refused("InvalidInputPriceLots", "placeOrder", u, ask, &[("args", a)])?;
            let a = c.peg_args(ask, 1, 0, qty, typ, 0);
            c.refused(if c.oracle { "InvalidInputPegLimit" } else { "DisabledOraclePeg" }, "placeOrderPegged", u, ask, &[("args", a)])?;
            c.refused("InvalidInputHeapSlots", "consumeGivenEvents", u, ask, &[("slots", V::L(vec![n(600)]))])?;
            c.refused("InvalidInputOrderId", "cancelOrder", u, ask, &[("orderId", n(0))])?;
            c.refused("MarketHasNotExpired", "pruneOrders", u, ask, &[("limit", n(5))])?;
        }
    }
    Ok(())
}

fn settle(c: &mut Client, u: usize, name: &str) -> Result<(), String> {
    let acc = c.account(u)?;
    let p = acc.get("position")?.clone();
    let (before, r0) = (c.wallet(u), c.bank.token_amount(&k(8, 0)));
    let g = c.must(name, u, false, &[], &[])?;
    let (after, r1) = (c.wallet(u), c.bank.token_amount(&k(8, 0)));
    let l = g.log("SettleFundsLog")?;
    let acc = c.account(u)?;
    let q = acc.get("position")?;
    let ok = q.f("baseFreeNative")? == 0
        && q.f("quoteFreeNative")? == 0
        && after.0 as i128 - before.0 as i128 == p.f("baseFreeNative")?
        && after.1 as i128 - before.1 as i128 == p.f("quoteFreeNative")?
        && l.f("baseNative")? == p.f("baseFreeNative")?
        && l.f("quoteNative")? == p.f("quoteFreeNative")?
        && l.k("openOrdersAccount")? == c.oo(u)
        && l.get("referrer")? == &V::O(Some(Box::new(V::K(k(8, 0)))).filter(|_| c.referrer))
        && (!c.referrer || l.f("referrerRebate")? == (r1 - r0) as i128);
    ensure(ok, || format!("{}: {:?} settled, now {:?}, logged {:?}", name, p, q, l))
}

fn sweep(c: &mut Client) -> Result<(), String> {
    let m = c.market()?;
    let g = c.must("sweepFees", 0, false, &[], &[])?;
    let l = g.log("SweepFeesLog")?;
    let ok = l.f("amount")? == m.f("feesAvailable")? && c.market()?.f("feesAvailable")? == 0 && l.k("market")? == k(MARKET.0, MARKET.1) && l.k("receiver")? == k(8, 1);
    ensure(ok, || format!("{:?} logged for {:?}", l, m.get("feesAvailable")))
}

fn finish(c: &mut Client) -> Result<(), String> {
    c.must("setMarketExpired", 0, false, &[], &[])?;
    ensure(c.market()?.f("timeExpiry")? == -1, || "the market has not expired".into())?;
    c.must("pruneOrders", 0, false, &[("limit", n(255))], &[])?;
    ensure(c.book(false)?.is_empty() && c.book(true)?.is_empty(), || "orders remain after pruning".into())?;
    for _ in 0..80 {
        if !c.events()?.is_empty() {
            let rest = [c.oo(0), c.oo(1)];
            c.must("consumeEvents", 0, false, &[("limit", n(8))], &rest)?;
        }
    }
    for u in 0..2 {
        settle(c, u, "settleFundsExpired")?;
        c.must("closeOpenOrdersAccount", u, false, &[], &[])?;
        c.must("closeOpenOrdersIndexer", u, false, &[], &[])?;
    }
    sweep(c)?;
    c.must("closeMarket", 0, false, &[], &[])?;
    for i in 0..(c.oracle as usize + c.second as usize) {
        c.must("stubOracleClose", 0, i == 1, &[], &[])?;
    }
    for key in ["market", "bids", "asks", "eventHeap", "openOrdersAccount", "openOrdersIndexer", "oracle"] {
        let key2 = c.acct(key, 0, false)?.unwrap();
        ensure(c.bank.get(&key2).is_none(), || format!("{} is still there", key))?;
    }
    Ok(())
}

pub fn run(case: &Case, info: &mut Info, verbose: bool) -> Result<(), Violation> {
    let all = match idls() {
        Ok(a) => a,
        Err(e) => return viol("use", e.clone()),
    };
    let mut r = Row::new(&case[0]);
    let (src, idl) = &all[[0, 0, 0, 1][r.idx(4)].min(all.len() - 1)];
    let mut body = || -> Result<(), String> {
        let mut c = start(idl, &mut r, verbose)?;
        for w in &case[1..] {
            step(&mut c, &mut Row::new(w), info)?;
            info.sig = w.iter().take(6).fold(info.sig, |h, x| hash_mix(h, *x));
        }
        finish(&mut c)?;
        info.summary = Some(c.text);
        Ok(())
    };
    if let Err(e) = body() {
        return viol("use", format!("{} (interface: {})", e, src));
    }
    let got = |k: &str| info.counters.contains_key(k);
    info.nontrivial = got("orders") && got("matches");
    Ok(())
}
