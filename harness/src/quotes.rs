//! C21: after a random history, quotes of the client are compared with the execution of the order.
use crate::engine::*;
use crate::jup::OpenBookMarket;
use crate::model::*;
use crate::profiles::*;
use crate::rt::*;
use crate::sim::*;
use crate::world::*;
use jupiter_amm_interface::{AccountMap, Amm, KeyedAccount, QuoteParams, Side as JSide, Swap, SwapParams};
use solana_sdk::account::Account;
use solana_sdk::instruction::Instruction;
use std::sync::OnceLock;

/// what the client says that a taking order will do
#[derive(Clone, Debug, PartialEq)]
pub struct Sim {
    pub base: u64,
    pub quote: u64,
    pub rebates: u64,
    pub short: bool,
}

pub type Direct = fn(&World, usize, i64, i64) -> Result<Sim, String>;
pub static DIRECT: OnceLock<Direct> = OnceLock::new();

const LIMIT: u8 = 45;

fn account(a: &Acc) -> Account {
    Account { lamports: a.lamports, data: a.data().to_vec(), owner: a.owner, ..Account::default() }
}

/// lots left over for matching by a bid that may spend `max` lots including fees
fn spendable(p: &Params, max: i64) -> i64 {
    (max as i128 * 1_000_000 / (1_000_000 + p.taker_fee as i128)) as i64
}

/// a size that ends somewhere in the opposing side
fn size(r: &mut Row, m: &Model, side: usize) -> (i64, i64) {
    let oracle = m.oracle_lots().ok().flatten();
    let lots: Vec<(i64, i64)> = m.ranked(1 - side, oracle).iter().filter(|x| x.0 == OState::Valid).map(|x| (x.1, x.2.qty)).collect();
    let k = r.idx(lots.len() + 2);
    let (mut base, mut quote) = (0i128, 0i128);
    for (i, (p, q)) in lots.iter().enumerate() {
        if i >= k {
            break;
        }
        base += *q as i128;
        quote += *p as i128 * *q as i128;
    }
    let part = lots.get(k).copied().unwrap_or((1 + r.below(500) as i64, 1 + r.below(50) as i64));
    let q = 1 + r.below(part.1.max(1) as u64) as i128;
    let (b, mut qt) = (base + q, quote + q * part.0 as i128);
    if r.chance(1, 2) {
        // make room for the taker fee, or nearly
        qt = qt * (1_000_000 + m.p.taker_fee as i128) / 1_000_000 + r.range(-1, 2) as i128;
    }
    if r.chance(1, 3) {
        qt += r.below(part.0.max(1) as u64) as i128;
    }
    (b.clamp(1, m.p.max_base() as i128) as i64, qt.clamp(1, m.p.max_quote() as i128) as i64)
}

fn query(w: &World, r: &mut Row, info: &mut Info, verbose: bool) -> Result<(), Violation> {
    let mut w = w.clone();
    let m = match w.model() {
        Ok(m) => m,
        Err(_) => return Ok(()),
    };
    let side = r.idx(2);
    let (b, q) = size(r, &m, side);
    let open = r.below(4);
    let (mb, mq) = match open {
        0 => (m.p.max_base(), q),
        1 => (b, m.p.max_quote()),
        _ => (b, q),
    };
    let user = r.idx(w.users.len());
    // somebody with all the funds in the world
    for i in 0..2 {
        let (mint, k) = (if i == 0 { w.k.base_mint } else { w.k.quote_mint }, w.toks[user][i]);
        let u = w.users[user];
        put_token(&mut w.bank, k, mint, u, 1 << 60);
    }
    if let Some(f) = DIRECT.get() {
        direct(&w, *f, user, side, mb, mq, info, verbose)?;
    }
    jup(&w, user, side, if side == BID { (q as u64).saturating_mul(w.cfg.qls as u64) } else { (b as u64).saturating_mul(w.cfg.bls as u64) }, r, info, verbose)
}

fn moved(w: &World, b: &Bank, user: usize) -> [i128; 2] {
    let f = |i: usize| b.token_amount(&w.toks[user][i]) as i128 - w.bank.token_amount(&w.toks[user][i]) as i128;
    [f(0), f(1)]
}

fn direct(w: &World, f: Direct, user: usize, side: usize, mb: i64, mq: i64, info: &mut Info, verbose: bool) -> Result<(), Violation> {
    let mut w2 = w.clone();
    let mut m2 = match w2.model() {
        Ok(m) => m,
        Err(_) => return Ok(()),
    };
    let o = taker(side, mb, mq, LIMIT);
    let d = lockstep(&mut w2, &mut m2, &Op::Take { user, o: o.clone(), rem: vec![] }, info);
    let what = format!("taking {} with at most {} base lots and {} quote lots", ["bid", "ask"][side], mb, mq);
    let sim = guarded(|| f(w, side, mb, mq));
    if verbose {
        println!("{}: client {:?}, program {}", what, sim, real_str(&d.real));
    }
    if d.real.is_err() {
        info.count("refused by the program", 1);
        return Ok(());
    }
    let sim = match sim {
        Ok(Ok(s)) => s,
        x => return viol("no prediction", format!("{}: the program executes it, the client says {:?}", what, x)),
    };
    let lots: i128 = d.fills.iter().map(|f| f.qty as i128).sum();
    let qlots: i128 = d.fills.iter().map(|f| f.price as i128 * f.qty as i128).sum();
    let quote = qlots * w.cfg.qls as i128;
    let mv = moved(w, &w2.bank, user);
    let base = if side == BID { mv[0] } else { -mv[0] };
    let rebates = if side == BID { -mv[1] - quote } else { quote - mv[1] };
    let short = if side == BID { spendable(&w.params(), mq) as i128 != qlots } else { mb as i128 != lots };
    info.count("quotes", 1);
    if lots > 0 {
        info.count("quotes with trades", 1);
        info.count("quotes with rebates", (rebates > 0) as u64);
        info.count("quotes with 45 trades", (d.fills.len() >= LIMIT as usize) as u64);
        if let Ok(o) = &d.pred {
            info.count("quotes over pegged orders", o.fills.iter().any(|f| f.pegged) as u64);
            info.count("quotes past expired orders", (o.dropped > 0) as u64);
        }
    }
    info.count("quotes beyond the book", short as u64);
    let real = (base, quote, rebates, short);
    let said = (sim.base as i128, sim.quote as i128, sim.rebates as i128, sim.short);
    if real != said {
        let kind = if real.0 != said.0 {
            "base"
        } else if real.1 != said.1 {
            "quote"
        } else if real.2 != said.2 {
            "rebates"
        } else {
            "liquidity"
        };
        return viol(format!("simulation: {}", kind), format!("{}: client predicts (base, quote, rebates, short) {:?}, execution gives {:?}", what, said, real));
    }
    Ok(())
}

fn jup(w: &World, user: usize, side: usize, amount: u64, r: &mut Row, info: &mut Info, verbose: bool) -> Result<(), Violation> {
    let p = w.params();
    let lot = if side == BID { w.cfg.qls } else { w.cfg.bls } as u64;
    // amounts are native: most are no multiple of the lot size
    let in_amount = amount.saturating_add(r.below(lot)).min(1 << 59);
    let (input_mint, output_mint) = if side == BID { (w.k.quote_mint, w.k.base_mint) } else { (w.k.base_mint, w.k.quote_mint) };
    let what = format!("quote for {} of {}", in_amount, ["quote (bid)", "base (ask)"][side]);
    let keyed = KeyedAccount { key: w.k.market, account: account(w.bank.get(&w.k.market).unwrap()), params: None };
    let mut amm = match guarded(|| OpenBookMarket::from_keyed_account(&keyed)) {
        Ok(Ok(a)) => a,
        x => return viol("adapter", format!("market account not read: {:?}", x.map(|y| y.map(|_| ())))),
    };
    if amm.get_reserve_mints() != vec![w.k.base_mint, w.k.quote_mint] || amm.key() != w.k.market || amm.program_id() != pid() {
        return viol("adapter", "mints, key or program are not the market's");
    }
    let mut map = AccountMap::new();
    for k in amm.get_accounts_to_update() {
        if k == solana_sdk::sysvar::clock::ID {
            map.insert(k, Account { data: bincode::serialize(&w.bank.clock).unwrap(), ..Account::default() });
        } else if let Some(a) = w.bank.get(&k) {
            map.insert(k, account(a));
        }
    }
    let ask = QuoteParams { in_amount, input_mint, output_mint };
    let q = guarded(|| {
        amm.update(&map)?;
        amm.quote(&ask)
    });
    if w.k.oo_admin.is_some() {
        // others cannot trade there
        info.count("permissioned", 1);
        return match q {
            Ok(Ok(q)) if q.in_amount == 0 && q.out_amount == 0 && q.not_enough_liquidity => Ok(()),
            q => viol("permissioned", format!("{}: {:?} on a market that needs an admin's signature", what, q)),
        };
    }
    // the adapter takes whole lots of the input
    let (mb, mq) = if side == BID { (p.max_base(), (in_amount / lot) as i64) } else { ((in_amount / lot) as i64, p.max_quote()) };
    let (src, dst) = if side == BID { (1, 0) } else { (0, 1) };
    let swap = guarded(|| {
        amm.get_swap_and_account_metas(&SwapParams {
            in_amount,
            source_mint: input_mint,
            destination_mint: output_mint,
            user_destination_token_account: w.toks[user][dst],
            user_source_token_account: w.toks[user][src],
            user_transfer_authority: w.users[user],
        })
    });
    let metas = match &swap {
        Ok(Ok(s)) => s,
        _ => {
            // no oracle price can be computed: the program refuses as well
            let data = take_data(side, 1, 1);
            let mut b = w.bank.clone();
            let o = w.build(&Op::Take { user, o: taker(side, 1, 1, 1), rem: vec![] });
            if let Some(mut i) = o {
                i.data = data;
                if b.exec(&i).is_ok() {
                    return viol("no prediction", format!("{}: no swap accounts although the market trades", what));
                }
            }
            return Ok(());
        }
    };
    let want = if side == BID { JSide::Bid } else { JSide::Ask };
    if metas.swap != (Swap::Openbook { side: want }) {
        return viol("adapter", format!("{}: swap {:?}", what, metas.swap));
    }
    let mut b = w.bank.clone();
    let i = Instruction { program_id: pid(), accounts: metas.account_metas.clone(), data: take_data(side, mb, mq) };
    let real = b.exec(&i);
    if verbose {
        println!("{} ({} {}): {:?}, program {}", what, mb, mq, q, real_str(&real));
    }
    if real.is_err() {
        // the accounts are right when the program accepts the same order with accounts of our own
        let mut c = w.bank.clone();
        if let Some(mut j) = w.build(&Op::Take { user, o: taker(side, mb, mq, LIMIT), rem: vec![] }) {
            j.data = take_data(side, mb, mq);
            if c.exec(&j).is_ok() {
                return viol("swap accounts", format!("{}: refused with the adapter's accounts: {}", what, real_str(&real)));
            }
        }
        info.count("refused by the program", 1);
        return Ok(());
    }
    let q = match q {
        Ok(Ok(q)) => q,
        q => return viol("no prediction", format!("{}: the program executes it, the adapter says {:?}", what, q)),
    };
    let mv = moved(w, &b, user);
    info.count("adapter quotes", 1);
    info.count("adapter quotes with trades", (mv[0] != 0) as u64);
    let (paid, got) = if side == BID { (-mv[1], mv[0]) } else { (-mv[0], mv[1]) };
    if q.in_amount as i128 != paid || q.out_amount as i128 != got {
        return viol(
            if q.in_amount as i128 != paid { "adapter: amount in" } else { "adapter: amount out" },
            format!("{}: adapter quotes {} in, {} out; execution takes {} and gives {}", what, q.in_amount, q.out_amount, paid, got),
        );
    }
    // base lots of an ask that found no taker
    if side == ASK {
        let short = paid != mb as i128 * w.cfg.bls as i128;
        if q.not_enough_liquidity != short {
            return viol("adapter: liquidity", format!("{}: not_enough_liquidity {} but {} of {} sold", what, q.not_enough_liquidity, paid, in_amount));
        }
    } else if !q.not_enough_liquidity && spendable(&p, mq) as i128 * p.qls as i128 > paid {
        return viol("adapter: liquidity", format!("{}: not_enough_liquidity {} but only {} spent", what, q.not_enough_liquidity, paid));
    }
    // what changes hands beyond the trades themselves
    let mut w2 = w.clone();
    if let Ok(mut m2) = w2.model() {
        let d = lockstep(&mut w2, &mut m2, &Op::Take { user, o: taker(side, mb, mq, LIMIT), rem: vec![] }, info);
        let value: i128 = d.fills.iter().map(|f| f.price as i128 * f.qty as i128).sum::<i128>() * w.cfg.qls as i128;
        let fee = if side == BID { paid - value } else { value - got };
        if d.real.is_ok() && (q.fee_mint != w.k.quote_mint || q.fee_amount as i128 != fee) {
            return viol("adapter: fee", format!("{}: {:?}, the order pays {}", what, q, fee));
        }
    }
    Ok(())
}

fn taker(side: usize, mb: i64, mq: i64, limit: u8) -> OArgs {
    let price = if side == BID { i64::MAX } else { 1 };
    OArgs { side, peg: false, price, peg_limit: -1, mb, mq, cid: 0, typ: Typ::Market, exp: 0, stb: Stb::Decrement, limit }
}

fn take_data(side: usize, mb: i64, mq: i64) -> Vec<u8> {
    anchor_lang::InstructionData::data(&openbook_v2::instruction::PlaceTakeOrder {
        args: openbook_v2::PlaceTakeOrderArgs {
            side: if side == BID { openbook_v2::state::Side::Bid } else { openbook_v2::state::Side::Ask },
            price_lots: i64::MAX,
            max_base_lots: mb,
            max_quote_lots_including_fees: mq,
            order_type: openbook_v2::state::PlaceOrderType::Market,
            limit: LIMIT,
        },
    })
}

fn c21(case: &Case, info: &mut Info, verbose: bool, pr: &Profile) -> Result<(), Violation> {
    // the last rows are the queries
    let n = case.len().saturating_sub(4).max(1).min(case.len());
    let hist: Case = case[..n].to_vec();
    let (w, _, st) = history(&hist, info, verbose, pr, |c| c.expiry = 0, &mut |_, _| Ok(()))?;
    if st.cut {
        return Ok(());
    }
    let mut sig = info.sig;
    for row in &case[n..] {
        query(&w, &mut Row::new(row), info, verbose)?;
        sig = row.iter().take(6).fold(sig, |h, x| hash_mix(h, *x));
    }
    info.sig = sig;
    let c = |k: &str| info.counters.get(k).copied().unwrap_or(0);
    info.nontrivial = c("quotes with trades") + c("adapter quotes with trades") > 0;
    Ok(())
}

pub fn plans(id: &str) -> Option<Vec<Plan>> {
    const R: &str = "a case counts when at least one quoted order trades";
    macro_rules! p {
        ($name:expr, $rows:expr, $q:expr, $t:expr, $pr:expr) => {
            Plan { name: $name, rule: R, rows: $rows, row_len: 72, quick: $q, thorough: $t, run: |c, i, v| c21(c, i, v, &$pr) }
        };
    }
    if id != "C21" {
        return None;
    }
    Some(vec![
        p!("general", (5, 80), 9000, 300000, GENERAL),
        p!("fees", (5, 80), 9000, 300000, FEES_P),
        p!("pegs", (5, 80), 9000, 300000, PEGS),
        p!("expiry", (5, 80), 8000, 300000, TIMED),
        p!("crowded", (20, 80), 600, 15000, CROWD),
    ])
}
