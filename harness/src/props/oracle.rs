//! C19: the price used for pegged orders, observed through trades on a market whose oracle accounts hold
//! generated contents of every supported kind.
use crate::engine::*;
use crate::model::*;
use crate::rt::Acc;
use crate::world::*;
use solana_sdk::pubkey::Pubkey;

const CAP: i64 = 1 << 50;
const STUB: usize = 0;
const PYTH: usize = 1;
const SB2: usize = 2;
const SB1: usize = 3;
const RAY: usize = 4;
const NAMES: [&str; 5] = ["stub", "pyth", "switchboard2", "switchboard1", "raydium"];

/// what an account publishes, by the provider's documentation
#[derive(Clone, Debug)]
enum Src {
    /// price between lo and hi, deviation, slot of the last update
    Price { lo: f64, hi: f64, dev: f64, slot: u64 },
    /// has to be refused
    Bad(&'static str),
}

fn put(d: &mut [u8], at: usize, b: &[u8]) {
    d[at..at + b.len()].copy_from_slice(b);
}

fn p10(e: i32) -> f64 {
    format!("1e{}", e).parse().unwrap()
}

/// an account of the given kind publishing about `price`, with a deviation of about `dev`, last updated in `slot`
fn make(r: &mut Row, kind: usize, price: f64, dev: f64, slot: u64) -> (Acc, Src, String) {
    let sys = sys();
    let fault = r.chance(1, 10);
    match kind {
        STUB => {
            let mut d = vec![0u8; 208];
            put(&mut d, 0, &<openbook_v2::state::StubOracle as anchor_lang::Discriminator>::DISCRIMINATOR);
            let mut p = price;
            if fault {
                p = *r.pick(&[0.0, f64::NAN, f64::INFINITY, -1.0, 1e300, 1e-300]);
            }
            put(&mut d, 72, &p.to_le_bytes());
            put(&mut d, 80, &77i64.to_le_bytes());
            put(&mut d, 88, &slot.to_le_bytes());
            put(&mut d, 96, &dev.to_le_bytes());
            let s = if slot == 0 { u64::MAX } else { slot };
            (Acc::from_bytes(1 << 40, &d, pid()), Src::Price { lo: p, hi: p, dev, slot: s }, format!("stub {} ± {} at {}", p, dev, slot))
        }
        PYTH => {
            let mut d = vec![0u8; 3312];
            let mut expo = -(r.below(13) as i32);
            if r.chance(1, 5) {
                expo = r.below(13) as i32;
            }
            let int = |x: f64| (x / p10(expo)).round().clamp(0.0, 9e18);
            let (mut p, c) = (int(price) as i64, int(dev) as u64);
            let trading = r.chance(2, 3);
            let mut magic = 0xa1b2c3d4u32;
            let (mut ver, mut atype) = (2u32, 3u32);
            let mut bad = "";
            if fault {
                match r.below(5) {
                    0 => {
                        p = -1 - r.below(1000) as i64;
                        bad = "negative price";
                    }
                    1 => {
                        expo = *r.pick(&[13, -13, 100, -100]);
                        bad = "exponent";
                    }
                    2 => {
                        magic ^= 1;
                        bad = "magic";
                    }
                    3 => {
                        ver = 1;
                        bad = "version";
                    }
                    _ => {
                        atype = 2;
                        bad = "account type";
                    }
                }
            }
            put(&mut d, 0, &magic.to_le_bytes());
            put(&mut d, 4, &ver.to_le_bytes());
            put(&mut d, 8, &atype.to_le_bytes());
            put(&mut d, 20, &expo.to_le_bytes());
            // moving averages and other slots, never to be used
            for at in [32, 40, 48, 56, 64, 72, 80, 88, 96, 200] {
                put(&mut d, at, &(r.below(1 << 40)).to_le_bytes());
            }
            let status = if trading { 1u32 } else { *r.pick(&[0, 2, 3, 4]) };
            put(&mut d, 224, &status.to_le_bytes());
            // (price, confidence, slot) of the aggregate and of the previous one
            let other = (p / 2 + 7, c / 2 + 1, slot / 2 + 3);
            let (agg, prev) = if trading { ((p, c, slot), other) } else { (other, (p, c, slot)) };
            put(&mut d, 208, &agg.0.to_le_bytes());
            put(&mut d, 216, &agg.1.to_le_bytes());
            put(&mut d, 232, &agg.2.to_le_bytes());
            put(&mut d, 184, &prev.0.to_le_bytes());
            put(&mut d, 192, &prev.1.to_le_bytes());
            put(&mut d, 176, &prev.2.to_le_bytes());
            let owner = key("pyth", 0);
            let text = format!("pyth {}e{} ± {} at {} ({}{})", p, expo, c, slot, if trading { "trading" } else { "halted" }, bad);
            let src = if bad.is_empty() {
                let x = p as f64 * p10(expo);
                Src::Price { lo: x, hi: x, dev: c as f64 * p10(expo), slot }
            } else {
                Src::Bad(bad)
            };
            (Acc::from_bytes(1 << 40, &d, owner), src, text)
        }
        SB2 => {
            let mut d = vec![0u8; 8 + 3843];
            put(&mut d, 0, &[217, 230, 65, 101, 201, 162, 27, 125]);
            let max = 2f64.powi(95);
            let dec = |r: &mut Row, x: f64| -> (i128, u32) {
                let mut scale = r.below(29) as u32;
                while scale > 0 && x * p10(scale as i32) > max {
                    scale -= 1;
                }
                let m = (x * p10(scale as i32)).min(max).round();
                // the mantissa is not limited to what a float holds
                let m = m as i128 + if m > 1e17 { r.below(1000) as i128 } else { 0 };
                (m, scale)
            };
            let (mut p, s) = dec(r, price);
            let (c, cs) = dec(r, dev);
            let need = r.below(5) as u32;
            let mut have = need + r.below(3) as u32;
            let mut bad = "";
            if fault {
                if r.chance(1, 2) {
                    p = -1 - p;
                    bad = "negative price";
                } else {
                    put(&mut d, 8 + 228, &(need + 1).to_le_bytes());
                    have = need;
                    bad = "too few responses";
                }
            }
            if bad != "too few responses" {
                put(&mut d, 8 + 228, &need.to_le_bytes());
            }
            let b = 8 + 333;
            put(&mut d, b, &have.to_le_bytes());
            put(&mut d, b + 9, &slot.to_le_bytes());
            put(&mut d, b + 25, &p.to_le_bytes());
            put(&mut d, b + 41, &s.to_le_bytes());
            put(&mut d, b + 45, &c.to_le_bytes());
            put(&mut d, b + 61, &cs.to_le_bytes());
            // lowest and highest response, and the round in progress
            for at in [b + 65, b + 85] {
                put(&mut d, at, &(p / 2 + 1).to_le_bytes());
                put(&mut d, at + 16, &s.to_le_bytes());
            }
            let f = |m: i128, s: u32| format!("{}e-{}", m, s).parse::<f64>().unwrap();
            let src = if bad.is_empty() { Src::Price { lo: f(p, s), hi: f(p, s), dev: f(c, cs), slot } } else { Src::Bad(bad) };
            (Acc::from_bytes(1 << 40, &d, key("sbv2", 0)), src, format!("switchboard2 {}e-{} ± {}e-{} at {} {}", p, s, c, cs, slot, bad))
        }
        SB1 => {
            let mut d = vec![0u8; 128];
            d[0] = 7;
            let mut p = price;
            let lo = price / 2.0;
            let hi = lo + dev;
            let mut owner: Pubkey = r.pick(&["7azgmy1pFXHikv36q1zZASvFq5vFa39TT9NweVugKKTU", "DtmE9D2CSB4L5D6A15mraeEjrGMm6auWVzgaD8hK2tZM"]).parse().unwrap();
            let mut bad = "";
            if fault {
                match r.below(3) {
                    0 => {
                        p = -p - 1.0;
                        bad = "negative price";
                    }
                    1 => {
                        // neither refused nor a price
                        p = f64::NAN;
                    }
                    _ => {
                        owner = *r.pick(&[sys, pid()]);
                        bad = "unknown owner";
                    }
                }
            }
            put(&mut d, 41, &p.to_le_bytes());
            put(&mut d, 49, &slot.to_le_bytes());
            put(&mut d, 57, &1234i64.to_le_bytes());
            put(&mut d, 65, &lo.to_le_bytes());
            put(&mut d, 73, &hi.to_le_bytes());
            let src = if bad.is_empty() { Src::Price { lo: p, hi: p, dev: hi - lo, slot } } else { Src::Bad(bad) };
            (Acc::from_bytes(1 << 40, &d, owner), src, format!("switchboard1 {} [{}, {}] at {} {}", p, lo, hi, slot, bad))
        }
        _ => {
            let mut d = vec![0u8; 8 + 1536];
            put(&mut d, 0, &[247, 237, 227, 245, 215, 195, 222, 70]);
            let dec = [r.below(13) as i32, r.below(13) as i32];
            let adj = p10(dec[0] - dec[1]);
            let root = (price / adj).sqrt().min(4e9);
            let bits = (root * 2f64.powi(64)) as u128;
            put(&mut d, 8 + 225, &[dec[0] as u8, dec[1] as u8]);
            put(&mut d, 8 + 227, &60u16.to_le_bytes());
            put(&mut d, 8 + 229, &(r.next() as u128).to_le_bytes());
            put(&mut d, 8 + 245, &bits.to_le_bytes());
            let mut owner: Pubkey = "CAMMCzo5YL8w4VFF8KVHrK22GGUsp5VTaW7grrKgrWqK".parse().unwrap();
            let mut bad = "";
            if fault {
                owner = sys;
                bad = "unknown owner";
            }
            let x = bits as f64 / 2f64.powi(64);
            let src = if bad.is_empty() { Src::Price { lo: (x * x - 2f64.powi(-63)).max(0.0) * adj, hi: x * x * adj, dev: 0.0, slot: u64::MAX } } else { Src::Bad(bad) };
            (Acc::from_bytes(1 << 40, &d, owner), src, format!("raydium {}^2 decimals {:?} {}", x, dec, bad))
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
enum Want {
    Lots(i64, i64),
    Absent,
    Refused,
    /// no trade at an oracle price, refused or not
    NoPeg,
    Any,
}

fn want(src: &[Src], cfg: &Cfg, now: u64) -> Want {
    let bad = src.iter().any(|s| matches!(s, Src::Bad(_)));
    let stale = src.iter().any(|s| match s {
        Src::Price { slot, .. } => cfg.staleness.map(|m| (*slot as u128) + (m as u128) < now as u128).unwrap_or(false),
        _ => false,
    });
    if bad {
        return if stale { Want::NoPeg } else { Want::Refused };
    }
    if stale {
        return Want::Absent;
    }
    let conf = cfg.conf as f32 as f64;
    let v: Vec<(f64, f64, f64)> = src
        .iter()
        .filter_map(|s| match s {
            Src::Price { lo, hi, dev, .. } => Some((*lo, *hi, *dev)),
            _ => None,
        })
        .collect();
    let (lo, hi) = if v.len() == 1 { (v[0].0, v[0].1) } else { (v[0].0 / v[1].1, v[0].1 / v[1].0) };
    // the stub may hold anything, negative prices are only refused from real providers
    if v.iter().any(|x| x.1 < 0.0) {
        return Want::Any;
    }
    // prices which are no number of lots at all
    if !lo.is_finite() || !hi.is_finite() {
        return Want::NoPeg;
    }
    // uncertainty, left open within rounding
    let (x, limit) = if v.len() == 1 { (v[0].2, conf * v[0].1) } else { ((v[0].2 / v[0].1).powi(2) + (v[1].2 / v[1].1).powi(2), conf * conf) };
    if x.is_nan() || x > limit * (1.0 + 1e-9) {
        return Want::Absent;
    }
    // (a price that may or may not round to zero has an undefined relative uncertainty)
    let open = (!(x < limit * (1.0 - 1e-9)) && x != 0.0) || (v.len() == 2 && v.iter().any(|p| p.0 == 0.0));
    // native units, then lots
    let adj = p10(cfg.quote_dec as i32 - cfg.base_dec as i32);
    let k = cfg.bls as f64 / cfg.qls as f64;
    let l = ((lo * (1.0 - 1e-13) * adj - 2f64.powi(-47)) * k - 2f64.powi(-46)).floor();
    let h = (hi * (1.0 + 1e-13) * adj * k).floor();
    // beyond what fits into 80.48 bits or a number of lots
    if h >= 9e18 || hi * adj * cfg.bls as f64 >= 2f64.powi(79) * 0.999 {
        return Want::NoPeg;
    }
    if open {
        return Want::Any;
    }
    Want::Lots(l.max(0.0) as i64, h as i64)
}

pub fn c19(case: &Case, info: &mut Info, verbose: bool) -> Result<(), Violation> {
    let empty = vec![];
    let mut r0 = Row::new(case.get(0).unwrap_or(&empty));
    let two = r0.chance(1, 2);
    let cfg = Cfg {
        bls: *r0.pick(&[100, 1, 1_000_000, 7, 1000]),
        qls: *r0.pick(&[10, 1, 100, 3, 1000]),
        base_dec: *r0.pick(&[6, 9, 0, 12, 5]),
        quote_dec: *r0.pick(&[6, 0, 9, 12, 8]),
        oracles: 1 + two as usize,
        conf: *r0.pick(&[0.1, 0.01, 0.0, 1.0, 0.5]),
        staleness: *r0.pick(&[None, Some(40), Some(0), Some(1), Some(1000)]),
        users: 2,
        oos: vec![0, 1],
        wallets: vec![[1 << 62, 1 << 62]; 2],
        mid: 1000,
        ..Cfg::default()
    };
    let mut w = match World::new(cfg.clone()) {
        Ok(w) => w,
        Err(e) => return viol("setup", e),
    };
    // resting pegged orders without an offset and plain ones behind them, one lot each
    let base = OArgs { side: ASK, peg: true, price: 0, peg_limit: 1, mb: 1, mq: CAP, cid: 1, typ: Typ::Limit, exp: 0, stb: Stb::Decrement, limit: 10 };
    let setup = [
        OArgs { side: ASK, price: 1, ..base.clone() },
        OArgs { side: ASK, peg: false, price: CAP, ..base.clone() },
        OArgs { side: BID, price: 0, peg_limit: CAP, ..base.clone() },
        OArgs { side: BID, peg: false, price: 1, ..base.clone() },
    ];
    for o in &setup {
        if let Err(e) = w.exec(&Op::Place { oo: 0, signer: 0, o: o.clone(), rem: vec![], wrong_vault: false }) {
            return viol("setup", format!("{:?} {:?}", o, e));
        }
    }
    let start = w.bank.clone();
    let (mut present, mut absent) = (0u64, 0u64);
    let mut sig = hash_str(&format!("{:?}", cfg));
    let mut text = String::new();
    for row in case.iter().skip(1) {
        let mut r = Row::new(row);
        w.bank = start.clone();
        let now = *r.pick(&[2000, 100_000, 50]);
        w.bank.clock.slot = now;
        // the price aimed at: some lots and a fraction
        let lots = match r.below(4) {
            0 => r.below(50) as f64,
            1 => r.below(5000) as f64,
            2 => r.below(1 << 40) as f64,
            _ => (r.below(1 << 20) as f64).exp2().min(1e17) % 1e17,
        };
        let frac = *r.pick(&[0.5, 0.25, 0.999, 0.0, 0.001]);
        let ui = (lots + frac) * cfg.qls as f64 / cfg.bls as f64 / p10(cfg.quote_dec as i32 - cfg.base_dec as i32);
        let mut src = vec![];
        let mut kinds = vec![];
        let share = r.pick(&[0.3, 0.05, 0.699, 0.72, 1.0, 3.0, 0.0]).to_owned();
        for i in 0..cfg.oracles {
            let kind = r.idx(5);
            let other = if two { *r.pick(&[1.0, 25.0, 1000.5, 0.001, 60000.0]) } else { 1.0 };
            let _ = other;
            let price = if i == 0 { ui } else { 1.0 };
            let price = price * if two { [1.0, 25.0, 1000.5, 0.001, 60000.0][(row.get(1).copied().unwrap_or(0) % 5) as usize] } else { 1.0 };
            let dev = price * cfg.conf * if i == 0 || r.chance(1, 2) { share * *r.pick(&[1.0, 0.9, 1.1, 0.5]) } else { 0.0 };
            let m = cfg.staleness.unwrap_or(40) as u64;
            let slot = match r.below(8) {
                0..=3 => now.saturating_sub(r.below(m + 1)),
                4 => now.saturating_sub(m),
                5 => now.saturating_sub(m + 1),
                6 => *r.pick(&[0, 1, now, now + 5, u64::MAX, u64::MAX - 3]),
                _ => now,
            };
            let (a, s, t) = make(&mut r, kind, price, dev, slot);
            if text.len() < 400 {
                text.push_str(&t);
                text.push_str("; ");
            }
            if verbose {
                println!("oracle {}: {}", i, t);
            }
            kinds.push(kind);
            w.bank.put(w.k.oracle[i].unwrap(), a);
            src.push(s);
        }
        let want = want(&src, &cfg, now);
        sig = hash_mix(sig, hash_str(&format!("{:?}{:?}", kinds, want)));
        let name = kinds.iter().map(|k| NAMES[*k]).collect::<Vec<_>>().join("/");
        info.count(&format!("source {}", name), 1);
        info.count(
            match want {
                Want::Lots(..) => "priced",
                Want::Absent => "absent",
                Want::Refused => "refused",
                _ => "left_open",
            },
            1,
        );
        let context = |what: &str| format!("{}: oracles {:?}, expected {:?}, slot {}, config {:?}", what, src, want, now, cfg);
        // buy and sell one lot
        for side in [BID, ASK] {
            let mut v = w.clone();
            let before = v.read_events().map(|e| e.len()).unwrap_or(0);
            let o = OArgs { side, peg: false, price: if side == BID { CAP } else { 1 }, mq: 1 << 62 >> 10, typ: Typ::Ioc, ..base.clone() };
            let res = v.exec(&Op::Take { user: 1, o, rem: vec![] });
            let ev = match v.read_events() {
                Ok(e) => e,
                Err(e) => return viol("state", e),
            };
            let fills: Vec<i64> = ev[before..]
                .iter()
                .filter_map(|e| match e.ev {
                    Ev::Fill { price, .. } => Some(price),
                    _ => None,
                })
                .collect();
            let got = match &res {
                Ok(_) if fills.len() == 1 => Some(fills[0]),
                Ok(_) => return viol("trade", context(&format!("one lot against two orders trades {:?}", fills))),
                Err(_) => None,
            };
            if verbose {
                println!("  want {:?}: {} -> {:?} {:?}", want, if side == BID { "buy" } else { "sell" }, got, res.as_ref().map(|_| ()));
            }
            let plain = if side == BID { CAP } else { 1 };
            // the asked offset is 1, the bid one 0
            let off = if side == BID { 1 } else { 0 };
            let ok = match &want {
                Want::Any => true,
                Want::Refused => got.is_none(),
                Want::Absent => got == Some(plain),
                Want::NoPeg => got.is_none() || got == Some(plain),
                Want::Lots(a, b) => match got {
                    None => false,
                    Some(g) if side == BID => (a + off..=b + off).contains(&g) || (g == CAP && b + off >= CAP),
                    // a price of zero lots is no price; beyond its limit the pegged bid is left alone
                    Some(g) => (g >= 1 && (*a..=*b).contains(&g) && g <= CAP) || (g == 1 && (*a < 1 || *b > CAP)),
                },
            };
            if !ok {
                return viol(format!("price of {}", name), context(&format!("{} one lot gives {:?} {:?}", if side == BID { "buying" } else { "selling" }, got, res.map(|_| ()))));
            }
        }
        // a new pegged order needs the price
        let mut v = w.clone();
        let o = OArgs { side: ASK, price: 5, typ: Typ::PostOnly, ..base.clone() };
        let res = v.exec(&Op::Place { oo: 1, signer: 1, o, rem: vec![], wrong_vault: false });
        let ok = match &want {
            Want::Absent | Want::Refused => res.is_err(),
            Want::Lots(a, b) if *a > 1 && *b < CAP - 10 => res.is_ok(),
            _ => true,
        };
        if !ok {
            return viol(format!("pegged order with {}", name), context(&format!("placing gives {:?}", res.map(|_| ()))));
        }
        match want {
            Want::Lots(..) => present += 1,
            Want::Absent | Want::Refused => absent += 1,
            _ => {}
        }
    }
    info.nontrivial = present > 0 && absent > 0;
    info.sig = sig;
    info.summary = Some(format!("lots {}/{} decimals {}/{} conf {} staleness {:?}: {}| {} priced, {} absent or refused", cfg.bls, cfg.qls, cfg.base_dec, cfg.quote_dec, cfg.conf, cfg.staleness, text, present, absent));
    Ok(())
}

pub fn plans() -> Vec<Plan> {
    vec![Plan { name: "contents", rule: "a case counts when both a usable and an unusable price were among its oracle contents", rows: (2, 16), row_len: 40, quick: 16000, thorough: 600000, run: c19 }]
}
