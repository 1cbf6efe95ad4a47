//! C32: the transactions the TypeScript client sends, and what it tells of their fate.
use crate::engine::*;
use crate::rt::*;
use crate::ts_io::*;
use serde_json::{json, Value};
use solana_sdk::compute_budget::ComputeBudgetInstruction;
use solana_sdk::pubkey::Pubkey;

fn key(n: u64) -> Pubkey {
    Pubkey::new_from_array([n as u8 + 1; 32])
}

fn ix(p: &Pubkey, keys: &[(Pubkey, bool, bool)], data: &[u8]) -> Value {
    json!({"p": hex(p), "k": keys.iter().map(|(k, s, w)| json!([hex(k), s, w])).collect::<Vec<_>>(), "d": data.iter().map(|b| format!("{:02x}", b)).collect::<String>()})
}

const LEVELS: [&str; 3] = ["processed", "confirmed", "finalized"];

fn send(case: &Case, info: &mut Info, verbose: bool) -> Result<(), Violation> {
    reset();
    let bank = Bank::new();
    let mut fates = vec![];
    for row in case {
        let mut r = Row::new(row);
        let wallet = key(r.below(3));
        let others: Vec<Pubkey> = (10..10 + r.below(4)).map(key).collect();
        let mut ixs = vec![];
        let mut asked = vec![wallet];
        for i in 0..1 + r.below(4) {
            let keys: Vec<(Pubkey, bool, bool)> = (0..r.below(4))
                .map(|_| {
                    let k = match r.below(3) {
                        0 => wallet,
                        1 if !others.is_empty() => *r.pick(&others),
                        _ => key(50 + r.below(5)),
                    };
                    let signer = r.chance(1, 2) && (k == wallet || others.contains(&k));
                    if signer {
                        asked.push(k);
                    }
                    (k, signer, r.chance(1, 2))
                })
                .collect();
            // the same instruction may come twice
            let i = if r.chance(1, 5) { 0 } else { i };
            ixs.push(ix(&key(100 + i), &keys, &[i as u8; 3]));
        }
        let signers: Vec<Pubkey> = others.iter().filter(|k| asked.contains(k)).copied().collect();
        let kind = *r.pick(&["node", "plain", "named", "browser"]);
        let banks = r.chance(1, 6);
        let fails = *r.pick(&["", "", "", "tx", "word", "send", "confirm"]);
        let refuse = r.chance(1, 12) && kind == "browser";
        let throws = r.chance(1, 3);
        let fees: [Option<u64>; 5] = [None, Some(0), Some(1), Some(25_000), Some(1 << 40)];
        let (cfee, ofee) = (*r.pick(&fees), *r.pick(&fees));
        let level = |r: &mut Row| if r.chance(1, 2) { Some(*r.pick(&LEVELS)) } else { None };
        let (ccom, ocom, pcom, ppre, opre) = (level(&mut r), level(&mut r), level(&mut r), level(&mut r), level(&mut r));
        let ccall = r.chance(1, 2);
        let ocall = *r.pick(&[None, None, Some(true), Some(false)]);
        let hash = *r.pick(&[0u8, 0, 1, 2]);
        let tables = *r.pick(&[0u64, 0, 1, 2]);
        let bare = r.chance(1, 6) && signers.is_empty();
        let late = r.chance(1, 8);
        let mut q = json!({"t": "send", "late": late, "wallet": hex(&wallet), "kind": kind, "banks": banks, "refuse": refuse, "throws": throws, "bare": bare,
            "ixs": ixs, "client": {"callback": ccall}, "opts": {}, "provider": {}});
        if !fails.is_empty() {
            q["fails"] = json!(fails);
        }
        for (at, k, v) in [("client", "fee", cfee.map(|x| json!(x))), ("client", "commitment", ccom.map(|x| json!(x))), ("opts", "fee", ofee.map(|x| json!(x))), ("opts", "commitment", ocom.map(|x| json!(x))), ("opts", "preflight", opre.map(|x| json!(x))), ("opts", "callback", ocall.map(|x| json!(x))), ("provider", "commitment", pcom.map(|x| json!(x))), ("provider", "preflightCommitment", ppre.map(|x| json!(x)))] {
            if let Some(v) = v {
                q[at][k] = v;
            }
        }
        if !signers.is_empty() || r.chance(1, 2) {
            q["opts"]["signers"] = json!(signers.iter().map(hex).collect::<Vec<_>>());
        }
        let names: Vec<String> = (0..tables).map(|i| format!("table {}", i)).collect();
        if tables > 0 {
            q["opts"]["tables"] = json!(names);
        }
        match hash {
            1 => q["opts"]["hash"] = json!({"blockhash": "given", "lastValidBlockHeight": 12}),
            2 => q["opts"]["hash"] = json!({"blockhash": "given"}),
            _ => {}
        }
        let a = ask(&bank, q.clone());
        if verbose {
            println!("{}\n  {}", q, a);
        }
        info.sig = hash_mix(info.sig, hash_str(&q.to_string()));
        let given = |x: bool| x && !bare;
        let a = match a.get("ok") {
            Some(a) => a,
            None => return viol("send", format!("{}: {}", q, a)),
        };
        let events = a["events"].as_array().cloned().unwrap_or_default();
        let of = |k: &str| -> Vec<&Value> { events.iter().filter(|e| e[0] == k).collect() };
        let place = |k: &str| events.iter().position(|e| e[0] == k);
        let ok = a["r"].get("ok");
        let err = a["r"].get("err");
        let bad = |kind: &'static str, m: &str| -> Result<(), Violation> { viol(kind, format!("{}\nasked: {}\ndone: {}", m, q, a)) };
        if refuse && !banks {
            if err.is_none() || !of("send").is_empty() {
                return bad("refused", "the wallet does not sign, and the transaction is sent or taken for done");
            }
            fates.push("refused");
            continue;
        }
        // once, and just this
        let s = of("send");
        if s.len() != 1 {
            return bad("sent", "not one transaction is sent");
        }
        let s = &s[0][1];
        let fee = ofee.filter(|_| !bare).or(cfee).unwrap_or(0);
        let mut want: Vec<Value> = ixs.iter().map(|i| json!({ "ix": i })).collect();
        let prio = ComputeBudgetInstruction::set_compute_unit_price(fee);
        if fee != 0 && !banks {
            want.insert(0, json!({"ix": ix(&prio.program_id, &[], &prio.data)}));
        }
        let mut got = s["ixs"].as_array().cloned().unwrap_or_default();
        // the price may be set anywhere
        if fee != 0 && !banks {
            if let Some(n) = got.iter().position(|i| *i == want[0]) {
                let i = got.remove(n);
                got.insert(0, i);
            }
        }
        if got != want {
            return bad("instructions", "the transaction holds other instructions");
        }
        if a["left"] != json!(ixs.len()) {
            return bad("given", "the list of instructions given is changed");
        }
        if s["payer"] != json!(hex(&wallet)) {
            return bad("payer", "the wallet does not pay");
        }
        let signed: Vec<String> = s["signed"].as_array().cloned().unwrap_or_default().iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect();
        if !asked.iter().all(|k| signed.contains(&hex(k))) {
            return bad("signatures", "a signature is missing");
        }
        let h = if given(hash > 0) && !banks { "given" } else { "latest" };
        if s["hash"] != h {
            return bad("blockhash", "the transaction carries another blockhash");
        }
        if !banks {
            let names = if bare { vec![] } else { names.clone() };
            if s["tables"] != json!(names) {
                return bad("tables", "the transaction was made with other lookup tables");
            }
            let b = of("blockhash");
            let want = opre.filter(|_| !bare).or(ppre).unwrap_or("finalized");
            if h == "latest" && (b.is_empty() || b[0][1] != want) {
                return bad("blockhash", "the blockhash is not of the commitment asked for");
            }
        }
        if banks {
            if ok.is_some() == (fails.is_empty()) {
                fates.push("banks");
                continue;
            }
            return bad("fate", "success and failure are confused");
        }
        let txid = json!(format!("sig{}", place("send").unwrap() + 1));
        if fails == "send" {
            if err.is_none() || !of("confirm").is_empty() || !of("callback").is_empty() {
                return bad("fate", "sending failed, and it is taken for done");
            }
            fates.push("not sent");
            continue;
        }
        let name = match ocall.filter(|_| !bare) {
            Some(true) => Some("call"),
            Some(false) => None,
            None => Some("client").filter(|_| ccall),
        };
        let c = of("callback");
        match name {
            None if !c.is_empty() => return bad("callback", "a callback nobody asked for"),
            Some(n) if c.len() != 1 || c[0][1] != n || c[0][2] != txid || place("callback") < place("send") => return bad("callback", "the callback is not called once with the transaction sent"),
            _ => {}
        }
        let c = of("confirm");
        if c.is_empty() || c.iter().any(|c| c[1]["signature"] != txid) || place("confirm") < place("send") {
            return bad("confirmation", "the fate of another transaction is asked for, or of none");
        }
        let want = ocom.filter(|_| !bare).or(ccom).or(pcom).unwrap_or("processed");
        let height = if h == "latest" { Some(77) } else if hash == 1 { Some(12) } else { None };
        for c in &c {
            if c[2] != want {
                return bad("confirmation", "confirmation is not of the commitment asked for");
            }
            // a height nobody gave is one that has passed
            if height.is_none() && c[1].get("blockhash").is_some() && c[1]["lastValidBlockHeight"].is_null() {
                return bad("confirmation", "confirmation is waited for until no height");
            }
            if let Some(x) = height {
                if c[1].get("blockhash").map_or(false, |b| *b != h) || c[1].get("lastValidBlockHeight").map_or(false, |b| *b != x) {
                    return bad("confirmation", "confirmation is waited for by another blockhash");
                }
            }
        }
        match fails {
            "" => {
                if ok != Some(&txid) {
                    return bad("fate", "a transaction that went through does not give its signature");
                }
                fates.push("done");
            }
            "tx" | "word" => {
                if err.is_none() || a["r"]["txid"] != txid {
                    return bad("fate", "a transaction that failed is not reported with its signature");
                }
                fates.push("failed");
            }
            _ => {
                if err.is_none() {
                    return bad("fate", "a transaction that was not confirmed is taken for done");
                }
                fates.push("not confirmed");
            }
        }
    }
    for f in &fates {
        info.count(f, 1);
    }
    info.nontrivial = fates.contains(&"done") && fates.iter().any(|f| *f != "done");
    info.summary = Some(fates.join(", "));
    Ok(())
}

pub fn plans() -> Vec<Plan> {
    const R: &str = "a case counts when one transaction went through and another met another fate";
    vec![Plan { name: "sending", rule: R, rows: (2, 16), row_len: 48, quick: 60000, thorough: 3000000, run: send }]
}
