//! C30: what is told of a transaction's fate, and messages for a channel that may be full.
use crate::engine::*;
use openbook_v2_client::{send_and_confirm_transaction, AsyncChannelSendUnlessFull};
use standin::rpc_client::RpcClient;
use solana_sdk::account::Account;
use solana_sdk::commitment_config::CommitmentConfig;
use solana_sdk::hash::Hash;
use solana_sdk::instruction::{AccountMeta, Instruction};
use solana_sdk::pubkey::Pubkey;
use solana_sdk::signature::{Signature, Signer};
use solana_sdk::system_instruction;
use solana_sdk::transaction::{Transaction, TransactionError, VersionedTransaction};
use standin::TransactionConfirmationStatus as Level;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
struct Seen {
    slot: u64,
    level: u8,
    err: Option<TransactionError>,
}

#[derive(Default)]
struct Story {
    refuse: bool,
    /// what is known of the transaction, look after look
    looks: Vec<Option<Seen>>,
    /// whether its blockhash is known, look after look
    known: Vec<bool>,
    hash: Hash,
    asked: usize,
    sent: Vec<VersionedTransaction>,
    wrong: Option<String>,
}
struct Teller(Arc<Mutex<Story>>);

fn level(n: u8) -> Level {
    match n {
        0 => Level::Processed,
        1 => Level::Confirmed,
        _ => Level::Finalized,
    }
}

impl standin::Node for Teller {
    fn slot(&mut self) -> u64 {
        9
    }
    fn account(&mut self, _: &Pubkey) -> Result<Option<Account>, String> {
        Ok(None)
    }
    fn program_accounts(&mut self, _: &Pubkey, _: &dyn Fn(&[u8]) -> bool) -> Result<Vec<(Pubkey, Account)>, String> {
        Ok(vec![])
    }
    fn send(&mut self, tx: VersionedTransaction) -> Result<Signature, TransactionError> {
        let mut s = self.0.lock().unwrap();
        s.sent.push(tx.clone());
        if s.refuse {
            return Err(TransactionError::AccountNotFound);
        }
        Ok(tx.signatures[0])
    }
    fn status(&mut self, k: &Signature) -> Option<(u64, Result<(), TransactionError>)> {
        let mut s = self.0.lock().unwrap();
        if s.sent.iter().all(|t| t.signatures[0] != *k) {
            s.wrong = Some(format!("the fate of {} is asked for", k));
            return None;
        }
        let n = s.asked;
        s.asked += 1;
        s.looks.get(n).cloned().flatten().map(|x| (x.slot, x.err.map_or(Ok(()), Err)))
    }
    fn level(&mut self, _: &Signature) -> Level {
        let s = self.0.lock().unwrap();
        level(s.looks[s.asked - 1].as_ref().unwrap().level)
    }
    fn latest(&mut self) -> Hash {
        Hash::new_from_array([7; 32])
    }
    fn valid(&mut self, h: &Hash) -> bool {
        let mut s = self.0.lock().unwrap();
        if *h != s.hash {
            s.wrong = Some("another blockhash is asked for".into());
        }
        let n = s.asked.max(1) - 1;
        s.known.get(n).copied().unwrap_or(false)
    }
}

fn fates(case: &Case, info: &mut Info, verbose: bool) -> Result<(), Violation> {
    let mut told = vec![];
    let mut waited = 0;
    for row in case {
        let mut r = Row::new(row);
        let payer = crate::node::pair("payer", r.below(3));
        let nonce = r.chance(1, 4);
        let own = Hash::new_from_array([r.below(3) as u8 + 1; 32]);
        let mut ixs = vec![Instruction { program_id: Pubkey::new_from_array([5; 32]), accounts: vec![AccountMeta::new(payer.pubkey(), true)], data: vec![r.below(9) as u8] }];
        if nonce {
            ixs.insert(0, system_instruction::advance_nonce_account(&Pubkey::new_from_array([6; 32]), &payer.pubkey()));
        }
        let tx = Transaction::new_signed_with_payer(&ixs, Some(&payer.pubkey()), &[payer.as_ref()], own);
        let want = r.below(3) as u8;
        // each wait takes half a second: one in a case, and seldom
        let waits = if waited == 0 && r.chance(1, 1500) { 1 } else { 0 };
        let refuse = r.chance(1, 8);
        let mut looks = vec![];
        let mut known = vec![];
        let seen = |r: &mut Row, level: u8| {
            let err = match r.below(3) {
                0 => Some(TransactionError::InsufficientFundsForFee),
                _ => None,
            };
            Some(Seen { slot: 10 + r.below(5), level, err })
        };
        for _ in 0..waits {
            known.push(true);
            looks.push(if want > 0 && r.chance(2, 3) { seen(&mut r, want - 1) } else { None });
        }
        let last = match r.below(4) {
            0 => {
                known.push(false);
                // too little is known of it, and its blockhash is gone
                looks.push(if want > 0 && r.chance(2, 3) {
                    let l = r.below(want as u64) as u8;
                    seen(&mut r, l)
                } else {
                    None
                });
                None
            }
            _ => {
                let l = r.range(want as i64, 2) as u8;
                let s = seen(&mut r, l);
                known.push(r.chance(1, 2));
                looks.push(s.clone());
                s
            }
        };
        let c = [CommitmentConfig::processed(), CommitmentConfig::confirmed(), CommitmentConfig::finalized()][want as usize];
        let hash = if nonce { Hash::new_from_array([7; 32]) } else { own };
        let story = Arc::new(Mutex::new(Story { refuse, looks: looks.clone(), known: known.clone(), hash, ..Default::default() }));
        standin::set_node(Some(Box::new(Teller(story.clone()))));
        let got = send_and_confirm_transaction(&RpcClient::new_with_commitment("local", c), &tx);
        standin::set_node(None);
        let s = story.lock().unwrap();
        let what = format!("waiting for {:?}, refused {}, seen {:?}, blockhash known {:?}: {:?}", c.commitment, refuse, looks, known, got.as_ref().map_err(|e| e.to_string()));
        if verbose {
            println!("{}", what);
        }
        info.sig = hash_mix(info.sig, hash_str(&format!("{}{}", what, nonce)));
        if let Some(w) = &s.wrong {
            return viol("fate", format!("{}; {}", w, what));
        }
        if s.sent != vec![VersionedTransaction::from(tx.clone())] {
            return viol("fate", format!("sent {:?}; {}", s.sent, what));
        }
        let right = match (&got, &last) {
            (Err(_), _) if refuse => true,
            (Ok((k, slot)), Some(Seen { slot: at, err: None, .. })) if !refuse => *k == tx.signatures[0] && slot == at,
            (Err(e), Some(Seen { err: Some(x), .. })) => e.get_transaction_error().as_ref() == Some(x),
            (Err(_), None) => true,
            _ => false,
        };
        if !right {
            return viol("fate", what);
        }
        waited += waits;
        told.push(if got.is_ok() {
            "done"
        } else if refuse {
            "refused"
        } else if last.is_some() {
            "failed"
        } else {
            "lost"
        });
        // a channel of little room
        let cap = 1 + r.idx(4);
        let (tx, rx) = standin::bounded(cap);
        let mut rx = Some(rx);
        let mut model = std::collections::VecDeque::new();
        for n in 0..r.below(12) {
            match r.below(6) {
                0 | 1 => {
                    let x = rx.as_ref().and_then(|x| x.take());
                    let y = if rx.is_some() { model.pop_front() } else { None };
                    if x != y {
                        return viol("channel", format!("{:?} comes out, {:?} went in", x, y));
                    }
                }
                2 if r.chance(1, 4) => {
                    rx.iter().for_each(|x| x.close());
                    rx = None;
                }
                _ => {
                    let ok = tx.send_unless_full(n).is_ok();
                    if ok != rx.is_some() {
                        return viol("channel", format!("sending to a channel, read {}: {}", rx.is_some(), ok));
                    }
                    if ok && model.len() < cap {
                        model.push_back(n);
                    }
                }
            }
        }
    }
    for t in &told {
        info.count(t, 1);
    }
    if waited > 0 {
        info.count("waited", waited);
    }
    info.nontrivial = told.contains(&"done") && told.iter().any(|t| *t != "done");
    info.summary = Some(told.join(", "));
    Ok(())
}

pub fn plan() -> Plan {
    Plan { name: "fates", rule: "a case counts when one transaction went through and another met another fate", rows: (2, 10), row_len: 40, quick: 10000, thorough: 300000, run: fates }
}
