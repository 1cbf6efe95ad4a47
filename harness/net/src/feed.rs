//! C22: notifications and answers of a node reach the record by the client's own ways, and are read by them.
use crate::chain_core::*;
use crate::chain_data::*;
use crate::engine::*;
use crate::rt::guarded;
use openbook_v2_client::account_update_stream::{AccountUpdate, Message};
use openbook_v2_client::snapshot_source;
use openbook_v2_client::AccountFetcher as _;
use openbook_v2::state::OpenOrdersAccount;
use solana_sdk::account::{Account, AccountSharedData, ReadableAccount};
use solana_sdk::pubkey::Pubkey;
use solana_sdk::signature::Signature;
use solana_sdk::transaction::{TransactionError, VersionedTransaction};
use standin::rpc_response::{Response, RpcKeyedAccount, RpcResponseContext, SlotUpdate};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::{Arc, RwLock};
use std::time::Duration;

#[derive(Default)]
struct NodeState {
    slot: u64,
    accounts: BTreeMap<Pubkey, AccountSharedData>,
    asked: u64,
    failing: bool,
}
struct FeedNode(Rc<RefCell<NodeState>>);

impl standin::Node for FeedNode {
    fn slot(&mut self) -> u64 {
        self.0.borrow().slot
    }
    fn account(&mut self, k: &Pubkey) -> Result<Option<Account>, String> {
        let mut s = self.0.borrow_mut();
        s.asked += 1;
        if s.failing {
            return Err("no answer".into());
        }
        Ok(s.accounts.get(k).map(|a| a.clone().into()))
    }
    fn program_accounts(&mut self, program: &Pubkey, fits: &dyn Fn(&[u8]) -> bool) -> Result<Vec<(Pubkey, Account)>, String> {
        let s = self.0.borrow();
        if s.failing {
            return Err("no answer".into());
        }
        Ok(s.accounts.iter().map(|(k, a)| (*k, Account::from(a.clone()))).filter(|(_, a)| a.owner == *program && fits(&a.data)).collect())
    }
    fn send(&mut self, _: VersionedTransaction) -> Result<Signature, TransactionError> {
        Err(TransactionError::AccountNotFound)
    }
    fn status(&mut self, s: &Signature) -> Option<(u64, Result<(), TransactionError>)> {
        let b: &[u8] = s.as_ref();
        if b[0] == 0 {
            None
        } else {
            Some((b[0] as u64 * 1000 + b[1] as u64, if b[2] == 0 { Ok(()) } else { Err(TransactionError::AccountNotFound) }))
        }
    }
}

struct Fed {
    chain: Arc<RwLock<ChainData>>,
    fetcher: AccountFetcher,
    n: u64,
}

pub fn wait<T>(what: &str, f: impl std::future::Future<Output = T>) -> Result<T, Violation> {
    match guarded(|| standin::block_on(f)) {
        Ok(Some(x)) => Ok(x),
        Ok(None) => viol("hang", format!("{} does not end", what)),
        Err(e) => viol("panic", format!("{}: {}", what, e)),
    }
}

fn on(node: NodeState) -> Rc<RefCell<NodeState>> {
    let s = Rc::new(RefCell::new(node));
    standin::set_node(Some(Box::new(FeedNode(s.clone()))));
    s
}

impl Fed {
    fn new() -> Fed {
        let chain = Arc::new(RwLock::new(ChainData::new()));
        let rpc = standin::nonblocking::rpc_client::RpcClient::new("http://127.0.0.1".into());
        Fed { fetcher: AccountFetcher { chain_data: chain.clone(), rpc }, chain, n: 0 }
    }
    fn dice(&mut self) -> [u64; 12] {
        self.n += 1;
        let mut d = [0; 12];
        for i in 0..12 {
            d[i] = hash_mix(self.n, i as u64) >> 7;
        }
        d
    }
    fn give(&mut self, m: Message) {
        m.update_chain_data(&mut self.chain.write().unwrap());
    }

    /// what a node holds reaches the record by the source of snapshots
    fn snapshot(&mut self, slot: u64, l: &[(u64, u64)], d: &[u64]) -> Result<(), Violation> {
        let accounts: BTreeMap<Pubkey, AccountSharedData> = l.iter().map(|(a, v)| (pk(*a), data(*v))).collect();
        // the node may have to catch up first, or fail once
        let late = d[1] % 3 == 0;
        let min_slot = slot.saturating_sub(1 + d[2] % 3);
        let node = on(NodeState { slot: if late { min_slot } else { slot }, accounts, asked: 0, failing: d[3] % 4 == 0 });
        let mut oracles: Vec<Pubkey> = l.iter().filter(|(_, v)| v % 2 == 1).map(|x| pk(x.0)).collect();
        for i in 0..d[4] % 4 {
            oracles.insert(d[5] as usize % (oracles.len() + 1), Pubkey::new_from_array([200 + i as u8; 32]));
        }
        let (tx, rx) = standin::bounded(1 + d[6] as usize % 3);
        let r = guarded(|| {
            snapshot_source::start(
                snapshot_source::Config {
                    rpc_http_url: "http://127.0.0.1".into(),
                    get_multiple_accounts_count: 1 + d[7] as usize % 4,
                    parallel_rpc_requests: 1 + d[8] as usize % 3,
                    snapshot_interval: Duration::from_secs(1),
                    min_slot,
                },
                oracles,
                tx,
            );
            standin::grant_ticks(2);
            standin::run_tasks();
            if late {
                if rx.len() > 0 {
                    return Err("a snapshot from before the lowest slot");
                }
                node.borrow_mut().slot = slot;
                standin::grant_ticks(2);
                standin::run_tasks();
            }
            if node.borrow().failing {
                if rx.len() > 0 {
                    return Err("a snapshot although the node failed");
                }
                node.borrow_mut().failing = false;
            }
            standin::grant_ticks(2);
            standin::run_tasks();
            Ok(())
        });
        let mut got = vec![];
        while let Some(m) = rx.take() {
            got.push(m);
        }
        standin::drop_tasks();
        match r {
            Err(e) => return viol("panic", format!("the source of snapshots: {}", e)),
            Ok(Err(e)) => return viol("snapshot", e),
            Ok(Ok(())) => {}
        }
        if got.is_empty() {
            return viol("snapshot", "no snapshot arrives");
        }
        for m in got {
            self.give(m);
        }
        Ok(())
    }
}

impl Sink for Fed {
    fn apply(&mut self, msg: &Msg) -> Result<(), Violation> {
        let d = self.dice();
        match msg.clone() {
            Msg::Slot(slot, parent, status) => {
                let timestamp = d[0];
                let u = match (status, parent) {
                    (SlotStatus::Processed, Some(parent)) => SlotUpdate::CreatedBank { slot, parent, timestamp },
                    (SlotStatus::Confirmed, None) => SlotUpdate::OptimisticConfirmation { slot, timestamp },
                    (SlotStatus::Rooted, None) => SlotUpdate::Root { slot, timestamp },
                    _ => {
                        self.chain.write().unwrap().update_slot(SlotData { slot, parent, status, chain: 0 });
                        return Ok(());
                    }
                };
                // other news about slots say nothing here
                let noise = match d[1] % 6 {
                    0 => Some(SlotUpdate::FirstShredReceived { slot: slot + d[2] % 4, timestamp }),
                    1 => Some(SlotUpdate::Completed { slot: slot + d[2] % 4, timestamp }),
                    2 => Some(SlotUpdate::Frozen { slot: slot + d[2] % 4, timestamp, stats: Default::default() }),
                    3 => Some(SlotUpdate::Dead { slot: slot + d[2] % 4, timestamp, err: String::new() }),
                    _ => None,
                };
                self.give(Message::Slot(Arc::new(u)));
                if let Some(u) = noise {
                    self.give(Message::Slot(Arc::new(u)));
                }
            }
            Msg::Account(a, slot, v) => {
                let u = if d[0] % 2 == 0 {
                    AccountUpdate { pubkey: pk(a), slot, account: data(v) }
                } else {
                    let e = if d[1] % 2 == 0 || typed(v) { standin::UiAccountEncoding::Base64 } else { standin::UiAccountEncoding::Base58 };
                    let r = AccountUpdate::from_rpc(Response {
                        context: RpcResponseContext { slot, api_version: None },
                        value: RpcKeyedAccount { pubkey: pk(a).to_string(), account: standin::UiAccount::of(&data(v).into(), e) },
                    });
                    match r {
                        Ok(u) => u,
                        Err(e) => return viol("decode", format!("a notification cannot be read: {:?}", e)),
                    }
                };
                self.give(if d[2] % 3 == 0 { Message::Snapshot(vec![u]) } else { Message::Account(u) });
            }
            Msg::Rpc(a, slot, v) => {
                let node = on(NodeState { slot, accounts: [(pk(a), data(v))].into(), asked: 0, failing: d[1] % 4 == 0 });
                if d[1] % 4 == 0 {
                    // without an answer nothing changes
                    if wait("a refresh", self.fetcher.refresh_account_via_rpc(&pk(a)))?.is_ok() {
                        return viol("rpc", "a refresh succeeds without an answer");
                    }
                    node.borrow_mut().failing = false;
                }
                if d[2] % 4 == 0 && wait("a refresh", self.fetcher.refresh_account_via_rpc(&Pubkey::new_from_array([77; 32])))?.is_ok() {
                    return viol("rpc", "a refresh of an account that is not there succeeds");
                }
                let known = self.look(|c| c.account(&pk(a)).is_ok());
                match d[0] % 4 {
                    3 => {
                        let r = if d[3] % 2 == 0 {
                            wait("a read", self.fetcher.fetch_fresh::<OpenOrdersAccount>(&pk(a)))?
                        } else {
                            wait("a read", self.fetcher.fetch_fresh_openbook_account(&pk(a)))?
                        };
                        // an older answer or one of another fork does not become the current one
                        let now = self.look(|c| c.account(&pk(a)).ok().cloned()).and_then(|a| value_of(&a)).filter(|v| typed(*v));
                        let got = r.ok().map(|a| a.account_num as u64);
                        if got != now && now.map_or(true, |v| v % 2 == 0) {
                            return viol("rpc", format!("a fresh read gives {:?}, the record then holds {:?}", got, now));
                        }
                    }
                    0 if !known => match wait("a lookup", self.fetcher.fetch_raw_account_lookup_table(&pk(a)))? {
                        Ok(x) if x == data(v) => {}
                        // the answer may lie on another fork
                        x => {
                            let now = self.look(|c| c.account(&pk(a)).ok().cloned());
                            if x.ok() != now {
                                return viol("rpc", "a lookup gives something else than the record");
                            }
                        }
                    },
                    1 => {
                        let min = slot.saturating_sub(d[3] % 3);
                        if let Err(e) = wait("a refresh", self.fetcher.refresh_accounts_via_rpc_until_slot(&[pk(a)], min, Duration::from_secs(100)))? {
                            return viol("rpc", format!("a refresh until a slot that is reached fails: {:?}", e));
                        }
                    }
                    _ => match wait("a refresh", self.fetcher.refresh_account_via_rpc(&pk(a)))? {
                        Ok(s) if s == slot => {}
                        x => return viol("rpc", format!("a refresh from slot {} gives {:?}", slot, x)),
                    },
                }
            }
            Msg::Snapshot(slot, l) => {
                if d[0] % 2 == 0 && !l.is_empty() {
                    self.snapshot(slot, &l, &d)?;
                } else {
                    self.give(Message::Snapshot(l.iter().map(|(a, v)| AccountUpdate { pubkey: pk(*a), slot, account: data(*v) }).collect()));
                }
            }
        }
        standin::set_node(None);
        Ok(())
    }
    fn look<T>(&self, f: impl FnOnce(&ChainData) -> T) -> T {
        f(&self.chain.read().unwrap())
    }
    fn further(&mut self, want: &[(u64, u64, u64)]) -> Result<(), Violation> {
        let d = self.dice();
        for a in 0..ACCOUNTS {
            let w = want.iter().find(|x| x.0 == a).map(|x| data(x.2));
            let x = self.fetcher.fetch_raw(&pk(a)).ok();
            let y = wait("a lookup", self.fetcher.fetch_raw_account(&pk(a)))?.ok();
            if x != w || y != w {
                return viol("fetcher", format!("account {} by the fetcher: {:?} and {:?} instead of {:?}", a, x, y, w));
            }
            // read as what it holds, or not at all
            let v = want.iter().find(|x| x.0 == a).map_or(0, |x| x.2);
            let there = w.as_ref().filter(|_| typed(v)).map(|a| a.data()[8..].to_vec());
            let x = guarded(|| self.fetcher.fetch::<OpenOrdersAccount>(&pk(a)).ok().map(|a| bytemuck::bytes_of(&a).to_vec()));
            let y = guarded(|| self.fetcher.fetch_openbook_account(&pk(a)).ok().map(|a| bytemuck::bytes_of(&a).to_vec()));
            let z = wait("a read", openbook_v2_client::account_fetcher_fetch_openorders_account(&self.fetcher, &pk(a)))?.ok().map(|a| bytemuck::bytes_of(&a).to_vec());
            if x != Ok(there.clone().filter(|_| v % 2 == 0)) || (v % 2 == 0 || there.is_none()) && (y != Ok(there.clone()) || z != there) {
                return viol("fetcher", format!("account {} read as a trading account gives something else than it holds", a));
            }
            if w.is_some() && d[1] % 4 == 0 {
                // what the record holds is not asked for
                let z = wait("a lookup", self.fetcher.fetch_raw_account_lookup_table(&pk(a)))?.ok();
                if z != w {
                    return viol("fetcher", format!("account {} as a lookup table: {:?} instead of {:?}", a, z, w));
                }
            }
        }
        for o in 0..2 {
            for k in 0..3 {
                let mut x: Vec<(Pubkey, u64)> = match wait("a listing", self.fetcher.fetch_program_accounts(&owner(o), kind(k)))? {
                    Ok(l) => l.iter().map(|(k, a)| (*k, value_of(a).unwrap_or(u64::MAX))).collect(),
                    Err(e) => return viol("fetcher", format!("{:?}", e)),
                };
                let mut w: Vec<(Pubkey, u64)> = want.iter().filter(|x| x.2 % 2 == o && x.2 / 2 % 3 == k && !typed(x.2) && x.2 % 7 != 6).map(|x| (pk(x.0), x.2)).collect();
                x.sort();
                w.sort();
                if x != w {
                    return viol("fetcher", format!("the accounts of program {} and kind {}: {:?} instead of {:?}", o, k, x, w));
                }
            }
        }
        if d[2] % 8 == 0 {
            on(NodeState::default());
            let sigs: Vec<Signature> = (0..d[3] % 4)
                .map(|i| {
                    let mut b = [i as u8 + 1; 64];
                    b[0] = (d[4] >> (8 * i)) as u8 % 3;
                    b[1] = (d[5] >> (8 * i)) as u8;
                    b[2] = (d[6] >> (8 * i)) as u8 % 2;
                    Signature::from(b)
                })
                .collect();
            let w = sigs
                .iter()
                .map(|s| {
                    let b: &[u8] = s.as_ref();
                    if b[0] == 0 {
                        0
                    } else {
                        b[0] as u64 * 1000 + b[1] as u64
                    }
                })
                .max()
                .unwrap_or(0);
            match wait("transaction_max_slot", self.fetcher.transaction_max_slot(&sigs))? {
                Ok(s) if s == w => {}
                x => return viol("fetcher", format!("the highest slot of transactions: {:?} instead of {}", x, w)),
            }
            standin::set_node(None);
        }
        Ok(())
    }
}

pub fn run_fed(case: &Case, info: &mut Info, verbose: bool) -> Result<(), Violation> {
    standin::drop_tasks();
    run(Fed::new(), case, info, verbose)
}

pub fn plans() -> Vec<Plan> {
    vec![
        Plan { name: "short", rule: RULE, rows: (4, 24), row_len: 10, quick: 200000, thorough: 8000000, run: run_plain },
        Plan { name: "long", rule: RULE, rows: (20, 150), row_len: 10, quick: 60000, thorough: 3000000, run: run_plain },
        Plan { name: "fed", rule: RULE, rows: (4, 60), row_len: 10, quick: 30000, thorough: 1500000, run: run_fed },
    ]
}
