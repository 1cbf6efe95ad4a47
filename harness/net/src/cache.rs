//! C31: the caching fetcher under random schedules, over a source that answers when it is told to.
use crate::engine::*;
use crate::rt::guarded;
use openbook_v2_client::{account_fetcher_fetch_anchor_account, AccountFetcher, CachedAccountFetcher, RpcAccountFetcher};
use solana_sdk::account::{Account, AccountSharedData, ReadableAccount};
use solana_sdk::pubkey::Pubkey;
use solana_sdk::signature::Signature;
use solana_sdk::transaction::{TransactionError, VersionedTransaction};
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::Poll;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
enum Ask {
    One(u64),
    /// program, kind
    List(u64, u64),
}

/// what the chain holds: every write makes another value
#[derive(Default, Clone)]
struct Bank {
    accounts: BTreeMap<u64, (u64, u64, u64)>,
}

impl Bank {
    fn read(&self, a: Ask) -> Option<Answer> {
        match a {
            Ask::One(k) => self.accounts.get(&k).map(|x| vec![(k, x.2)]),
            Ask::List(p, d) => Some(self.accounts.iter().filter(|(_, x)| x.0 == p && x.1 == d).map(|(k, x)| (*k, x.2)).collect()),
        }
    }
}

/// (account, value) pairs
type Answer = Vec<(u64, u64)>;

struct Request {
    ask: Ask,
    start: u64,
    at_start: Option<Answer>,
    /// set when it may end; None stands for a failure
    ready: Option<Option<Answer>>,
    end: Option<u64>,
}

#[derive(Default)]
struct Source {
    clock: u64,
    bank: Bank,
    requests: Vec<Request>,
}

struct Gate(Arc<Mutex<Source>>);

fn key(n: u64) -> Pubkey {
    Pubkey::new_from_array([n as u8 + 1; 32])
}
fn program(n: u64) -> Pubkey {
    Pubkey::new_from_array([100 + n as u8; 32])
}
fn kind(n: u64) -> [u8; 8] {
    // they differ in the last or the first byte only
    [n as u8 / 2, 1, 1, 1, 1, 1, 1, n as u8 % 2]
}
fn account(v: u64) -> AccountSharedData {
    AccountSharedData::new(v, 3, &Pubkey::new_from_array([v as u8; 32]))
}

impl Gate {
    async fn ask(&self, ask: Ask) -> anyhow::Result<Answer> {
        let n = {
            let mut s = self.0.lock().unwrap();
            s.clock += 1;
            let (start, at_start) = (s.clock, s.bank.read(ask));
            s.requests.push(Request { ask, start, at_start, ready: None, end: None });
            s.requests.len() - 1
        };
        let s = self.0.clone();
        std::future::poll_fn(move |_| {
            let mut s = s.lock().unwrap();
            s.clock += 1;
            let now = s.clock;
            match s.requests[n].ready.clone() {
                None => Poll::Pending,
                Some(x) => {
                    s.requests[n].end = Some(now);
                    Poll::Ready(x.ok_or_else(|| anyhow::anyhow!("request {}", n)))
                }
            }
        })
        .await
    }
}

#[async_trait::async_trait]
impl AccountFetcher for Gate {
    async fn fetch_raw_account(&self, address: &Pubkey) -> anyhow::Result<AccountSharedData> {
        let k = (0..8).find(|k| key(*k) == *address).unwrap_or(99);
        let l = self.ask(Ask::One(k)).await?;
        Ok(account(l[0].1))
    }
    async fn fetch_program_accounts(&self, p: &Pubkey, d: [u8; 8]) -> anyhow::Result<Vec<(Pubkey, AccountSharedData)>> {
        let pn = (0..4).find(|k| program(*k) == *p).unwrap_or(99);
        let dn = (0..4).find(|k| kind(*k) == d).unwrap_or(99);
        let l = self.ask(Ask::List(pn, dn)).await?;
        Ok(l.iter().map(|(k, v)| (key(*k), account(*v))).collect())
    }
}

struct Caller {
    ask: Ask,
    first: Option<u64>,
    /// when the cache was last cleared before that
    since: u64,
    task: Pin<Box<dyn Future<Output = anyhow::Result<Answer>>>>,
}

fn numbers(l: Vec<(Pubkey, AccountSharedData)>) -> Answer {
    l.iter()
        .map(|(k, a)| {
            let v = a.lamports();
            ((0..8).find(|n| key(*n) == *k).unwrap_or(99), if *a == account(v) { v } else { u64::MAX })
        })
        .collect()
}

fn case_hash(case: &Case) -> u64 {
    case.iter().flatten().fold(case.len() as u64, |h, w| hash_mix(h, *w))
}

fn c31(case: &Case, info: &mut Info, verbose: bool) -> Result<(), Violation> {
    let src = Arc::new(Mutex::new(Source::default()));
    let mut fetchers = vec![CachedAccountFetcher::new(Arc::new(Gate(src.clone())))];
    let mut callers: Vec<Caller> = vec![];
    let mut cleared = 0u64;
    let mut value = 0u64;
    let (mut shared, mut failed, mut hits, mut refetched) = (0, 0, 0, 0);
    let mut fed: BTreeSet<(Ask, u64)> = Default::default();
    for k in 0..5 {
        value += 1;
        src.lock().unwrap().bank.accounts.insert(k, (k % 2, k / 2 % 2, value));
    }
    let rows = case.len();
    for n in 0..rows + 1 {
        let mut r = if n < rows { Row::new(&case[n]) } else { Row::new(&[]) };
        let last = n == rows;
        let mut polled: Vec<usize> = vec![];
        if last {
            // everything is answered and everyone gets to go on
            polled = (0..callers.len()).collect();
        } else {
            match r.weighted(&[30, 30, 24, 8, 5, 3, 2]) {
                0 => {
                    let ask = if r.chance(2, 3) { Ask::One(r.below(6)) } else { Ask::List(r.below(2), r.below(2)) };
                    let f = fetchers[r.below(fetchers.len() as u64) as usize].clone();
                    let table = r.chance(1, 6);
                    let task: Pin<Box<dyn Future<Output = anyhow::Result<Answer>>>> = match ask {
                        Ask::One(k) => Box::pin(async move {
                            let a = if table { f.fetch_raw_account_lookup_table(&key(k)).await? } else { f.fetch_raw_account(&key(k)).await? };
                            Ok(numbers(vec![(key(k), a)]))
                        }),
                        Ask::List(p, d) => Box::pin(async move { Ok(numbers(f.fetch_program_accounts(&program(p), kind(d)).await?)) }),
                    };
                    if verbose {
                        println!("caller {}: {:?}", callers.len(), ask);
                    }
                    callers.push(Caller { ask, first: None, since: 0, task });
                    polled.push(callers.len() - 1);
                }
                1 if !callers.is_empty() => polled.push(r.below(callers.len() as u64) as usize),
                2 => {
                    let mut s = src.lock().unwrap();
                    let open: Vec<usize> = (0..s.requests.len()).filter(|i| s.requests[*i].ready.is_none()).collect();
                    if !open.is_empty() {
                        let i = open[r.below(open.len() as u64) as usize];
                        let x = if r.chance(1, 4) {
                            None
                        } else if r.chance(1, 2) {
                            s.bank.read(s.requests[i].ask)
                        } else {
                            s.requests[i].at_start.clone()
                        };
                        if verbose {
                            println!("request {} ({:?}) gets {:?}", i, s.requests[i].ask, x);
                        }
                        s.requests[i].ready = Some(x);
                    }
                }
                3 => {
                    value += 1;
                    let k = r.below(6);
                    let mut s = src.lock().unwrap();
                    if r.chance(1, 5) {
                        s.bank.accounts.remove(&k);
                    } else {
                        s.bank.accounts.insert(k, (r.below(2), r.below(2), value));
                    }
                    if verbose {
                        println!("account {} is now {:?}", k, s.bank.accounts.get(&k));
                    }
                }
                4 => {
                    let f = r.below(fetchers.len() as u64) as usize;
                    fetchers[f].clear_cache();
                    let mut s = src.lock().unwrap();
                    s.clock += 1;
                    cleared = s.clock;
                    if verbose {
                        println!("the cache is cleared at {}", cleared);
                    }
                }
                5 if fetchers.len() < 3 => fetchers.push(fetchers[0].clone()),
                6 if !callers.is_empty() => {
                    let i = r.below(callers.len() as u64) as usize;
                    if verbose {
                        println!("a caller gives up: {:?}", callers[i].ask);
                    }
                    callers.remove(i);
                }
                _ => {}
            }
        }
        for round in 0..if last { 30 } else { 1 } {
            if last {
                let mut s = src.lock().unwrap();
                for i in 0..s.requests.len() {
                    if s.requests[i].ready.is_none() {
                        let x = s.bank.read(s.requests[i].ask);
                        s.requests[i].ready = Some(x);
                    }
                }
            }
            let mut done = vec![];
            for &i in &polled {
                let (asked_before, kept) = {
                    let mut s = src.lock().unwrap();
                    s.clock += 1;
                    let now = s.clock;
                    let c = &mut callers[i];
                    let kept = c.first.is_none()
                        && s.requests.iter().any(|q| {
                            q.end.map_or(false, |e| e > cleared)
                                && match (&q.ready, c.ask) {
                                    (Some(Some(_)), a) if a == q.ask => true,
                                    (Some(Some(l)), Ask::One(k)) => l.iter().any(|x| x.0 == k),
                                    _ => false,
                                }
                        });
                    if c.first.is_none() {
                        (c.first, c.since) = (Some(now), cleared);
                    }
                    (s.requests.len(), kept)
                };
                let c = &mut callers[i];
                let got = match guarded(|| standin::poll_once(c.task.as_mut())) {
                    Ok(x) => x,
                    Err(e) => return viol("panic", format!("{:?}: {}", c.ask, e)),
                };
                let s = src.lock().unwrap();
                for q in &s.requests[asked_before..] {
                    if q.ask != c.ask {
                        return viol("asked", format!("asked for {:?}, the source is asked for {:?}", c.ask, q.ask));
                    }
                }
                if kept {
                    hits += 1;
                    if s.requests.len() > asked_before {
                        return viol("asked", format!("{:?} is asked for again although the answer is at hand", c.ask));
                    }
                    if got.is_none() {
                        return viol("late", format!("{:?} waits although the answer is at hand", c.ask));
                    }
                }
                // one request at a time
                let open: Vec<&Request> = s.requests.iter().filter(|q| q.ask == c.ask && q.end.is_none() && q.start > cleared).collect();
                if open.len() > 1 {
                    return viol("asked", format!("{} requests for {:?} at once", open.len(), c.ask));
                }
                if s.requests[asked_before..].iter().any(|q| s.requests[..asked_before].iter().any(|p| p.ask == q.ask)) {
                    refetched += 1;
                }
                let Some(got) = got else { continue };
                if verbose {
                    println!("caller {} ({:?}) gets {:?}", i, c.ask, got);
                }
                match got {
                    Err(e) => {
                        let why = s.requests.iter().position(|q| q.ask == c.ask && q.ready == Some(None) && q.end.map_or(false, |e| e >= c.first.unwrap()));
                        match why {
                            None => return viol("failure", format!("{:?} fails without a failed request since it was asked: {:?}", c.ask, e)),
                            Some(i) => {
                                failed += 1;
                                if !fed.insert((c.ask, i as u64)) {
                                    shared += 1;
                                }
                            }
                        }
                    }
                    Ok(l) => {
                        let alive: Vec<&Request> = s.requests.iter().filter(|q| q.end.map_or(false, |e| e > c.since)).collect();
                        for (k, v) in &l {
                            let ok = alive.iter().any(|q| match &q.ready {
                                Some(Some(x)) => x.contains(&(*k, *v)),
                                _ => false,
                            });
                            if !ok {
                                return viol("stale", format!("{:?} gets value {} of account {}, which no request since the cache was cleared has given", c.ask, v, k));
                            }
                        }
                        // what is at hand is the last that came
                        for (k, v) in l.iter().filter(|_| kept) {
                            let last = alive.iter().filter(|q| matches!(&q.ready, Some(Some(x)) if x.iter().any(|y| y.0 == *k))).max_by_key(|q| q.end);
                            if let Some(Some(Some(x))) = last.map(|q| &q.ready) {
                                if !x.contains(&(*k, *v)) {
                                    return viol("stale", format!("{:?} gets value {} of account {}, though a later answer ({:?}) is at hand", c.ask, v, k, x));
                                }
                            }
                        }
                        if let Ask::List(..) = c.ask {
                            let ok = alive.iter().any(|q| match &q.ready {
                                Some(Some(x)) => q.ask == c.ask && x.iter().map(|y| y.0).eq(l.iter().map(|y| y.0)),
                                _ => false,
                            });
                            if !ok {
                                return viol("stale", format!("{:?} gets accounts that no request since the cache was cleared has listed: {:?}", c.ask, l));
                            }
                        } else if l.len() != 1 || Ask::One(l[0].0) != c.ask {
                            return viol("wrong", format!("{:?} gets {:?}", c.ask, l));
                        }
                        if !kept {
                            let by = s.requests.iter().position(|q| q.ask == c.ask && q.end.map_or(false, |e| e >= c.first.unwrap()));
                            if let Some(i) = by {
                                if !fed.insert((c.ask, i as u64)) {
                                    shared += 1;
                                }
                            }
                        }
                    }
                }
                done.push(i);
            }
            for i in done.iter().rev() {
                callers.remove(*i);
            }
            if last {
                polled = (0..callers.len()).collect();
                if polled.is_empty() {
                    break;
                }
                if round == 29 {
                    return viol("hang", format!("{:?} is never answered", callers[0].ask));
                }
            }
        }
    }
    info.count("shared", shared);
    info.count("failed", failed);
    info.count("kept", hits);
    info.count("asked again", refetched);
    info.sig = case_hash(case);
    info.summary = Some(format!("{} requests, {} answers shared, {} at hand, {} failures, {} asked for again", src.lock().unwrap().requests.len(), shared, hits, failed, refetched));
    info.nontrivial = shared > 0 && hits > 0 && refetched > 0;
    Ok(())
}

/// a node whose accounts are read through the client's own requests
struct Shelf(BTreeMap<Pubkey, Account>, bool);

impl standin::Node for Shelf {
    fn slot(&mut self) -> u64 {
        7
    }
    fn account(&mut self, k: &Pubkey) -> Result<Option<Account>, String> {
        if self.1 {
            return Err("no answer".into());
        }
        Ok(self.0.get(k).cloned())
    }
    fn program_accounts(&mut self, program: &Pubkey, fits: &dyn Fn(&[u8]) -> bool) -> Result<Vec<(Pubkey, Account)>, String> {
        if self.1 {
            return Err("no answer".into());
        }
        Ok(self.0.iter().filter(|(_, a)| a.owner == *program && fits(&a.data)).map(|(k, a)| (*k, a.clone())).collect())
    }
    fn send(&mut self, _: VersionedTransaction) -> Result<Signature, TransactionError> {
        Err(TransactionError::AccountNotFound)
    }
    fn status(&mut self, _: &Signature) -> Option<(u64, Result<(), TransactionError>)> {
        None
    }
}

/// what the node holds, read directly and through the cache
fn reads(case: &Case, info: &mut Info, verbose: bool) -> Result<(), Violation> {
    use anchor_lang::{AccountSerialize, Discriminator};
    use openbook_v2::state::OpenOrdersIndexer;
    let mut shelf = BTreeMap::new();
    for (n, row) in case.iter().enumerate().take(12) {
        let mut r = Row::new(row);
        let mut a = Account { lamports: r.below(1000), owner: program(r.below(2)), rent_epoch: r.below(2), executable: r.chance(1, 4), data: vec![] };
        match r.below(5) {
            0 => {
                let ix = OpenOrdersIndexer { bump: r.below(256) as u8, created_counter: r.below(1000) as u32, addresses: (0..r.below(5)).map(key).collect() };
                ix.try_serialize(&mut a.data).unwrap();
                // space left over is common
                a.data.extend(vec![0; r.below(3) as usize * 32]);
                if r.chance(1, 6) {
                    let l = r.below(a.data.len() as u64) as usize;
                    a.data.truncate(l);
                }
            }
            1 => a.data = vec![r.below(256) as u8; r.below(12) as usize],
            k => {
                a.data = kind(k - 2).to_vec();
                a.data.extend(vec![r.below(256) as u8; r.below(5) as usize]);
            }
        }
        if verbose {
            println!("account {}: {:?}", n, a);
        }
        shelf.insert(key(n as u64), a);
    }
    let failing = case.first().map_or(false, |r| Row::new(r).below(9) == 8);
    standin::set_node(Some(Box::new(Shelf(shelf.clone(), failing))));
    let direct = || RpcAccountFetcher { rpc: standin::nonblocking::rpc_client::RpcClient::new("http://127.0.0.1".into()) };
    let cached = CachedAccountFetcher::new(Arc::new(direct()));
    let direct = direct();
    let both: [&dyn AccountFetcher; 2] = [&direct, &cached];
    let mut parsed = 0;
    for (who, f) in both.iter().enumerate() {
        // the cached one twice: from the node and from the cache
        for round in 0..1 + who {
            let lists = |d: [u8; 8], p: u64| -> Result<(), Violation> {
                let got = crate::feed::wait("a listing", f.fetch_program_accounts(&program(p), d))?.ok();
                let got: Option<BTreeMap<Pubkey, Account>> = got.map(|l| l.into_iter().map(|(k, a)| (k, a.into())).collect());
                let want: BTreeMap<Pubkey, Account> = shelf.iter().filter(|(_, a)| a.owner == program(p) && a.data.starts_with(&d)).map(|(k, a)| (*k, a.clone())).collect();
                if got != Some(want.clone()).filter(|_| !failing) {
                    return viol("listing", format!("fetcher {} round {}: {:?} instead of {:?}", who, round, got, want));
                }
                Ok(())
            };
            if round == 0 {
                for p in 0..2 {
                    lists(kind(0), p)?;
                }
            }
            for n in 0..13 {
                let k = key(n);
                let got: Option<Account> = crate::feed::wait("a read", f.fetch_raw_account(&k))?.ok().map(Into::into);
                let want = shelf.get(&k).filter(|_| !failing);
                if got.as_ref() != want {
                    return viol("read", format!("fetcher {} round {} account {}: {:?} instead of {:?}", who, round, n, got, want));
                }
                let got = crate::feed::wait("a read", account_fetcher_fetch_anchor_account::<OpenOrdersIndexer>(*f, &k))?.ok();
                let want = want.filter(|a| a.data.starts_with(&OpenOrdersIndexer::discriminator())).and_then(|a| <OpenOrdersIndexer as anchor_lang::AnchorDeserialize>::deserialize(&mut &a.data[8..]).ok());
                parsed += want.is_some() as u64;
                let show = |x: Option<OpenOrdersIndexer>| x.map(|x| (x.bump, x.created_counter, x.addresses));
                let (got, want) = (show(got), show(want));
                if got != want {
                    return viol("read", format!("fetcher {} round {} account {} as an indexer: {:?} instead of {:?}", who, round, n, got, want));
                }
            }
            for d in 0..3 {
                for p in 0..2 {
                    lists(kind(d), p)?;
                }
            }
        }
    }
    standin::set_node(None);
    info.count("parsed", parsed);
    info.sig = case_hash(case);
    info.summary = Some(format!("{} accounts, {} reads as an indexer", shelf.len(), parsed));
    info.nontrivial = parsed > 0;
    Ok(())
}

pub fn plans() -> Vec<Plan> {
    let rule = "a case counts when one request answered several callers, an answer at hand was used and something was asked for again";
    vec![
        Plan { name: "schedules", rule, rows: (10, 80), row_len: 6, quick: 1000000, thorough: 15000000, run: c31 },
        Plan { name: "reads", rule: "a case counts when an account was read as what it holds", rows: (3, 12), row_len: 14, quick: 60000, thorough: 2000000, run: reads },
    ]
}
