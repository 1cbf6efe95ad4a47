//! C22: the client's record of slots and account writes against a reference that works everything out
//! anew from what it was told.
use crate::chain_data::*;
use crate::engine::*;
use openbook_v2::state::OpenOrdersAccount;
use solana_sdk::account::{AccountSharedData, ReadableAccount};
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;

pub const ACCOUNTS: u64 = 3;

pub fn pk(a: u64) -> Pubkey {
    Pubkey::new_from_array([a as u8 + 1; 32])
}

pub fn owner(n: u64) -> Pubkey {
    if n == 0 {
        openbook_v2::id()
    } else {
        Pubkey::new_from_array([99; 32])
    }
}
/// kinds that differ in the last or the first byte only
pub fn kind(n: u64) -> [u8; 8] {
    [n as u8 / 2, 1, 1, 1, 1, 1, 1, n as u8 % 2]
}

/// whether a value makes a trading account
pub fn typed(v: u64) -> bool {
    v % 9 == 4
}

/// every value makes another account
pub fn data(v: u64) -> AccountSharedData {
    use anchor_lang::Discriminator;
    let mut d = if typed(v) { OpenOrdersAccount::discriminator() } else { kind(v / 2 % 3) }.to_vec();
    if typed(v) {
        let mut a: OpenOrdersAccount = bytemuck::Zeroable::zeroed();
        a.owner = pk(v % 50);
        a.account_num = v as u32;
        a.position.base_free_native = v;
        d.extend(bytemuck::bytes_of(&a));
    } else {
        d.extend((v as u32).to_le_bytes());
        d.truncate(if v % 7 == 6 { 7 } else { 12 });
    }
    let mut a = AccountSharedData::new(v, 0, &owner(v % 2));
    a.set_data_from_slice(&d);
    a
}
/// the value an account was made from
pub fn value_of(a: &AccountSharedData) -> Option<u64> {
    let v = a.lamports();
    Some(v).filter(|v| *a == data(*v))
}

/// what the notifications are given to
pub trait Sink {
    fn apply(&mut self, msg: &Msg) -> Result<(), Violation>;
    fn look<T>(&self, f: impl FnOnce(&ChainData) -> T) -> T;
    /// further ways to look, given what there should be: (account, slot, value)
    fn further(&mut self, want: &[(u64, u64, u64)]) -> Result<(), Violation>;
}

#[derive(Clone, Copy, Debug)]
struct Known {
    parent: Option<u64>,
    /// the parent is only a guess made when a node answered from a slot not heard of yet
    guess: bool,
    rooted: bool,
}

/// What can be told from the notifications so far.
#[derive(Default)]
struct Ref {
    known: BTreeMap<u64, Known>,
    root: u64,
    best: u64,
    /// per account: (slot, value) in order of arrival
    writes: BTreeMap<u64, Vec<(u64, u64)>>,
}

impl Ref {
    /// the best fork: the highest slot with a parent, and the way down from it as far as it is known
    fn fork(&self) -> BTreeSet<u64> {
        let mut s = BTreeSet::new();
        let mut at = self.best;
        while let Some(k) = self.known.get(&at) {
            s.insert(at);
            match k.parent {
                Some(p) if p < at => at = p,
                _ => break,
            }
        }
        s
    }
    fn slot(&mut self, slot: u64, parent: Option<u64>, rooted: bool, guess: bool) {
        if slot < self.root {
            return;
        }
        let k = self.known.entry(slot).or_insert(Known { parent: None, guess: false, rooted: false });
        if parent.is_some() && (k.parent.is_none() || k.guess) {
            k.parent = parent;
            k.guess = guess;
        }
        k.rooted |= rooted;
        if parent.is_some() && slot > self.best {
            self.best = slot;
        }
        if rooted && slot > self.root {
            self.root = slot;
            let fork = self.fork();
            for w in self.writes.values_mut() {
                let keep = w
                    .iter()
                    .filter(|(s, _)| *s <= slot)
                    .filter(|(s, _)| match self.known.get(s) {
                        Some(k) => k.rooted || fork.contains(s),
                        None => true,
                    })
                    .map(|x| x.0)
                    .max();
                w.retain(|(s, _)| *s > slot || Some(*s) == keep);
            }
            self.known.retain(|s, _| *s >= slot);
        }
    }
    fn live(&self, fork: &BTreeSet<u64>, s: u64) -> bool {
        match self.known.get(&s) {
            Some(k) => k.rooted || fork.contains(&s) || s > self.best,
            None => s <= self.root,
        }
    }
    /// slot and value of the newest live write, the later one of two in the same slot
    fn current(&self, a: u64) -> Option<(u64, u64)> {
        let fork = self.fork();
        let mut r: Option<(u64, u64)> = None;
        for (s, v) in self.writes.get(&a)? {
            if self.live(&fork, *s) && r.map(|x| *s >= x.0).unwrap_or(true) {
                r = Some((*s, *v));
            }
        }
        r
    }
}

/// The chain as it really is.
struct Truth {
    parent: BTreeMap<u64, u64>,
    root: u64,
}

impl Truth {
    fn descends(&self, mut s: u64, from: u64) -> bool {
        while s > from {
            match self.parent.get(&s) {
                Some(p) => s = *p,
                None => return false,
            }
        }
        s == from
    }
}

#[derive(Debug, Clone)]
pub enum Msg {
    /// slot, parent, status
    Slot(u64, Option<u64>, SlotStatus),
    /// account, slot, value
    Account(u64, u64, u64),
    /// a node's answer: account, slot, value
    Rpc(u64, u64, u64),
    /// many accounts as of a slot: account, value
    Snapshot(u64, Vec<(u64, u64)>),
}

/// One message, and all lookups. True when a newer write outside the live fork is passed over.
fn deliver<S: Sink>(c: &mut S, m: &mut Ref, msg: &Msg, verbose: bool) -> Result<bool, Violation> {
    c.apply(msg)?;
    match *msg {
        Msg::Slot(slot, parent, status) => {
            m.slot(slot, parent, status == SlotStatus::Rooted, false);
        }
        Msg::Account(a, slot, v) => {
            m.writes.entry(a).or_default().push((slot, v));
        }
        Msg::Rpc(a, slot, v) => {
            if slot > m.best {
                m.slot(slot, Some(m.best), false, true);
            }
            m.writes.entry(a).or_default().push((slot, v));
        }
        Msg::Snapshot(slot, ref l) => {
            for (a, v) in l {
                m.writes.entry(*a).or_default().push((slot, *v));
            }
        }
    }
    let mut abandoned = false;
    if verbose {
        println!("{:?}   (root {} best {} fork {:?})", msg, m.root, m.best, m.fork());
    }
    const NOT: u64 = u64::MAX;
    let val = |a: &AccountSharedData| value_of(a).unwrap_or(NOT);
    let snap = c.look(|c| c.accounts_snapshot());
    let all: BTreeMap<Pubkey, (u64, u64)> = c.look(|c| c.iter_accounts().map(|(k, a)| (*k, (a.slot, val(&a.account)))).collect());
    let mut there = vec![];
    for a in 0..ACCOUNTS {
        let want = m.current(a);
        let got = c.look(|c| c.account_and_slot(&pk(a)).ok().map(|x| (x.slot, val(&x.account))));
        let plain = c.look(|c| c.account(&pk(a)).ok().map(val));
        let s = snap.get(&pk(a)).map(|x| (x.slot, val(&x.account)));
        let i = all.get(&pk(a)).copied();
        if verbose {
            println!("    account {}: {:?}", a, got);
        }
        if got != want {
            let kind = match (got, want) {
                (None, _) => "lost",
                (Some(g), Some(w)) if g.0 < w.0 => "older",
                (Some(g), Some(w)) if g.0 == w.0 => "other write of the slot",
                _ => "not live",
            };
            return viol(kind, format!("after {:?}: account {} is (slot, value) {:?}, should be {:?} (root {}, best {}, best fork {:?})", msg, a, got, want, m.root, m.best, m.fork()));
        }
        if plain != want.map(|x| x.1) || s != want || i != want {
            return viol("views", format!("after {:?}: account {}: lookup {:?} and {:?}, snapshot {:?}, iteration {:?}", msg, a, got, plain, s, i));
        }
        if let Some((s, v)) = want {
            there.push((a, s, v));
        }
        let fork = m.fork();
        if m.writes.get(&a).map(|w| w.iter().any(|x| !m.live(&fork, x.0) && x.0 > want.map(|y| y.0).unwrap_or(0))).unwrap_or(false) {
            abandoned = true;
        }
    }
    if snap.len() != all.len() {
        return viol("views", "snapshot and iteration differ in length");
    }
    c.further(&there)?;
    Ok(abandoned)
}

pub fn run<S: Sink>(mut c: S, case: &Case, info: &mut Info, verbose: bool) -> Result<(), Violation> {
    let empty = vec![];
    let mut r0 = Row::new(case.get(0).unwrap_or(&empty));
    let fork_rate = *r0.pick(&[10, 0, 30, 60]);
    let late_rate = *r0.pick(&[0, 20, 50, 80]);
    let first = 1 + r0.below(5);
    let mut t = Truth { parent: BTreeMap::new(), root: first };
    t.parent.insert(first, first - 1);
    let mut m = Ref::default();
    let mut value = 0u64;
    let mut text = String::new();
    let mut sig = 0;
    let mut abandoned = false;
    for row in case.iter().skip(1) {
        let mut r = Row::new(row);
        let kind = r.weighted(&[30, 16, 8, 30, 6, 4, 6, 3]);
        let slots: Vec<u64> = t.parent.keys().copied().collect();
        let last = *slots.last().unwrap();
        // mostly recent slots
        let any = |r: &mut Row| {
            let n = slots.len();
            let back = if r.chance(3, 4) { r.idx(n.min(6)) } else { r.idx(n) };
            slots[n - 1 - back]
        };
        let mut todo: Vec<Msg> = vec![];
        match kind {
            0 => {
                // the chain grows, on the tip or by a fork, and the node mostly says so at once
                let alive: Vec<u64> = slots.iter().copied().filter(|s| t.descends(*s, t.root)).collect();
                let tip = *alive.iter().max().unwrap();
                let parent = if r.below(100) < fork_rate { alive[alive.len() - 1 - r.idx(alive.len().min(5))] } else { tip };
                let slot = last + 1 + if r.chance(1, 4) { r.below(3) } else { 0 };
                t.parent.insert(slot, parent);
                if r.below(100) >= late_rate {
                    todo.push(Msg::Slot(slot, Some(parent), SlotStatus::Processed));
                }
            }
            1 => {
                // repeated, late or first notification of a slot
                let s = any(&mut r);
                let p = Some(t.parent[&s]).filter(|_| s > first);
                if r.chance(1, 4) {
                    todo.push(Msg::Slot(s, p.filter(|_| r.chance(1, 4)), SlotStatus::Confirmed));
                } else {
                    todo.push(Msg::Slot(s, p, SlotStatus::Processed));
                }
            }
            2 => {
                // finality, on the fork that the client takes for the best as well
                let c2: Vec<u64> = slots.iter().copied().filter(|s| *s > t.root && t.descends(*s, t.root) && (t.descends(m.best, *s) || t.descends(*s, m.best))).collect();
                if let Some(s) = c2.get(r.idx(c2.len().max(1))) {
                    t.root = *s;
                    let p = Some(t.parent[s]).filter(|_| *s > m.best || r.chance(1, 3));
                    todo.push(Msg::Slot(*s, p, SlotStatus::Rooted));
                }
            }
            3 => {
                let s = any(&mut r);
                let a = r.below(ACCOUNTS);
                value += 1;
                todo.push(Msg::Account(a, s, value));
            }
            4 => {
                // a node asked for an account answers from a slot that may not be known yet
                let up: Vec<u64> = slots.iter().copied().filter(|s| *s <= m.best || m.best == 0 || t.descends(*s, m.best)).collect();
                if let Some(s) = up.get(up.len().saturating_sub(1 + r.idx(up.len().min(4)))) {
                    let a = r.below(ACCOUNTS);
                    value += 1;
                    todo.push(Msg::Rpc(a, *s, value));
                }
            }
            5 => {
                // a root is announced again
                let s: Vec<u64> = slots.iter().copied().filter(|s| t.descends(t.root, *s)).collect();
                let s = s[s.len() - 1 - r.idx(s.len().min(4))];
                if s <= m.root {
                    todo.push(Msg::Slot(s, None, SlotStatus::Rooted));
                }
            }
            7 => {
                let s = any(&mut r);
                let mut l = vec![];
                for a in 0..ACCOUNTS {
                    if r.chance(2, 3) {
                        value += 1;
                        l.push((a, value));
                    }
                }
                todo.push(Msg::Snapshot(s, l));
            }
            _ => {
                // the same write once more, or another one in the same slot
                let a = r.below(ACCOUNTS);
                if let Some(w) = m.writes.get(&a).filter(|w| !w.is_empty()) {
                    let (s, v) = w[w.len() - 1 - r.idx(w.len())];
                    let v = if r.chance(1, 2) {
                        value += 1;
                        value
                    } else {
                        v
                    };
                    todo.push(Msg::Account(a, s, v));
                }
            }
        }
        // the real parent of a slot that a node has answered from is announced after the slots in between
        if let Some(Msg::Slot(s, Some(_), _)) = todo.get(0) {
            if m.known.get(s).map(|k| k.guess).unwrap_or(false) {
                let mut at = t.parent[s];
                while at > first && at > m.root {
                    if m.known.get(&at).map(|k| k.parent.is_none() || k.guess).unwrap_or(true) {
                        todo.insert(0, Msg::Slot(at, Some(t.parent[&at]), SlotStatus::Processed));
                    }
                    at = t.parent[&at];
                }
            }
        }
        for msg in todo {
            sig = hash_mix(sig, hash_str(&format!("{:?}", msg)));
            if text.len() < 400 {
                let _ = write!(text, "{:?}; ", msg);
            }
            abandoned |= deliver(&mut c, &mut m, &msg, verbose)?;
            info.count("messages", 1);
        }
    }
    info.count("roots", (m.root > 0) as u64);
    info.nontrivial = abandoned && m.root > 0;
    info.sig = sig;
    info.summary = Some(text);
    Ok(())
}


/// the record itself
struct Plain(ChainData);

impl Sink for Plain {
    fn apply(&mut self, msg: &Msg) -> Result<(), Violation> {
        let c = &mut self.0;
        match msg.clone() {
            Msg::Slot(slot, parent, status) => c.update_slot(SlotData { slot, parent, status, chain: 0 }),
            Msg::Account(a, slot, v) => c.update_account(pk(a), AccountAndSlot { slot, account: data(v) }),
            Msg::Rpc(a, slot, v) => c.update_from_rpc(&pk(a), AccountAndSlot { slot, account: data(v) }),
            Msg::Snapshot(slot, l) => {
                for (a, v) in l {
                    c.update_account(pk(a), AccountAndSlot { slot, account: data(v) });
                }
            }
        }
        Ok(())
    }
    fn look<T>(&self, f: impl FnOnce(&ChainData) -> T) -> T {
        f(&self.0)
    }
    fn further(&mut self, _: &[(u64, u64, u64)]) -> Result<(), Violation> {
        Ok(())
    }
}

pub fn run_plain(case: &Case, info: &mut Info, verbose: bool) -> Result<(), Violation> {
    run(Plain(ChainData::new()), case, info, verbose)
}

pub const RULE: &str = "a case counts when a newer write outside the live fork was passed over and a slot became final";
