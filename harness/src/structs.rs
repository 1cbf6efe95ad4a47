//! C14 (order tree), C15 (event queue), C25 (book queries): the data structures against plain reference containers.
use crate::engine::*;
use crate::rt::guarded;
use openbook_v2::state::{self as st, BookSide, BookSideOrderTree, EventHeap, LeafNode, Side};
use solana_sdk::pubkey::Pubkey;
use std::collections::BTreeMap;

const NODES: usize = st::MAX_ORDERTREE_NODES;

fn boxed<T: bytemuck::Pod>() -> Box<T> {
    Box::new(T::zeroed())
}

fn tree(c: usize) -> BookSideOrderTree {
    if c == 0 {
        BookSideOrderTree::Fixed
    } else {
        BookSideOrderTree::OraclePegged
    }
}

fn side_of(ask: bool) -> Side {
    if ask {
        Side::Ask
    } else {
        Side::Bid
    }
}

fn new_side(ask: bool) -> Box<BookSide> {
    let mut b: Box<BookSide> = boxed();
    b.nodes.order_tree_type = if ask { st::OrderTreeType::Asks.into() } else { st::OrderTreeType::Bids.into() };
    b
}

fn leaf_bytes(l: &LeafNode) -> Vec<u8> {
    bytemuck::bytes_of(l).to_vec()
}

fn expiry(l: &LeafNode) -> u64 {
    if l.time_in_force == 0 {
        u64::MAX
    } else {
        l.timestamp.saturating_add(l.time_in_force as u64)
    }
}

struct Ref {
    ask: bool,
    t: [BTreeMap<u128, LeafNode>; 2],
}

impl Ref {
    fn used(&self) -> usize {
        self.t.iter().map(|t| if t.is_empty() { 0 } else { 2 * t.len() - 1 }).sum()
    }
    fn need(&self, c: usize) -> usize {
        if self.t[c].is_empty() {
            1
        } else {
            2
        }
    }
    fn order(&self, c: usize) -> Vec<&LeafNode> {
        let mut v: Vec<&LeafNode> = self.t[c].values().collect();
        if !self.ask {
            v.reverse();
        }
        v
    }
}

fn same(b: &BookSide, r: &Ref, what: &str) -> Result<(), Violation> {
    for c in 0..2 {
        let root = b.root(tree(c));
        if root.leaf_count as usize != r.t[c].len() {
            return viol("count", format!("{}: tree {} counts {} orders, {} are in it", what, c, root.leaf_count, r.t[c].len()));
        }
        let want = r.order(c);
        let mut n = 0;
        for (h, l) in b.nodes.iter(root) {
            if n >= want.len() {
                return viol("contents", format!("{}: tree {} lists more than the {} orders in it", what, c, want.len()));
            }
            if leaf_bytes(l) != leaf_bytes(want[n]) {
                return viol("contents", format!("{}: tree {} position {}: {:?} expected {:?}", what, c, n, l, want[n]));
            }
            match b.nodes.node(h).and_then(|x| x.as_leaf()) {
                Some(x) if leaf_bytes(x) == leaf_bytes(l) => {}
                _ => return viol("handle", format!("{}: handle {} of tree {} does not lead to its order", what, h, c)),
            }
            n += 1;
        }
        if n != want.len() {
            return viol("contents", format!("{}: tree {} lists {} of {} orders", what, c, n, want.len()));
        }
        let worst = b.nodes.find_worst(root).map(|x| x.1.key);
        if worst != want.last().map(|l| l.key) {
            return viol("worst", format!("{}: tree {} worst order {:?}, should be {:?}", what, c, worst, want.last().map(|l| l.key)));
        }
        let lo = b.nodes.min_leaf(root).map(|x| x.1.key);
        let hi = b.nodes.max_leaf(root).map(|x| x.1.key);
        if lo != r.t[c].keys().next().copied() || hi != r.t[c].keys().last().copied() {
            return viol("extremes", format!("{}: tree {} smallest/largest {:?}/{:?}", what, c, lo, hi));
        }
        let min = r.t[c].values().map(expiry).min();
        match (b.nodes.find_earliest_expiry(root), min) {
            (None, None) => {}
            (Some((h, e)), Some(m)) => {
                let le = b.nodes.node(h).and_then(|x| x.as_leaf()).map(expiry);
                if e != m || le != Some(m) {
                    return viol("expiry", format!("{}: tree {} earliest expiry {} (order's {:?}), should be {}", what, c, e, le, m));
                }
            }
            (a, m) => return viol("expiry", format!("{}: tree {} earliest expiry {:?}, should be {:?}", what, c, a, m)),
        }
    }
    let empty = r.t.iter().all(|t| t.is_empty());
    if b.is_empty() != empty {
        return viol("empty", format!("{}: is_empty says {}", what, b.is_empty()));
    }
    let free = NODES - r.used();
    if b.is_full() && free > 2 {
        return viol("space", format!("{}: reported full with {} of {} nodes free", what, free, NODES));
    }
    if !b.is_full() && free < 2 {
        return viol("space", format!("{}: not reported full with {} nodes free", what, free));
    }
    Ok(())
}

fn gen_key(r: &mut Row, rf: &Ref, c: usize, style: u64, seq: &mut u64) -> u128 {
    *seq += 1;
    let side = side_of(rf.ask);
    match style {
        // as the program makes them: price-time
        0 | 1 => {
            let p = if style == 0 { r.below(12) + 1 } else { r.below(1 << 40) + 1 };
            let data = if c == 0 { p } else { st::oracle_pegged_price_data(p as i64 - 6) };
            st::new_node_key(side, data, *seq)
        }
        // one bit away from an existing key
        2 => {
            let keys: Vec<u128> = rf.t[c].keys().copied().collect();
            let bit = r.below(128);
            if keys.is_empty() {
                1u128 << bit
            } else {
                *r.pick(&keys) ^ (1u128 << bit)
            }
        }
        3 => ((r.next() as u128) << 64) | r.next() as u128,
        // extremes
        4 => *r.pick(&[0, u128::MAX, 1, u128::MAX - 1, 1u128 << 127, (1u128 << 127) - 1, 1u128 << 64, (1u128 << 64) - 1]),
        // a chain: each key shares a longer prefix, the deepest tree possible
        _ => {
            let k = *seq % 128;
            !0u128 << k
        }
    }
}

fn gen_leaf(r: &mut Row, key: u128, seq: u64) -> LeafNode {
    let ts = 1000 + r.below(40);
    let tif = if r.chance(2, 3) { 1 + r.below(30) as u16 } else { 0 };
    LeafNode::new(r.below(24) as u8, key, Pubkey::new_from_array([(seq % 251) as u8; 32]), r.range(1, 1000), ts, tif, r.range(-1, 50), seq)
}

pub fn c14(case: &Case, info: &mut Info, verbose: bool) -> Result<(), Violation> {
    match guarded(|| c14_run(case, info, verbose)) {
        Ok(r) => r,
        Err(p) => viol("panic", p),
    }
}

fn c14_run(case: &Case, info: &mut Info, verbose: bool) -> Result<(), Violation> {
    let empty = vec![];
    let mut r0 = Row::new(case.get(0).unwrap_or(&empty));
    let ask = r0.chance(1, 2);
    let style = r0.below(7);
    let bulk = r0.chance(1, 4);
    let mut b = new_side(ask);
    let mut rf = Ref { ask, t: [BTreeMap::new(), BTreeMap::new()] };
    let mut seq = 0u64;
    let mut sig = hash_mix(7, style * 2 + ask as u64);
    let (mut removed, mut refused, mut expired, mut peak) = (0, 0, 0, 0);
    for (n, row) in case.iter().enumerate().skip(1) {
        let mut r = Row::new(row);
        let c = if r.chance(1, 3) { 1 } else { 0 };
        let op = r.weighted(&[10, 5, 3, 2, 2, 2, 1]);
        let what;
        sig = hash_mix(sig, (op * 2 + c) as u64 ^ r.next() << 8);
        match op {
            0 => {
                let times = if bulk { 1 + r.below(120) } else { 1 + r.below(4) };
                for _ in 0..times {
                    let s = if style == 6 { r.below(6) } else { style };
                    let key = gen_key(&mut r, &rf, c, s, &mut seq);
                    let words: Vec<u64> = (0..8).map(|i| hash_mix(row[2], seq * 16 + i)).collect();
                    let mut r2 = Row::new(&words);
                    let l = gen_leaf(&mut r2, key, seq);
                    let exists = rf.t[c].get(&key).copied();
                    let fits = exists.is_some() || rf.used() + rf.need(c) <= NODES;
                    match (b.insert_leaf(tree(c), &l), fits) {
                        (Ok((h, old)), true) => {
                            if old.map(|x| leaf_bytes(&x)) != exists.map(|x| leaf_bytes(&x)) {
                                return viol("insert", format!("insert reports the old order {:?}, was {:?}", old.map(|x| x.key), exists.map(|x| x.key)));
                            }
                            match b.node(h).and_then(|x| x.as_leaf()) {
                                Some(x) if leaf_bytes(x) == leaf_bytes(&l) => {}
                                _ => return viol("handle", "insert returns a handle that does not lead to the order".to_string()),
                            }
                            rf.t[c].insert(key, l);
                        }
                        (Err(_), false) => refused += 1,
                        (Ok(_), false) => return viol("space", format!("an order fits although {} nodes are used", rf.used())),
                        (Err(e), true) => return viol("space", format!("insert refused with {} of {} nodes used: {:?}", rf.used(), NODES, e)),
                    }
                }
                what = format!("insert {} into {}", times, c);
            }
            1 => {
                let times = if bulk { 1 + r.below(60) } else { 1 };
                for t in 0..times {
                    let keys: Vec<u128> = rf.t[c].keys().copied().collect();
                    if keys.is_empty() {
                        break;
                    }
                    let k = keys[(hash_mix(row[3], t) % keys.len() as u64) as usize];
                    let want = rf.t[c].remove(&k).unwrap();
                    let got = b.remove_by_key(tree(c), k);
                    if got.map(|g| leaf_bytes(&g)) != Some(leaf_bytes(&want)) {
                        return viol("remove", format!("removing {} gives {:?}", k, got));
                    }
                    removed += 1;
                }
                what = format!("remove {} from {}", times, c);
            }
            2 => {
                // an id that is not there
                let s = r.below(6);
                let k = gen_key(&mut r, &rf, c, s, &mut seq);
                if !rf.t[c].contains_key(&k) {
                    if let Some(x) = b.remove_by_key(tree(c), k) {
                        return viol("remove", format!("removing the absent id {} gives {:?}", k, x));
                    }
                }
                what = format!("remove absent {} from {}", k, c);
            }
            3 => {
                let mut root = *b.root(tree(c));
                let got = b.nodes.remove_worst(&mut root);
                *b.root_mut(tree(c)) = root;
                let want = rf.order(c).last().map(|l| **l);
                if got.map(|g| leaf_bytes(&g)) != want.map(|g| leaf_bytes(&g)) {
                    return viol("worst", format!("remove_worst gives {:?}, should give {:?}", got.map(|x| x.key), want.map(|x| x.key)));
                }
                if let Some(w) = want {
                    rf.t[c].remove(&w.key);
                    removed += 1;
                }
                what = format!("remove worst of {}", c);
            }
            4 => {
                let now = 1000 + r.below(80);
                let got = b.remove_one_expired(tree(c), now);
                // an order that is past its time, of this tree first
                let cand = |i: usize| rf.t[i].values().map(expiry).min().filter(|e| *e < now);
                let (from, e) = match (cand(c), cand(1 - c)) {
                    (Some(e), _) => (c, Some(e)),
                    (None, Some(e)) => (1 - c, Some(e)),
                    _ => (c, None),
                };
                match (got, e) {
                    (None, None) => {}
                    (Some(g), Some(e)) => {
                        let w = rf.t[from].remove(&g.key);
                        if w.map(|x| leaf_bytes(&x)) != Some(leaf_bytes(&g)) || expiry(&g) != e {
                            return viol("expired", format!("remove_one_expired at {} gives {:?} expiring {}, earliest is {}", now, g, expiry(&g), e));
                        }
                        removed += 1;
                        expired += 1;
                    }
                    // an order expiring this very second may be dropped or kept
                    (Some(g), None) if expiry(&g) == now => {
                        let t = if rf.t[c].contains_key(&g.key) { c } else { 1 - c };
                        rf.t[t].remove(&g.key);
                    }
                    (g, e) => return viol("expired", format!("remove_one_expired at {} gives {:?}, earliest expiry {:?}", now, g.map(|x| expiry(&x)), e)),
                }
                what = format!("remove expired at {}", now);
            }
            5 => {
                // change the quantity of one order through its handle, as a partial fill does
                let root = *b.root(tree(c));
                let hs: Vec<(u32, u128)> = b.nodes.iter(&root).map(|(h, l)| (h, l.key)).collect();
                if hs.is_empty() {
                    continue;
                }
                let (h, k) = *r.pick(&hs);
                let q = r.range(1, 5000);
                match b.node_mut(h).and_then(|x| x.as_leaf_mut()) {
                    Some(l) => l.quantity = q,
                    None => return viol("handle", "no order at the handle".to_string()),
                }
                match rf.t[c].get_mut(&k) {
                    Some(l) => l.quantity = q,
                    None => return viol("contents", format!("order {} is listed but not in the tree", k)),
                }
                what = format!("fill part of {}", k);
            }
            _ => {
                // drain one tree, best first or worst first
                let keys: Vec<u128> = rf.order(c).iter().map(|l| l.key).collect();
                let n = keys.len().min(1 + r.idx(keys.len().max(1)));
                let rev = r.chance(1, 2);
                for i in 0..n {
                    let k = if rev { keys[keys.len() - 1 - i] } else { keys[i] };
                    let want = rf.t[c].remove(&k).unwrap();
                    let got = b.remove_by_key(tree(c), k);
                    if got.map(|g| leaf_bytes(&g)) != Some(leaf_bytes(&want)) {
                        return viol("remove", format!("removing {} gives {:?}", k, got));
                    }
                    removed += 1;
                }
                what = format!("drain {} of {}", n, c);
            }
        }
        peak = peak.max(rf.used());
        if verbose {
            println!("{} {}: {} + {} orders", n, what, rf.t[0].len(), rf.t[1].len());
        }
        same(&b, &rf, &what)?;
    }
    info.count("removed", removed);
    info.count("refused_full", refused);
    info.count("expired", expired);
    info.count("reached_full", (peak >= NODES - 1) as u64);
    info.nontrivial = removed > 0;
    info.sig = sig;
    info.summary = Some(format!("{} tree, {} rows, peak {} nodes, {} removed, {} refused, {} expired", if ask { "ask" } else { "bid" }, case.len(), peak, removed, refused, expired));
    Ok(())
}

// ---- C15 ----

const CAP: usize = st::MAX_NUM_EVENTS as usize;

pub fn c15(case: &Case, info: &mut Info, verbose: bool) -> Result<(), Violation> {
    let empty = vec![];
    let mut r0 = Row::new(case.get(0).unwrap_or(&empty));
    let bulk = *r0.pick(&[1u64, 3, 40, 200, 600]);
    let mut h: Box<EventHeap> = boxed();
    h.init();
    // (position, event) in order of arrival
    let mut rf: Vec<(usize, st::AnyEvent)> = vec![];
    let mut ever = 0u64;
    let mut sig = hash_mix(3, bulk);
    let (mut removed, mut full, mut mid) = (0, 0, 0);
    let ev = |n: u64, r: &mut Row| -> st::AnyEvent {
        let mut e: st::AnyEvent = bytemuck::Zeroable::zeroed();
        e.event_type = r.below(2) as u8;
        e.padding[..8].copy_from_slice(&n.to_le_bytes());
        e.padding[100..108].copy_from_slice(&r.next().to_le_bytes());
        e
    };
    let bytes = |e: &st::AnyEvent| bytemuck::bytes_of(e).to_vec();
    for row in case.iter().skip(1) {
        let mut r = Row::new(row);
        let op = r.weighted(&[10, 6, 6, 3, 2, 2]);
        let k = 1 + r.below(bulk);
        sig = hash_mix(sig, op as u64 * 1000 + k);
        if verbose {
            println!("op {} x{} with {} queued", op, k, rf.len());
        }
        match op {
            0 => {
                for i in 0..k {
                    ever += 1;
                    let e = ev(ever, &mut Row::new(&[row[2] ^ i, row[3]]));
                    if rf.len() >= CAP {
                        full += 1;
                        let before = bytemuck::bytes_of(&*h).to_vec();
                        if guarded(|| h.push_back(e)).is_ok() {
                            return viol("overfull", format!("an event was accepted with {} queued", rf.len()));
                        }
                        if before != bytemuck::bytes_of(&*h) {
                            // the transaction is rolled back; start again from the state before
                            h.copy_from(&before);
                        }
                        continue;
                    }
                    let seq = h.header.seq_num;
                    if let Err(p) = guarded(|| h.push_back(e)) {
                        return viol("push", format!("an event was refused with {} queued: {}", rf.len(), p));
                    }
                    if h.header.seq_num <= seq {
                        return viol("sequence", format!("sequence number {} after {}", h.header.seq_num, seq));
                    }
                    let slots: Vec<usize> = h.iter().map(|x| x.1).collect();
                    let s = match slots.last() {
                        Some(s) => *s,
                        None => return viol("push", "the event is not listed".to_string()),
                    };
                    if rf.iter().any(|x| x.0 == s) {
                        return viol("push", format!("position {} handed out twice", s));
                    }
                    rf.push((s, e));
                }
            }
            1 => {
                for _ in 0..k {
                    if rf.is_empty() {
                        break;
                    }
                    let (_, e) = rf.remove(0);
                    match guarded(|| h.pop_front()) {
                        Ok(Ok(x)) if bytes(&x) == bytes(&e) => removed += 1,
                        x => return viol("pop", format!("pop_front gives {:?}", x.map(|y| y.map(|z| z.padding[0])))),
                    }
                }
            }
            2 => {
                for i in 0..k {
                    if rf.is_empty() {
                        break;
                    }
                    let n = (hash_mix(row[4], i) % rf.len() as u64) as usize;
                    if n > 0 && n + 1 < rf.len() {
                        mid += 1;
                    }
                    let (s, e) = rf.remove(n);
                    match guarded(|| h.delete_slot(s)) {
                        Ok(Ok(x)) if bytes(&x) == bytes(&e) => removed += 1,
                        x => return viol("delete", format!("deleting position {} gives {:?}", s, x.map(|y| y.map(|z| z.padding[0])))),
                    }
                }
            }
            3 => {
                // invalid positions
                for i in 0..8 {
                    let s = match hash_mix(row[4], i) % 4 {
                        0 => CAP + (hash_mix(row[5], i) % 1000) as usize,
                        1 => u16::MAX as usize,
                        _ => (hash_mix(row[5], i) % CAP as u64) as usize,
                    };
                    if rf.iter().any(|x| x.0 == s) {
                        continue;
                    }
                    if h.at_slot(s).is_some() {
                        return viol("ghost", format!("position {} holds an event although nothing is queued there", s));
                    }
                    let before = bytemuck::bytes_of(&*h).to_vec();
                    match guarded(|| h.delete_slot(s)) {
                        Ok(Ok(_)) => return viol("delete", format!("deleting the empty position {} succeeded", s)),
                        _ => {}
                    }
                    if before != bytemuck::bytes_of(&*h) {
                        return viol("delete", format!("refused deletion of position {} has an effect", s));
                    }
                }
            }
            4 => {
                if rf.is_empty() {
                    let before = bytemuck::bytes_of(&*h).to_vec();
                    if let Ok(Ok(_)) = guarded(|| h.pop_front()) {
                        return viol("pop", "pop_front of an empty queue succeeded".to_string());
                    }
                    if before != bytemuck::bytes_of(&*h) {
                        return viol("pop", "refused pop has an effect".to_string());
                    }
                } else {
                    // as the crank does: walk the queue and delete some on the way
                    let slots: Vec<usize> = h.iter().map(|x| x.1).collect();
                    let want: Vec<usize> = rf.iter().map(|x| x.0).collect();
                    if slots != want {
                        return viol("order", format!("listed {:?}, queued {:?}", slots, want));
                    }
                    let mask = r.next();
                    for (i, s) in slots.iter().enumerate().take(k as usize) {
                        if mask >> (i % 64) & 1 == 1 {
                            if h.delete_slot(*s).is_err() {
                                return viol("delete", format!("deleting the queued position {} is refused", s));
                            }
                            rf.retain(|x| x.0 != *s);
                            removed += 1;
                        }
                    }
                }
            }
            _ => {
                if r.chance(1, 3) {
                    while let Some((_, e)) = rf.first().copied() {
                        rf.remove(0);
                        match h.pop_front() {
                            Ok(x) if bytes(&x) == bytes(&e) => removed += 1,
                            x => return viol("pop", format!("pop_front gives {:?}", x.map(|z| z.padding[0]))),
                        }
                    }
                }
            }
        }
        // the whole queue
        if h.len() != rf.len() || h.is_empty() != rf.is_empty() || h.is_full() != (rf.len() == CAP) {
            return viol("length", format!("length {} (empty {}, full {}), {} queued", h.len(), h.is_empty(), h.is_full(), rf.len()));
        }
        if h.front().map(bytes) != rf.first().map(|x| bytes(&x.1)) {
            return viol("front", "the front is not the oldest event".to_string());
        }
        let got: Vec<(usize, Vec<u8>)> = match guarded(|| h.iter().map(|(e, s)| (s, bytes(e))).collect()) {
            Ok(g) => g,
            Err(p) => return viol("order", p),
        };
        if got.len() != rf.len() || got.iter().zip(&rf).any(|(g, w)| g.0 != w.0 || g.1 != bytes(&w.1)) {
            return viol("order", format!("listed positions {:?}, queued {:?}", got.iter().map(|x| x.0).collect::<Vec<_>>(), rf.iter().map(|x| x.0).collect::<Vec<_>>()));
        }
        for (s, e) in &rf {
            if h.at_slot(*s).map(bytes) != Some(bytes(e)) {
                return viol("moved", format!("position {} no longer holds its event", s));
            }
        }
    }
    info.count("removed", removed);
    info.count("removed_from_the_middle", mid);
    info.count("pushes_refused_when_full", full);
    info.nontrivial = removed > 0;
    info.sig = sig;
    info.summary = Some(format!("{} operations, {} events, {} removed ({} from the middle), {} refused when full", case.len(), ever, removed, mid, full));
    Ok(())
}

trait CopyFrom {
    fn copy_from(&mut self, b: &[u8]);
}
impl CopyFrom for EventHeap {
    fn copy_from(&mut self, b: &[u8]) {
        bytemuck::bytes_of_mut(self).copy_from_slice(b)
    }
}

// ---- C25 ----

#[derive(Clone, Copy)]
struct O {
    peg: bool,
    price: i64,
    seq: u64,
    l: LeafNode,
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum V {
    Good,
    Bad,
    None,
}

impl O {
    /// effective price; clamped to what can be represented for orders without a price
    fn eff(&self, ask: bool, now: u64, oracle: Option<i64>) -> (V, i64) {
        let dead = self.l.time_in_force != 0 && self.l.timestamp + self.l.time_in_force as u64 <= now;
        let ok = |b: bool| if b && !dead { V::Good } else { V::Bad };
        if !self.peg {
            return (ok(true), self.price);
        }
        let o = match oracle {
            None => return (V::None, 0),
            Some(o) => o as i128 + self.price as i128,
        };
        if o < 1 {
            return (V::None, 1);
        }
        if o >= i64::MAX as i128 {
            return (V::None, i64::MAX);
        }
        let p = o as i64;
        let lim = self.l.peg_limit;
        let within = lim == -1 || if ask { p >= lim } else { p <= lim };
        (ok(within), p)
    }
}

pub fn c25(case: &Case, info: &mut Info, verbose: bool) -> Result<(), Violation> {
    match guarded(|| c25_run(case, info, verbose)) {
        Ok(r) => r,
        Err(p) => viol("panic", p),
    }
}

fn c25_run(case: &Case, info: &mut Info, verbose: bool) -> Result<(), Violation> {
    let empty = vec![];
    let mut r0 = Row::new(case.get(0).unwrap_or(&empty));
    let ask = r0.chance(1, 2);
    let side = side_of(ask);
    let mid = *r0.pick(&[100i64, 3, 20, 1 << 40, i64::MAX / 2]);
    let spread = *r0.pick(&[3i64, 1, 10, 60]);
    let pegs = *r0.pick(&[40u64, 0, 10, 90, 100]);
    let wide = r0.chance(1, 5);
    let mut b = new_side(ask);
    let mut os: Vec<O> = vec![];
    let mut sig = hash_mix(9, (mid as u64) ^ spread as u64 ^ pegs << 20);
    let mut seq = r0.below(3) * (u64::MAX / 4);
    let rows = &case[1.min(case.len())..];
    let nq = (rows.len() / 3).min(12);
    let (ins, qs) = rows.split_at(rows.len() - nq);
    for row in ins {
        let mut r = Row::new(row);
        seq += 1 + r.below(3);
        let peg = r.below(100) < pegs;
        let price = if peg {
            if wide && r.chance(1, 4) {
                *r.pick(&[i64::MAX, i64::MIN, -mid, 1 - mid, i64::MAX - mid, i64::MAX - mid - 1, -mid - 1])
            } else {
                r.range(-spread, spread)
            }
        } else if wide && r.chance(1, 8) {
            *r.pick(&[1, i64::MAX, i64::MAX - 1, 2])
        } else {
            (mid.saturating_add(r.range(-spread, spread))).max(1)
        };
        let lim = if !peg || r.chance(1, 3) { -1 } else { (mid.saturating_add(r.range(-spread, spread))).max(1) };
        let tif = if r.chance(1, 3) { 1 + r.below(20) as u16 } else { 0 };
        let data = if peg { st::oracle_pegged_price_data(price) } else { price as u64 };
        let k = st::new_node_key(side, data, seq);
        let l = LeafNode::new(r.below(24) as u8, k, Pubkey::new_from_array([(seq % 200) as u8; 32]), *r.pick(&[1, 2, 5, 10, 1000, 1 << 40]), 1000 + r.below(20), tif, lim, seq);
        sig = hash_mix(sig, hash_str(&format!("{:?}", (price, tif, lim, l.quantity, peg))));
        if b.insert_leaf(tree(peg as usize), &l).is_err() {
            break;
        }
        os.push(O { peg, price, seq, l });
        if verbose {
            println!("{} price {} limit {} seq {} quantity {} ts {} tif {}", if peg { "peg" } else { "fix" }, price, lim, seq, l.quantity, l.timestamp, tif);
        }
    }
    let (mut queries, mut invalid, mut skipped) = (0, 0, 0);
    for row in qs {
        let mut r = Row::new(row);
        let now = 1000 + r.below(45);
        let o = match r.below(8) {
            0 => None,
            1 if wide => Some(*r.pick(&[1, i64::MAX - 1, i64::MAX, 2])),
            2 => Some(1 + r.below(2 * spread as u64 + 2) as i64),
            _ => Some((mid.saturating_add(r.range(-spread, spread))).max(1)),
        };
        let mut want: Vec<(V, i64, O)> = os.iter().map(|x| (x.eff(ask, now, o), *x)).map(|((v, p), x)| (v, p, x)).filter(|x| x.0 != V::None).collect();
        want.sort_by(|a, b| (if ask { a.1.cmp(&b.1) } else { b.1.cmp(&a.1) }).then(a.2.seq.cmp(&b.2.seq)));
        skipped += os.len() - want.len();
        queries += 1;
        let what = format!("{} side, oracle {:?}, now {}", if ask { "ask" } else { "bid" }, o, now);
        let list: Vec<(u128, bool, i64, bool)> = b.iter_all_including_invalid(now, o).take(os.len() + 3).map(|i| (i.node.key, i.handle.order_tree == BookSideOrderTree::OraclePegged, i.price_lots, i.is_valid())).collect();
        let wl: Vec<(u128, bool, i64, bool)> = want.iter().map(|x| (x.2.l.key, x.2.peg, x.1, x.0 == V::Good)).collect();
        invalid += wl.iter().filter(|x| !x.3).count();
        if list != wl {
            let n = list.iter().zip(&wl).position(|(a, b)| a != b).unwrap_or(list.len().min(wl.len()));
            return viol("listing", format!("{}: entry {} of the listing is {:?}, should be {:?} (lengths {} and {})", what, n, list.get(n), wl.get(n), list.len(), wl.len()));
        }
        for i in b.iter_all_including_invalid(now, o).take(os.len()) {
            match b.node(i.handle.node).and_then(|x| x.as_leaf()) {
                Some(l) if l.key == i.node.key => {}
                _ => return viol("handle", format!("{}: handle of {} leads elsewhere", what, i.node.key)),
            }
        }
        let valid: Vec<(u128, i64)> = b.iter_valid(now, o).take(os.len() + 3).map(|i| (i.node.key, i.price_lots)).collect();
        let wv: Vec<&(V, i64, O)> = want.iter().filter(|x| x.0 == V::Good).collect();
        if valid != wv.iter().map(|x| (x.2.l.key, x.1)).collect::<Vec<_>>() {
            return viol("listing", format!("{}: valid orders {:?}", what, valid));
        }
        let best = b.best_price(now, o);
        if best != wv.first().map(|x| x.1) {
            return viol("best price", format!("{}: best price {:?}, should be {:?}", what, best, wv.first().map(|x| x.1)));
        }
        if let Some(oracle) = o {
            for j in 0..3 {
                let lim = match (j, wv.len()) {
                    (0, n) if n > 0 => wv[r.idx(n)].1,
                    (1, n) if n > 0 => wv[r.idx(n)].1.saturating_add(r.range(-1, 1)),
                    _ => (mid.saturating_add(r.range(-spread - 2, spread + 2))).max(1),
                };
                let w: i128 = wv.iter().filter(|x| if ask { x.1 <= lim } else { x.1 >= lim }).map(|x| x.2.l.quantity as i128).sum();
                let g = b.quantity_at_price(lim, now, oracle);
                if g as i128 != w {
                    return viol("depth", format!("{}: depth at {} is {}, should be {}", what, lim, g, w));
                }
            }
            let tot: i64 = wv.iter().map(|x| x.2.l.quantity).sum();
            let mut cuts: Vec<i64> = vec![1, tot, tot + 1];
            let mut acc = 0;
            for x in wv.iter().take(1 + r.idx(wv.len().max(1))) {
                acc += x.2.l.quantity;
            }
            cuts.extend([acc, acc + 1, (acc - 1).max(1)]);
            for q in cuts {
                if q < 1 {
                    continue;
                }
                let mut s = 0;
                let w = wv.iter().find(|x| {
                    s += x.2.l.quantity;
                    s >= q
                });
                let g = b.impact_price(q, now, oracle);
                if g != w.map(|x| x.1) {
                    return viol("impact", format!("{}: impact price of {} is {:?}, should be {:?}", what, q, g, w.map(|x| x.1)));
                }
            }
        }
        // the worst order overall
        if r.chance(1, 3) {
            let worst_in = |peg: bool| os.iter().filter(|x| x.peg == peg).min_by(|a, b| if ask { b.l.key.cmp(&a.l.key) } else { a.l.key.cmp(&b.l.key) }).copied();
            let f = worst_in(false);
            let p = if o.is_some() { worst_in(true) } else { None };
            let w = match (f, p) {
                (Some(f), Some(p)) => {
                    let (pf, pp) = (f.price, p.eff(ask, now, o).1);
                    let f_worse = if pf == pp { f.seq > p.seq } else if ask { pf > pp } else { pf < pp };
                    Some(if f_worse { (f, pf) } else { (p, pp) })
                }
                (Some(f), None) => Some((f, f.price)),
                (None, Some(p)) => Some((p, p.eff(ask, now, o).1)),
                _ => None,
            };
            let g = b.remove_worst(now, o);
            if g.map(|x| (x.0.key, x.1)) != w.map(|x| (x.0.l.key, x.1)) {
                return viol("worst", format!("{}: remove_worst gives {:?}, should give {:?}", what, g.map(|x| (x.0.key, x.1)), w.map(|x| (x.0.l.key, x.1))));
            }
            if let Some((x, _)) = w {
                os.retain(|y| y.peg != x.peg || y.l.key != x.l.key);
            }
            info.count("worst_removed", w.is_some() as u64);
        }
    }
    info.count("queries", queries);
    info.count("invalid_entries", invalid as u64);
    info.count("orders_without_price", skipped as u64);
    info.nontrivial = queries > 0 && os.len() > 1;
    info.sig = sig;
    info.summary = Some(format!("{} side with {} orders, {} queries, {} invalid entries, {} without a price", if ask { "ask" } else { "bid" }, os.len(), queries, invalid, skipped));
    Ok(())
}

pub fn plans(id: &str) -> Option<Vec<Plan>> {
    Some(match id {
        "C14" => vec![Plan {
            name: "tree",
            rule: "a sequence counts when at least one order was removed",
            rows: (2, 120),
            row_len: 12,
            quick: 20_000,
            thorough: 2_000_000,
            run: c14,
        }],
        "C15" => vec![Plan {
            name: "queue",
            rule: "a sequence counts when at least one event was removed",
            rows: (2, 100),
            row_len: 8,
            quick: 10_000,
            thorough: 800_000,
            run: c15,
        }],
        "C25" => vec![Plan {
            name: "queries",
            rule: "a case counts when a book of at least two orders was queried",
            rows: (3, 150),
            row_len: 16,
            quick: 40_000,
            thorough: 4_000_000,
            run: c25,
        }],
        _ => return None,
    })
}
