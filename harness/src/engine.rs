//! The property-based testing engine: seeded generation of cases, parallel search, shrinking, replay, evidence.
use rand::{RngCore, SeedableRng};
use rand_chacha::ChaCha8Rng;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Row 0 configures the case, each further row is one operation. Words are interpreted against the current
/// state, so every list of rows is a valid case and rows can be deleted freely.
pub type Case = Vec<Vec<u64>>;

#[derive(Clone)]
pub struct Row<'a> {
    w: &'a [u64],
    i: usize,
}

impl<'a> Row<'a> {
    pub fn new(w: &'a [u64]) -> Row<'a> {
        Row { w, i: 0 }
    }
    pub fn next(&mut self) -> u64 {
        let v = self.w.get(self.i).copied().unwrap_or(0);
        self.i += 1;
        v
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            self.next();
            0
        } else {
            self.next() % n
        }
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// true with probability num/den; a zero word gives false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den >= den - num
    }
    pub fn pick<'b, T>(&mut self, s: &'b [T]) -> &'b T {
        let i = self.idx(s.len());
        &s[i]
    }
    /// index chosen with the given weights
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u64 = w.iter().map(|x| *x as u64).sum();
        let mut v = self.below(tot.max(1));
        for (i, x) in w.iter().enumerate() {
            if v < *x as u64 {
                return i;
            }
            v -= *x as u64;
        }
        0
    }
}

#[derive(Debug, Clone)]
pub struct Violation {
    /// stable classification, kept during shrinking
    pub kind: String,
    pub detail: String,
}

pub fn viol<T>(kind: impl Into<String>, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { kind: kind.into(), detail: detail.into() })
}

#[derive(Default)]
pub struct Info {
    pub nontrivial: bool,
    pub sig: u64,
    pub summary: Option<String>,
    pub counters: BTreeMap<String, u64>,
}

impl Info {
    pub fn count(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.counters.entry(k.to_string()).or_default() += n;
        }
    }
}

pub fn hash_mix(h: u64, v: u64) -> u64 {
    let mut x = h ^ v.wrapping_mul(0x9E3779B97F4A7C15);
    x ^= x >> 32;
    x = x.wrapping_mul(0xD6E8FEB86659FD93);
    x ^= x >> 29;
    x
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

pub struct Plan {
    pub name: &'static str,
    pub rule: &'static str,
    /// rows per case: min..=max
    pub rows: (usize, usize),
    pub row_len: usize,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&Case, &mut Info, verbose: bool) -> Result<(), Violation>,
}

pub fn gen_case(seed: u64, prop: &str, plan: &Plan, index: u64) -> Case {
    let mut s = [0u8; 32];
    s[..8].copy_from_slice(&seed.to_le_bytes());
    s[8..16].copy_from_slice(&hash_str(prop).to_le_bytes());
    s[16..24].copy_from_slice(&hash_str(plan.name).to_le_bytes());
    s[24..32].copy_from_slice(&index.to_le_bytes());
    let mut rng = ChaCha8Rng::from_seed(s);
    let (lo, hi) = plan.rows;
    // mix short and long histories
    let n = match rng.next_u32() % 4 {
        0 => lo + (rng.next_u64() as usize) % ((hi - lo) / 4 + 1),
        _ => lo + (rng.next_u64() as usize) % (hi - lo + 1),
    };
    (0..n).map(|_| (0..plan.row_len).map(|_| rng.next_u64()).collect()).collect()
}

fn run_case(plan: &Plan, case: &Case, info: &mut Info) -> Result<(), Violation> {
    // panics of the program under test are caught where it is called; one that gets here means
    // that a state was reached which the oracle cannot even represent
    match crate::rt::guarded(|| (plan.run)(case, info, false)) {
        Ok(r) => r,
        Err(p) => viol("panic", format!("panic while judging a case: {}", p)),
    }
}

pub fn shrink(plan: &Plan, case: &Case, v: &Violation, budget: Duration) -> (Case, Violation) {
    let start = Instant::now();
    let mut best = case.clone();
    let mut bv = v.clone();
    let try_case = |c: &Case| -> Option<Violation> {
        let mut i = Info::default();
        match run_case(plan, c, &mut i) {
            Err(v2) if v2.kind == v.kind => Some(v2),
            _ => None,
        }
    };
    loop {
        let mut progress = false;
        // drop rows, biggest chunks first
        let mut chunk = (best.len() / 2).max(1);
        loop {
            let mut i = 1;
            while i < best.len() {
                if start.elapsed() > budget {
                    return (best, bv);
                }
                let end = (i + chunk).min(best.len());
                let mut c = best.clone();
                c.drain(i..end);
                if let Some(v2) = try_case(&c) {
                    best = c;
                    bv = v2;
                    progress = true;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        // simplify words
        for r in 0..best.len() {
            for w in 0..best[r].len() {
                if start.elapsed() > budget {
                    return (best, bv);
                }
                let old = best[r][w];
                for cand in [0, old % 16, old % 256, old % 65536, old / 2] {
                    if cand >= best[r][w] {
                        continue;
                    }
                    let mut c = best.clone();
                    c[r][w] = cand;
                    if let Some(v2) = try_case(&c) {
                        best = c;
                        bv = v2;
                        progress = true;
                        break;
                    }
                }
            }
        }
        if !progress {
            return (best, bv);
        }
    }
}

/// seconds after which a single case counts as never ending (they take milliseconds)
const HANG_S: u64 = 120;

pub struct Report {
    pub evaluations: u64,
    pub distinct: u64,
    pub samples: Vec<Value>,
    pub rules: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub failure: Option<(String, Case, Violation)>,
    pub plans: Vec<Value>,
}

pub fn search(prop: &str, plans: &[Plan], seed: u64, thorough: bool, cap: Duration, hang: &(dyn Fn(&str, &Case) + Sync)) -> Report {
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let mut rep = Report {
        evaluations: 0,
        distinct: 0,
        samples: vec![],
        rules: vec![],
        counters: BTreeMap::new(),
        failure: None,
        plans: vec![],
    };
    let per_plan = cap / plans.len() as u32;
    for plan in plans {
        let total = if thorough { plan.thorough } else { plan.quick };
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let start = Instant::now();
        struct Shared {
            evals: u64,
            sigs: HashSet<u64>,
            nontrivial: u64,
            samples: Vec<(u64, Value)>,
            counters: BTreeMap<String, u64>,
            fail: Option<(u64, Case, Violation)>,
        }
        let sh = Mutex::new(Shared {
            evals: 0,
            sigs: HashSet::new(),
            nontrivial: 0,
            samples: vec![],
            counters: BTreeMap::new(),
            fail: None,
        });
        let running: Vec<Mutex<Option<(Instant, u64)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
        let live = AtomicU64::new(threads as u64);
        std::thread::scope(|sc| {
            {
                // a case that never ends is a violation too
                let (running, live) = (&running, &live);
                sc.spawn(move || {
                    while live.load(Ordering::Relaxed) > 0 {
                        std::thread::sleep(Duration::from_millis(20));
                        for r in running {
                            let g = *r.lock().unwrap();
                            if let Some((t, i)) = g {
                                if t.elapsed() > Duration::from_secs(HANG_S) {
                                    hang(plan.name, &gen_case(seed, prop, plan, i));
                                }
                            }
                        }
                    }
                });
            }
            for t in 0..threads {
                let (next, stop, sh, running, live) = (&next, &stop, &sh, &running, &live);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if stop.load(Ordering::Relaxed) || start.elapsed() > per_plan || i >= total {
                            live.fetch_sub(1, Ordering::Relaxed);
                            return;
                        }
                        *running[t].lock().unwrap() = Some((Instant::now(), i));
                        let case = gen_case(seed, prop, plan, i);
                        let mut info = Info::default();
                        let r = run_case(plan, &case, &mut info);
                        *running[t].lock().unwrap() = None;
                        let mut g = sh.lock().unwrap();
                        g.evals += 1;
                        for (k, v) in &info.counters {
                            *g.counters.entry(k.clone()).or_default() += v;
                        }
                        if info.nontrivial {
                            g.nontrivial += 1;
                            if g.sigs.insert(info.sig) && g.samples.len() < 3 && i < 64 {
                                if let Some(s) = &info.summary {
                                    g.samples.push((i, json!({"plan": plan.name, "case": i, "what": s})));
                                }
                            }
                        }
                        if let Err(v) = r {
                            stop.store(true, Ordering::Relaxed);
                            if g.fail.as_ref().map(|f| i < f.0).unwrap_or(true) {
                                g.fail = Some((i, case, v));
                            }
                        }
                    })
                    .unwrap();
            }
        });
        let mut g = sh.into_inner().unwrap();
        rep.evaluations += g.evals;
        rep.distinct += g.sigs.len() as u64;
        rep.rules.push(format!("{}: {}", plan.name, plan.rule));
        g.samples.sort_by_key(|s| s.0);
        rep.samples.extend(g.samples.into_iter().map(|s| s.1));
        for (k, v) in g.counters {
            *rep.counters.entry(k).or_default() += v;
        }
        rep.plans.push(json!({"plan": plan.name, "cases": g.evals, "planned": total, "nontrivial": g.nontrivial,
            "seconds": start.elapsed().as_secs_f64()}));
        if let Some((_, c, v)) = g.fail {
            let (c2, v2) = shrink(plan, &c, &v, Duration::from_secs(60));
            rep.failure = Some((plan.name.to_string(), c2, v2));
            break;
        }
    }
    rep
}
