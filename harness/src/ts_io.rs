//! The node process that runs the TypeScript client, one per thread.
use crate::rt::*;
use serde_json::{json, Value};
use solana_sdk::pubkey::Pubkey;
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;

struct Node {
    child: Child,
    to: Option<ChildStdin>,
    from: BufReader<ChildStdout>,
    /// what it has been told about accounts
    told: HashMap<Pubkey, Rc<Acc>>,
    fresh: bool,
}

impl Drop for Node {
    fn drop(&mut self) {
        self.to.take();
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static NODE: RefCell<Option<Node>> = RefCell::new(None);
}

pub fn hex(k: &Pubkey) -> String {
    k.to_bytes().iter().map(|b| format!("{:02x}", b)).collect()
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

pub fn key_of(v: &Value) -> Pubkey {
    Pubkey::try_from(unhex(v.as_str().unwrap_or("")).as_slice()).unwrap_or_default()
}

fn base64(d: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = Vec::with_capacity(d.len() / 3 * 4 + 4);
    for c in d.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        s.push(A[(v >> 18) as usize & 63]);
        s.push(A[(v >> 12) as usize & 63]);
        s.push(if c.len() > 1 { A[(v >> 6) as usize & 63] } else { b'=' });
        s.push(if c.len() > 2 { A[v as usize & 63] } else { b'=' });
    }
    String::from_utf8(s).unwrap()
}

/// forgets all accounts before the next question
pub fn reset() {
    NODE.with(|n| {
        if let Some(n) = n.borrow_mut().as_mut() {
            n.told.clear();
            n.fresh = true;
        }
    })
}

/// asks after bringing the accounts up to date
pub fn ask(bank: &Bank, mut q: Value) -> Value {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        let n = n.get_or_insert_with(|| {
            let bundle = std::env::var("VERIF_TS").expect("VERIF_TS names the bundled client");
            let mut child = Command::new("node").arg(bundle).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("node");
            let to = child.stdin.take();
            let from = BufReader::new(child.stdout.take().unwrap());
            Node { child, to, from, told: HashMap::new(), fresh: true }
        });
        let mut put = vec![];
        for (k, a) in &bank.accs {
            if n.told.get(k).map(|b| Rc::ptr_eq(a, b)).unwrap_or(false) {
                continue;
            }
            put.push(json!([hex(k), hex(&a.owner), a.lamports, base64(a.data())]));
            n.told.insert(*k, a.clone());
        }
        let gone: Vec<Pubkey> = n.told.keys().filter(|k| !bank.accs.contains_key(k)).copied().collect();
        for k in gone {
            put.push(json!([hex(&k), null, 0, ""]));
            n.told.remove(&k);
        }
        q["put"] = Value::Array(put);
        if n.fresh {
            q["reset"] = json!(true);
            n.fresh = false;
        }
        let mut line = serde_json::to_string(&q).unwrap();
        line.push('\n');
        n.to.as_mut().unwrap().write_all(line.as_bytes()).expect("node takes no more questions");
        let mut ans = String::new();
        n.from.read_line(&mut ans).expect("node gives no answers");
        serde_json::from_str(&ans).unwrap_or_else(|e| panic!("node answered {:?}: {}", &ans.chars().take(200).collect::<String>(), e))
    })
}
