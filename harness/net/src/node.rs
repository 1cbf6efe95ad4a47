//! A node that executes transactions on the mini runtime, and key pairs for those who sign.
use crate::rt::*;
use crate::world;
use solana_sdk::account::Account;
use solana_sdk::address_lookup_table_account::AddressLookupTableAccount;
use solana_sdk::instruction::{AccountMeta, Instruction};
use solana_sdk::message::VersionedMessage;
use solana_sdk::pubkey::Pubkey;
use solana_sdk::signature::{Keypair, SeedDerivable, Signature, Signer};
use solana_sdk::transaction::{TransactionError, VersionedTransaction};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::{Arc, Mutex, OnceLock};

static PAIRS: OnceLock<Mutex<BTreeMap<(String, u64), Arc<Keypair>>>> = OnceLock::new();

pub fn pair(tag: &str, n: u64) -> Arc<Keypair> {
    let mut p = PAIRS.get_or_init(Default::default).lock().unwrap();
    p.entry((tag.to_string(), n))
        .or_insert_with(|| {
            let mut seed = [0u8; 32];
            let h = crate::engine::hash_mix(crate::engine::hash_str(tag), n);
            for i in 0..4 {
                seed[i * 8..i * 8 + 8].copy_from_slice(&crate::engine::hash_mix(h, i as u64).to_le_bytes());
            }
            Arc::new(Keypair::from_seed(&seed).unwrap())
        })
        .clone()
}

fn signing(tag: &str, n: u64) -> Option<Pubkey> {
    match tag {
        "user" | "role" | "newcomer" | "market" => Some(pair(tag, n).pubkey()),
        _ => None,
    }
}

pub fn keys() {
    let _ = world::KEYS.set(signing);
}

pub struct State {
    pub bank: Bank,
    pub slot: u64,
    pub tables: Vec<AddressLookupTableAccount>,
    /// transactions that arrived, and what became of them
    pub sent: Vec<(VersionedTransaction, Result<(), TransactionError>)>,
}
pub type Shared = Rc<RefCell<State>>;

pub struct Local(pub Shared);

fn account(a: &Acc) -> Account {
    Account { lamports: a.lamports, data: a.data().to_vec(), owner: a.owner, executable: a.executable, rent_epoch: u64::MAX }
}

/// the instructions of a transaction whose signatures hold
pub fn unpack(tx: &VersionedTransaction, tables: &[AddressLookupTableAccount]) -> Option<Vec<Instruction>> {
    tx.sanitize().ok()?;
    if !tx.verify_with_results().iter().all(|x| *x) {
        return None;
    }
    let h = tx.message.header();
    let fixed = tx.message.static_account_keys();
    let (s, rs, ru) = (h.num_required_signatures as usize, h.num_readonly_signed_accounts as usize, h.num_readonly_unsigned_accounts as usize);
    let mut keys: Vec<AccountMeta> = fixed
        .iter()
        .enumerate()
        .map(|(i, k)| AccountMeta { pubkey: *k, is_signer: i < s, is_writable: if i < s { i < s - rs } else { i < fixed.len() - ru } })
        .collect();
    if let VersionedMessage::V0(m) = &tx.message {
        for writable in [true, false] {
            for l in &m.address_table_lookups {
                let t = tables.iter().find(|t| t.key == l.account_key)?;
                for i in if writable { &l.writable_indexes } else { &l.readonly_indexes } {
                    keys.push(AccountMeta { pubkey: *t.addresses.get(*i as usize)?, is_signer: false, is_writable: writable });
                }
            }
        }
    }
    tx.message
        .instructions()
        .iter()
        .map(|c| Some(Instruction { program_id: keys.get(c.program_id_index as usize)?.pubkey, accounts: c.accounts.iter().map(|i| keys.get(*i as usize).cloned()).collect::<Option<_>>()?, data: c.data.clone() }))
        .collect()
}

pub fn execute(bank: &mut Bank, ixs: &[Instruction]) -> Result<(), TxErr> {
    let mut b = bank.clone();
    for i in ixs {
        if i.program_id == solana_sdk::compute_budget::id() {
            continue;
        }
        b.exec(i)?;
    }
    *bank = b;
    Ok(())
}

impl standin::Node for Local {
    fn slot(&mut self) -> u64 {
        self.0.borrow().slot
    }
    fn account(&mut self, k: &Pubkey) -> Result<Option<Account>, String> {
        Ok(self.0.borrow().bank.get(k).map(account))
    }
    fn program_accounts(&mut self, program: &Pubkey, fits: &dyn Fn(&[u8]) -> bool) -> Result<Vec<(Pubkey, Account)>, String> {
        Ok(self.0.borrow().bank.accs.iter().filter(|(_, a)| a.owner == *program && fits(a.data())).map(|(k, a)| (*k, account(a))).collect())
    }
    fn send(&mut self, tx: VersionedTransaction) -> Result<Signature, TransactionError> {
        let mut s = self.0.borrow_mut();
        let sig = tx.signatures.get(0).copied().unwrap_or_default();
        let r = match unpack(&tx, &s.tables) {
            None => Err(TransactionError::SignatureFailure),
            Some(ixs) => execute(&mut s.bank, &ixs).map_err(|_| TransactionError::InstructionError(0, solana_sdk::instruction::InstructionError::GenericError)),
        };
        s.sent.push((tx, r.clone()));
        r.map(|_| sig)
    }
    fn status(&mut self, sig: &Signature) -> Option<(u64, Result<(), TransactionError>)> {
        let s = self.0.borrow();
        s.sent.iter().find(|(t, _)| t.signatures.get(0) == Some(sig)).map(|(_, r)| (s.slot, r.clone()))
    }
}

pub fn with_node<T>(bank: &Bank, tables: &[AddressLookupTableAccount], f: impl FnOnce() -> T) -> (T, Shared) {
    let s = Rc::new(RefCell::new(State { bank: bank.clone(), slot: bank.clock.slot, tables: tables.to_vec(), sent: vec![] }));
    standin::set_node(Some(Box::new(Local(s.clone()))));
    let r = f();
    standin::set_node(None);
    standin::drop_tasks();
    (r, s)
}

pub fn differ(a: &Bank, b: &Bank) -> Option<Pubkey> {
    let keys: std::collections::BTreeSet<&Pubkey> = a.accs.keys().chain(b.accs.keys()).collect();
    for k in keys {
        let same = match (a.accs.get(k), b.accs.get(k)) {
            (Some(x), Some(y)) => Rc::ptr_eq(x, y) || x.lamports == y.lamports && x.owner == y.owner && x.data() == y.data(),
            (None, None) => true,
            (Some(x), None) | (None, Some(x)) => x.lamports == 0,
        };
        if !same {
            return Some(*k);
        }
    }
    None
}
