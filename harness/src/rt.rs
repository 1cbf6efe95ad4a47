//! A miniature Solana runtime: executes openbook-v2 instructions in-process against an account store.
use anchor_lang::prelude::{AccountInfo, Clock, Pubkey, Rent};
use anchor_lang::solana_program as sp;
use anchor_lang::solana_program::instruction::{AccountMeta, Instruction};
use sp::entrypoint::ProgramResult;
use sp::program_error::ProgramError;
use sp::program_pack::Pack;
use sp::system_instruction::SystemInstruction;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::Once;

const HEADROOM: usize = 10240;
const OFF_KEY: usize = 8;
const OFF_OWNER: usize = 40;
const OFF_LAMPORTS: usize = 72;
const OFF_LEN: usize = 80;
const OFF_DATA: usize = 88;

#[derive(Clone, PartialEq, Eq)]
pub struct Acc {
    pub lamports: u64,
    pub owner: Pubkey,
    pub executable: bool,
    /// 8-aligned storage; `len` bytes are valid
    store: Vec<u64>,
    len: usize,
}

impl Acc {
    pub fn new(lamports: u64, len: usize, owner: Pubkey) -> Acc {
        Acc { lamports, owner, executable: false, store: vec![0u64; (len + 7) / 8], len }
    }
    pub fn from_bytes(lamports: u64, data: &[u8], owner: Pubkey) -> Acc {
        let mut a = Acc::new(lamports, data.len(), owner);
        a.data_mut().copy_from_slice(data);
        a
    }
    pub fn data(&self) -> &[u8] {
        &bytemuck::cast_slice::<u64, u8>(&self.store)[..self.len]
    }
    pub fn data_mut(&mut self) -> &mut [u8] {
        let n = self.len;
        &mut bytemuck::cast_slice_mut::<u64, u8>(&mut self.store)[..n]
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum TxErr {
    /// error returned by the program: custom code or other
    Prog(ProgramError),
    /// the program panicked (overflow, assert, index ...)
    Panic(String),
    /// the transaction broke a rule of the runtime
    Runtime(&'static str),
}

impl TxErr {
    pub fn code(&self) -> Option<u32> {
        match self {
            TxErr::Prog(ProgramError::Custom(c)) => Some(*c),
            _ => None,
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct TxOk {
    pub logs: Vec<Vec<u8>>,
    pub cpi_events: Vec<Vec<u8>>,
    pub ret: Option<Vec<u8>>,
}

#[derive(Default)]
struct TxCtx {
    logs: Vec<Vec<u8>>,
    cpi_events: Vec<Vec<u8>>,
    ret: Option<Vec<u8>>,
    privileges: HashMap<Pubkey, (bool, bool)>,
    runtime_err: Option<&'static str>,
}

thread_local! {
    static CTX: RefCell<TxCtx> = RefCell::new(TxCtx::default());
    static CLOCK: RefCell<Clock> = RefCell::new(Clock::default());
    static QUIET: Cell<bool> = Cell::new(false);
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

struct Stubs;

impl sp::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_compute_units(&self) {}
    fn sol_log_data(&self, fields: &[&[u8]]) {
        CTX.with(|c| c.borrow_mut().logs.push(fields.concat()));
    }
    fn sol_set_return_data(&self, data: &[u8]) {
        CTX.with(|c| c.borrow_mut().ret = Some(data.to_vec()));
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        None
    }
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        CLOCK.with(|c| unsafe { *(p as *mut Clock) = c.borrow().clone() });
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut Rent) = Rent::default() };
        0
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        cpi(ix, infos, seeds)
    }
}

fn rt_err(s: &'static str) -> ProgramError {
    CTX.with(|c| c.borrow_mut().runtime_err = Some(s));
    ProgramError::Custom(0xdead)
}

fn cpi(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    let me = openbook_v2::id();
    let mut pdas: Vec<Pubkey> = vec![];
    for s in seeds {
        pdas.push(Pubkey::create_program_address(s, &me).map_err(|_| rt_err("bad pda seeds"))?);
    }
    if !CTX.with(|c| c.borrow().privileges.contains_key(&ix.program_id)) {
        // the callee must be among the accounts given to the instruction
        return Err(rt_err("callee program account missing"));
    }
    let mut acc: Vec<AccountInfo> = Vec::with_capacity(ix.accounts.len());
    for m in &ix.accounts {
        let info = match infos.iter().find(|a| a.key == &m.pubkey) {
            Some(i) => i,
            None => return Err(rt_err("cpi account missing")),
        };
        let (s, w) = CTX.with(|c| c.borrow().privileges.get(&m.pubkey).copied()).unwrap_or((false, false));
        if m.is_writable && !w {
            return Err(rt_err("cpi writable escalation"));
        }
        if m.is_signer && !s && !pdas.contains(&m.pubkey) {
            return Err(rt_err("cpi signer escalation"));
        }
        let mut i = info.clone();
        i.is_signer = m.is_signer;
        i.is_writable = m.is_writable;
        acc.push(i);
    }
    // borrows must be free for the callee
    for i in &acc {
        if i.is_writable {
            if i.try_borrow_mut_data().is_err() || i.try_borrow_mut_lamports().is_err() {
                return Err(ProgramError::AccountBorrowFailed);
            }
        }
    }
    if ix.program_id == spl_token::id() {
        let before: Vec<Option<Vec<u8>>> =
            acc.iter().map(|a| if a.owner != &spl_token::id() { Some(a.try_borrow_data().map(|d| d.to_vec()).unwrap_or_default()) } else { None }).collect();
        spl_token::processor::Processor::process(&spl_token::id(), &acc, &ix.data)?;
        for (a, b) in acc.iter().zip(before) {
            if let Some(b) = b {
                if a.try_borrow_data().map(|d| d.to_vec()).unwrap_or_default() != b {
                    return Err(rt_err("token program modified foreign account"));
                }
            }
        }
        Ok(())
    } else if ix.program_id == sp::system_program::id() {
        system(&acc, &ix.data)
    } else if ix.program_id == anchor_spl::associated_token::ID {
        ata(&acc)
    } else if ix.program_id == me {
        // only event CPIs exist: authority PDA must sign
        let (auth, _) = Pubkey::find_program_address(&[b"__event_authority"], &me);
        if acc.len() != 1 || acc[0].key != &auth || !acc[0].is_signer {
            return Err(rt_err("bad self cpi"));
        }
        CTX.with(|c| c.borrow_mut().cpi_events.push(ix.data.clone()));
        Ok(())
    } else {
        Err(rt_err("unknown program"))
    }
}

fn move_lamports(from: &AccountInfo, to: &AccountInfo, n: u64) -> ProgramResult {
    if from.key == to.key {
        return Ok(());
    }
    let f = from.lamports();
    if f < n {
        return Err(ProgramError::Custom(1)); // ResultWithNegativeLamports
    }
    **from.try_borrow_mut_lamports()? = f - n;
    let t = to.lamports();
    **to.try_borrow_mut_lamports()? = t.checked_add(n).ok_or(ProgramError::ArithmeticOverflow)?;
    Ok(())
}

fn system(acc: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let ix: SystemInstruction = bincode::deserialize(data).map_err(|_| ProgramError::InvalidInstructionData)?;
    let sys = sp::system_program::id();
    match ix {
        SystemInstruction::CreateAccount { lamports, space, owner } => {
            let (from, to) = (&acc[0], &acc[1]);
            if !from.is_signer || !to.is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if to.lamports() > 0 || to.data_len() > 0 || to.owner != &sys {
                return Err(ProgramError::Custom(0)); // AccountAlreadyInUse
            }
            if from.data_len() > 0 || from.owner != &sys {
                return Err(ProgramError::InvalidArgument);
            }
            move_lamports(from, to, lamports)?;
            to.realloc(space as usize, true)?;
            to.assign(&owner);
            Ok(())
        }
        SystemInstruction::Transfer { lamports } => {
            let (from, to) = (&acc[0], &acc[1]);
            if !from.is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if from.data_len() > 0 || from.owner != &sys {
                return Err(ProgramError::InvalidArgument);
            }
            move_lamports(from, to, lamports)
        }
        SystemInstruction::Allocate { space } => {
            let to = &acc[0];
            if !to.is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if to.data_len() > 0 || to.owner != &sys {
                return Err(ProgramError::Custom(0));
            }
            to.realloc(space as usize, true)
        }
        SystemInstruction::Assign { owner } => {
            let to = &acc[0];
            if !to.is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if to.owner != &sys {
                return Err(ProgramError::IllegalOwner);
            }
            to.assign(&owner);
            Ok(())
        }
        _ => Err(rt_err("system instruction not emulated")),
    }
}

fn ata(acc: &[AccountInfo]) -> ProgramResult {
    let (funder, ata, wallet, mint) = (&acc[0], &acc[1], &acc[2], &acc[3]);
    let want = anchor_spl::associated_token::get_associated_token_address(wallet.key, mint.key);
    if ata.key != &want {
        return Err(ProgramError::InvalidSeeds);
    }
    if !funder.is_signer {
        return Err(ProgramError::MissingRequiredSignature);
    }
    if ata.owner != &sp::system_program::id() || ata.data_len() != 0 {
        return Err(ProgramError::IllegalOwner);
    }
    if mint.owner != &spl_token::id() {
        return Err(ProgramError::IllegalOwner);
    }
    spl_token::state::Mint::unpack(&mint.try_borrow_data()?)?;
    let need = Rent::default().minimum_balance(spl_token::state::Account::LEN).saturating_sub(ata.lamports());
    move_lamports(funder, ata, need)?;
    ata.realloc(spl_token::state::Account::LEN, true)?;
    ata.assign(&spl_token::id());
    let t = token_account(*mint.key, *wallet.key, 0);
    spl_token::state::Account::pack(t, &mut ata.try_borrow_mut_data()?)
}

pub fn token_account(mint: Pubkey, owner: Pubkey, amount: u64) -> spl_token::state::Account {
    spl_token::state::Account { mint, owner, amount, state: spl_token::state::AccountState::Initialized, ..Default::default() }
}

pub fn init() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        sp::program_stubs::set_syscall_stubs(Box::new(Stubs));
        let prev = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            if QUIET.with(|q| q.get()) {
                LAST_PANIC.with(|l| *l.borrow_mut() = format!("{i}"));
            } else {
                prev(i)
            }
        }));
    });
}

/// Run `f`, turning a panic into Err(message)
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    init();
    let old = QUIET.with(|q| q.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
}

pub fn set_clock_for_direct(ts: i64, slot: u64) {
    init();
    CLOCK.with(|c| *c.borrow_mut() = Clock { unix_timestamp: ts, slot, ..Default::default() });
}

#[derive(Clone)]
pub struct Bank {
    pub accs: BTreeMap<Pubkey, Rc<Acc>>,
    pub clock: Clock,
    pub n_ix: u64,
}

impl Bank {
    pub fn new() -> Bank {
        init();
        let mut b = Bank { accs: BTreeMap::new(), clock: Clock::default(), n_ix: 0 };
        for p in [openbook_v2::id(), spl_token::id(), sp::system_program::id(), anchor_spl::associated_token::ID] {
            let mut a = Acc::new(1, 0, Pubkey::new_from_array([2; 32]));
            a.executable = true;
            b.accs.insert(p, Rc::new(a));
        }
        b
    }
    pub fn get(&self, k: &Pubkey) -> Option<&Acc> {
        self.accs.get(k).map(|a| a.as_ref())
    }
    pub fn put(&mut self, k: Pubkey, a: Acc) {
        self.accs.insert(k, Rc::new(a));
    }
    pub fn get_mut(&mut self, k: &Pubkey) -> &mut Acc {
        Rc::make_mut(self.accs.get_mut(k).expect("account"))
    }
    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.get(k).map(|a| a.lamports).unwrap_or(0)
    }
    pub fn token_amount(&self, k: &Pubkey) -> u64 {
        match self.get(k) {
            Some(a) if a.len == 165 => u64::from_le_bytes(a.data()[64..72].try_into().unwrap()),
            _ => 0,
        }
    }
    /// zero-copy view of a program account (after the 8 byte discriminator)
    pub fn zc<T: bytemuck::Pod>(&self, k: &Pubkey) -> &T {
        let d = self.get(k).expect("account").data();
        bytemuck::from_bytes(&d[8..8 + std::mem::size_of::<T>()])
    }

    /// Executes one instruction as a transaction. On error nothing changes.
    pub fn exec(&mut self, ix: &Instruction) -> Result<TxOk, TxErr> {
        self.n_ix += 1;
        CLOCK.with(|c| *c.borrow_mut() = self.clock.clone());
        // merge duplicate metas
        let mut keys: Vec<Pubkey> = vec![];
        let mut privs: HashMap<Pubkey, (bool, bool)> = HashMap::new();
        for m in &ix.accounts {
            let e = privs.entry(m.pubkey).or_insert_with(|| {
                keys.push(m.pubkey);
                (false, false)
            });
            e.0 |= m.is_signer;
            e.1 |= m.is_writable;
        }
        let none = Acc::new(0, 0, sp::system_program::id());
        let mut bufs: Vec<Vec<u64>> = vec![];
        for k in &keys {
            let a = self.accs.get(k).map(|a| a.as_ref()).unwrap_or(&none);
            let mut b = vec![0u64; (OFF_DATA + a.len + HEADROOM + 7) / 8];
            let by = bytemuck::cast_slice_mut::<u64, u8>(&mut b);
            by[4..8].copy_from_slice(&(a.len as u32).to_le_bytes());
            by[OFF_KEY..OFF_KEY + 32].copy_from_slice(k.as_ref());
            by[OFF_OWNER..OFF_OWNER + 32].copy_from_slice(a.owner.as_ref());
            by[OFF_LAMPORTS..OFF_LAMPORTS + 8].copy_from_slice(&a.lamports.to_le_bytes());
            by[OFF_LEN..OFF_LEN + 8].copy_from_slice(&(a.len as u64).to_le_bytes());
            by[OFF_DATA..OFF_DATA + a.len].copy_from_slice(a.data());
            bufs.push(b);
        }
        CTX.with(|c| *c.borrow_mut() = TxCtx { privileges: privs.clone(), ..Default::default() });
        let res = {
            // one AccountInfo (sharing its cells) per key, cloned for duplicates
            let mut by_key: HashMap<Pubkey, AccountInfo> = HashMap::new();
            for (k, b) in keys.iter().zip(bufs.iter_mut()) {
                let (s, w) = privs[k];
                let a = self.accs.get(k).map(|a| a.as_ref()).unwrap_or(&none);
                let p = b.as_mut_ptr() as *mut u8;
                let info = unsafe {
                    AccountInfo {
                        key: &*(p.add(OFF_KEY) as *const Pubkey),
                        is_signer: s,
                        is_writable: w,
                        lamports: Rc::new(RefCell::new(&mut *(p.add(OFF_LAMPORTS) as *mut u64))),
                        data: Rc::new(RefCell::new(std::slice::from_raw_parts_mut(p.add(OFF_DATA), a.len))),
                        owner: &*(p.add(OFF_OWNER) as *const Pubkey),
                        executable: a.executable,
                        rent_epoch: u64::MAX,
                    }
                };
                by_key.insert(*k, info);
            }
            let infos: Vec<AccountInfo> = ix
                .accounts
                .iter()
                .map(|m| {
                    let mut i = by_key[&m.pubkey].clone();
                    i.is_signer = privs[&m.pubkey].0;
                    i.is_writable = privs[&m.pubkey].1;
                    i
                })
                .collect();
            let pid = ix.program_id;
            let data = &ix.data;
            guarded(|| {
                let infos_ref: &[AccountInfo] = &infos;
                // the buffers outlive the call; the lifetime is only tied for the borrow checker
                let infos_ref: &'static [AccountInfo<'static>] = unsafe { std::mem::transmute(infos_ref) };
                if pid == openbook_v2::id() {
                    openbook_v2::entry(&pid, infos_ref, data)
                } else if pid == sp::system_program::id() {
                    system(infos_ref, data)
                } else {
                    spl_token::processor::Processor::process(&pid, infos_ref, data)
                }
            })
        };
        let ctx = CTX.with(|c| std::mem::take(&mut *c.borrow_mut()));
        match res {
            Err(p) => return Err(TxErr::Panic(p)),
            Ok(Err(e)) => {
                if let Some(r) = ctx.runtime_err {
                    return Err(TxErr::Runtime(r));
                }
                return Err(TxErr::Prog(e));
            }
            Ok(Ok(())) => {}
        }
        // verify and commit
        let rent = Rent::default();
        let mut out: Vec<(Pubkey, Option<Acc>)> = vec![];
        let (mut sum_before, mut sum_after) = (0u128, 0u128);
        for (k, b) in keys.iter().zip(bufs.iter()) {
            let by = bytemuck::cast_slice::<u64, u8>(b);
            let a = self.accs.get(k).map(|a| a.as_ref()).unwrap_or(&none);
            let lamports = u64::from_le_bytes(by[OFF_LAMPORTS..OFF_LAMPORTS + 8].try_into().unwrap());
            let len = u64::from_le_bytes(by[OFF_LEN..OFF_LEN + 8].try_into().unwrap()) as usize;
            let owner = Pubkey::try_from(&by[OFF_OWNER..OFF_OWNER + 32]).unwrap();
            let data = &by[OFF_DATA..OFF_DATA + len];
            sum_before += a.lamports as u128;
            sum_after += lamports as u128;
            let changed = lamports != a.lamports || owner != a.owner || data != a.data();
            if !changed {
                continue;
            }
            if !privs[k].1 {
                return Err(TxErr::Runtime("read-only account modified"));
            }
            if lamports == 0 {
                out.push((*k, None));
                continue;
            }
            if !rent.is_exempt(lamports, len) && !(len == a.len && lamports == a.lamports) {
                return Err(TxErr::Runtime("account left below rent exemption"));
            }
            let mut n = Acc::from_bytes(lamports, data, owner);
            n.executable = a.executable;
            out.push((*k, Some(n)));
        }
        if sum_before != sum_after {
            return Err(TxErr::Runtime("lamports not conserved"));
        }
        for (k, a) in out {
            match a {
                Some(a) => {
                    self.accs.insert(k, Rc::new(a));
                }
                None => {
                    self.accs.remove(&k);
                }
            }
        }
        Ok(TxOk { logs: ctx.logs, cpi_events: ctx.cpi_events, ret: ctx.ret })
    }
}

pub fn meta(k: Pubkey, signer: bool, writable: bool) -> AccountMeta {
    AccountMeta { pubkey: k, is_signer: signer, is_writable: writable }
}
