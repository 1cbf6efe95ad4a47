//! Stand-ins for the libraries by which the Rust client reaches a node: anchor-client, async-channel,
//! async-once-cell, futures, jsonrpc-core-client, reqwest, shellexpand, solana-account-decoder, solana-client,
//! solana-rpc, solana-rpc-client(-api) and tokio, as far as the client uses them. Requests go to the `Node` of the
//! current thread, spawned tasks to a list of the current thread.
use serde::{Deserialize, Serialize};
use solana_sdk::account::{Account, WritableAccount};
use solana_sdk::clock::Slot;
use solana_sdk::commitment_config::{CommitmentConfig, CommitmentLevel};
use solana_sdk::hash::Hash;
use solana_sdk::pubkey::Pubkey;
use solana_sdk::signature::Signature;
use solana_sdk::transaction::{Transaction, TransactionError, VersionedTransaction};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::str::FromStr;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

// ---- the node ----

pub trait Node {
    fn slot(&mut self) -> Slot;
    fn account(&mut self, k: &Pubkey) -> Result<Option<Account>, String>;
    fn program_accounts(&mut self, program: &Pubkey, fits: &dyn Fn(&[u8]) -> bool) -> Result<Vec<(Pubkey, Account)>, String>;
    fn send(&mut self, tx: VersionedTransaction) -> Result<Signature, TransactionError>;
    fn status(&mut self, s: &Signature) -> Option<(Slot, Result<(), TransactionError>)>;
    /// how far a transaction that has a status has come
    fn level(&mut self, _: &Signature) -> TransactionConfirmationStatus {
        TransactionConfirmationStatus::Finalized
    }
    fn latest(&mut self) -> Hash {
        Hash::new_from_array([7; 32])
    }
    fn valid(&mut self, _: &Hash) -> bool {
        true
    }
}

thread_local! {
    static NODE: RefCell<Option<Box<dyn Node>>> = RefCell::new(None);
    static TASKS: RefCell<Vec<Pin<Box<dyn Future<Output = ()>>>>> = RefCell::new(vec![]);
    static TICKS: RefCell<u64> = RefCell::new(0);
}

pub fn set_node(n: Option<Box<dyn Node>>) {
    NODE.with(|x| *x.borrow_mut() = n)
}
fn node<T>(f: impl FnOnce(&mut dyn Node) -> T) -> T {
    NODE.with(|x| f(x.borrow_mut().as_mut().expect("no node").as_mut()))
}
/// lets each running interval of this thread go on by so many ticks
pub fn grant_ticks(n: u64) {
    TICKS.with(|t| *t.borrow_mut() += n)
}
/// polls what has been spawned on this thread until nothing moves; true when some task is unfinished
pub fn run_tasks() -> bool {
    let mut tasks = TASKS.with(|t| std::mem::take(&mut *t.borrow_mut()));
    for _ in 0..8 {
        tasks.retain_mut(|t| poll_once(t.as_mut()).is_none());
        tasks.extend(TASKS.with(|t| std::mem::take(&mut *t.borrow_mut())));
    }
    let left = !tasks.is_empty();
    TASKS.with(|t| *t.borrow_mut() = tasks);
    left
}
pub fn drop_tasks() {
    let t = TASKS.with(|t| std::mem::take(&mut *t.borrow_mut()));
    drop(t);
    TICKS.with(|t| *t.borrow_mut() = 0);
}

struct Quiet;
impl std::task::Wake for Quiet {
    fn wake(self: Arc<Self>) {}
}
pub fn poll_once<F: Future + ?Sized>(f: Pin<&mut F>) -> Option<F::Output> {
    let w = Arc::new(Quiet).into();
    match f.poll(&mut Context::from_waker(&w)) {
        Poll::Ready(x) => Some(x),
        Poll::Pending => None,
    }
}
/// runs a future to its end; None when it waits for something that never comes
pub fn block_on<F: Future>(f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    for _ in 0..1000 {
        if let Some(x) = poll_once(f.as_mut()) {
            return Some(x);
        }
        run_tasks();
    }
    None
}

// ---- solana-client ----

pub mod client_error {
    use super::*;
    #[derive(Debug, thiserror::Error)]
    pub enum ClientErrorKind {
        #[error("{0}")]
        RpcError(super::rpc_request::RpcError),
        #[error("{0}")]
        TransactionError(TransactionError),
        #[error("{0}")]
        SerdeJson(String),
        #[error("{0}")]
        Custom(String),
    }
    #[derive(Debug, thiserror::Error)]
    #[error("{kind}")]
    pub struct Error {
        pub kind: ClientErrorKind,
    }
    pub type ClientError = Error;
    pub type Result<T> = std::result::Result<T, Error>;
    impl Error {
        pub fn kind(&self) -> &ClientErrorKind {
            &self.kind
        }
        pub fn get_transaction_error(&self) -> Option<TransactionError> {
            match &self.kind {
                ClientErrorKind::TransactionError(e) => Some(e.clone()),
                ClientErrorKind::RpcError(super::rpc_request::RpcError::RpcResponseError { data: super::rpc_request::RpcResponseErrorData::SendTransactionPreflightFailure(s), .. }) => s.err.clone(),
                _ => None,
            }
        }
    }
    impl From<ClientErrorKind> for Error {
        fn from(kind: ClientErrorKind) -> Error {
            Error { kind }
        }
    }
    impl From<TransactionError> for Error {
        fn from(e: TransactionError) -> Error {
            Error { kind: ClientErrorKind::TransactionError(e) }
        }
    }
    impl From<super::rpc_request::RpcError> for Error {
        fn from(e: super::rpc_request::RpcError) -> Error {
            Error { kind: ClientErrorKind::RpcError(e) }
        }
    }
    impl From<String> for Error {
        fn from(e: String) -> Error {
            super::rpc_request::RpcError::RpcRequestError(e).into()
        }
    }
}
use client_error::Result as ClientResult;

pub mod rpc_request {
    use super::*;
    #[derive(Debug)]
    pub enum RpcResponseErrorData {
        Empty,
        SendTransactionPreflightFailure(rpc_response::RpcSimulateTransactionResult),
    }
    impl std::fmt::Display for RpcResponseErrorData {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            match self {
                RpcResponseErrorData::SendTransactionPreflightFailure(s) => write!(f, "[{} log messages]", s.logs.as_ref().map(|l| l.len()).unwrap_or(0)),
                _ => Ok(()),
            }
        }
    }
    #[derive(Debug, thiserror::Error)]
    pub enum RpcError {
        #[error("RPC request error: {0}")]
        RpcRequestError(String),
        #[error("RPC response error {code}: {message} {data}")]
        RpcResponseError { code: i64, message: String, data: RpcResponseErrorData },
        #[error("parse error: expected {0}")]
        ParseError(String),
        #[error("{0}")]
        ForUser(String),
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum RpcRequest {
        GetAccountInfo,
        GetMultipleAccounts,
        GetProgramAccounts,
        GetSlot,
    }
}

pub mod rpc_config {
    use super::*;
    #[derive(Debug, Clone, Copy, Default, PartialEq, Eq, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase")]
    pub struct RpcSendTransactionConfig {
        #[serde(default)]
        pub skip_preflight: bool,
        pub preflight_commitment: Option<CommitmentLevel>,
        pub encoding: Option<u8>,
        pub max_retries: Option<usize>,
        pub min_context_slot: Option<Slot>,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase")]
    pub struct UiDataSliceConfig {
        pub offset: usize,
        pub length: usize,
    }
    #[derive(Debug, Clone, Default, PartialEq, Eq, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase")]
    pub struct RpcAccountInfoConfig {
        pub encoding: Option<UiAccountEncoding>,
        pub data_slice: Option<UiDataSliceConfig>,
        #[serde(flatten)]
        pub commitment: Option<CommitmentConfig>,
        pub min_context_slot: Option<Slot>,
    }
    #[derive(Debug, Clone, Default, PartialEq, Eq, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase")]
    pub struct RpcProgramAccountsConfig {
        pub filters: Option<Vec<rpc_filter::RpcFilterType>>,
        #[serde(flatten)]
        pub account_config: RpcAccountInfoConfig,
        pub with_context: Option<bool>,
    }
    #[derive(Debug, Clone, Copy, Default, PartialEq, Eq, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase")]
    pub struct RpcContextConfig {
        #[serde(flatten)]
        pub commitment: Option<CommitmentConfig>,
        pub min_context_slot: Option<Slot>,
    }
}

pub mod rpc_filter {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub enum MemcmpEncodedBytes {
        Base58(String),
        Base64(String),
        Bytes(Vec<u8>),
    }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub struct Memcmp {
        offset: usize,
        bytes: MemcmpEncodedBytes,
    }
    impl Memcmp {
        pub fn new(offset: usize, bytes: MemcmpEncodedBytes) -> Self {
            Memcmp { offset, bytes }
        }
        pub fn new_raw_bytes(offset: usize, bytes: Vec<u8>) -> Self {
            Memcmp { offset, bytes: MemcmpEncodedBytes::Bytes(bytes) }
        }
        pub fn new_base58_encoded(offset: usize, bytes: &[u8]) -> Self {
            Memcmp { offset, bytes: MemcmpEncodedBytes::Base58(bs58::encode(bytes).into_string()) }
        }
        pub fn matches(&self, data: &[u8]) -> bool {
            use base64::Engine;
            let b = match &self.bytes {
                MemcmpEncodedBytes::Base58(s) => bs58::decode(s).into_vec().unwrap_or_default(),
                MemcmpEncodedBytes::Base64(s) => base64::engine::general_purpose::STANDARD.decode(s).unwrap_or_default(),
                MemcmpEncodedBytes::Bytes(b) => b.clone(),
            };
            data.len() >= self.offset + b.len() && data[self.offset..self.offset + b.len()] == b
        }
    }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase")]
    pub enum RpcFilterType {
        DataSize(u64),
        Memcmp(Memcmp),
    }
    impl RpcFilterType {
        pub fn allows(&self, data: &[u8]) -> bool {
            match self {
                RpcFilterType::DataSize(n) => data.len() as u64 == *n,
                RpcFilterType::Memcmp(m) => m.matches(data),
            }
        }
    }
}

pub mod rpc_response {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase")]
    pub struct RpcResponseContext {
        pub slot: Slot,
        #[serde(skip_serializing_if = "Option::is_none", default)]
        pub api_version: Option<String>,
    }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub struct Response<T> {
        pub context: RpcResponseContext,
        pub value: T,
    }
    pub type RpcResult<T> = super::client_error::Result<Response<T>>;
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    #[serde(untagged)]
    pub enum OptionalContext<T> {
        Context(Response<T>),
        NoContext(T),
    }
    #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase")]
    pub struct RpcKeyedAccount {
        pub pubkey: String,
        pub account: UiAccount,
    }
    #[derive(Debug, Clone, Default)]
    pub struct RpcSimulateTransactionResult {
        pub err: Option<TransactionError>,
        pub logs: Option<Vec<String>>,
    }
    #[derive(Debug, Clone, PartialEq, Eq, Default)]
    pub struct SlotTransactionStats {
        pub num_transaction_entries: u64,
        pub num_successful_transactions: u64,
        pub num_failed_transactions: u64,
        pub max_transactions_per_entry: u64,
    }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum SlotUpdate {
        FirstShredReceived { slot: Slot, timestamp: u64 },
        Completed { slot: Slot, timestamp: u64 },
        CreatedBank { slot: Slot, parent: Slot, timestamp: u64 },
        Frozen { slot: Slot, timestamp: u64, stats: SlotTransactionStats },
        Dead { slot: Slot, timestamp: u64, err: String },
        OptimisticConfirmation { slot: Slot, timestamp: u64 },
        Root { slot: Slot, timestamp: u64 },
    }
}
use rpc_response::{Response, RpcResponseContext};

#[derive(Debug, Clone)]
pub struct TransactionStatus {
    pub slot: Slot,
    pub confirmations: Option<usize>,
    pub status: Result<(), TransactionError>,
    pub err: Option<TransactionError>,
    pub confirmation_status: Option<TransactionConfirmationStatus>,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum TransactionConfirmationStatus {
    Processed,
    Confirmed,
    Finalized,
}
impl TransactionStatus {
    pub fn satisfies_commitment(&self, c: CommitmentConfig) -> bool {
        if c.is_finalized() {
            self.confirmations.is_none()
        } else if c.is_confirmed() {
            self.confirmation_status != Some(TransactionConfirmationStatus::Processed)
        } else {
            true
        }
    }
    pub fn confirmation_status(&self) -> TransactionConfirmationStatus {
        self.confirmation_status.unwrap()
    }
}

pub trait SerializableTransaction {
    fn versioned(&self) -> VersionedTransaction;
}
impl SerializableTransaction for VersionedTransaction {
    fn versioned(&self) -> VersionedTransaction {
        self.clone()
    }
}
impl SerializableTransaction for Transaction {
    fn versioned(&self) -> VersionedTransaction {
        self.clone().into()
    }
}

fn respond<T>(value: T) -> Response<T> {
    Response { context: RpcResponseContext { slot: node(|n| n.slot()), api_version: None }, value }
}
fn send(tx: &impl SerializableTransaction) -> ClientResult<Signature> {
    let tx = tx.versioned();
    node(|n| n.send(tx)).map_err(|e| {
        rpc_request::RpcError::RpcResponseError {
            code: -32002,
            message: "Transaction simulation failed".into(),
            data: rpc_request::RpcResponseErrorData::SendTransactionPreflightFailure(rpc_response::RpcSimulateTransactionResult { err: Some(e), logs: Some(vec![]) }),
        }
        .into()
    })
}
fn statuses(s: &[Signature]) -> Vec<Option<TransactionStatus>> {
    s.iter()
        .map(|s| {
            let (slot, r) = node(|n| n.status(s))?;
            let level = node(|n| n.level(s));
            let confirmations = match level {
                TransactionConfirmationStatus::Processed => Some(0),
                TransactionConfirmationStatus::Confirmed => Some(5),
                TransactionConfirmationStatus::Finalized => None,
            };
            Some(TransactionStatus { slot, confirmations, err: r.clone().err(), status: r, confirmation_status: Some(level) })
        })
        .collect()
}
fn program_accounts(program: &Pubkey, filters: &Option<Vec<rpc_filter::RpcFilterType>>) -> ClientResult<Vec<(Pubkey, Account)>> {
    Ok(node(|n| n.program_accounts(program, &|d| filters.iter().flatten().all(|f| f.allows(d))))?)
}
fn one_account(k: &Pubkey) -> ClientResult<Account> {
    node(|n| n.account(k))?.ok_or_else(|| rpc_request::RpcError::ForUser(format!("AccountNotFound: pubkey={}", k)).into())
}
/// answers as the JSON the node would send
fn raw(request: rpc_request::RpcRequest, params: &serde_json::Value) -> ClientResult<serde_json::Value> {
    let bad = || client_error::Error::from("bad request".to_string());
    let key = |v: &serde_json::Value| v.as_str().and_then(|s| Pubkey::from_str(s).ok());
    let config = params.get(1).cloned().unwrap_or(serde_json::Value::Null);
    let encoding = config.get("encoding").and_then(|e| serde_json::from_value(e.clone()).ok()).unwrap_or(UiAccountEncoding::Base58);
    let slot = node(|n| n.slot());
    if config.get("minContextSlot").and_then(|s| s.as_u64()).map(|m| m > slot).unwrap_or(false) {
        return Err("Minimum context slot has not been reached".to_string().into());
    }
    let context = serde_json::json!({ "slot": slot, "apiVersion": "1.17.13" });
    Ok(match request {
        rpc_request::RpcRequest::GetSlot => slot.into(),
        rpc_request::RpcRequest::GetAccountInfo => {
            let a = node(|n| n.account(&key(&params[0]).unwrap_or_default()))?;
            serde_json::json!({ "context": context, "value": a.map(|a| UiAccount::of(&a, encoding)) })
        }
        rpc_request::RpcRequest::GetMultipleAccounts => {
            let mut v = vec![];
            let keys = params[0].as_array().ok_or_else(bad)?;
            if keys.len() > 100 {
                return Err("Too many inputs provided; max 100".to_string().into());
            }
            for k in keys {
                let k = key(k).ok_or_else(bad)?;
                v.push(node(|n| n.account(&k))?.map(|a| UiAccount::of(&a, encoding)));
            }
            serde_json::json!({ "context": context, "value": v })
        }
        rpc_request::RpcRequest::GetProgramAccounts => {
            let filters: Option<Vec<rpc_filter::RpcFilterType>> = config.get("filters").and_then(|f| serde_json::from_value(f.clone()).ok()).flatten();
            let v: Vec<_> = program_accounts(&key(&params[0]).ok_or_else(bad)?, &filters)?
                .into_iter()
                .map(|(k, a)| rpc_response::RpcKeyedAccount { pubkey: k.to_string(), account: UiAccount::of(&a, encoding) })
                .collect();
            if config.get("withContext").and_then(|b| b.as_bool()).unwrap_or(false) {
                serde_json::json!({ "context": context, "value": v })
            } else {
                serde_json::to_value(v).unwrap()
            }
        }
    })
}

pub mod nonblocking {
    pub mod rpc_client {
        use crate::*;
        #[derive(Debug, Clone)]
        pub struct RpcClient {
            url: String,
            commitment: CommitmentConfig,
        }
        impl RpcClient {
            pub fn new(url: String) -> Self {
                Self::new_with_commitment(url, CommitmentConfig::default())
            }
            pub fn new_with_commitment(url: String, commitment: CommitmentConfig) -> Self {
                RpcClient { url, commitment }
            }
            pub fn new_with_timeout_and_commitment(url: String, _: std::time::Duration, commitment: CommitmentConfig) -> Self {
                RpcClient { url, commitment }
            }
            pub fn url(&self) -> String {
                self.url.clone()
            }
            pub fn commitment(&self) -> CommitmentConfig {
                self.commitment
            }
            pub async fn get_slot(&self) -> ClientResult<Slot> {
                Ok(node(|n| n.slot()))
            }
            pub async fn get_account(&self, k: &Pubkey) -> ClientResult<Account> {
                one_account(k)
            }
            pub async fn get_account_with_commitment(&self, k: &Pubkey, _: CommitmentConfig) -> ClientResult<Response<Option<Account>>> {
                Ok(respond(node(|n| n.account(k))?))
            }
            pub async fn get_account_data(&self, k: &Pubkey) -> ClientResult<Vec<u8>> {
                Ok(one_account(k)?.data)
            }
            pub async fn get_multiple_accounts_with_commitment(&self, ks: &[Pubkey], _: CommitmentConfig) -> ClientResult<Response<Vec<Option<Account>>>> {
                Ok(respond(self.get_multiple_accounts(ks).await?))
            }
            pub async fn get_slot_with_commitment(&self, _: CommitmentConfig) -> ClientResult<Slot> {
                Ok(node(|n| n.slot()))
            }
            pub async fn get_latest_blockhash_with_commitment(&self, _: CommitmentConfig) -> ClientResult<(Hash, u64)> {
                Ok((node(|n| n.latest()), 1))
            }
            pub async fn get_multiple_accounts(&self, ks: &[Pubkey]) -> ClientResult<Vec<Option<Account>>> {
                Ok(ks.iter().map(|k| node(|n| n.account(k))).collect::<Result<_, _>>()?)
            }
            pub async fn get_program_accounts_with_config(&self, program: &Pubkey, config: rpc_config::RpcProgramAccountsConfig) -> ClientResult<Vec<(Pubkey, Account)>> {
                program_accounts(program, &config.filters)
            }
            pub async fn get_program_accounts(&self, program: &Pubkey) -> ClientResult<Vec<(Pubkey, Account)>> {
                program_accounts(program, &None)
            }
            pub async fn get_latest_blockhash(&self) -> ClientResult<Hash> {
                Ok(node(|n| n.latest()))
            }
            pub async fn send_transaction(&self, tx: &impl SerializableTransaction) -> ClientResult<Signature> {
                send(tx)
            }
            pub async fn send_transaction_with_config(&self, tx: &impl SerializableTransaction, _: rpc_config::RpcSendTransactionConfig) -> ClientResult<Signature> {
                send(tx)
            }
            pub async fn send_and_confirm_transaction(&self, tx: &impl SerializableTransaction) -> ClientResult<Signature> {
                send(tx)
            }
            pub async fn get_signature_statuses(&self, s: &[Signature]) -> ClientResult<Response<Vec<Option<TransactionStatus>>>> {
                Ok(respond(statuses(s)))
            }
            pub async fn send<T: serde::de::DeserializeOwned>(&self, request: rpc_request::RpcRequest, params: serde_json::Value) -> ClientResult<T> {
                serde_json::from_value(raw(request, &params)?).map_err(|e| client_error::ClientErrorKind::SerdeJson(e.to_string()).into())
            }
        }
    }
}

pub mod rpc_client {
    use super::*;
    pub struct RpcClient {
        commitment: CommitmentConfig,
    }
    impl RpcClient {
        pub fn new(url: impl ToString) -> Self {
            Self::new_with_commitment(url, CommitmentConfig::default())
        }
        pub fn new_with_commitment(_: impl ToString, commitment: CommitmentConfig) -> Self {
            RpcClient { commitment }
        }
        pub fn commitment(&self) -> CommitmentConfig {
            self.commitment
        }
        pub fn get_account(&self, k: &Pubkey) -> ClientResult<Account> {
            one_account(k)
        }
        pub fn send_transaction(&self, tx: &impl SerializableTransaction) -> ClientResult<Signature> {
            send(tx)
        }
        pub fn get_latest_blockhash_with_commitment(&self, _: CommitmentConfig) -> ClientResult<(Hash, u64)> {
            Ok((node(|n| n.latest()), 1))
        }
        pub fn get_signature_statuses(&self, s: &[Signature]) -> ClientResult<Response<Vec<Option<TransactionStatus>>>> {
            Ok(respond(statuses(s)))
        }
        pub fn get_latest_blockhash(&self) -> ClientResult<Hash> {
            Ok(node(|n| n.latest()))
        }
        pub fn is_blockhash_valid(&self, h: &Hash, _: CommitmentConfig) -> ClientResult<bool> {
            Ok(node(|n| n.valid(h)))
        }
    }
}

// ---- solana-account-decoder ----

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub enum UiAccountEncoding {
    Binary,
    Base58,
    Base64,
    JsonParsed,
    #[serde(rename = "base64+zstd")]
    Base64Zstd,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum UiAccountData {
    LegacyBinary(String),
    Binary(String, UiAccountEncoding),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct UiAccount {
    pub lamports: u64,
    pub data: UiAccountData,
    pub owner: String,
    pub executable: bool,
    pub rent_epoch: u64,
    pub space: Option<u64>,
}
impl UiAccount {
    pub fn of(a: &Account, encoding: UiAccountEncoding) -> UiAccount {
        use base64::Engine;
        let data = match encoding {
            UiAccountEncoding::Base64 | UiAccountEncoding::Base64Zstd | UiAccountEncoding::JsonParsed => UiAccountData::Binary(base64::engine::general_purpose::STANDARD.encode(&a.data), UiAccountEncoding::Base64),
            // a node refuses to encode long data in base 58
            _ if a.data.len() > 128 => UiAccountData::Binary("error: data too large for bs58 encoding".into(), UiAccountEncoding::Base58),
            UiAccountEncoding::Binary => UiAccountData::LegacyBinary(bs58::encode(&a.data).into_string()),
            UiAccountEncoding::Base58 => UiAccountData::Binary(bs58::encode(&a.data).into_string(), UiAccountEncoding::Base58),
        };
        UiAccount { lamports: a.lamports, data, owner: a.owner.to_string(), executable: a.executable, rent_epoch: a.rent_epoch, space: Some(a.data.len() as u64) }
    }
    pub fn decode<T: WritableAccount>(&self) -> Option<T> {
        use base64::Engine;
        let data = match &self.data {
            UiAccountData::Binary(s, UiAccountEncoding::Base64) => base64::engine::general_purpose::STANDARD.decode(s).ok()?,
            UiAccountData::Binary(s, UiAccountEncoding::Base58) | UiAccountData::LegacyBinary(s) => bs58::decode(s).into_vec().ok()?,
            _ => return None,
        };
        Some(T::create(self.lamports, data, Pubkey::from_str(&self.owner).ok()?, self.executable, self.rent_epoch))
    }
}

// ---- anchor-client ----

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Cluster {
    Mainnet,
    Devnet,
    Localnet,
    Custom(String, String),
}
impl Cluster {
    pub fn url(&self) -> &str {
        match self {
            Cluster::Mainnet => "https://api.mainnet-beta.solana.com",
            Cluster::Devnet => "https://api.devnet.solana.com",
            Cluster::Localnet => "http://127.0.0.1:8899",
            Cluster::Custom(u, _) => u,
        }
    }
}
#[derive(Debug, thiserror::Error)]
pub enum ClientError {
    #[error("Account not found")]
    AccountNotFound,
    #[error("{0}")]
    AnchorError(#[from] anchor_lang::error::Error),
    #[error("{0}")]
    SolanaClientError(#[from] client_error::Error),
}

// ---- reqwest, shellexpand ----

#[derive(Debug, Clone, Default)]
pub struct Client;
impl Client {
    pub fn new() -> Client {
        Client
    }
}
pub fn tilde(s: &str) -> String {
    s.to_string()
}

// ---- async-once-cell ----

pub mod unpin {
    use super::*;
    use std::sync::OnceLock;
    type Work<T> = Pin<Box<dyn Future<Output = T> + Send>>;
    pub struct Lazy<T> {
        value: OnceLock<T>,
        work: Mutex<Option<Work<T>>>,
    }
    impl<T: 'static> Lazy<T> {
        pub fn new(work: Work<T>) -> Self {
            Lazy { value: OnceLock::new(), work: Mutex::new(Some(work)) }
        }
        pub async fn get(&self) -> &T {
            std::future::poll_fn(|cx| {
                if self.value.get().is_some() {
                    return Poll::Ready(());
                }
                // whoever asks drives the work; a caller from within would wait for itself
                let mut w = match self.work.try_lock() {
                    Ok(w) => w,
                    Err(_) => return Poll::Pending,
                };
                match w.as_mut().map(|f| f.as_mut().poll(cx)) {
                    Some(Poll::Ready(v)) => {
                        *w = None;
                        let _ = self.value.set(v);
                        Poll::Ready(())
                    }
                    Some(Poll::Pending) => Poll::Pending,
                    None => Poll::Ready(()),
                }
            })
            .await;
            self.value.get().unwrap()
        }
    }
}

// ---- async-channel ----

struct Chan<T> {
    queue: std::collections::VecDeque<T>,
    cap: usize,
    closed: bool,
}
pub struct Sender<T>(Arc<Mutex<Chan<T>>>);
pub struct Receiver<T>(Arc<Mutex<Chan<T>>>);
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct SendError<T>(pub T);
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum TrySendError<T> {
    Full(T),
    Closed(T),
}
impl<T> std::fmt::Debug for SendError<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("SendError(..)")
    }
}
impl<T> std::fmt::Debug for TrySendError<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("TrySendError(..)")
    }
}
pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
    let c = Arc::new(Mutex::new(Chan { queue: Default::default(), cap, closed: false }));
    (Sender(c.clone()), Receiver(c))
}
pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    bounded(usize::MAX)
}
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        Sender(self.0.clone())
    }
}
impl<T> Sender<T> {
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        let mut c = self.0.lock().unwrap();
        if c.closed {
            Err(TrySendError::Closed(t))
        } else if c.queue.len() >= c.cap {
            Err(TrySendError::Full(t))
        } else {
            c.queue.push_back(t);
            Ok(())
        }
    }
    pub async fn send(&self, t: T) -> Result<(), SendError<T>> {
        let mut t = Some(t);
        std::future::poll_fn(|_| match self.try_send(t.take().unwrap()) {
            Ok(()) => Poll::Ready(Ok(())),
            Err(TrySendError::Closed(x)) => Poll::Ready(Err(SendError(x))),
            Err(TrySendError::Full(x)) => {
                t = Some(x);
                Poll::Pending
            }
        })
        .await
    }
    pub fn len(&self) -> usize {
        self.0.lock().unwrap().queue.len()
    }
    pub fn is_full(&self) -> bool {
        let c = self.0.lock().unwrap();
        c.queue.len() >= c.cap
    }
    pub fn is_closed(&self) -> bool {
        self.0.lock().unwrap().closed
    }
}
impl<T> Receiver<T> {
    pub fn take(&self) -> Option<T> {
        self.0.lock().unwrap().queue.pop_front()
    }
    pub fn len(&self) -> usize {
        self.0.lock().unwrap().queue.len()
    }
    pub fn close(&self) {
        self.0.lock().unwrap().closed = true
    }
}

// ---- tokio ----

pub struct JoinHandle;
pub fn spawn<F: Future<Output = ()> + 'static>(f: F) -> JoinHandle {
    TASKS.with(|t| t.borrow_mut().push(Box::pin(f)));
    JoinHandle
}
pub mod time {
    use super::*;
    pub use std::time::{Duration, Instant};
    pub struct Interval;
    pub fn interval(_: Duration) -> Interval {
        Interval
    }
    impl Interval {
        pub async fn tick(&mut self) -> Instant {
            std::future::poll_fn(|_| {
                TICKS.with(|t| {
                    if *t.borrow() == 0 {
                        return Poll::Pending;
                    }
                    *t.borrow_mut() -= 1;
                    Poll::Ready(())
                })
            })
            .await;
            Instant::now()
        }
    }
    pub async fn sleep(_: Duration) {}
}

// ---- futures ----

pub mod stream {
    pub struct Stream<I>(pub(crate) I);
    pub fn iter<I: IntoIterator>(i: I) -> Stream<I::IntoIter> {
        Stream(i.into_iter())
    }
}
pub mod future {
    use super::*;
    pub async fn join_all<I>(i: I) -> Vec<<I::Item as Future>::Output>
    where
        I: IntoIterator,
        I::Item: Future,
    {
        let mut out = vec![];
        for f in i {
            out.push(f.await);
        }
        out
    }
    pub async fn try_join_all<I, T, E>(i: I) -> Result<Vec<T>, E>
    where
        I: IntoIterator,
        I::Item: Future<Output = Result<T, E>>,
    {
        let mut out = vec![];
        for f in i {
            out.push(f.await?);
        }
        Ok(out)
    }
}
pub struct Unordered<I>(I);
pub trait StreamExt: Sized {
    type Item;
    type Iter: Iterator<Item = Self::Item>;
    fn into_it(self) -> Self::Iter;
    fn chunks(self, n: usize) -> stream::Stream<std::vec::IntoIter<Vec<Self::Item>>> {
        assert!(n > 0);
        let mut out = vec![];
        let mut cur = vec![];
        for x in self.into_it() {
            cur.push(x);
            if cur.len() == n {
                out.push(std::mem::take(&mut cur));
            }
        }
        if !cur.is_empty() {
            out.push(cur);
        }
        stream::Stream(out.into_iter())
    }
    fn map<T, F: FnMut(Self::Item) -> T>(self, f: F) -> stream::Stream<std::iter::Map<Self::Iter, F>> {
        stream::Stream(self.into_it().map(f))
    }
    fn take(self, n: usize) -> stream::Stream<std::iter::Take<Self::Iter>> {
        stream::Stream(self.into_it().take(n))
    }
    fn skip(self, n: usize) -> stream::Stream<std::iter::Skip<Self::Iter>> {
        stream::Stream(self.into_it().skip(n))
    }
    fn enumerate(self) -> stream::Stream<std::iter::Enumerate<Self::Iter>> {
        stream::Stream(self.into_it().enumerate())
    }
    fn buffer_unordered(self, n: usize) -> Unordered<Self::Iter> {
        assert!(n > 0);
        Unordered(self.into_it())
    }
    fn buffered(self, n: usize) -> Unordered<Self::Iter> {
        assert!(n > 0);
        Unordered(self.into_it())
    }
}
impl<I: Iterator> StreamExt for stream::Stream<I> {
    type Item = I::Item;
    type Iter = I;
    fn into_it(self) -> I {
        self.0
    }
}
impl<I> Unordered<I>
where
    I: Iterator,
    I::Item: Future,
{
    /// answers may come in any order: here the later ones come first
    pub async fn collect<C: FromIterator<<I::Item as Future>::Output>>(self) -> C {
        let mut out = vec![];
        for f in self.0.collect::<Vec<_>>().into_iter().rev() {
            out.push(f.await);
        }
        out.into_iter().collect()
    }
}

// ---- jsonrpc-core-client, solana-rpc ----

pub mod transports {
    pub mod http {
        pub async fn connect<T: From<()>>(_: &str) -> Result<T, String> {
            Ok(T::from(()))
        }
    }
}
pub mod rpc {
    pub mod rpc_minimal {
        use crate::*;
        pub struct EpochInfo {
            pub absolute_slot: Slot,
            pub slot_index: u64,
            pub block_height: u64,
        }
        pub struct MinimalClient;
        impl From<()> for MinimalClient {
            fn from(_: ()) -> Self {
                MinimalClient
            }
        }
        impl MinimalClient {
            pub async fn get_epoch_info(&self, _: Option<rpc_config::RpcContextConfig>) -> Result<EpochInfo, String> {
                let s = node(|n| n.slot());
                Ok(EpochInfo { absolute_slot: s, slot_index: s % 432000, block_height: s })
            }
        }
    }
}
