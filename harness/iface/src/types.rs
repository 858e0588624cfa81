//! Candid types written from cycles-ledger.did, independently of the repository's Rust types.
#![allow(dead_code)]
use candid::{CandidType, Deserialize, Int, Nat, Principal};
use serde::Serialize;
use serde_bytes::ByteBuf;
use std::collections::BTreeMap;

pub type Sub = [u8; 32];

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize)]
pub struct Account {
    pub owner: Principal,
    pub subaccount: Option<ByteBuf>,
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct Allowance {
    pub allowance: Nat,
    pub expires_at: Option<u64>,
}
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct AllowanceArgs {
    pub account: Account,
    pub spender: Account,
}
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct ApproveArgs {
    pub from_subaccount: Option<ByteBuf>,
    pub spender: Account,
    pub amount: Nat,
    pub expected_allowance: Option<Nat>,
    pub expires_at: Option<u64>,
    pub fee: Option<Nat>,
    pub memo: Option<ByteBuf>,
    pub created_at_time: Option<u64>,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum ApproveError {
    BadFee { expected_fee: Nat },
    InsufficientFunds { balance: Nat },
    AllowanceChanged { current_allowance: Nat },
    Expired { ledger_time: u64 },
    TooOld,
    CreatedInFuture { ledger_time: u64 },
    Duplicate { duplicate_of: Nat },
    TemporarilyUnavailable,
    GenericError { message: String, error_code: Nat },
}
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct DepositArgs {
    pub to: Account,
    pub memo: Option<ByteBuf>,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct DepositResult {
    pub balance: Nat,
    pub block_index: Nat,
}
#[derive(CandidType, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum RejectionCode {
    NoError,
    CanisterError,
    SysTransient,
    DestinationInvalid,
    Unknown,
    SysFatal,
    CanisterReject,
}
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct WithdrawArgs {
    pub amount: Nat,
    pub from_subaccount: Option<ByteBuf>,
    pub to: Principal,
    pub created_at_time: Option<u64>,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum WithdrawError {
    GenericError { message: String, error_code: Nat },
    TemporarilyUnavailable,
    FailedToWithdraw { fee_block: Option<Nat>, rejection_code: RejectionCode, rejection_reason: String },
    Duplicate { duplicate_of: Nat },
    BadFee { expected_fee: Nat },
    InvalidReceiver { receiver: Principal },
    CreatedInFuture { ledger_time: u64 },
    TooOld,
    InsufficientFunds { balance: Nat },
}
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct WithdrawFromArgs {
    pub spender_subaccount: Option<ByteBuf>,
    pub from: Account,
    pub to: Principal,
    pub amount: Nat,
    pub created_at_time: Option<u64>,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum WithdrawFromError {
    GenericError { message: String, error_code: Nat },
    TemporarilyUnavailable,
    FailedToWithdrawFrom {
        withdraw_from_block: Option<Nat>,
        refund_block: Option<Nat>,
        approval_refund_block: Option<Nat>,
        rejection_code: RejectionCode,
        rejection_reason: String,
    },
    Duplicate { duplicate_of: Nat },
    InvalidReceiver { receiver: Principal },
    CreatedInFuture { ledger_time: u64 },
    TooOld,
    InsufficientFunds { balance: Nat },
    InsufficientAllowance { allowance: Nat },
}
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct TransferArgs {
    pub from_subaccount: Option<ByteBuf>,
    pub to: Account,
    pub amount: Nat,
    pub fee: Option<Nat>,
    pub memo: Option<ByteBuf>,
    pub created_at_time: Option<u64>,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum TransferError {
    BadFee { expected_fee: Nat },
    BadBurn { min_burn_amount: Nat },
    InsufficientFunds { balance: Nat },
    TooOld,
    CreatedInFuture { ledger_time: u64 },
    Duplicate { duplicate_of: Nat },
    TemporarilyUnavailable,
    GenericError { message: String, error_code: Nat },
}
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct TransferFromArgs {
    pub spender_subaccount: Option<ByteBuf>,
    pub from: Account,
    pub to: Account,
    pub amount: Nat,
    pub fee: Option<Nat>,
    pub memo: Option<ByteBuf>,
    pub created_at_time: Option<u64>,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum TransferFromError {
    BadFee { expected_fee: Nat },
    BadBurn { min_burn_amount: Nat },
    InsufficientFunds { balance: Nat },
    InsufficientAllowance { allowance: Nat },
    TooOld,
    CreatedInFuture { ledger_time: u64 },
    Duplicate { duplicate_of: Nat },
    TemporarilyUnavailable,
    GenericError { message: String, error_code: Nat },
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum Value {
    Int(Int),
    Map(Vec<(String, Value)>),
    Nat(Nat),
    Nat64(u64),
    Blob(ByteBuf),
    Text(String),
    Array(Vec<Value>),
}

#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct GetArchivesArgs {
    pub from: Option<Principal>,
}
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct ArchiveInfo {
    pub canister_id: Principal,
    pub start: Nat,
    pub end: Nat,
}
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct BlockRange {
    pub start: Nat,
    pub length: Nat,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct BlockWithId {
    pub id: Nat,
    pub block: Value,
}
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct ArchivedBlocks {
    pub args: Vec<BlockRange>,
    pub callback: candid::Reserved,
}
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct GetBlocksResult {
    pub log_length: Nat,
    pub blocks: Vec<BlockWithId>,
    pub archived_blocks: Vec<ArchivedBlocks>,
}
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct DataCertificate {
    pub certificate: ByteBuf,
    pub hash_tree: ByteBuf,
}
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct InitArgs {
    pub max_blocks_per_request: u64,
    pub index_id: Option<Principal>,
    pub initial_balances: Option<Vec<(Account, Nat)>>,
}
#[derive(CandidType, Deserialize, Clone, Debug)]
pub enum ChangeIndexId {
    Unset,
    SetTo(Principal),
}
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct UpgradeArgs {
    pub max_blocks_per_request: Option<u64>,
    pub change_index_id: Option<ChangeIndexId>,
}
#[derive(CandidType, Deserialize, Clone, Debug)]
pub enum LedgerArgs {
    Init(InitArgs),
    Upgrade(Option<UpgradeArgs>),
}
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct CreateCanisterArgs {
    pub from_subaccount: Option<ByteBuf>,
    pub created_at_time: Option<u64>,
    pub amount: Nat,
    pub creation_args: Option<CmcArgs>,
}
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct CreateCanisterFromArgs {
    pub from: Account,
    pub spender_subaccount: Option<ByteBuf>,
    pub created_at_time: Option<u64>,
    pub amount: Nat,
    pub creation_args: Option<CmcArgs>,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct CmcArgs {
    pub settings: Option<CanisterSettings>,
    pub subnet_selection: Option<SubnetSelection>,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct EnvironmentVariable {
    pub name: String,
    pub value: String,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum LogVisibility {
    #[serde(rename = "controllers")]
    Controllers,
    #[serde(rename = "public")]
    Public,
    #[serde(rename = "allowed_viewers")]
    AllowedViewers(Vec<Principal>),
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq, Default)]
pub struct CanisterSettings {
    pub controllers: Option<Vec<Principal>>,
    pub compute_allocation: Option<Nat>,
    pub memory_allocation: Option<Nat>,
    pub freezing_threshold: Option<Nat>,
    pub reserved_cycles_limit: Option<Nat>,
    pub wasm_memory_limit: Option<Nat>,
    pub wasm_memory_threshold: Option<Nat>,
    pub log_visibility: Option<LogVisibility>,
    pub environment_variables: Option<Vec<EnvironmentVariable>>,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum SubnetSelection {
    Subnet { subnet: Principal },
    Filter(SubnetFilter),
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct SubnetFilter {
    pub subnet_type: Option<String>,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct CreateCanisterSuccess {
    pub block_id: Nat,
    pub canister_id: Principal,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum CreateCanisterError {
    InsufficientFunds { balance: Nat },
    TooOld,
    CreatedInFuture { ledger_time: u64 },
    TemporarilyUnavailable,
    Duplicate { duplicate_of: Nat, canister_id: Option<Principal> },
    FailedToCreate { fee_block: Option<Nat>, refund_block: Option<Nat>, error: String },
    GenericError { message: String, error_code: Nat },
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum CreateCanisterFromError {
    InsufficientFunds { balance: Nat },
    InsufficientAllowance { allowance: Nat },
    TooOld,
    CreatedInFuture { ledger_time: u64 },
    TemporarilyUnavailable,
    Duplicate { duplicate_of: Nat, canister_id: Option<Principal> },
    FailedToCreateFrom {
        create_from_block: Option<Nat>,
        refund_block: Option<Nat>,
        approval_refund_block: Option<Nat>,
        rejection_code: RejectionCode,
        rejection_reason: String,
    },
    GenericError { message: String, error_code: Nat },
}
/// The CMC's reply to create_canister (its error as the ledger documents it).
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum CmcError {
    Refunded { refund_amount: Nat, create_error: String },
    RefundFailed { create_error: String, refund_error: String },
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct DepositCyclesArgs {
    pub canister_id: Principal,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum MetadataValue {
    Nat(Nat),
    Int(Int),
    Text(String),
    Blob(ByteBuf),
}
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct HttpRequest {
    pub url: String,
    pub method: String,
    pub body: ByteBuf,
    pub headers: Vec<(String, String)>,
}
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct HttpResponse {
    pub body: ByteBuf,
    pub headers: Vec<(String, String)>,
    pub status_code: u16,
}
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct GetAllowancesArgs {
    pub from_account: Option<Account>,
    pub prev_spender: Option<Account>,
    pub take: Option<Nat>,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct AllowanceEntry {
    pub from_account: Account,
    pub to_spender: Account,
    pub allowance: Nat,
    pub expires_at: Option<u64>,
}
#[derive(CandidType, Deserialize, Clone, Debug)]
pub enum GetAllowancesError {
    AccessDenied { reason: String },
    GenericError { error_code: Nat, message: String },
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum GetIndexPrincipalError {
    IndexPrincipalNotSet,
    GenericError { error_code: Nat, description: String },
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct Named {
    pub url: String,
    pub name: String,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct BlockType {
    pub block_type: String,
    pub url: String,
}

impl Value {
    pub fn map(&self) -> Option<BTreeMap<&str, &Value>> {
        match self {
            Value::Map(m) => Some(m.iter().map(|(k, v)| (k.as_str(), v)).collect()),
            _ => None,
        }
    }
}
