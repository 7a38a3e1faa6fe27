//! The ledger's public interface, written from cycles-ledger.did (independent of the ledger's own types).
use candid::{CandidType, Deserialize, Nat, Principal};
use serde::Serialize;
#[derive(CandidType, Deserialize, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Account { pub owner: Principal, pub subaccount: Option<[u8; 32]> }
pub type Key = (Principal, [u8; 32]);
impl Account { pub fn key(&self) -> Key { (self.owner, self.subaccount.unwrap_or([0; 32])) } }
#[derive(CandidType)] pub struct DepositArg { pub to: Account, pub memo: Option<serde_bytes::ByteBuf> }
#[derive(CandidType, Deserialize, Debug)] pub struct DepositResult { pub block_index: Nat, pub balance: Nat }
#[derive(CandidType)] pub struct TransferArg { pub from_subaccount: Option<[u8; 32]>, pub to: Account, pub fee: Option<Nat>, pub created_at_time: Option<u64>, pub memo: Option<serde_bytes::ByteBuf>, pub amount: Nat }
#[derive(CandidType)] pub struct TransferFromArg { pub spender_subaccount: Option<[u8; 32]>, pub from: Account, pub to: Account, pub fee: Option<Nat>, pub created_at_time: Option<u64>, pub memo: Option<serde_bytes::ByteBuf>, pub amount: Nat }
#[derive(CandidType)] pub struct ApproveArg { pub from_subaccount: Option<[u8; 32]>, pub spender: Account, pub amount: Nat, pub expected_allowance: Option<Nat>, pub expires_at: Option<u64>, pub fee: Option<Nat>, pub memo: Option<serde_bytes::ByteBuf>, pub created_at_time: Option<u64> }
#[derive(CandidType)] pub struct WithdrawArg { pub from_subaccount: Option<[u8; 32]>, pub to: Principal, pub created_at_time: Option<u64>, pub amount: Nat }
#[derive(CandidType)] pub struct WithdrawFromArg { pub spender_subaccount: Option<[u8; 32]>, pub from: Account, pub to: Principal, pub created_at_time: Option<u64>, pub amount: Nat }
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq)] pub struct SubnetFilter { pub subnet_type: Option<String> }
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq)] pub enum SubnetSelection { Filter(SubnetFilter), Subnet { subnet: Principal } }
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq)] #[allow(non_camel_case_types)] pub enum LogVisibility { controllers, public, allowed_viewers(Vec<Principal>) }
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Default)] pub struct Settings { pub controllers: Option<Vec<Principal>>, pub compute_allocation: Option<Nat>, pub memory_allocation: Option<Nat>, pub freezing_threshold: Option<Nat>, pub reserved_cycles_limit: Option<Nat> }
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Default)] pub struct CmcArgs { pub subnet_selection: Option<SubnetSelection>, pub settings: Option<Settings> }
#[derive(CandidType)] pub struct CreateArg { pub from_subaccount: Option<[u8; 32]>, pub created_at_time: Option<u64>, pub amount: Nat, pub creation_args: Option<CmcArgs> }
#[derive(CandidType)] pub struct CreateFromArg { pub from: Account, pub spender_subaccount: Option<[u8; 32]>, pub created_at_time: Option<u64>, pub amount: Nat, pub creation_args: Option<CmcArgs> }
#[derive(CandidType, Deserialize, Debug)] pub struct CreateOk { pub block_id: Nat, pub canister_id: Principal }
#[derive(CandidType, Deserialize, Clone, Copy, Debug, PartialEq, Eq)] pub enum Rej { NoError, CanisterError, SysTransient, DestinationInvalid, Unknown, SysFatal, CanisterReject }
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq)]
pub enum Er {
    BadFee { expected_fee: Nat }, BadBurn { min_burn_amount: Nat }, InsufficientFunds { balance: Nat }, InsufficientAllowance { allowance: Nat }, AllowanceChanged { current_allowance: Nat },
    Expired { ledger_time: u64 }, TooOld, CreatedInFuture { ledger_time: u64 }, TemporarilyUnavailable, Duplicate { duplicate_of: Nat, canister_id: Option<Principal> },
    GenericError { error_code: Nat, message: String }, InvalidReceiver { receiver: Principal },
    FailedToWithdraw { fee_block: Option<Nat>, rejection_code: Rej, rejection_reason: String },
    FailedToWithdrawFrom { withdraw_from_block: Option<Nat>, refund_block: Option<Nat>, approval_refund_block: Option<Nat>, rejection_code: Rej, rejection_reason: String },
    FailedToCreate { fee_block: Option<Nat>, refund_block: Option<Nat>, error: String },
    FailedToCreateFrom { create_from_block: Option<Nat>, refund_block: Option<Nat>, approval_refund_block: Option<Nat>, rejection_code: Rej, rejection_reason: String },
}
#[derive(CandidType, Deserialize, Debug)] pub struct AllowanceRes { pub allowance: Nat, pub expires_at: Option<u64> }
#[derive(CandidType)] pub struct AllowanceArg { pub account: Account, pub spender: Account }
#[derive(CandidType, Deserialize, Clone, Debug)] pub struct Range { pub start: Nat, pub length: Nat }
#[derive(CandidType, Deserialize, Debug)] pub struct BlockId { pub id: Nat, pub block: icrc_ledger_types::icrc::generic_value::Value }
#[derive(CandidType, Deserialize, Debug)] pub struct BlocksRes { pub log_length: Nat, pub blocks: Vec<BlockId> }
#[derive(CandidType, Deserialize, Debug)] pub struct Cert { pub certificate: serde_bytes::ByteBuf, pub hash_tree: serde_bytes::ByteBuf }
#[derive(CandidType)] pub struct ListArg { pub from_account: Option<Account>, pub prev_spender: Option<Account>, pub take: Option<Nat> }
#[derive(CandidType, Deserialize, Debug, Clone, PartialEq)] pub struct Listed { pub from_account: Account, pub to_spender: Account, pub allowance: Nat, pub expires_at: Option<u64> }
#[derive(CandidType, Deserialize, Debug)] pub enum ListErr { AccessDenied { reason: String }, GenericError { error_code: Nat, message: String } }
#[derive(CandidType, Deserialize, Debug)] pub enum IndexErr { IndexPrincipalNotSet, GenericError { error_code: Nat, description: String } }
#[derive(CandidType, Deserialize, Debug, Clone, PartialEq)] pub enum Meta { Nat(Nat), Int(candid::Int), Text(String), Blob(serde_bytes::ByteBuf) }
#[derive(CandidType)] pub struct Config { pub max_blocks_per_request: u64, pub index_id: Option<Principal>, pub initial_balances: Option<Vec<(Account, Nat)>> }
#[derive(CandidType)] pub enum ChangeIndexId { Unset, SetTo(Principal) }
#[derive(CandidType)] pub struct UpgradeArgs { pub max_blocks_per_request: Option<u64>, pub change_index_id: Option<ChangeIndexId> }
#[derive(CandidType)] pub enum LedgerArgs { Init(Config), Upgrade(Option<UpgradeArgs>) }
#[derive(CandidType, Deserialize, Debug)] pub struct HttpReq { pub method: String, pub url: String, pub headers: Vec<(String, String)>, pub body: serde_bytes::ByteBuf }
#[derive(CandidType, Deserialize, Debug)] pub struct HttpRes { pub status_code: u16, pub body: serde_bytes::ByteBuf }
#[derive(CandidType, Deserialize, Debug)] pub struct DepositCycles { pub canister_id: Principal }
#[derive(CandidType, Deserialize, Debug, Clone, Serialize)] pub enum CmcErr { Refunded { refund_amount: u128, create_error: String }, RefundFailed { create_error: String, refund_error: String } }
