//! Messages to bytes and back.
use crate::model::*;
use crate::types::*;
use candid::utils::ArgumentEncoder;
use candid::{CandidType, Nat};
use num_bigint::BigUint;
use serde::de::DeserializeOwned;
use serde_bytes::ByteBuf;

pub fn enc<T: ArgumentEncoder>(t: T) -> Vec<u8> {
    candid::encode_args(t).expect("encode")
}
pub fn dec<T: DeserializeOwned + CandidType>(b: &[u8]) -> Result<T, String>
where
    T: for<'a> candid::Deserialize<'a>,
{
    candid::decode_one::<T>(b).map_err(|e| format!("{e:#}"))
}

pub fn encode(i: &Intent) -> Vec<u8> {
    let nat = |b: &BigUint| Nat(b.clone());
    let onat = |b: &Option<BigUint>| b.clone().map(Nat);
    let memo = i.memo.clone().map(ByteBuf::from);
    match i.kind {
        Kind::Deposit => enc((DepositArgs { to: i.from.clone(), memo },)),
        Kind::Transfer => enc((TransferArgs { from_subaccount: i.from.subaccount.clone(), to: i.to.clone().unwrap(), amount: nat(&i.amount), fee: onat(&i.fee), memo, created_at_time: i.cat },)),
        Kind::TransferFrom => enc((TransferFromArgs {
            spender_subaccount: i.spender.clone().unwrap().subaccount,
            from: i.from.clone(),
            to: i.to.clone().unwrap(),
            amount: nat(&i.amount),
            fee: onat(&i.fee),
            memo,
            created_at_time: i.cat,
        },)),
        Kind::Approve => enc((ApproveArgs {
            from_subaccount: i.from.subaccount.clone(),
            spender: i.to.clone().unwrap(),
            amount: nat(&i.amount),
            expected_allowance: onat(&i.expected),
            expires_at: i.expires,
            fee: onat(&i.fee),
            memo,
            created_at_time: i.cat,
        },)),
        Kind::Withdraw => enc((WithdrawArgs { amount: nat(&i.amount), from_subaccount: i.from.subaccount.clone(), to: i.target.unwrap(), created_at_time: i.cat },)),
        Kind::WithdrawFrom => enc((WithdrawFromArgs {
            spender_subaccount: i.spender.clone().unwrap().subaccount,
            from: i.from.clone(),
            to: i.target.unwrap(),
            amount: nat(&i.amount),
            created_at_time: i.cat,
        },)),
        Kind::Create => enc((CreateCanisterArgs { from_subaccount: i.from.subaccount.clone(), created_at_time: i.cat, amount: nat(&i.amount), creation_args: i.args.clone() },)),
        Kind::CreateFrom => enc((CreateCanisterFromArgs {
            from: i.from.clone(),
            spender_subaccount: i.spender.clone().unwrap().subaccount,
            created_at_time: i.cat,
            amount: nat(&i.amount),
            creation_args: i.args.clone(),
        },)),
    }
}
pub fn decode(kind: Kind, b: &[u8]) -> Out {
    fn plain<Er: DeserializeOwned + CandidType>(b: &[u8], f: impl FnOnce(Er) -> E) -> Out {
        match dec::<Result<Nat, Er>>(b) {
            Ok(Ok(block)) => Out::Ok { block, canister: None, balance: None },
            Ok(Err(e)) => Out::Err(f(e)),
            Err(e) => Out::Garbled(e),
        }
    }
    fn made<Er: DeserializeOwned + CandidType>(b: &[u8], f: impl FnOnce(Er) -> E) -> Out {
        match dec::<Result<CreateCanisterSuccess, Er>>(b) {
            Ok(Ok(s)) => Out::Ok { block: s.block_id, canister: Some(s.canister_id), balance: None },
            Ok(Err(e)) => Out::Err(f(e)),
            Err(e) => Out::Garbled(e),
        }
    }
    match kind {
        Kind::Deposit => match dec::<DepositResult>(b) {
            Ok(r) => Out::Ok { block: r.block_index, canister: None, balance: Some(r.balance) },
            Err(e) => Out::Garbled(e),
        },
        Kind::Transfer => plain::<TransferError>(b, |e| match e {
            TransferError::BadFee { expected_fee } => E::BadFee(expected_fee),
            TransferError::BadBurn { min_burn_amount } => E::BadBurn(min_burn_amount),
            TransferError::InsufficientFunds { balance } => E::Funds(balance),
            TransferError::TooOld => E::TooOld,
            TransferError::CreatedInFuture { ledger_time } => E::Future(ledger_time),
            TransferError::Duplicate { duplicate_of } => E::Duplicate(duplicate_of, None),
            TransferError::TemporarilyUnavailable => E::Unavailable,
            TransferError::GenericError { message, error_code } => E::Generic(error_code, message),
        }),
        Kind::TransferFrom => plain::<TransferFromError>(b, |e| match e {
            TransferFromError::BadFee { expected_fee } => E::BadFee(expected_fee),
            TransferFromError::BadBurn { min_burn_amount } => E::BadBurn(min_burn_amount),
            TransferFromError::InsufficientFunds { balance } => E::Funds(balance),
            TransferFromError::InsufficientAllowance { allowance } => E::Allowance(allowance),
            TransferFromError::TooOld => E::TooOld,
            TransferFromError::CreatedInFuture { ledger_time } => E::Future(ledger_time),
            TransferFromError::Duplicate { duplicate_of } => E::Duplicate(duplicate_of, None),
            TransferFromError::TemporarilyUnavailable => E::Unavailable,
            TransferFromError::GenericError { message, error_code } => E::Generic(error_code, message),
        }),
        Kind::Approve => plain::<ApproveError>(b, |e| match e {
            ApproveError::BadFee { expected_fee } => E::BadFee(expected_fee),
            ApproveError::InsufficientFunds { balance } => E::Funds(balance),
            ApproveError::AllowanceChanged { current_allowance } => E::AllowanceChanged(current_allowance),
            ApproveError::Expired { ledger_time } => E::Expired(ledger_time),
            ApproveError::TooOld => E::TooOld,
            ApproveError::CreatedInFuture { ledger_time } => E::Future(ledger_time),
            ApproveError::Duplicate { duplicate_of } => E::Duplicate(duplicate_of, None),
            ApproveError::TemporarilyUnavailable => E::Unavailable,
            ApproveError::GenericError { message, error_code } => E::Generic(error_code, message),
        }),
        Kind::Withdraw => plain::<WithdrawError>(b, |e| match e {
            WithdrawError::GenericError { message, error_code } => E::Generic(error_code, message),
            WithdrawError::TemporarilyUnavailable => E::Unavailable,
            WithdrawError::FailedToWithdraw { fee_block, rejection_code, rejection_reason } => {
                E::Failed(Failed { burn: None, refund: Some(fee_block), approval: None, code: Some(rejection_code), reason: rejection_reason })
            }
            WithdrawError::Duplicate { duplicate_of } => E::Duplicate(duplicate_of, None),
            WithdrawError::BadFee { expected_fee } => E::BadFee(expected_fee),
            WithdrawError::InvalidReceiver { receiver } => E::Receiver(receiver),
            WithdrawError::CreatedInFuture { ledger_time } => E::Future(ledger_time),
            WithdrawError::TooOld => E::TooOld,
            WithdrawError::InsufficientFunds { balance } => E::Funds(balance),
        }),
        Kind::WithdrawFrom => plain::<WithdrawFromError>(b, |e| match e {
            WithdrawFromError::GenericError { message, error_code } => E::Generic(error_code, message),
            WithdrawFromError::TemporarilyUnavailable => E::Unavailable,
            WithdrawFromError::FailedToWithdrawFrom { withdraw_from_block, refund_block, approval_refund_block, rejection_code, rejection_reason } => {
                E::Failed(Failed { burn: Some(withdraw_from_block), refund: Some(refund_block), approval: Some(approval_refund_block), code: Some(rejection_code), reason: rejection_reason })
            }
            WithdrawFromError::Duplicate { duplicate_of } => E::Duplicate(duplicate_of, None),
            WithdrawFromError::InvalidReceiver { receiver } => E::Receiver(receiver),
            WithdrawFromError::CreatedInFuture { ledger_time } => E::Future(ledger_time),
            WithdrawFromError::TooOld => E::TooOld,
            WithdrawFromError::InsufficientFunds { balance } => E::Funds(balance),
            WithdrawFromError::InsufficientAllowance { allowance } => E::Allowance(allowance),
        }),
        Kind::Create => made::<CreateCanisterError>(b, |e| match e {
            CreateCanisterError::InsufficientFunds { balance } => E::Funds(balance),
            CreateCanisterError::TooOld => E::TooOld,
            CreateCanisterError::CreatedInFuture { ledger_time } => E::Future(ledger_time),
            CreateCanisterError::TemporarilyUnavailable => E::Unavailable,
            CreateCanisterError::Duplicate { duplicate_of, canister_id } => E::Duplicate(duplicate_of, Some(canister_id)),
            CreateCanisterError::FailedToCreate { fee_block, refund_block, error } => {
                E::Failed(Failed { burn: Some(fee_block), refund: Some(refund_block), approval: None, code: None, reason: error })
            }
            CreateCanisterError::GenericError { message, error_code } => E::Generic(error_code, message),
        }),
        Kind::CreateFrom => made::<CreateCanisterFromError>(b, |e| match e {
            CreateCanisterFromError::InsufficientFunds { balance } => E::Funds(balance),
            CreateCanisterFromError::InsufficientAllowance { allowance } => E::Allowance(allowance),
            CreateCanisterFromError::TooOld => E::TooOld,
            CreateCanisterFromError::CreatedInFuture { ledger_time } => E::Future(ledger_time),
            CreateCanisterFromError::TemporarilyUnavailable => E::Unavailable,
            CreateCanisterFromError::Duplicate { duplicate_of, canister_id } => E::Duplicate(duplicate_of, Some(canister_id)),
            CreateCanisterFromError::FailedToCreateFrom { create_from_block, refund_block, approval_refund_block, rejection_code, rejection_reason } => {
                E::Failed(Failed { burn: Some(create_from_block), refund: Some(refund_block), approval: Some(approval_refund_block), code: Some(rejection_code), reason: rejection_reason })
            }
            CreateCanisterFromError::GenericError { message, error_code } => E::Generic(error_code, message),
        }),
    }
}

