//! The reference model: what the ledger promises, written from its interface specification
//! and the ICRC standards, over plain maps.
use crate::icrc3;
use crate::types::*;
use candid::{Nat, Principal};
use num_bigint::BigUint;
use num_traits::ToPrimitive;
use serde_bytes::ByteBuf;
use std::collections::{BTreeMap, BTreeSet};

pub const FEE: u128 = 100_000_000;
pub const WINDOW: u64 = 24 * 3600 * 1_000_000_000;
pub const DRIFT: u64 = 60 * 1_000_000_000;
pub const CMC: &[u8] = &[0, 0, 0, 0, 0, 0, 0, 4, 1, 1];
pub const WITHDRAW_REFUND_MEMO: [u8; 32] = [0xff; 32];
pub const CREATE_MEMO: [u8; 32] = [0xfe; 32];
pub const CREATE_REFUND_MEMO: [u8; 32] = [0xfd; 32];

/// What the system does to a message besides delivering it.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default, serde::Serialize, serde::Deserialize)]
pub enum Fault {
    #[default]
    None,
    /// The canister has no liquid cycles to spend on calls.
    NoLiquidCycles,
    /// `call_perform` fails.
    CallFails,
}

pub type Key = (Principal, [u8; 32]);
pub type Pair = (Key, Key);

pub fn key(a: &Account) -> Key {
    let mut s = [0u8; 32];
    if let Some(b) = &a.subaccount {
        if b.len() == 32 {
            s.copy_from_slice(b);
        }
    }
    (a.owner, s)
}
pub fn acct(k: &Key) -> Account {
    Account { owner: k.0, subaccount: Some(ByteBuf::from(k.1.to_vec())) }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Kind {
    Deposit,
    Transfer,
    TransferFrom,
    Approve,
    Withdraw,
    WithdrawFrom,
    Create,
    CreateFrom,
}
impl Kind {
    pub fn method(self) -> &'static str {
        match self {
            Kind::Deposit => "deposit",
            Kind::Transfer => "icrc1_transfer",
            Kind::TransferFrom => "icrc2_transfer_from",
            Kind::Approve => "icrc2_approve",
            Kind::Withdraw => "withdraw",
            Kind::WithdrawFrom => "withdraw_from",
            Kind::Create => "create_canister",
            Kind::CreateFrom => "create_canister_from",
        }
    }
}

/// A request, whatever its endpoint.
#[derive(Clone, Debug)]
pub struct Intent {
    pub kind: Kind,
    pub caller: Principal,
    /// Who pays (for a deposit: who gets).
    pub from: Account,
    pub spender: Option<Account>,
    /// Where a transfer goes, or who an approval is for.
    pub to: Option<Account>,
    /// The canister a withdrawal goes to.
    pub target: Option<Principal>,
    /// For a deposit: the cycles attached.
    pub amount: BigUint,
    pub fee: Option<BigUint>,
    pub memo: Option<Vec<u8>>,
    pub cat: Option<u64>,
    pub expected: Option<BigUint>,
    pub expires: Option<u64>,
    pub args: Option<CmcArgs>,
    pub fault: Fault,
}

/// An error as any endpoint reports it.
#[derive(Clone, Debug, PartialEq)]
pub enum E {
    BadFee(Nat),
    BadBurn(Nat),
    Funds(Nat),
    Allowance(Nat),
    AllowanceChanged(Nat),
    Expired(u64),
    TooOld,
    Future(u64),
    /// For endpoints that create canisters, also the canister.
    Duplicate(Nat, Option<Option<Principal>>),
    Receiver(Principal),
    Generic(Nat, String),
    Unavailable,
    /// A call went wrong after the burn.
    Failed(Failed),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Failed {
    /// Outer None: the endpoint does not report it.
    pub burn: Option<Option<Nat>>,
    pub refund: Option<Option<Nat>>,
    pub approval: Option<Option<Nat>>,
    pub code: Option<RejectionCode>,
    pub reason: String,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok { block: Nat, canister: Option<Principal>, balance: Option<Nat> },
    Err(E),
    Trap(String),
    Pending(usize),
    /// The reply is not what the interface promises.
    Garbled(String),
}

/// A reason why a request cannot be granted.
#[derive(Clone, Debug, PartialEq)]
pub enum Bar {
    BadFee,
    Funds(u128),
    /// The allowance is what is given (None: it has expired).
    Allowance(Option<u128>),
    AllowanceChanged(u128),
    Expired,
    TooOld,
    Future,
    /// An identical transaction, remembered for sure.
    Duplicate(u64, Option<Principal>),
    /// One that may still be remembered, or that says the same in another way.
    MaybeDuplicate(u64, Option<Principal>),
    Receiver,
    ZeroAmount,
    Denied,
    SelfApproval,
    LongMemo,
    SmallDeposit,
    BadSubaccount,
}

#[derive(Clone, Debug)]
pub struct Seen {
    pub index: u64,
    pub cat: u64,
    pub canister: Option<Principal>,
}

#[derive(Clone, Debug)]
pub struct Waiting {
    pub intent: Intent,
    pub burn: u64,
    pub old_exp: u64,
    pub amount: u128,
    pub txid: [u8; 32],
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub now: u64,
    pub bal: BTreeMap<Key, u128>,
    pub appr: BTreeMap<Pair, (u128, u64)>,
    pub blocks: Vec<Value>,
    pub hashes: Vec<[u8; 32]>,
    pub seen: BTreeMap<[u8; 32], Vec<Seen>>,
    /// The same, with default subaccounts spelled one way.
    pub seen_norm: BTreeMap<[u8; 32], Vec<Seen>>,
    pub waiting: BTreeMap<usize, Waiting>,
    pub max_blocks: u64,
    pub index_id: Option<Principal>,
    /// Every account that ever took part.
    pub known: BTreeSet<Key>,
    pub known_pairs: BTreeSet<Pair>,
}

fn n(x: u128) -> Value {
    Value::Nat(Nat::from(x))
}
fn text(s: &str) -> Value {
    Value::Text(s.into())
}
fn blob(b: &[u8]) -> Value {
    Value::Blob(ByteBuf::from(b.to_vec()))
}
pub fn acc_value(a: &Account) -> Value {
    let mut v = vec![blob(a.owner.as_slice())];
    if let Some(s) = &a.subaccount {
        v.push(blob(s));
    }
    Value::Array(v)
}
/// Whether a principal is one that can only be a key's: 29 bytes ending in 0x02.
pub fn self_authenticating(p: &Principal) -> bool {
    p.as_slice().len() == 29 && p.as_slice()[28] == 2
}
/// The memo of a withdrawal: a CBOR array with the receiver's bytes.
pub fn withdraw_memo(p: &Principal) -> Vec<u8> {
    let b = p.as_slice();
    let mut v = vec![0x81];
    if b.len() < 24 {
        v.push(0x40 | b.len() as u8);
    } else {
        v.push(0x58);
        v.push(b.len() as u8);
    }
    v.extend_from_slice(b);
    v
}
pub fn sorted(v: &Value) -> Value {
    match v {
        Value::Map(m) => {
            let mut m: Vec<_> = m.iter().map(|(k, v)| (k.clone(), sorted(v))).collect();
            m.sort_by(|a, b| a.0.cmp(&b.0));
            Value::Map(m)
        }
        Value::Array(a) => Value::Array(a.iter().map(sorted).collect()),
        x => x.clone(),
    }
}

pub struct TxParts<'a> {
    pub op: &'a str,
    pub from: Option<&'a Account>,
    pub to: Option<&'a Account>,
    pub spender: Option<&'a Account>,
    pub amt: u128,
    pub fee: Option<u128>,
    pub memo: Option<&'a [u8]>,
    pub cat: Option<u64>,
    pub expected: Option<u128>,
    pub expires: Option<u64>,
}
pub fn tx_value(t: &TxParts) -> Value {
    let mut m = vec![("op".to_string(), text(t.op)), ("amt".to_string(), n(t.amt))];
    let mut put = |k: &str, v: Option<Value>| {
        if let Some(v) = v {
            m.push((k.to_string(), v))
        }
    };
    put("from", t.from.map(acc_value));
    put("to", t.to.map(acc_value));
    put("spender", t.spender.map(acc_value));
    put("fee", t.fee.map(n));
    put("memo", t.memo.map(blob));
    put("ts", t.cat.map(|x| n(x.into())));
    put("expected_allowance", t.expected.map(n));
    put("expires_at", t.expires.map(|x| n(x.into())));
    sorted(&Value::Map(m))
}

impl Model {
    pub fn balance(&self, k: &Key) -> u128 {
        self.bal.get(k).copied().unwrap_or(0)
    }
    pub fn supply(&self) -> u128 {
        self.bal.values().sum()
    }
    /// The allowance in force now: (amount, expiry or 0).
    pub fn allowance(&self, p: &Pair) -> (u128, u64) {
        match self.appr.get(p) {
            Some(&(a, e)) if e == 0 || e > self.now => (a, e),
            _ => (0, 0),
        }
    }
    pub fn expired(&self, p: &Pair) -> bool {
        matches!(self.appr.get(p), Some(&(_, e)) if e != 0 && e <= self.now)
    }
    fn credit(&mut self, k: Key, a: u128) {
        self.known.insert(k);
        if a > 0 {
            *self.bal.entry(k).or_default() += a;
        }
    }
    fn debit(&mut self, k: Key, a: u128) {
        let b = self.bal.get_mut(&k).expect("model: debit from nothing");
        *b = b.checked_sub(a).expect("model: debit below zero");
        if *b == 0 {
            self.bal.remove(&k);
        }
    }
    fn push(&mut self, tx: Value, fee: Option<u128>) -> u64 {
        let mut m = vec![("tx".to_string(), tx), ("ts".to_string(), n(self.now.into()))];
        if let Some(h) = self.hashes.last() {
            m.push(("phash".to_string(), blob(h)));
        }
        if let Some(f) = fee {
            m.push(("fee".to_string(), n(f)));
        }
        let v = sorted(&Value::Map(m));
        self.hashes.push(icrc3::hash(&v));
        self.blocks.push(v);
        self.blocks.len() as u64 - 1
    }
    pub fn initial_mint(&mut self, to: &Account, amount: u128) {
        let tx = tx_value(&TxParts { op: "mint", from: None, to: Some(to), spender: None, amt: amount, fee: Some(FEE), memo: None, cat: None, expected: None, expires: None });
        self.push(tx, Some(0));
        self.credit(key(to), amount);
    }
    /// The transaction as it would be recorded, if the amounts fit.
    pub fn tx_of(i: &Intent, normalised: bool) -> Option<Value> {
        let norm = |a: &Account| -> Account {
            if normalised {
                acct(&key(a))
            } else {
                a.clone()
            }
        };
        let from = norm(&i.from);
        let to = i.to.as_ref().map(norm);
        let sp = i.spender.as_ref().map(norm);
        let amt = match i.kind {
            Kind::Approve => i.amount.to_u128().unwrap_or(u128::MAX),
            Kind::Deposit => return None,
            _ => i.amount.to_u128()?,
        };
        let fee = match &i.fee {
            Some(f) => Some(f.to_u128()?),
            None => None,
        };
        let expected = match &i.expected {
            Some(f) => Some(f.to_u128()?),
            None => None,
        };
        let wmemo;
        Some(tx_value(&match i.kind {
            Kind::Transfer | Kind::TransferFrom => TxParts {
                op: "xfer",
                from: Some(&from),
                to: to.as_ref(),
                spender: sp.as_ref(),
                amt,
                fee,
                memo: i.memo.as_deref(),
                cat: i.cat,
                expected: None,
                expires: None,
            },
            Kind::Approve => TxParts {
                op: "approve",
                from: Some(&from),
                to: None,
                spender: to.as_ref(),
                amt,
                fee,
                memo: i.memo.as_deref(),
                cat: i.cat,
                expected,
                expires: i.expires,
            },
            Kind::Withdraw | Kind::WithdrawFrom => {
                wmemo = withdraw_memo(&i.target.unwrap());
                TxParts { op: "burn", from: Some(&from), to: None, spender: sp.as_ref(), amt, fee: None, memo: Some(&wmemo), cat: i.cat, expected: None, expires: None }
            }
            Kind::Create | Kind::CreateFrom => {
                TxParts { op: "burn", from: Some(&from), to: None, spender: sp.as_ref(), amt, fee: None, memo: Some(&CREATE_MEMO), cat: i.cat, expected: None, expires: None }
            }
            Kind::Deposit => unreachable!(),
        }))
    }
    pub fn in_window(&self, cat: u64) -> bool {
        cat.saturating_add(WINDOW).saturating_add(DRIFT) >= self.now
    }
    /// Every reason there is against granting the request now.
    pub fn judge(&self, i: &Intent) -> Vec<Bar> {
        let mut bars = vec![];
        for a in [Some(&i.from), i.spender.as_ref(), i.to.as_ref()].into_iter().flatten() {
            if a.subaccount.as_ref().is_some_and(|s| s.len() != 32) {
                return vec![Bar::BadSubaccount];
            }
        }
        if i.kind == Kind::Deposit {
            if i.amount <= BigUint::from(FEE) {
                bars.push(Bar::SmallDeposit);
            }
            if i.memo.as_ref().is_some_and(|m| m.len() > 32) {
                bars.push(Bar::LongMemo);
            }
            return bars;
        }
        if let Some(cat) = i.cat {
            let live = self.in_window(cat);
            if let Some(tx) = Self::tx_of(i, false) {
                if let Some(s) = self.seen.get(&icrc3::hash(&tx)).and_then(|v| v.last()) {
                    bars.push(if live { Bar::Duplicate(s.index, s.canister) } else { Bar::MaybeDuplicate(s.index, s.canister) });
                }
            }
            if let Some(tx) = Self::tx_of(i, true) {
                for s in self.seen_norm.get(&icrc3::hash(&tx)).into_iter().flatten() {
                    bars.push(Bar::MaybeDuplicate(s.index, s.canister));
                }
            }
            if !live {
                bars.push(Bar::TooOld);
            }
            if cat > self.now.saturating_add(DRIFT) {
                bars.push(Bar::Future);
            }
        }
        if i.memo.as_ref().is_some_and(|m| m.len() > 32) {
            bars.push(Bar::LongMemo);
        }
        if i.fee.as_ref().is_some_and(|f| *f != BigUint::from(FEE)) {
            bars.push(Bar::BadFee);
        }
        let from = key(&i.from);
        let bal = self.balance(&from);
        let mgmt = Principal::management_canister();
        match i.kind {
            Kind::Approve => {
                let sp = key(i.to.as_ref().unwrap());
                if bal < FEE {
                    bars.push(Bar::Funds(bal));
                }
                let (cur, _) = self.allowance(&(from, sp));
                if i.expected.as_ref().is_some_and(|e| *e != BigUint::from(cur)) {
                    bars.push(Bar::AllowanceChanged(cur));
                }
                if i.expires.is_some_and(|e| e <= self.now) {
                    bars.push(Bar::Expired);
                }
                if from.0 == sp.0 {
                    bars.push(Bar::SelfApproval);
                }
                if from.0 == mgmt || sp.0 == mgmt {
                    bars.push(Bar::Denied);
                }
            }
            _ => {
                let need = &i.amount + BigUint::from(FEE);
                if BigUint::from(bal) < need {
                    bars.push(Bar::Funds(bal));
                }
                if let Some(sp) = &i.spender {
                    let sp = key(sp);
                    if sp != from {
                        let (cur, _) = self.allowance(&(from, sp));
                        if self.expired(&(from, sp)) {
                            bars.push(Bar::Allowance(None));
                        } else if BigUint::from(cur) < need {
                            bars.push(Bar::Allowance(Some(cur)));
                        }
                    }
                }
                match i.kind {
                    Kind::Transfer | Kind::TransferFrom => {
                        if from.0 == mgmt || i.to.as_ref().unwrap().owner == mgmt || i.spender.as_ref().is_some_and(|s| s.owner == mgmt) {
                            bars.push(Bar::Denied);
                        }
                    }
                    Kind::Withdraw | Kind::WithdrawFrom => {
                        if self_authenticating(&i.target.unwrap()) {
                            bars.push(Bar::Receiver);
                        }
                        if i.amount == BigUint::from(0u8) {
                            bars.push(Bar::ZeroAmount);
                        }
                    }
                    _ => {}
                }
            }
        }
        bars
    }
    /// Takes the effect of granting the request; gives the block's index.
    pub fn grant(&mut self, i: &Intent) -> u64 {
        let from = key(&i.from);
        self.known.insert(from);
        let idx;
        if i.kind == Kind::Deposit {
            let amt = i.amount.to_u128().unwrap() - FEE;
            let tx = tx_value(&TxParts { op: "mint", from: None, to: Some(&i.from), spender: None, amt, fee: Some(FEE), memo: i.memo.as_deref(), cat: None, expected: None, expires: None });
            idx = self.push(tx, Some(0));
            self.credit(from, amt);
            return idx;
        }
        let tx = Self::tx_of(i, false).unwrap();
        let h = icrc3::hash(&tx);
        let hn = icrc3::hash(&Self::tx_of(i, true).unwrap());
        let fee = match i.kind {
            Kind::Transfer | Kind::TransferFrom | Kind::Approve => i.fee.is_none().then_some(FEE),
            _ => Some(FEE),
        };
        idx = self.push(tx, fee);
        if let Some(cat) = i.cat {
            let s = Seen { index: idx, cat, canister: None };
            self.seen.entry(h).or_default().push(s.clone());
            self.seen_norm.entry(hn).or_default().push(s);
        }
        if i.kind == Kind::Approve {
            let sp = key(i.to.as_ref().unwrap());
            let a = i.amount.to_u128().unwrap_or(u128::MAX);
            self.set_allowance((from, sp), a, i.expires.unwrap_or(0));
            self.debit(from, FEE);
            return idx;
        }
        let amt = i.amount.to_u128().unwrap();
        if let Some(sp) = &i.spender {
            let sp = key(sp);
            if sp != from {
                let e = self.appr.get_mut(&(from, sp)).unwrap();
                e.0 -= amt + FEE;
                if e.0 == 0 {
                    self.appr.remove(&(from, sp));
                }
            }
        }
        self.debit(from, amt + FEE);
        if let Some(to) = &i.to {
            self.credit(key(to), amt);
        }
        idx
    }
    fn set_allowance(&mut self, p: Pair, a: u128, exp: u64) {
        self.known_pairs.insert(p);
        if a == 0 {
            self.appr.remove(&p);
        } else {
            self.appr.insert(p, (a, exp));
        }
    }
    /// The state a granted withdrawal or creation waits in.
    pub fn wait(&self, i: &Intent, burn: u64, old_exp: u64) -> Waiting {
        Waiting { intent: i.clone(), burn, old_exp, amount: i.amount.to_u128().unwrap(), txid: icrc3::hash(&Self::tx_of(i, false).unwrap()) }
    }
    /// The allowance's expiry that a request is about to draw on (0: none).
    pub fn drawn_expiry(&self, i: &Intent) -> u64 {
        match &i.spender {
            Some(s) if key(s) != key(&i.from) => self.appr.get(&(key(&i.from), key(s))).map_or(0, |x| x.1),
            _ => 0,
        }
    }
    /// Takes the effect of the call having failed with `returned` cycles coming back: the
    /// refund's block and the approval refund's block.
    pub fn refund(&mut self, w: &Waiting, returned: u128) -> (Option<u64>, Option<u64>) {
        let create = matches!(w.intent.kind, Kind::Create | Kind::CreateFrom);
        let r = returned.saturating_sub(FEE);
        if r == 0 {
            return (None, None);
        }
        let memo = if create { CREATE_REFUND_MEMO } else { WITHDRAW_REFUND_MEMO };
        let from = key(&w.intent.from);
        let tx = tx_value(&TxParts { op: "mint", from: None, to: Some(&w.intent.from), spender: None, amt: r, fee: Some(0), memo: Some(&memo), cat: None, expected: None, expires: None });
        let rb = self.push(tx, Some(0));
        self.credit(from, r);
        let Some(sp) = &w.intent.spender else { return (Some(rb), None) };
        let spk = key(sp);
        if spk == from || r <= FEE || (w.old_exp != 0 && self.now >= w.old_exp) {
            return (Some(rb), None);
        }
        let (cur, cur_exp) = self.allowance(&(from, spk));
        let a = (r - FEE).saturating_add(cur);
        let exp = if cur > 0 { cur_exp } else { w.old_exp };
        let tx = tx_value(&TxParts {
            op: "approve",
            from: Some(&w.intent.from),
            to: None,
            spender: Some(sp),
            amt: a,
            fee: None,
            memo: Some(&WITHDRAW_REFUND_MEMO),
            cat: None,
            expected: None,
            expires: (exp != 0).then_some(exp),
        });
        let ab = self.push(tx, Some(FEE));
        self.set_allowance((from, spk), a, exp);
        self.debit(from, FEE);
        (Some(rb), Some(ab))
    }
    pub fn created(&mut self, w: &Waiting, canister: Principal) {
        for s in self.seen.values_mut().chain(self.seen_norm.values_mut()).flatten() {
            if s.index == w.burn {
                s.canister = Some(canister);
            }
        }
    }
    pub fn live_approvals(&self) -> Vec<(Pair, (u128, u64))> {
        self.appr.iter().filter(|(_, v)| v.1 == 0 || v.1 > self.now).map(|(k, v)| (*k, *v)).collect()
    }
}

/// Balances and allowances as they follow from the blocks alone.
#[derive(Default, Clone)]
pub struct Replay {
    pub bal: BTreeMap<Key, u128>,
    pub appr: BTreeMap<Pair, (u128, u64)>,
    pub supply: u128,
    pub len: usize,
}
fn nat_u128(v: Option<&&Value>) -> Result<Option<u128>, String> {
    match v {
        None => Ok(None),
        Some(Value::Nat(x)) => x.0.to_u128().map(Some).ok_or_else(|| "number above 2^128".into()),
        Some(Value::Nat64(x)) => Ok(Some((*x).into())),
        Some(v) => Err(format!("not a number: {v:?}")),
    }
}
pub fn value_account(v: &Value) -> Result<Account, String> {
    match v {
        Value::Array(a) if (1..=2).contains(&a.len()) => {
            let b = |v: &Value| match v {
                Value::Blob(b) => Ok(b.clone()),
                v => Err(format!("not a blob: {v:?}")),
            };
            let o = b(&a[0])?;
            let sub = match a.get(1) {
                Some(s) => Some(b(s)?),
                None => None,
            };
            if sub.as_ref().is_some_and(|s| s.len() != 32) {
                return Err("subaccount is not 32 bytes".into());
            }
            Ok(Account { owner: Principal::try_from_slice(&o).map_err(|e| e.to_string())?, subaccount: sub })
        }
        v => Err(format!("not an account: {v:?}")),
    }
}
/// The parties of a block's transaction: (op, from, to, spender).
pub fn parties(b: &Value) -> Result<(String, Option<Account>, Option<Account>, Option<Account>), String> {
    let m = b.map().ok_or("block is not a map")?;
    let tx = m.get("tx").and_then(|t| t.map()).ok_or("block has no tx")?;
    let op = match tx.get("op") {
        Some(Value::Text(t)) => t.clone(),
        x => return Err(format!("bad op {x:?}")),
    };
    let get = |k: &str| tx.get(k).map(|v| value_account(v)).transpose();
    Ok((op, get("from")?, get("to")?, get("spender")?))
}
impl Replay {
    pub fn block(&mut self, b: &Value) -> Result<(), String> {
        let m = b.map().ok_or("block is not a map")?;
        let tx = m.get("tx").and_then(|t| t.map()).ok_or("block has no tx")?;
        let (op, from, to, spender) = parties(b)?;
        let amt = nat_u128(tx.get("amt"))?.ok_or("no amt")?;
        let tfee = nat_u128(tx.get("fee"))?;
        let bfee = nat_u128(m.get("fee"))?;
        let fee = match op.as_str() {
            "mint" | "burn" => bfee.unwrap_or(0),
            _ => tfee.or(bfee).ok_or("neither the transaction nor the block has a fee")?,
        };
        let from = from.as_ref().map(key);
        let to = to.as_ref().map(key);
        let spender = spender.as_ref().map(key);
        let mut debit = |k: Key, a: u128| -> Result<(), String> {
            let b = self.bal.get(&k).copied().unwrap_or(0);
            let nb = b.checked_sub(a).ok_or_else(|| format!("block {} takes {a} from an account with {b}", self.len))?;
            self.supply -= a;
            if nb == 0 {
                self.bal.remove(&k);
            } else {
                self.bal.insert(k, nb);
            }
            Ok(())
        };
        match op.as_str() {
            "mint" => {
                let to = to.ok_or("mint to nobody")?;
                *self.bal.entry(to).or_default() += amt;
                self.supply += amt;
                if fee != 0 {
                    return Err("a mint with a block fee".into());
                }
            }
            "burn" | "xfer" => {
                let from = from.ok_or("no from")?;
                let total = amt.checked_add(fee).ok_or("amount overflows")?;
                debit(from, total)?;
                if let Some(sp) = spender {
                    if sp != from {
                        let a = self.appr.get(&(from, sp)).copied().ok_or_else(|| format!("block {} spends an allowance that is not there", self.len))?;
                        let na = a.0.checked_sub(total).ok_or_else(|| format!("block {} spends {total} of an allowance of {}", self.len, a.0))?;
                        if a.1 != 0 {
                            let ts = nat_u128(m.get("ts"))?.unwrap_or(0);
                            if ts >= a.1 as u128 {
                                return Err(format!("block {} spends an allowance that expired", self.len));
                            }
                        }
                        if na == 0 {
                            self.appr.remove(&(from, sp));
                        } else {
                            self.appr.insert((from, sp), (na, a.1));
                        }
                    }
                }
                if op == "xfer" {
                    let to = to.ok_or("xfer to nobody")?;
                    if amt > 0 {
                        *self.bal.entry(to).or_default() += amt;
                    }
                    self.supply += amt;
                }
            }
            "approve" => {
                let from = from.ok_or("no from")?;
                let sp = spender.ok_or("no spender")?;
                debit(from, fee)?;
                let exp = nat_u128(tx.get("expires_at"))?.unwrap_or(0) as u64;
                if amt == 0 {
                    self.appr.remove(&(from, sp));
                } else {
                    self.appr.insert((from, sp), (amt, exp));
                }
            }
            x => return Err(format!("unknown op {x}")),
        }
        self.len += 1;
        Ok(())
    }
    pub fn allowance(&self, p: &Pair, now: u64) -> (u128, u64) {
        match self.appr.get(p) {
            Some(&(a, e)) if e == 0 || e > now => (a, e),
            _ => (0, 0),
        }
    }
}
