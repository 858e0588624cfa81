//! C22: accounts are kept apart, and are the same however they are spelled.
use crate::engine::{Outcome, Prop};
use crate::histories::ASSUMPTIONS;
use crate::world::World;
use candid::{Nat, Principal};
use iface::model::*;
use iface::types::*;
use iface::wire::enc;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_bytes::ByteBuf;
use std::collections::BTreeSet;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct A {
    owner: Vec<u8>,
    sub: Option<Vec<u8>>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Do {
    Deposit(u8, u8),
    Transfer(u8, u8, u8),
    Approve(u8, u8, u8, bool),
    TransferFrom(u8, u8, u8, u8),
    Withdraw(u8),
    /// Lists the allowances from an account on, after a spender.
    List(u8, Option<u8>, u8),
    Upgrade,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    accounts: Vec<A>,
    ops: Vec<Do>,
}

fn acct_of(a: &A) -> Account {
    Account { owner: Principal::from_slice(&a.owner), subaccount: a.sub.clone().map(ByteBuf::from) }
}

fn run(case: &Case) -> Outcome {
    let init = InitArgs { max_blocks_per_request: 50, index_id: None, initial_balances: None };
    let mut w = World::install(init, "C22").expect("install");
    let accs: Vec<Account> = case.accounts.iter().map(acct_of).collect();
    let n = accs.len() as u8;
    let at = |i: u8| accs[(i % n) as usize].clone();
    // Another spelling, where there is one.
    let alt = |a: &Account, i: u8| {
        if i < 128 || key(a).1 != [0; 32] {
            a.clone()
        } else {
            Account { owner: a.owner, subaccount: if a.subaccount.is_some() { None } else { Some(ByteBuf::from(vec![0; 32])) } }
        }
    };
    let pick = |i: u8| alt(&at(i), i);
    let base = |kind, caller: Principal, from: Account, amount: u128| Intent {
        kind,
        caller,
        from,
        spender: None,
        to: None,
        target: None,
        amount: amount.into(),
        fee: None,
        memo: None,
        cat: None,
        expected: None,
        expires: None,
        args: None,
        fault: Fault::None,
    };
    // Everyone has a balance of their own.
    for (k, a) in accs.iter().enumerate() {
        let i = base(Kind::Deposit, a.owner, a.clone(), FEE * (20 + k as u128) + k as u128);
        w.request(&i);
    }
    for o in &case.ops {
        if !w.finds.is_empty() || w.over {
            break;
        }
        match *o {
            Do::Deposit(a, m) => {
                let t = pick(a);
                w.request(&base(Kind::Deposit, t.owner, t, FEE * (1 + m as u128)));
            }
            Do::Transfer(a, b, m) => {
                let (f, t) = (pick(a), pick(b));
                w.request(&Intent { to: Some(t), ..base(Kind::Transfer, f.owner, f, FEE * (m % 8) as u128 + m as u128) });
            }
            Do::Approve(a, b, m, e) => {
                let (f, s) = (pick(a), pick(b));
                let expires = e.then_some(w.m.now + 1_000_000_000);
                w.request(&Intent { to: Some(s), expires, ..base(Kind::Approve, f.owner, f, FEE * (m % 16) as u128 + m as u128) });
            }
            Do::TransferFrom(a, b, c, m) => {
                let (f, s, t) = (pick(a), pick(b), pick(c));
                w.request(&Intent { to: Some(t), spender: Some(s.clone()), ..base(Kind::TransferFrom, s.owner, f, FEE * (m % 4) as u128 + m as u128) });
            }
            Do::Withdraw(a) => {
                let f = pick(a);
                w.request(&Intent { target: Some(Principal::from_slice(&[0, 0, 0, 0, 0, 16, 0, 3, 1, 1])), fault: Fault::CallFails, ..base(Kind::Withdraw, f.owner, f, FEE * 2) });
            }
            Do::List(a, prev, take) => {
                let from = pick(a);
                let prev = prev.map(pick);
                let start = (key(&from), prev.as_ref().map(key));
                let want: Vec<(Key, Key, Nat, Option<u64>)> = w
                    .m
                    .live_approvals()
                    .into_iter()
                    .filter(|(p, _)| p.0 .0 == from.owner && (p.0 > start.0 || p.0 == start.0 && start.1.is_none_or(|s| p.1 > s)))
                    .map(|(p, (x, e))| (p.0, p.1, x.into(), (e > 0).then_some(e)))
                    .take(take as usize)
                    .collect();
                let arg = GetAllowancesArgs { from_account: Some(from.clone()), prev_spender: prev.clone(), take: Some(take.into()) };
                let r: Result<Result<Vec<AllowanceEntry>, GetAllowancesError>, String> = w.q("icrc103_get_allowances", from.owner, enc((arg.clone(),)));
                w.stats.hit("lists");
                match r {
                    Ok(Ok(v)) => {
                        let got: Vec<_> = v.iter().map(|e| (key(&e.from_account), key(&e.to_spender), e.allowance.clone(), e.expires_at)).collect();
                        if got != want {
                            w.find(&["C22", "C18"], format!("icrc103_get_allowances {arg:?} gives {got:?}, expected {want:?}"));
                        }
                    }
                    r => w.find(&["C18", "C21"], format!("icrc103_get_allowances {arg:?}: {r:?}")),
                }
            }
            Do::Upgrade => w.upgrade(None, 0, false),
        }
        // Everyone is looked at, under every spelling.
        if w.finds.is_empty() {
            for a in &accs {
                for i in [0, 200] {
                    let a = alt(a, i);
                    let want = Nat::from(w.m.balance(&key(&a)));
                    match w.balance_of(&a) {
                        Ok(b) if b == want => {}
                        b => {
                            w.find(&["C22"], format!("after {o:?}: the balance of {a:?} is {b:?}, expected {want}"));
                            break;
                        }
                    }
                }
            }
        }
    }
    if w.finds.is_empty() && !w.over {
        w.finish();
    }
    // A difference in whose balance or allowance it is, is what this is about.
    for f in &mut w.finds {
        if f.props.iter().any(|p| ["C02", "C10", "C18", "C20", "C03"].contains(p)) && !f.props.contains(&"C22") && twin(&accs) {
            f.props.push("C22");
        }
    }
    let nontrivial = w.stats.get("granted") > accs.len() as u64 + 3 && twin(&accs);
    Outcome { nontrivial, checks: w.c.messages, finds: w.finds, stats: w.stats, trace: w.trace }
}
/// Two accounts that are easily mixed up.
fn twin(accs: &[Account]) -> bool {
    let keys: BTreeSet<Key> = accs.iter().map(key).collect();
    keys.iter().any(|a| {
        keys.iter().any(|b| {
            a != b && {
                let (x, y) = (a.0.as_slice(), b.0.as_slice());
                let d = a.1.iter().zip(&b.1).filter(|(p, q)| p != q).count();
                x == y && d <= 2 || a.1 == b.1 && (x.starts_with(y) || y.starts_with(x) || x.len() == y.len())
            }
        })
    }) || keys.len() < accs.len()
}

fn owner() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        2 => prop::collection::vec(any::<u8>(), 29),
        2 => prop::collection::vec(any::<u8>(), 10),
        4 => prop::collection::vec(prop_oneof![Just(0u8), Just(1u8), Just(255u8), any::<u8>()], 1..=29),
        1 => Just(vec![4u8]),
    ]
    .boxed()
}
fn sub() -> BoxedStrategy<Option<Vec<u8>>> {
    prop_oneof![
        3 => Just(None),
        1 => Just(Some(vec![0; 32])),
        3 => (0usize..32, any::<u8>(), Just(0u8)).prop_map(|(i, x, z)| { let mut v = vec![z; 32]; v[i] = x; Some(v) }),
        1 => Just(Some(vec![255; 32])),
        1 => prop::collection::vec(any::<u8>(), 32).prop_map(Some),
    ]
    .boxed()
}
/// Accounts that have much in common with the first one.
fn family() -> BoxedStrategy<Vec<A>> {
    (owner(), sub(), prop::collection::vec((0u8..10, any::<u8>(), any::<u8>(), owner(), sub()), 1..9))
        .prop_map(|(o, s, v)| {
            let mut out = vec![A { owner: o.clone(), sub: s.clone() }];
            for (how, i, x, o2, s2) in v {
                let from = out[i as usize % out.len()].clone();
                let full = |s: &Option<Vec<u8>>| s.clone().unwrap_or(vec![0; 32]);
                let a = match how {
                    0 => A { owner: from.owner, sub: s2 },
                    1 => A { owner: o2, sub: from.sub },
                    2 | 3 => {
                        let mut q = full(&from.sub);
                        q[x as usize % 32] ^= 1 << (x / 32);
                        A { owner: from.owner, sub: Some(q) }
                    }
                    4 => {
                        let mut p = from.owner;
                        let k = x as usize % p.len();
                        p[k] ^= 1 << (x % 8);
                        A { owner: p, sub: from.sub }
                    }
                    // A principal that goes on in the subaccount.
                    5 | 6 => {
                        let mut p = from.owner;
                        let q = full(&from.sub);
                        let k = (1 + x as usize % 3).min(29 - p.len().min(29));
                        p.extend(&q[..k]);
                        let mut r = q[k..].to_vec();
                        r.resize(32, 0);
                        A { owner: p, sub: Some(if how == 5 { r } else { q }) }
                    }
                    7 => {
                        let mut p = from.owner;
                        let c = p.pop().unwrap();
                        if p.is_empty() {
                            p.push(c ^ 1);
                        }
                        let mut q = vec![c];
                        q.extend(&full(&from.sub)[..31]);
                        A { owner: p, sub: Some(q) }
                    }
                    8 => {
                        let mut q = full(&from.sub);
                        q.rotate_left(1 + x as usize % 31);
                        A { owner: from.owner, sub: Some(q) }
                    }
                    _ => {
                        let mut q = full(&from.sub);
                        q.reverse();
                        A { owner: from.owner.iter().rev().copied().collect(), sub: Some(q) }
                    }
                };
                // The management canister has no account.
                out.push(a);
            }
            out
        })
        .boxed()
}

pub fn prop() -> Prop<Case> {
    let u = any::<u8>;
    let op = prop_oneof![
        2 => (u(), u()).prop_map(|(a, b)| Do::Deposit(a, b)),
        6 => (u(), u(), u()).prop_map(|(a, b, c)| Do::Transfer(a, b, c)),
        6 => (u(), u(), u(), any::<bool>()).prop_map(|(a, b, c, e)| Do::Approve(a, b, c, e)),
        6 => (u(), u(), u(), u()).prop_map(|(a, b, c, d)| Do::TransferFrom(a, b, c, d)),
        1 => u().prop_map(Do::Withdraw),
        3 => (u(), prop::option::of(u()), 0u8..6).prop_map(|(a, b, c)| Do::List(a, b, c)),
        1 => Just(Do::Upgrade),
    ];
    Prop {
        id: "C22",
        strategy: (family(), prop::collection::vec(op, 4..40)).prop_map(|(accounts, ops)| Case { accounts, ops }).boxed(),
        run: Arc::new(run),
        rule: "at least 4 requests granted besides the deposits, among accounts of which two have the same owner and nearly the same subaccount, or the same subaccount and owners that start alike or are of the same length, or which are two spellings of the same account",
        how: "A case is a family of accounts derived from one another (one bit changed in owner or subaccount, owner prolonged by the first bytes of the subaccount, shortened, reversed, rotated, spelled otherwise) and a history of deposits, transfers, approvals, spending by allowance, listings and upgrades among them, run against the compiled canister. After every request each account's balance is read under every spelling and compared with the reference model; blocks, allowances and listings are compared likewise.",
        assumptions: ASSUMPTIONS,
        quick: (3000, 60),
        thorough: (1_000_000, 600),
        fixed: vec![],
    }
}
