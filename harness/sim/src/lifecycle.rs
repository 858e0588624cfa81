//! C24: installation, and what the ledger starts with.
use crate::engine::{Outcome, Prop};
use crate::histories::{ASSUMPTIONS, HOW};
use crate::inst::Canister;
use crate::world::{account, crowd_spender, principal, Find, Stats, World, LEDGER, START};
use candid::Nat;
use iface::model::FEE;
use iface::ops::{self, Acc, Amt, Op, Weights};
use iface::types::*;
use iface::wire::enc;
use num_bigint::BigUint;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Install {
    /// 0: init arguments; otherwise something else.
    what: u8,
    max_blocks: u64,
    index: Option<u8>,
    /// None: no initial balances given
    balances: Option<Vec<(Acc, Amt)>>,
    /// So many more accounts with a balance
    many: u16,
    ops: Vec<Op>,
}

fn amount(a: &Amt) -> BigUint {
    match *a {
        Amt::Fee(m, d) => BigUint::from((m as i128 * FEE as i128 + d as i128).max(0) as u128),
        Amt::MaxMinus(k) => BigUint::from(u128::MAX) - k,
        Amt::Pow(k) => BigUint::from(1u8) << k as usize,
        Amt::Abs(x) => x.into(),
        _ => 1u8.into(),
    }
}

fn run(case: &Install) -> Outcome {
    let id = "C24";
    let args = InitArgs {
        max_blocks_per_request: case.max_blocks,
        index_id: case.index.map(principal),
        initial_balances: case.balances.as_ref().map(|v| {
            let many = (0..case.many).map(|i| (crowd_spender(i), Nat::from(FEE * (1 + i as u128 % 9) + i as u128)));
            v.iter().map(|(a, x)| (account(*a), Nat(amount(x)))).chain(many).collect()
        }),
    };
    let mut stats = Stats::default();
    let out = |finds: Vec<Find>, stats: Stats, nontrivial: bool, trace: Vec<String>| Outcome { nontrivial, checks: 1, finds, stats, trace };
    let bytes = match case.what {
        0 => None,
        1 => Some(enc((LedgerArgs::Upgrade(None),))),
        2 => Some(enc((LedgerArgs::Upgrade(Some(UpgradeArgs { max_blocks_per_request: Some(5), change_index_id: None })),))),
        3 => Some(vec![case.max_blocks as u8; 9]),
        4 => Some(vec![]),
        5 => Some(enc((7u8,))),
        _ => Some(enc((None::<LedgerArgs>,))),
    };
    if let Some(b) = bytes {
        stats.hit("wrong_arguments");
        let finds = match Canister::install(LEDGER, START, b.clone(), false) {
            Ok(_) => vec![Find { props: vec![id], msg: format!("installing with {b:02x?} (kind {}) succeeds", case.what) }],
            Err(_) => vec![],
        };
        return out(finds, stats, true, vec![format!("install with wrong arguments, kind {}", case.what)]);
    }
    // Candid's decoder of 128-bit numbers does not notice larger ones, so that there are none
    // here. Their sum has to be a number the ledger can hold.
    let sum: BigUint = args.initial_balances.iter().flatten().map(|x| &x.1 .0).sum();
    if sum > BigUint::from(u128::MAX) {
        stats.hit("too_much");
        let finds = match Canister::install(LEDGER, START, enc((LedgerArgs::Init(args.clone()),)), false) {
            Ok(_) => vec![Find { props: vec![id, "C02"], msg: format!("installing with balances of {sum} in all succeeds: {args:?}") }],
            Err(_) => vec![],
        };
        return out(finds, stats, true, vec![format!("install with {args:?}")]);
    }
    let backed = sum.bits() < 120;
    let mut w = match World::install(args.clone(), id) {
        Ok(w) => w,
        Err(e) => return out(vec![Find { props: vec![id, "C21"], msg: format!("installing with {args:?} failed: {e}") }], stats, true, vec![]),
    };
    w.trace.push(format!("install with {args:?}").chars().take(4_000).collect());
    if case.many > 0 {
        w.stats.hit("many_balances");
    }
    if !backed {
        w.finds.retain(|f| f.props != ["C01"]);
    }
    w.check_config("install");
    if backed {
        for o in &case.ops {
            if !w.finds.is_empty() || w.over {
                break;
            }
            w.step(o);
        }
        if w.finds.is_empty() && !w.over {
            w.finish();
        }
    } else {
        w.stats.hit("huge");
    }
    let n = case.balances.as_ref().map_or(0, |b| b.len());
    Outcome { nontrivial: n > 1 || !backed, checks: w.c.messages, finds: w.finds, stats: w.stats, trace: w.trace }
}

pub fn prop() -> Prop<Install> {
    let amt = || {
        prop_oneof![
            8 => (0u8..250, -1i8..2).prop_map(|(m, d)| Amt::Fee(m, d)), 2 => (0u64..3).prop_map(Amt::Abs), 2 => any::<u64>().prop_map(Amt::Abs), 2 => (30u8..110).prop_map(Amt::Pow),
        ]
    };
    let huge = prop_oneof![
        2 => (0u8..3).prop_map(Amt::MaxMinus), 3 => (120u8..128).prop_map(Amt::Pow), 2 => amt(),
    ];
    let balances = prop_oneof![
        1 => Just(None),
        8 => prop::collection::vec((ops::acc(6), amt()), 0..12).prop_map(Some),
        2 => prop::collection::vec((ops::acc(2), huge), 1..4).prop_map(Some),
        1 => prop::collection::vec((ops::acc(2), amt()), 100..130).prop_map(Some),
    ];
    let w = Weights { upgrade: 12, respond: 6, len: (1, 14), ..Weights::default() };
    Prop {
        id: "C24",
        strategy: (
            prop_oneof![12 => Just(0u8), 1 => 1u8..7],
            prop_oneof![4 => 1u64..12, 2 => Just(100u64), 1 => Just(u64::MAX), 1 => Just(1u64 << 32), 1 => any::<u64>().prop_map(|x| x.max(1))],
            prop::option::of(0u8..12),
            balances,
            prop_oneof![480 => Just(0u16), 7 => 100u16..2_500, 1 => 2_500u16..12_000],
            prop::collection::vec(ops::op(&w), 1..14),
        )
            .prop_map(|(what, max_blocks, index, balances, many, ops)| Install { what, max_blocks, index, balances, many, ops })
            .boxed(),
        run: Arc::new(run),
        rule: "several initial balances, or amounts or arguments that are not acceptable",
        how: HOW,
        assumptions: ASSUMPTIONS,
        quick: (4000, 60),
        thorough: (1_000_000, 600),
        fixed: vec![],
    }
}
