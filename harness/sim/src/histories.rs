//! The properties that are decided over histories of the whole canister.
use crate::engine::{Outcome, Prop};
use iface::ops::{self, Case, Exp, Op, Weights};
use crate::world::{Stats, World};
use std::sync::Arc;

pub const HOW: &str = "A case is an initialisation and a history of canister messages (updates by several callers, inter-canister responses and faults, time steps, upgrades, queries), generated by proptest from weights suited to the property and run against the compiled canister on a simulated replica, with a reference model and the canister's own log as oracles after every message.";
pub const ASSUMPTIONS: &[&str] = &[
    "the simulated replica (harness/shims/ic0) runs messages, traps, rollbacks, calls, cycles, certified data and stable memory as the IC's interface specification says",
    "the canister is compiled to native code instead of wasm; instruction limits and heap exhaustion are not simulated",
];

pub fn run(case: &Case, focus: &'static str, nontrivial: fn(&Stats) -> bool) -> Outcome {
    let mut w = match play(case, focus, false) {
        Ok(w) => w,
        Err(e) => {
            let f = crate::world::Find { props: vec!["C24", "C21"], msg: format!("installing with {:?} failed: {e}", crate::world::init_args(case)) };
            return Outcome { finds: vec![f], ..Default::default() };
        }
    };
    if !w.finds.is_empty() && !w.finds.iter().any(|f| f.props.contains(&focus)) && because_of_before(case, focus) {
        for f in &mut w.finds {
            f.props.push(focus);
        }
    }
    Outcome { nontrivial: nontrivial(&w.stats), checks: w.c.messages, finds: w.finds, stats: w.stats, trace: w.trace }
}
fn play(case: &Case, focus: &'static str, skip_refused: bool) -> Result<World, String> {
    let mut w = World::new(case, focus)?;
    w.skip_refused = skip_refused;
    for o in &case.ops {
        if !w.finds.is_empty() || w.over {
            break;
        }
        w.step(o);
    }
    if w.finds.is_empty() && !w.over {
        w.finish();
    }
    Ok(w)
}
/// Whether something goes wrong only because of earlier messages that should have made no
/// difference: upgrades, requests that were refused, malformed messages; or because approvals end.
fn because_of_before(case: &Case, focus: &str) -> bool {
    let fine = |c: &Case, skip| play(c, "C03", skip).is_ok_and(|w| w.finds.is_empty());
    let without = |f: fn(&Op) -> bool| {
        let c = Case { ops: case.ops.iter().filter(|o| !f(o)).cloned().collect(), ..case.clone() };
        c.ops.len() < case.ops.len() && fine(&c, false)
    };
    match focus {
        "C15" => without(|o| matches!(o, Op::Upgrade { .. })),
        "C21" => without(|o| matches!(o, Op::Raw { .. } | Op::Probe { .. })),
        "C08" => !fine(case, false) && fine(case, true),
        "C11" => {
            let mut c = case.clone();
            for o in &mut c.ops {
                match o {
                    Op::Approve { exp, .. } => *exp = Exp::None,
                    Op::Crowd { secs, .. } => *secs = 0,
                    _ => {}
                }
            }
            c.ops != case.ops && fine(&c, false)
        }
        _ => false,
    }
}

/// The ledger as deployed so far runs the first part of the history, the one under test the rest.
fn run_deployed(case: &Case, nontrivial: fn(&Stats) -> bool) -> Outcome {
    let go = |old: bool| {
        let mut w = match World::new(case, if old { "C16" } else { "C15" }) {
            Ok(w) => w,
            Err(e) => return Err(e),
        };
        w.gauges_too = true;
        let mut before = 0;
        for o in &case.ops {
            if !w.finds.is_empty() || w.over {
                break;
            }
            w.step(o);
            if w.c.old {
                before = w.stats.get("granted");
            }
        }
        if w.finds.is_empty() && !w.over {
            w.finish();
        }
        let n = w.stats.get("granted") - before;
        w.stats.add("granted_before_takeover", before);
        w.stats.add("granted_after_takeover", n);
        Ok(w)
    };
    let mut w = match go(true) {
        Ok(w) => w,
        Err(e) => panic!("the deployed version cannot be installed: {e}"),
    };
    if !w.finds.is_empty() && w.c.old {
        panic!("the deployed version is not as promised: {:?}", w.finds[0]);
    }
    // What the version under test also does with memory of its own making is no matter of the
    // takeover.
    if !w.finds.is_empty() && !w.finds.iter().any(|f| f.props.contains(&"C16")) && go(false).is_ok_and(|v| v.finds.is_empty()) {
        for f in &mut w.finds {
            f.props.push("C16");
        }
    }
    Outcome { nontrivial: nontrivial(&w.stats), checks: w.c.messages, finds: w.finds, stats: w.stats, trace: w.trace }
}
fn deployed_prop() -> Prop<Case> {
    use proptest::prelude::*;
    let w = Weights { upgrade: 1, again: 10, cat: 10, exp: 10, life: 5, resubmit: 5, crowd: 1, len: (14, 50), ..Weights::default() };
    let nt: fn(&Stats) -> bool = |s| s.get("granted_before_takeover") >= 6 && s.get("granted_after_takeover") >= 4;
    Prop {
        id: "C16",
        strategy: (ops::case(&w), 20u8..80)
            .prop_map(|(mut c, at)| {
                c.ops.retain(|o| !matches!(o, Op::Upgrade { wrong: true, .. }));
                let k = c.ops.len() * at as usize / 100;
                c.ops.insert(k, Op::Upgrade { max_blocks: None, index: at, wrong: false });
                c
            })
            .boxed(),
        run: Arc::new(move |c| run_deployed(c, nt)),
        rule: "at least 6 requests granted before the takeover and 4 after it",
        how: "A case is an initialisation and a history of canister messages, as for the other properties. A frozen copy of the ledger as deployed so far (harness/deployed) runs it up to an upgrade; there the ledger under test takes over its stable memory and runs the rest. The reference model and the log are the oracles after every message; a failure after the takeover that the ledger under test also shows with memory of its own making is not counted.",
        assumptions: ASSUMPTIONS,
        quick: (3000, 60),
        thorough: (1_000_000, 600),
        fixed: vec![],
    }
}

pub fn prop(id: &str) -> Option<Prop<Case>> {
    if id == "C16" {
        return Some(deployed_prop());
    }
    let d = Weights::default;
    let (id, w, rule, nt): (&'static str, Weights, &'static str, fn(&Stats) -> bool) = match id {
        "C01" => (
            "C01",
            Weights { mass: 1, masses: (1, 4), flight: 15, withdraw: 8, withdraw_from: 8, create: 8, create_from: 8, respond: 20, deposit: 6, ..d() },
            "at least one call left with cycles attached and came back, and at least one refund was minted",
            |s| s.get("in_flight") > 0 && s.get("responses") > 0 && s.get("refunds") > 0,
        ),
        "C02" => ("C02", Weights { edge: 10, ..d() }, "at least 8 granted requests, one of them by an allowance", |s| s.get("granted") >= 8 && s.get("granted_by_allowance") > 0),
        "C03" => (
            "C03",
            Weights { life: 10, flight: 6, approve: 14, transfer_from: 14, exp: 10, ..d() },
            "at least 8 granted requests, one of them by an allowance",
            |s| s.get("granted") >= 8 && s.get("granted_by_allowance") > 0,
        ),
        "C04" => ("C04", Weights { upgrade: 3, blocks: 2, again: 6, long: 12, ..d() }, "at least 8 granted requests and one refused", |s| s.get("granted") >= 8 && s.get("refused") > 0),
        "C05" => ("C05", Weights { mass: 1, upgrade: 4, long: 25, ..d() }, "at least 8 granted requests and a tip check after each", |s| s.get("granted") >= 8 && s.get("tip_checks") > 8),
        "C06" => (
            "C06",
            Weights { mass: 2, masses: (0, 1), resubmit: 25, again: 30, cat: 20, advance: 8, edge: 2, badfee: 0, longmemo: 0, weird: 1, upgrade: 3, ..d() },
            "at least one exact resubmission of a remembered transaction",
            |s| s.get("bar_duplicate") > 0,
        ),
        "C07" => (
            "C07",
            Weights { resubmit: 6, cat: 40, advance: 8, edge: 2, badfee: 0, longmemo: 0, weird: 1, again: 6, ..d() },
            "a request refused for its creation time and one granted with a creation time",
            |s| s.get("bar_too_old") + s.get("bar_future") > 0 && s.get("granted_with_time") > 0,
        ),
        "C08" => ("C08", Weights { flight: 6, edge: 18, badfee: 6, weird: 8, longmemo: 3, again: 8, cat: 6, ..d() }, "at least 5 refused requests after at least 3 granted ones", |s| s.get("refused") >= 5 && s.get("granted") >= 3),
        "C09" => ("C09", Weights { mass: 1, crowd: 1, throng: 20, edge: 14, badfee: 4, weird: 6, longmemo: 2, again: 6, cat: 6, ..d() }, "at least 5 refused and 5 granted requests", |s| s.get("refused") >= 5 && s.get("granted") >= 5),
        "C10" => (
            "C10",
            Weights { life: 15, approve: 22, transfer_from: 22, withdraw_from: 8, create_from: 8, transfer: 3, withdraw: 1, create: 1, ..d() },
            "at least two requests granted by an allowance and one refused for it",
            |s| s.get("granted_by_allowance") >= 2 && s.get("bar_allowance") + s.get("bar_expired_allowance") > 0,
        ),
        "C11" => (
            "C11",
            Weights { life: 30, approve: 22, exp: 30, transfer_from: 16, withdraw_from: 5, create_from: 5, advance: 20, pages: 4, transfer: 2, withdraw: 1, create: 1, cat: 1, ..d() },
            "an expiring allowance was drawn on, or one that had expired was tried",
            |s| s.get("granted_by_expiring_allowance") + s.get("bar_expired_allowance") > 0,
        ),
        "C12" => (
            "C12",
            Weights { mass: 2, masses: (1, 3), flight: 20, withdraw: 20, withdraw_from: 20, approve: 12, create: 1, create_from: 1, respond: 25, transfer: 3, transfer_from: 3, ..d() },
            "a withdrawal's cycles left, one was answered, and one failed and was refunded",
            |s| s.get("in_flight") > 0 && s.get("responses") > 0 && s.get("refunds") > 0,
        ),
        "C13" => (
            "C13",
            Weights { mass: 2, masses: (2, 3), flight: 20, resubmit: 6, create: 20, create_from: 20, approve: 12, withdraw: 1, withdraw_from: 1, respond: 25, transfer: 3, transfer_from: 3, again: 8, cat: 8, ..d() },
            "a creation's cycles left, one was answered, and one failed and was refunded",
            |s| s.get("in_flight") > 0 && s.get("responses") > 0 && s.get("refunds") > 0,
        ),
        "C14" => (
            "C14",
            Weights { mass: 2, masses: (3, 2), flight: 30, withdraw_from: 18, create_from: 18, approve: 20, exp: 14, advance: 12, respond: 25, withdraw: 1, create: 1, transfer: 4, transfer_from: 6, crowd: 1, cat: 2, ..d() },
            "a call made by a spender failed",
            |s| s.get("failed_from_calls") > 0,
        ),
        "C15" => ("C15", Weights { mass: 1, masses: (0, 1), resubmit: 6, life: 6, upgrade: 12, again: 10, cat: 8, exp: 8, crowd: 1, ..d() }, "an upgrade after at least 5 granted requests", |s| s.get("upgrades") > 0 && s.get("granted") >= 5),
        "C17" => (
            "C17",
            Weights { life: 0, resubmit: 0, flight: 2, blocks: 40, deposit: 14, respond: 6, upgrade: 4, long: 12, len: (15, 60), ..d() },
            "a query for blocks with more than one block in its answer",
            |s| s.get("block_queries_with_answers") > 0,
        ),
        "C18" => (
            "C18",
            Weights { life: 6, approve: 30, exp: 10, pages: 24, crowd: 4, throng: 4, advance: 10, transfer_from: 6, ..d() },
            "a walk through the allowances that finds more than one",
            |s| s.get("page_walks_with_answers") > 0,
        ),
        "C19" => (
            "C19",
            Weights { weird: 30, again: 10, transfer_from: 16, approve: 16, withdraw_from: 10, create_from: 10, ..d() },
            "a request by a spender without an allowance, and one granted by an allowance",
            |s| s.get("bar_allowance") + s.get("bar_denied") > 0 && s.get("granted_by_allowance") > 0,
        ),
        "C20" => ("C20", Weights { cat: 8, exp: 8, ..d() }, "at least 8 granted requests of at least 4 kinds", |s| {
            s.get("granted") >= 8 && ["deposit", "transfer", "transfer_from", "approve", "withdraw", "withdraw_from", "create", "create_from"].iter().filter(|k| s.get(k) > 0).count() >= 4
        }),
        "C21" => (
            "C21",
            Weights { life: 1, resubmit: 1, flight: 2, raw: 60, probe: 50, weird: 10, longmemo: 3, edge: 10, len: (10, 40), ..d() },
            "at least 5 malformed or extreme messages",
            |s| s.get("raw") + s.get("probes") >= 5,
        ),
        "C23" => (
            "C23",
            Weights { life: 20, resubmit: 8, approve: 20, exp: 20, cat: 20, advance: 20, crowd: 2, ..d() },
            "something that had expired or fallen out of the window was pruned",
            |s| s.get("pruned_approvals") + s.get("pruned_transactions") > 0,
        ),
        "C25" => ("C25", Weights { badfee: 30, edge: 10, upgrade: 6, ..d() }, "a request with a wrong fee, and an upgrade", |s| s.get("bar_bad_fee") > 0 && s.get("upgrades") > 0),
        "C26" => (
            "C26",
            Weights { life: 0, resubmit: 0, flight: 1, deposit: 40, longmemo: 3, weird: 6, ..d() },
            "a deposit granted, and one refused",
            |s| s.get("deposit") > 3 && s.get("bar_small_deposit") + s.get("bar_long_memo") > 0,
        ),
        _ => return None,
    };
    Some(Prop {
        id,
        strategy: ops::case(&w),
        run: Arc::new(move |c| run(c, id, nt)),
        rule,
        how: HOW,
        assumptions: ASSUMPTIONS,
        quick: (3000, 60),
        thorough: (1_000_000, 600),
        fixed: vec![],
    })
}
