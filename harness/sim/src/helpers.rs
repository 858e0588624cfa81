//! The canisters beside the ledger. C27: the depositor. C28: the stand-in for the cycles minting
//! canister. Each runs in a program of its own (one canister's entry points per program).
use crate::engine::{Outcome, Prop};
use crate::inst::{Canister, Fault, Res, FLOAT};
use crate::world::{account, cmc_args, principal, show, showp, Find, Stats, LEDGER, START};
use candid::{CandidType, Nat, Principal};
use iface::ops::{acc, cargs, Acc, CArgs};
use iface::types::*;
use iface::wire::{dec, enc};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_bytes::ByteBuf;
use std::sync::Arc;

const HOW: &str = "A case is a history of messages to the canister (calls by several callers, answers to its own calls in any order with any outcome, time steps), generated by proptest and run against the compiled canister on a simulated replica, with a reference model as the oracle after every message.";
const ASSUMPTIONS: &[&str] = &["the simulated replica (harness/shims/ic0) runs messages, traps, rollbacks, calls and cycles as the IC's interface specification says", "the canister is compiled to native code instead of wasm"];

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Say {
    /// A proper answer, with numbers of this many bits.
    Reply(u8, u64),
    Garbage(u8),
    /// Reject code, message, and how much of the cycles comes back.
    Reject(u8, u8, u8),
}
fn say() -> BoxedStrategy<Say> {
    prop_oneof![
        4 => (0u8..140, any::<u64>()).prop_map(|(b, x)| Say::Reply(b, x)),
        1 => (0u8..6).prop_map(Say::Garbage),
        3 => (1u8..6, 0u8..8, 0u8..4).prop_map(|(c, m, r)| Say::Reject(c, m, r)),
    ]
    .boxed()
}
fn big(bits: u8, x: u64) -> Nat {
    Nat((num_bigint::BigUint::from(1u8) << bits as usize) + x)
}
fn part(of: u128, r: u8) -> u128 {
    match r % 4 {
        0 | 1 => of,
        2 => of / 2,
        _ => 0,
    }
}
struct Log {
    finds: Vec<Find>,
    stats: Stats,
    trace: Vec<String>,
    id: &'static str,
}
impl Log {
    fn new(id: &'static str) -> Log {
        Log { finds: vec![], stats: Stats::default(), trace: vec![], id }
    }
    fn bad(&mut self, m: String) {
        self.finds.push(Find { props: vec![self.id], msg: m });
    }
    fn expect<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, of: &str, got: T, want: T) {
        if got != want {
            self.bad(format!("{what}: {of} is {got:?}, expected {want:?}"));
        }
    }
}

// ---------------------------------------------------------------- the depositor
#[derive(CandidType, Clone, Debug)]
struct DepositorInit {
    ledger_id: Principal,
}
pub fn depositor_init(ledger_id: Principal) -> Vec<u8> {
    enc((DepositorInit { ledger_id },))
}
#[derive(CandidType, Clone, Debug)]
struct DepositorArg {
    cycles: Nat,
    to: Account,
    memo: Option<ByteBuf>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum D {
    Deposit { caller: u8, to: Acc, cycles: (u8, u64), memo: Option<(u8, u8)>, attached: u8, fault: u8 },
    Respond(u8, Say),
    Bytes(Vec<u8>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct DCase {
    ledger: u8,
    ops: Vec<D>,
}

/// What the depositor has to give away.
const RICH: u128 = 1 << 110;

fn run_depositor(case: &DCase) -> Outcome {
    let mut l = Log::new("C27");
    let ledger = principal(case.ledger);
    let mut c = match Canister::install(&[0, 0, 0, 0, 0, 16, 0, 7, 1, 1], START, depositor_init(ledger), false) {
        Ok(c) => c,
        Err(e) => {
            l.bad(format!("the depositor cannot be installed: {e}"));
            return Outcome { finds: l.finds, ..Default::default() };
        }
    };
    c.balance = RICH;
    // The deposits under way, in the order their calls left.
    let mut out: Vec<(usize, String)> = vec![];
    let mut have = RICH;
    for o in &case.ops {
        if !l.finds.is_empty() {
            break;
        }
        match o {
            D::Bytes(b) => {
                let what = format!("deposit with {b:02x?}");
                let r = c.update("deposit", principal(0).as_slice(), b.clone(), 0, Fault::None);
                if !b.starts_with(b"DIDL") && !matches!(r, Res::Trap(_) | Res::Reject(_)) {
                    l.bad(format!("{what}: {r:?}"));
                }
                if let Res::Pending(_) = r {
                    break;
                }
            }
            D::Deposit { caller, to, cycles, memo, attached, fault } => {
                // Now and then more than there is.
                let n = if cycles.0 < 50 { cycles.0 as u128 * 1_000_000_000 + cycles.1 as u128 % 1_000_000_000 } else { (cycles.1 as u128) << (cycles.0 % 80) };
                let to = account(*to);
                let memo = memo.map(|(n, x)| ByteBuf::from(vec![x; n as usize]));
                let caller = principal(*caller);
                let fault = match fault {
                    0 => Fault::CallFails,
                    1 => Fault::NoLiquidCycles,
                    _ => Fault::None,
                };
                let what = format!("deposit of {n} to {} memo {memo:?} by {} ({fault:?})", show(&to), showp(&caller));
                l.trace.push(what.clone());
                let r = c.update("deposit", caller.as_slice(), enc((DepositorArg { cycles: n.into(), to: to.clone(), memo: memo.clone() },)), *attached as u128 * 1_000_000_000, fault);
                l.expect(&what, "what it accepted", c.last_accepted, 0);
                if fault != Fault::None && n > 0 || fault == Fault::CallFails || n > have {
                    l.stats.hit("cannot_leave");
                    if !matches!(r, Res::Trap(_) | Res::Reject(_)) {
                        l.bad(format!("{what}: the call cannot be made, but the answer is {r:?}"));
                    }
                    l.expect(&what, "the number of calls in flight", c.pending.len(), out.len());
                } else if let Res::Pending(ctx) = r {
                    have -= n;
                    l.stats.hit("left");
                    if c.pending.len() != out.len() + 1 {
                        l.bad(format!("{what}: {} calls made", c.pending.len() - out.len()));
                        continue;
                    }
                    let p = c.pending.last().unwrap().clone();
                    l.expect(&what, "the callee", p.callee.as_slice(), ledger.as_slice());
                    l.expect(&what, "the method called", p.method.as_str(), "deposit");
                    l.expect(&what, "what goes along", p.cycles, n);
                    match dec::<DepositArgs>(&p.arg) {
                        Ok(a) => {
                            if iface::model::key(&a.to) != iface::model::key(&to) {
                                l.bad(format!("{what}: deposits to {}", show(&a.to)));
                            }
                            l.expect(&what, "the memo passed on", a.memo, memo);
                        }
                        Err(e) => l.bad(format!("{what}: the call's argument is not the ledger's: {e}")),
                    }
                    out.push((ctx, what));
                } else {
                    l.bad(format!("{what}: {r:?} without asking the ledger"));
                }
            }
            D::Respond(which, say) => {
                if out.is_empty() {
                    continue;
                }
                let k = *which as usize % out.len();
                let (_, asked) = out.remove(k);
                let cycles = c.pending[k].cycles;
                let what = format!("{say:?} in answer to {asked}");
                l.trace.push(what.clone());
                let (answer, want, back) = match say {
                    Say::Reply(bits, x) => {
                        let d = DepositResult { balance: big(*bits, *x), block_index: big(*bits / 2, x >> 8) };
                        (Ok(enc((d.clone(),))), Some(d), 0)
                    }
                    Say::Garbage(g) => (
                        Ok(match g {
                            0 => vec![],
                            1 => enc(()),
                            2 => enc(("no",)),
                            3 => enc((Nat::from(3u8),)),
                            4 => enc((Err::<DepositResult, String>("no".into()),)),
                            _ => vec![*g; 20],
                        }),
                        None,
                        cycles,
                    ),
                    Say::Reject(code, m, r) => (Err((*code as u32, ["no", "", "canister trapped explicitly: cannot be created"][*m as usize % 3].into())), None, part(cycles, *r)),
                };
                l.stats.hit(if want.is_some() { "answered" } else { "failed" });
                let r = c.respond(k, answer, back);
                have += back;
                match (want, r) {
                    (Some(d), Res::Reply(b)) => match dec::<DepositResult>(&b) {
                        Ok(g) => l.expect(&what, "the answer", g, d),
                        Err(e) => l.bad(format!("{what}: the answer does not decode: {e}")),
                    },
                    (Some(d), r) => l.bad(format!("{what}: {r:?} instead of {d:?}")),
                    (None, Res::Trap(_) | Res::Reject(_)) => {}
                    (None, r) => l.bad(format!("{what}: answers {r:?}")),
                }
                l.expect(&what, "the number of calls in flight", c.pending.len(), out.len());
            }
        }
        let b = c.balance;
        l.expect(l.trace.last().cloned().unwrap_or_default().as_str(), "the depositor's cycle balance", b, have);
    }
    Outcome { nontrivial: l.stats.get("left") > 1 && l.stats.get("answered") > 0 && l.stats.get("failed") > 0, checks: c.messages, finds: l.finds, stats: l.stats, trace: l.trace }
}
pub fn depositor() -> Prop<impl Clone + std::fmt::Debug + Serialize + serde::de::DeserializeOwned + Send + Sync + 'static> {
    let cycles = prop_oneof![8 => (0u8..50, any::<u64>()), 3 => (50u8..130, any::<u64>()), 1 => Just((0u8, 0u64))];
    let op = prop_oneof![
        10 => (0u8..7, acc(3), cycles, prop::option::of((0u8..34, any::<u8>())), 0u8..3, 0u8..12)
            .prop_map(|(caller, to, cycles, memo, attached, fault)| D::Deposit { caller, to, cycles, memo, attached, fault }),
        8 => (any::<u8>(), say()).prop_map(|(i, s)| D::Respond(i, s)),
        1 => prop::collection::vec(any::<u8>(), 0..20).prop_map(D::Bytes),
    ];
    Prop {
        id: "C27",
        strategy: (0u8..7, prop::collection::vec(op, 1..24)).prop_map(|(ledger, ops)| DCase { ledger, ops }).boxed(),
        run: Arc::new(run_depositor),
        rule: "at least two deposits were passed on, one was answered and one failed",
        how: HOW,
        assumptions: ASSUMPTIONS,
        quick: (8000, 60),
        thorough: (3_000_000, 600),
        fixed: vec![],
    }
}

// ---------------------------------------------------------------- the stand-in for the CMC
const LEAST: u128 = 100_000_000_000;
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq)]
struct MgmtArgs {
    settings: Option<CanisterSettings>,
}
#[derive(CandidType, Clone, Debug)]
struct MgmtResult {
    canister_id: Principal,
}
#[derive(CandidType, Deserialize, Clone, Debug)]
struct Rate {
    xdr_permyriad_per_icp: u64,
    timestamp_seconds: u64,
}
#[derive(CandidType, Deserialize, Clone, Debug)]
struct RateResponse {
    data: Rate,
    hash_tree: ByteBuf,
    certificate: ByteBuf,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum M {
    Create { caller: u8, args: CArgs, cycles: (u8, i8), fault: u8 },
    FailNext { caller: u8, refund: Option<u8>, text: u8 },
    Respond(u8, MSay),
    Last,
    Rate(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum MSay {
    Ok(u8),
    Taken(u8),
    Reject(u8, u8),
    Garbage(u8),
}

fn run_cmc(case: &Vec<M>) -> Outcome {
    let mut l = Log::new("C28");
    let mut c = Canister::install(LEDGER, START, vec![], false).expect("nothing is run");
    let mut out: Vec<(CmcArgs, u128, String)> = vec![];
    let mut have = FLOAT;
    let mut last: Option<CmcArgs> = None;
    let mut next: Option<CmcError> = None;
    let asks = |l: &mut Log, c: &Canister, what: &str, args: &CmcArgs, cycles: u128| {
        let p = c.pending.last().unwrap();
        l.expect(what, "the callee", p.callee.as_slice(), Principal::management_canister().as_slice());
        l.expect(what, "the method called", p.method.as_str(), "create_canister");
        l.expect(what, "what goes along", p.cycles, cycles);
        match dec::<MgmtArgs>(&p.arg) {
            Ok(a) => l.expect(what, "the settings passed on", a.settings, args.settings.clone()),
            Err(e) => l.bad(format!("{what}: the call's argument is not create_canister's: {e}")),
        }
    };
    let text = |t: u8| ["", "no", "é", "canister id already exists"][t as usize % 4].to_string();
    for o in case {
        if !l.finds.is_empty() {
            break;
        }
        match o {
            M::Create { caller, args, cycles, fault } => {
                let n = (cycles.0 as u128 * LEAST / 4).saturating_add_signed(cycles.1 as i128);
                let args = cmc_args(args).unwrap_or(CmcArgs { settings: None, subnet_selection: None });
                let fault = if *fault == 0 { Fault::CallFails } else { Fault::None };
                let what = format!("create_canister with {n} by {} {args:?} ({fault:?}), next failure {next:?}", showp(&principal(*caller)));
                l.trace.push(what.clone());
                let r = c.update("create_canister", principal(*caller).as_slice(), enc((args.clone(),)), n, fault);
                let error = |l: &mut Log, r: Res, e: CmcError| match r {
                    Res::Reply(b) => match dec::<Result<Principal, CmcError>>(&b) {
                        Ok(g) => l.expect(&what, "the answer", g, Err(e)),
                        Err(e) => l.bad(format!("{what}: the answer does not decode: {e}")),
                    },
                    r => l.bad(format!("{what}: {r:?} instead of {e:?}")),
                };
                if n < LEAST {
                    l.stats.hit("too_little");
                    match r {
                        Res::Reply(b) => match dec::<Result<Principal, CmcError>>(&b) {
                            Ok(Err(CmcError::Refunded { refund_amount, .. })) if refund_amount == n => {}
                            g => l.bad(format!("{what}: answers {g:?}")),
                        },
                        r => l.bad(format!("{what}: {r:?}")),
                    }
                    l.expect(&what, "what it kept", c.last_accepted, 0);
                } else if let Some(e) = next.clone() {
                    l.stats.hit("failed_as_told");
                    let keep = match &e {
                        CmcError::Refunded { refund_amount, .. } => n - u128::try_from(&refund_amount.0).unwrap(),
                        CmcError::RefundFailed { .. } => n,
                    };
                    error(&mut l, r, e);
                    l.expect(&what, "what it kept", c.last_accepted, keep);
                    have += keep;
                    next = None;
                    last = Some(args);
                } else if fault == Fault::CallFails {
                    if !matches!(r, Res::Trap(_) | Res::Reject(_)) {
                        l.bad(format!("{what}: the call cannot be made, but the answer is {r:?}"));
                    }
                } else if let Res::Pending(_) = r {
                    l.stats.hit("created");
                    l.expect(&what, "what it kept", c.last_accepted, n);
                    if c.pending.len() != out.len() + 1 {
                        l.bad(format!("{what}: {} calls made", c.pending.len() - out.len()));
                        continue;
                    }
                    asks(&mut l, &c, &what, &args, n);
                    last = Some(args.clone());
                    out.push((args, n, what));
                } else {
                    l.bad(format!("{what}: {r:?} without asking for a canister"));
                }
            }
            M::FailNext { caller, refund, text: t } => {
                let e = match refund {
                    Some(k) => CmcError::Refunded { refund_amount: ([0, 1, LEAST / 2, LEAST - 1, LEAST][*k as usize % 5]).into(), create_error: text(*t) },
                    None => CmcError::RefundFailed { create_error: text(*t), refund_error: text(*t / 4) },
                };
                let what = format!("fail_next_create_canister_with {e:?}");
                l.trace.push(what.clone());
                let r = c.update("fail_next_create_canister_with", principal(*caller).as_slice(), enc((e.clone(),)), 7, Fault::None);
                if !matches!(r, Res::Reply(_)) {
                    l.bad(format!("{what}: {r:?}"));
                }
                l.expect(&what, "what it kept", c.last_accepted, 0);
                next = Some(e);
            }
            M::Respond(which, say) => {
                if out.is_empty() {
                    continue;
                }
                let k = *which as usize % out.len();
                let (args, n, asked) = out.remove(k);
                let what = format!("{say:?} in answer to {asked}");
                l.trace.push(what.clone());
                let (answer, back) = match say {
                    MSay::Ok(p) => (Ok(enc((MgmtResult { canister_id: principal(*p) },))), 0),
                    MSay::Taken(t) => (Err((*t as u32 % 5 + 1, format!("{} canister id already exists{}", text(t / 5), text(t / 20)))), n),
                    MSay::Reject(code, t) => (Err((*code as u32 % 5 + 1, ["no", "", "Canister is already installed"][*t as usize % 3].to_string())), n),
                    MSay::Garbage(g) => (Ok(vec![*g; *g as usize % 7]), n),
                };
                let r = c.respond(k, answer, back);
                have += back;
                match (say, r) {
                    (MSay::Ok(p), Res::Reply(b)) => {
                        l.stats.hit("answered");
                        match dec::<Result<Principal, CmcError>>(&b) {
                            Ok(g) => l.expect(&what, "the answer", g, Ok(principal(*p))),
                            Err(e) => l.bad(format!("{what}: the answer does not decode: {e}")),
                        }
                    }
                    (MSay::Taken(_), Res::Pending(_)) => {
                        l.stats.hit("tried_anew");
                        have -= n;
                        if c.pending.len() != out.len() + 1 {
                            l.bad(format!("{what}: {} calls under way, expected {}", c.pending.len(), out.len() + 1));
                            continue;
                        }
                        asks(&mut l, &c, &what, &args, n);
                        out.push((args, n, what.chars().take(400).collect()));
                    }
                    (MSay::Reject(..) | MSay::Garbage(_), Res::Trap(_) | Res::Reject(_)) => l.stats.hit("gave_up"),
                    (_, r) => l.bad(format!("{what}: answers {r:?}")),
                }
            }
            M::Last => {
                let r = c.query("last_create_canister_args", principal(1).as_slice(), enc(()));
                let what = "last_create_canister_args";
                match (r, &last) {
                    (Res::Reply(b), Some(a)) => match dec::<CmcArgs>(&b) {
                        Ok(g) => l.expect(what, "the answer", &g, a),
                        Err(e) => l.bad(format!("{what}: the answer does not decode: {e}")),
                    },
                    (Res::Trap(_) | Res::Reject(_), None) => {}
                    (r, a) => l.bad(format!("{what}: {r:?}, expected {a:?}")),
                }
            }
            M::Rate(dt) => {
                c.now += *dt as u64 * 1_000_003;
                let what = "get_icp_xdr_conversion_rate";
                match c.query(what, principal(1).as_slice(), enc(())) {
                    Res::Reply(b) => match dec::<RateResponse>(&b) {
                        Ok(g) => l.expect(what, "the rate and time", (g.data.xdr_permyriad_per_icp, g.data.timestamp_seconds), (50_000, c.now / 1_000_000_000)),
                        Err(e) => l.bad(format!("{what}: the answer does not decode: {e}")),
                    },
                    r => l.bad(format!("{what}: {r:?}")),
                }
            }
        }
        let b = c.balance;
        l.expect(l.trace.last().cloned().unwrap_or_default().as_str(), "the stand-in's cycle balance", b, have);
        let k = c.pending.len();
        l.expect(l.trace.last().cloned().unwrap_or_default().as_str(), "the number of calls under way", k, out.len());
    }
    Outcome { nontrivial: l.stats.get("created") > 0 && l.stats.get("failed_as_told") > 0 && l.stats.get("answered") > 0, checks: c.messages, finds: l.finds, stats: l.stats, trace: l.trace }
}
pub fn cmc() -> Prop<impl Clone + std::fmt::Debug + Serialize + serde::de::DeserializeOwned + Send + Sync + 'static> {
    let op = prop_oneof![
        10 => (0u8..7, cargs(), (prop_oneof![8 => 4u8..12, 2 => 0u8..5], prop_oneof![Just(0i8), Just(-1), Just(1), any::<i8>()]), 0u8..14)
            .prop_map(|(caller, args, cycles, fault)| M::Create { caller, args, cycles, fault }),
        5 => (0u8..7, prop::option::weighted(0.7, 0u8..5), 0u8..16).prop_map(|(caller, refund, text)| M::FailNext { caller, refund, text }),
        9 => (any::<u8>(), prop_oneof![4 => (0u8..12).prop_map(MSay::Ok), 3 => any::<u8>().prop_map(MSay::Taken), 1 => any::<(u8, u8)>().prop_map(|(a, b)| MSay::Reject(a, b)), 1 => any::<u8>().prop_map(MSay::Garbage)])
            .prop_map(|(i, s)| M::Respond(i, s)),
        3 => Just(M::Last),
        1 => any::<u32>().prop_map(M::Rate),
    ];
    Prop {
        id: "C28",
        strategy: prop::collection::vec(op, 1..30).boxed(),
        run: Arc::new(run_cmc),
        rule: "a canister was created and its id returned, and a creation failed as told",
        how: HOW,
        assumptions: ASSUMPTIONS,
        quick: (8000, 60),
        thorough: (3_000_000, 600),
        fixed: vec![],
    }
}
