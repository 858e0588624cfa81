//! C29: how much the ledger holds changes neither what it answers nor how much work an answer
//! takes. Two ledgers get the same requests: a small one, and one that holds the same among very
//! many other accounts, blocks, approvals and remembered requests.
use crate::engine::{Outcome, Prop};
use crate::histories::ASSUMPTIONS;
use crate::inst::{Canister, Fault, Pending, Res};
use crate::world::{Find, Stats, LEDGER, START};
use candid::{Nat, Principal};
use ic0::mock::Stable;
use iface::model::*;
use iface::types::*;
use iface::wire::{dec, decode, enc, encode};
use num_traits::ToPrimitive;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_bytes::ByteBuf;
use std::sync::{Arc, OnceLock};

/// Accounts the requests are about, and accounts that only the big ledger has.
const NEAR: u32 = 120;
const FAR: u32 = 30_000;
const FAR_APPROVALS: u32 = 45_000;
const FAR_TIMED: u32 = 6_000;
const MAX_BLOCKS: u64 = 60;
const RICH: u128 = FEE * 1_000_000;
const HOUR: u64 = 3_600_000_000_000;
/// When the first approvals end.
const SOON: u64 = START + HOUR / 6;
/// One request may take this many times what it takes in the small ledger (trees are deeper in
/// the big one), and this much more.
const TIMES: u64 = 6;
const MORE: u64 = 4_000;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Do {
    /// Kind, payer, spender or approved, receiver, amount, created_at_time (seconds ago), expiry (minutes), what happens to the call it makes.
    Ask(u8, u8, u8, u8, u8, Option<u8>, Option<u8>, u8),
    /// Asks the same as the request so many requests ago.
    Again(u8),
    Balance(u8),
    Allowance(u8, u8),
    List(u8, Option<u8>, u16),
    /// Blocks from so far behind the tip on, in so many ranges of so many.
    Recent(u8, u8, u8),
    /// Blocks from anywhere.
    Blocks(u16, u8),
    Look(u8),
    Wait(u8),
    Upgrade(bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ops: Vec<Do>,
}

fn near(i: u32) -> Account {
    // Owners before, among and after those of the others.
    let i = i % NEAR;
    let mut p = vec![(i * 2) as u8, 0x5a, (i % 7) as u8];
    p.resize(4 + (i as usize * 5) % 25, i as u8);
    Account { owner: Principal::from_slice(&p), subaccount: (i % 3 != 0).then(|| ByteBuf::from(vec![(i / 3) as u8; 32])) }
}
fn far(i: u32) -> Account {
    let x = i.wrapping_mul(2_654_435_761);
    let mut p = x.to_be_bytes().to_vec();
    p.extend([1, 2, 3, (i % 5) as u8]);
    let mut s = vec![0; 32];
    s[(i % 32) as usize] = (i >> 8) as u8;
    Account { owner: Principal::from_slice(&p), subaccount: (i % 2 == 0).then(|| ByteBuf::from(s)) }
}
fn intent(kind: Kind, from: &Account, amount: u128) -> Intent {
    Intent {
        kind,
        caller: from.owner,
        from: from.clone(),
        spender: None,
        to: None,
        target: None,
        amount: amount.into(),
        fee: None,
        memo: None,
        cat: None,
        expected: None,
        expires: None,
        args: None,
        fault: Fault::None,
    }
}
fn send(c: &mut Canister, i: &Intent) -> Res {
    let cycles = if i.kind == Kind::Deposit { i.amount.to_u128().unwrap() } else { 0 };
    c.update(i.kind.method(), i.caller.as_slice(), encode(i), cycles, i.fault)
}

struct Built {
    stable: Stable,
    balance: u128,
    certified: Option<Vec<u8>>,
    /// How many blocks there are before those both have.
    before: u64,
    now: u64,
    /// What a request took at most.
    most: u64,
}
fn initial(n: u32) -> Result<Canister, String> {
    let all: Vec<(Account, Nat)> = (0..n).map(|i| (far(i), Nat::from(FEE * 1000 + i as u128))).chain((0..NEAR).map(|i| (near(i), Nat::from(RICH + i as u128)))).collect();
    let init = InitArgs { max_blocks_per_request: MAX_BLOCKS, index_id: None, initial_balances: Some(all) };
    let mut c = Canister::install(LEDGER, START, enc((LedgerArgs::Init(init),)), false)?;
    c.balance += 1 << 100;
    Ok(c)
}
/// `Err`: what takes too long.
fn build(big: bool) -> Result<Built, String> {
    let most = if big {
        let (few, many) = (initial(500)?.last_work, initial(4000)?.last_work);
        if many > few * 16 + MORE {
            return Err(format!("installation with 500 initial balances takes {few} elementary steps, and {many} with 4000"));
        }
        built(false).as_ref().map_err(|e| e.clone())?.most * TIMES + MORE
    } else {
        u64::MAX
    };
    let far_n = if big { FAR } else { 0 };
    let mut c = initial(far_n)?;
    let (mut max, mut slow) = (0, 0);
    let mut expect = |c: &mut Canister, i: &Intent| {
        let r = send(c, i);
        let Res::Reply(b) = &r else { panic!("{i:?}: {r:?}") };
        // Every endpoint's answer has `Ok` for the block's index.
        let g: Result<Nat, serde::de::IgnoredAny> = match i.kind {
            Kind::Approve => dec::<Result<Nat, ApproveError>>(b).unwrap().map_err(|e| panic!("{i:?}: {e:?}")),
            _ => dec::<Result<Nat, TransferError>>(b).unwrap().map_err(|e| panic!("{i:?}: {e:?}")),
        };
        g.unwrap();
        max = max.max(c.last_work);
        slow += (c.last_work > most) as u32;
        // Otherwise this takes for ever.
        if slow > 100 {
            return Err(format!("{} of an account among {FAR}: took {} elementary steps (at most {most} expected), and 100 others before", i.kind.method(), c.last_work));
        }
        Ok(())
    };
    let mut before = far_n as u64;
    if big {
        // Some approvals end soon, very many later, others much later or never.
        let mut deep = 0;
        for k in 0..FAR_APPROVALS {
            // One account has many.
            let (a, b) = if k % 3 == 0 && deep < 900 { (far(7), far(k)) } else { (far(k % FAR), far((k % FAR) * 7 + 1 + k / FAR)) };
            let expires = match k % 16 {
                0 => Some(SOON + (k % 99) as u64),
                1..=11 => Some(START + HOUR / 2 + 1 + (k % 99) as u64),
                12..=14 => Some(START + 30 * HOUR),
                _ => None,
            };
            if a.owner != b.owner {
                expect(&mut c, &Intent { to: Some(b), expires, ..intent(Kind::Approve, &a, FEE * 3) })?;
                before += 1;
                deep += (a == far(7)) as u32;
            }
        }
        for k in 0..FAR_TIMED {
            let i = Intent { to: Some(far(k + 1)), cat: Some(START + k as u64), ..intent(Kind::Transfer, &far(k + 900), 1) };
            expect(&mut c, &i)?;
            before += 1;
        }
    }
    // What both have.
    for k in 0..NEAR * 9 {
        let (a, b) = if k < 620 { (near(5), far(k)) } else { (near(k), near(k * 5 + 1 + k / NEAR)) };
        let expires = match k % 3 {
            0 => Some(START + HOUR / 2 + 1 + (k % 99) as u64),
            1 => Some(START + 2 * HOUR + k as u64),
            _ => None,
        };
        if a.owner != b.owner {
            expect(&mut c, &Intent { to: Some(b), expires, ..intent(Kind::Approve, &a, FEE * (3 + k as u128 % 5)) })?;
        }
    }
    for k in 0..NEAR {
        expect(&mut c, &Intent { to: Some(near(k + 1)), cat: Some(START + k as u64), ..intent(Kind::Transfer, &near(k), 1 + k as u128) })?;
    }
    Ok(Built { stable: c.stable(), balance: c.balance, certified: c.certified.clone(), before, now: c.now, most: max })
}
fn built(big: bool) -> &'static Result<Built, String> {
    static SMALL: OnceLock<Result<Built, String>> = OnceLock::new();
    static BIG: OnceLock<Result<Built, String>> = OnceLock::new();
    if big { &BIG } else { &SMALL }.get_or_init(|| build(big))
}
/// What it takes the big ledger to write one block when few approvals have ended, though more
/// than it removes at once.
fn full() -> u64 {
    static FULL: OnceLock<u64> = OnceLock::new();
    *FULL.get_or_init(|| {
        // In the small ledger there are as many as are removed by three messages, later on.
        let small = removals(false, START + HOUR / 2 + HOUR / 60, 3);
        let big = removals(true, SOON + HOUR / 60, 18);
        if std::env::var_os("SIM_WORK").is_some() {
            eprintln!("FULL {small} {big}");
        }
        big.min(small * 2)
    })
}
fn removals(big: bool, now: u64, n: u32) -> u64 {
    let mut c = start(big);
    // The first access to the ledger's memory adds up all balances.
    c.query("icrc1_total_supply", &[4], enc(()));
    c.now = now;
    (0..n)
        .map(|k| {
            let kind = [Kind::Transfer, Kind::Deposit, Kind::Approve][k as usize % 3];
            let i = Intent { to: Some(near(k + 1)), ..intent(kind, &near(k), 2 * FEE) };
            assert!(matches!(send(&mut c, &i), Res::Reply(_)));
            c.last_work
        })
        .max()
        .unwrap()
}
fn start(big: bool) -> Canister {
    let b = built(big).as_ref().expect("built");
    let mut c = Canister::resume(LEDGER, b.now, b.balance, b.stable.clone(), enc((None::<LedgerArgs>,))).expect("post_upgrade");
    c.certified = b.certified.clone();
    c
}

struct Pair2 {
    small: Canister,
    big: Canister,
    by: u64,
    finds: Vec<Find>,
    stats: Stats,
    trace: Vec<String>,
    asked: Vec<(Intent, u8)>,
    extra: Option<Nat>,
    started: u64,
    /// How many blocks there are in the small ledger, and were at the last message.
    length: (u64, u64),
}
impl Pair2 {
    fn new() -> Pair2 {
        let before = |big| built(big).as_ref().expect("built").before;
        let by = before(true) - before(false);
        assert!(by > 65_536);
        let mut w = Pair2 {
            small: start(false),
            big: start(true),
            by,
            finds: vec![],
            stats: Stats::default(),
            trace: vec![],
            asked: vec![],
            extra: None,
            started: 0,
            length: (0, 0),
        };
        w.warm_up();
        let n = w.length();
        w.length = (n, n);
        w
    }
    fn bad(&mut self, m: String) {
        self.finds.push(Find { props: vec!["C29"], msg: m });
    }
    fn work(&mut self, what: &str, query: bool) {
        let (s, b) = (self.small.last_work, self.big.last_work);
        let mut most = TIMES * s + MORE;
        if !query {
            let n = self.length();
            self.length = (n, self.length.0);
            // With every block some of the approvals that have ended are removed. (That the small
            // ledger does not have so many of them.)
            if self.small.now >= SOON {
                // A refund may come with two such removals.
                let more = what.ends_with(')') as u64;
                most += full() * 4 / 3 * (n - self.length.1 + more).max(1);
            }
        }
        if std::env::var_os("SIM_WORK").is_some() {
            eprintln!("WORK {} {} {s} {b} {most} {}", query, self.small.now >= SOON, b as f64 / most as f64);
        }
        self.stats.hit("measured");
        if b > most {
            self.bad(format!("{what}: took {b} elementary steps in the big ledger (at most {most} expected) and {s} in the small one"));
        }
        // After a trap the simulator starts the canister anew.
        if self.big.reinstalls + self.small.reinstalls != self.started {
            self.started = self.big.reinstalls + self.small.reinstalls;
            self.warm_up();
        }
    }
    /// The first access to the ledger's memory adds up all balances, once per upgrade.
    fn warm_up(&mut self) {
        self.query("icrc1_total_supply", enc(()));
    }
    fn query(&mut self, method: &str, arg: Vec<u8>) -> (Res, Res) {
        let s = self.small.query(method, &[4], arg.clone());
        let b = self.big.query(method, &[4], arg);
        (s, b)
    }
    fn same(&mut self, method: &str, arg: Vec<u8>, what: &str) {
        let (s, b) = self.query(method, arg);
        self.trace.push(what.into());
        if s != b {
            self.bad(format!("{what}: the big ledger answers {b:?}, the small one {s:?}"));
        }
        self.work(what, true);
    }
}

fn run(case: &Case) -> Outcome {
    for b in [false, true] {
        if let Err(e) = built(b) {
            return Outcome { finds: vec![Find { props: vec!["C29"], msg: e.clone() }], ..Outcome::default() };
        }
    }
    let mut w = Pair2::new();
    for o in &case.ops {
        if !w.finds.is_empty() {
            break;
        }
        step(&mut w, o);
    }
    let nontrivial = w.stats.get("granted") > 2 && w.stats.get("pages") > 0 && w.stats.get("measured") > 8;
    Outcome { nontrivial, checks: w.stats.get("measured"), finds: w.finds, stats: w.stats, trace: w.trace }
}

/// The same answer with the blocks' indices of the small ledger.
fn shifted(o: Out, by: u64) -> Out {
    let d = |n: Nat| if n >= Nat::from(by) { n - Nat::from(by) } else { n + Nat::from(u64::MAX) };
    let dd = |n: Option<Option<Nat>>| n.map(|n| n.map(d));
    match o {
        Out::Ok { block, canister, balance } => Out::Ok { block: d(block), canister, balance },
        Out::Err(E::Duplicate(n, c)) => Out::Err(E::Duplicate(d(n), c)),
        // An allowance that has ended is one of nothing, whether or not it is still there.
        Out::Err(E::Generic(c, _)) if c == 100_003u32 => Out::Err(E::Allowance(0u8.into())),
        Out::Err(E::Failed(f)) => Out::Err(E::Failed(Failed { burn: dd(f.burn), refund: dd(f.refund), approval: dd(f.approval), ..f })),
        o => o,
    }
}
fn out(kind: Kind, r: &Res) -> Out {
    match r {
        Res::Reply(b) => decode(kind, b),
        // What a trap says is for the log.
        Res::Trap(_) => Out::Trap(String::new()),
        Res::Reject(m) => Out::Garbled(m.clone()),
        Res::Pending(_) => Out::Pending(0),
    }
}

impl Pair2 {
    fn ask(&mut self, i: &Intent, how: u8) {
        let what = format!("{} {}{}", i.kind.method(), self.asked.len(), if i.fault == Fault::CallFails { " (call fails)" } else { "" });
        self.trace.push(format!("{what}: {i:?}"));
        let mut rs = send(&mut self.small, i);
        let mut rb = send(&mut self.big, i);
        self.work(&what, false);
        loop {
            let (s, b) = (shifted(out(i.kind, &rs), 0), shifted(out(i.kind, &rb), self.by));
            if s != b {
                return self.bad(format!("{what}: the big ledger answers {b:?} (its indices less {}), the small one {s:?}", self.by));
            }
            if matches!(s, Out::Ok { .. }) {
                self.stats.hit("granted");
            }
            let call = |p: &Pending| (p.callee.clone(), p.method.clone(), p.arg.clone(), p.cycles);
            let (ps, pb): (Vec<_>, Vec<_>) = (self.small.pending.iter().map(call).collect(), self.big.pending.iter().map(call).collect());
            if ps != pb {
                return self.bad(format!("{what}: the big ledger calls {pb:?}, the small one {ps:?}"));
            }
            let Some((_, method, _, cycles)) = ps.first() else { return };
            let id = Principal::from_slice(&[9, 9, self.asked.len() as u8, 1]);
            let (answer, refund) = match how % 4 {
                0 => (Err((4, "no".into())), *cycles),
                1 if method == "create_canister" => (Ok(enc((Err::<Principal, CmcError>(CmcError::Refunded { refund_amount: (*cycles).into(), create_error: "full".into() }),))), *cycles),
                _ if method == "create_canister" => (Ok(enc((Ok::<Principal, CmcError>(id),))), 0),
                _ => (Ok(enc(())), 0),
            };
            rs = self.small.respond(0, answer.clone(), refund);
            rb = self.big.respond(0, answer, refund);
            self.work(&format!("{what} (called back)"), false);
            self.stats.hit("called_back");
        }
    }
    fn blocks(&mut self, small: Vec<BlockRange>, big: Vec<BlockRange>, same: bool) {
        let what = format!("icrc3_get_blocks {:?}", big.iter().take(3).map(|r| (r.start.clone(), r.length.clone())).collect::<Vec<_>>());
        self.trace.push(what.clone());
        let s = self.small.query("icrc3_get_blocks", &[4], enc((small,)));
        let b = self.big.query("icrc3_get_blocks", &[4], enc((big.clone(),)));
        self.work(&what, true);
        let (s, b) = match (&s, &b) {
            (Res::Reply(s), Res::Reply(b)) => match (dec::<GetBlocksResult>(s), dec::<GetBlocksResult>(b)) {
                (Ok(s), Ok(b)) => (s, b),
                x => return self.bad(format!("{what}: {x:?}")),
            },
            (Res::Trap(_), Res::Trap(_)) => return,
            x => return self.bad(format!("{what}: {x:?}")),
        };
        let by = Nat::from(self.by);
        if b.log_length != s.log_length.clone() + by.clone() {
            return self.bad(format!("{what}: the big ledger has {} blocks, the small one {}, {by} less expected", b.log_length, s.log_length));
        }
        // The blocks asked for that there are, as many as may be given at once.
        let mut want = vec![];
        for r in &big {
            let (from, to) = (r.start.0.clone(), (r.start.clone() + r.length.clone()).0.min(b.log_length.0.clone()));
            let mut k = from;
            while k < to && want.len() < MAX_BLOCKS as usize {
                want.push(Nat(k.clone()));
                k += 1u8;
            }
        }
        let got: Vec<Nat> = b.blocks.iter().map(|x| x.id.clone()).collect();
        if got != want {
            return self.bad(format!("{what}: blocks {got:?}, expected {want:?}"));
        }
        if got.len() > 3 {
            self.stats.hit("pages");
        }
        if same {
            for (x, y) in s.blocks.iter().zip(&b.blocks) {
                // The chain before is another one.
                let plain = |v: &Value| match v {
                    Value::Map(m) => Value::Map(m.iter().filter(|(k, _)| k != "phash").cloned().collect()),
                    v => v.clone(),
                };
                if plain(&x.block) != plain(&y.block) {
                    return self.bad(format!("{what}: block {} is {:?}, and {:?} in the small ledger", y.id, y.block, x.block));
                }
            }
        } else {
            for y in &b.blocks {
                let k = y.id.0.to_u64().unwrap() as u32;
                if k < FAR {
                    let (a, x) = (far(k), FEE * 1000 + k as u128);
                    let tx = y.block.map().and_then(|m| m.get("tx").and_then(|t| t.map()).map(|t| (t.get("amt").map(|v| (*v).clone()), t.get("to").map(|v| (*v).clone()))));
                    let mut parts = vec![Value::Blob(ByteBuf::from(a.owner.as_slice()))];
                    parts.extend(a.subaccount.clone().map(Value::Blob));
                    if tx != Some((Some(Value::Nat(x.into())), Some(Value::Array(parts.clone())))) {
                        return self.bad(format!("{what}: block {k} is {:?}, not the mint of {x} to {parts:?}", y.block));
                    }
                }
            }
        }
    }
    fn length(&mut self) -> u64 {
        match self.small.query("icrc3_get_blocks", &[4], enc((Vec::<BlockRange>::new(),))) {
            Res::Reply(b) => dec::<GetBlocksResult>(&b).map_or(0, |r| r.log_length.0.to_u64().unwrap_or(0)),
            _ => 0,
        }
    }
}

fn step(w: &mut Pair2, o: &Do) {
    let now = w.small.now;
    match *o {
        Do::Ask(kind, a, b, c, m, cat, exp, how) => {
            use Kind::*;
            let kind = [Transfer, Transfer, Transfer, TransferFrom, TransferFrom, TransferFrom, Approve, Approve, Approve, Deposit, Withdraw, WithdrawFrom, Create, CreateFrom][kind as usize % 14];
            // Payers and spenders among few, so that there are allowances.
            let (x, y, z) = (near(a as u32 % 16), near(b as u32 % 16), near(c as u32));
            let amount = match m % 8 {
                0 => RICH * 2,
                1 => 0,
                _ => FEE / 2 * (m as u128 % 7) + m as u128,
            };
            let mut i = Intent { cat: cat.map(|s| now - s as u64 * 1_000_000_000), ..intent(kind, &x, amount) };
            match kind {
                Approve => {
                    i.to = Some(y);
                    i.expires = exp.map(|m| now + m as u64 * 60_000_000_000);
                }
                TransferFrom => (i.caller, i.spender, i.to) = (y.owner, Some(y), Some(z)),
                WithdrawFrom | CreateFrom => (i.caller, i.spender) = (y.owner, Some(y)),
                _ => i.to = Some(z),
            }
            i.target = Some(Principal::from_slice(&[0, 0, 0, 0, 0, 16, 0, 3, 1, 1]));
            i.fault = if how % 8 == 7 { Fault::CallFails } else { Fault::None };
            if kind == Deposit {
                i.amount = (FEE + amount).into();
                i.cat = None;
            }
            w.asked.push((i.clone(), how));
            w.ask(&i, how);
        }
        Do::Again(k) => {
            if let Some((i, how)) = w.asked.iter().rev().nth(k as usize % 4).cloned() {
                w.asked.push((i.clone(), how));
                w.ask(&i, how);
            }
        }
        Do::Balance(a) => w.same("icrc1_balance_of", enc((near(a as u32),)), &format!("icrc1_balance_of {a}")),
        Do::Allowance(a, b) => {
            let (a, b) = (a as u32 % 16, b as u32 % 16);
            w.same("icrc2_allowance", enc((AllowanceArgs { account: near(a), spender: near(b) },)), &format!("icrc2_allowance {a} {b}"))
        }
        Do::List(a, prev, take) => {
            let from = near(if a % 2 == 0 { 5 } else { a as u32 % 16 });
            let prev = prev.map(|p| if a % 2 == 0 { far(p as u32 * 3) } else { near(p as u32) });
            let arg = GetAllowancesArgs { from_account: Some(from.clone()), prev_spender: prev, take: (take > 0).then_some(take.into()) };
            // Only one's own are shown to anyone; who asks is the owner.
            let arg = enc((arg,));
            let s = w.small.query("icrc103_get_allowances", from.owner.as_slice(), arg.clone());
            let b = w.big.query("icrc103_get_allowances", from.owner.as_slice(), arg);
            let what = format!("icrc103_get_allowances {a} {take}");
            w.trace.push(what.clone());
            // Ended approvals that are still there are passed over; how many of them there are is
            // not the same in both.
            if s != b {
                w.bad(format!("{what}: the big ledger answers {b:?}, the small one {s:?}"));
            }
            w.stats.hit("lists");
            w.work(&what, true);
        }
        Do::Recent(back, len, many) => {
            let n = w.length();
            let many = if many < 200 { 1 + many as u64 % 3 } else { 1 + (many as u64 - 200) * 4 };
            let at = |k: u64| n.saturating_sub(back as u64).saturating_sub(k);
            let of = |by: u64| (0..many).map(|k| BlockRange { start: (at(k) + by).into(), length: (len as u64).into() }).collect::<Vec<_>>();
            let (s, b) = (of(0), of(w.by));
            w.blocks(s, b, true)
        }
        Do::Blocks(at, len) => {
            let start = at as u64 * w.by / 65536;
            let s = vec![BlockRange { start: (start % 100).into(), length: (len as u64).into() }];
            let b = vec![BlockRange { start: start.into(), length: (len as u64).into() }];
            w.blocks(s, b, false)
        }
        Do::Look(k) => {
            let (m, arg) = match k % 8 {
                0 => ("icrc1_total_supply", enc(())),
                1 => ("icrc3_get_tip_certificate", enc(())),
                2 => ("icrc3_get_archives", enc((GetArchivesArgs { from: None },))),
                3 => ("icrc1_metadata", enc(())),
                4 => ("icrc1_fee", enc(())),
                5 => ("icrc3_supported_block_types", enc(())),
                k => ("http_request", enc((HttpRequest { url: if k == 6 { "/metrics".into() } else { "/".into() }, method: "GET".into(), body: ByteBuf::new(), headers: vec![] },))),
            };
            w.trace.push(m.into());
            let (s, b) = w.query(m, arg);
            w.work(m, true);
            match (m, s, b) {
                ("icrc1_total_supply", Res::Reply(s), Res::Reply(b)) => match (dec::<Nat>(&s), dec::<Nat>(&b)) {
                    (Ok(s), Ok(b)) if b > s => {
                        // What the others have does not change.
                        let d = b - s;
                        if w.extra.get_or_insert(d.clone()) != &d {
                            let e = w.extra.clone();
                            w.bad(format!("icrc1_total_supply: the big ledger has {d} more than the small one, {e:?} before"));
                        }
                    }
                    x => w.bad(format!("icrc1_total_supply: {x:?}")),
                },
                (_, Res::Reply(s), Res::Reply(b)) => {
                    if !["http_request", "icrc3_get_tip_certificate"].contains(&m) && s != b {
                        w.bad(format!("{m}: the big ledger answers otherwise than the small one"));
                    }
                }
                (m, s, b) => w.bad(format!("{m}: {s:?}, in the big ledger {b:?}")),
            }
        }
        Do::Wait(m) => {
            let secs = if m < 128 { m as u64 } else { (m as u64 - 128) * 60 };
            // The requests of the build stay in the window.
            let t = (now + secs * 1_000_000_000).min(START + 20 * HOUR);
            (w.small.now, w.big.now) = (t, t);
            w.trace.push(format!("wait {secs} s"));
        }
        Do::Upgrade(none) => {
            w.trace.push("upgrade".into());
            let arg = if none { enc((None::<LedgerArgs>,)) } else { enc((Some(LedgerArgs::Upgrade(None)),)) };
            for c in [&mut w.small, &mut w.big] {
                if let Err(e) = c.upgrade(arg.clone()) {
                    w.finds.push(Find { props: vec!["C29"], msg: format!("upgrade: {e}") });
                    return;
                }
            }
            w.warm_up();
        }
    }
}

pub fn prop() -> Prop<Case> {
    let u = any::<u8>;
    let op = prop_oneof![
        16 => (u(), u(), u(), u(), u(), prop::option::weighted(0.5, u()), prop::option::of(u()), u()).prop_map(|(k, a, b, c, m, t, e, h)| Do::Ask(k, a, b, c, m, t, e, h)),
        2 => u().prop_map(Do::Again),
        1 => u().prop_map(Do::Balance),
        1 => (u(), u()).prop_map(|(a, b)| Do::Allowance(a, b)),
        2 => (u(), prop::option::of(u()), prop_oneof![Just(0u16), 0u16..1000]).prop_map(|(a, p, t)| Do::List(a, p, t)),
        2 => (u(), u(), u()).prop_map(|(b, l, m)| Do::Recent(b, l, m)),
        2 => (any::<u16>(), u()).prop_map(|(a, l)| Do::Blocks(a, l)),
        3 => u().prop_map(Do::Look),
        2 => u().prop_map(Do::Wait),
        1 => any::<bool>().prop_map(Do::Upgrade),
    ];
    Prop {
        id: "C29",
        strategy: prop::collection::vec(op, 4..40).prop_map(|ops| Case { ops }).boxed(),
        run: Arc::new(run),
        rule: "at least 3 requests granted, a page of blocks read, and the work of at least 9 messages measured",
        how: "Two ledgers are built once through their own endpoints: a small one (120 accounts, 1,500 blocks, 1,000 approvals, 120 remembered requests) and one that holds the same on top of 30,000 other accounts, 80,000 blocks, 45,000 approvals (most of them about to end) and 6,000 remembered requests. A case is a sequence of requests of every kind, queries, upgrades and time steps, sent to both. Every answer of the big ledger has to be the small one's, with blocks counted from another start, and no message may take more than 6 times the small ledger's elementary steps (accesses to stable memory, allocations) and 4,000 more.",
        assumptions: ASSUMPTIONS,
        quick: (1000, 75),
        thorough: (1_000_000, 600),
        fixed: vec![],
    }
}
