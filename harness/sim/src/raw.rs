//! Requests no honest client would send: bytes that are no candid, candid that was tampered
//! with, and well-typed arguments at the edge of what the types can say.
use crate::inst::{entry, Fault, Res, methods};
use iface::model::*;
use iface::ops::Amt;
use iface::types::*;
use crate::world::*;
use candid::{Nat, Principal};
use ic0::mock::Mode;
use num_bigint::BigUint;
use num_traits::ToPrimitive;
use serde_bytes::ByteBuf;

fn blank(kind: Kind, caller: Principal, from: Account) -> Intent {
    Intent {
        kind,
        caller,
        from,
        spender: None,
        to: None,
        target: None,
        amount: 0u8.into(),
        fee: None,
        memo: None,
        cat: None,
        expected: None,
        expires: None,
        args: None,
        fault: Fault::None,
    }
}

/// What a message says, if it says something the interface knows.
fn parse(method: &str, caller: Principal, b: &[u8], cycles: u128) -> Option<Intent> {
    let big = |n: Nat| n.0;
    let me = |s: Option<ByteBuf>| Account { owner: caller, subaccount: s };
    let memo = |m: Option<ByteBuf>| m.map(|m| m.into_vec());
    Some(match method {
        "deposit" => {
            let a: DepositArgs = dec(b).ok()?;
            Intent { amount: cycles.into(), memo: memo(a.memo), ..blank(Kind::Deposit, caller, a.to) }
        }
        "icrc1_transfer" => {
            let a: TransferArgs = dec(b).ok()?;
            Intent { to: Some(a.to), amount: big(a.amount), fee: a.fee.map(big), memo: memo(a.memo), cat: a.created_at_time, ..blank(Kind::Transfer, caller, me(a.from_subaccount)) }
        }
        "icrc2_transfer_from" => {
            let a: TransferFromArgs = dec(b).ok()?;
            Intent {
                spender: Some(me(a.spender_subaccount)),
                to: Some(a.to),
                amount: big(a.amount),
                fee: a.fee.map(big),
                memo: memo(a.memo),
                cat: a.created_at_time,
                ..blank(Kind::TransferFrom, caller, a.from)
            }
        }
        "icrc2_approve" => {
            let a: ApproveArgs = dec(b).ok()?;
            Intent {
                to: Some(a.spender),
                amount: big(a.amount),
                expected: a.expected_allowance.map(big),
                expires: a.expires_at,
                fee: a.fee.map(big),
                memo: memo(a.memo),
                cat: a.created_at_time,
                ..blank(Kind::Approve, caller, me(a.from_subaccount))
            }
        }
        "withdraw" => {
            let a: WithdrawArgs = dec(b).ok()?;
            Intent { target: Some(a.to), amount: big(a.amount), cat: a.created_at_time, ..blank(Kind::Withdraw, caller, me(a.from_subaccount)) }
        }
        "withdraw_from" => {
            let a: WithdrawFromArgs = dec(b).ok()?;
            Intent { target: Some(a.to), amount: big(a.amount), cat: a.created_at_time, spender: Some(me(a.spender_subaccount)), ..blank(Kind::WithdrawFrom, caller, a.from) }
        }
        "create_canister" => {
            let a: CreateCanisterArgs = dec(b).ok()?;
            Intent { amount: big(a.amount), cat: a.created_at_time, args: a.creation_args, ..blank(Kind::Create, caller, me(a.from_subaccount)) }
        }
        "create_canister_from" => {
            let a: CreateCanisterFromArgs = dec(b).ok()?;
            Intent { amount: big(a.amount), cat: a.created_at_time, args: a.creation_args, spender: Some(me(a.spender_subaccount)), ..blank(Kind::CreateFrom, caller, a.from) }
        }
        _ => return None,
    })
}

/// A well-formed argument to start from.
fn template(w: &World, method: &str, k: u8) -> Vec<u8> {
    if let Some(i) = w.requests.iter().rev().skip(k as usize % 3).find(|i| i.kind.method() == method) {
        return World::encode(i);
    }
    let a = account((k % 3, k / 3 % 3));
    let kind = match method {
        "deposit" => Kind::Deposit,
        "icrc1_transfer" => Kind::Transfer,
        "icrc2_transfer_from" => Kind::TransferFrom,
        "icrc2_approve" => Kind::Approve,
        "withdraw" => Kind::Withdraw,
        "withdraw_from" => Kind::WithdrawFrom,
        "create_canister" => Kind::Create,
        "create_canister_from" => Kind::CreateFrom,
        "icrc1_balance_of" => return enc((a,)),
        "icrc2_allowance" => return enc((AllowanceArgs { account: a.clone(), spender: a },)),
        "icrc3_get_blocks" => return enc((vec![BlockRange { start: 0u8.into(), length: 5u8.into() }, BlockRange { start: k.into(), length: k.into() }],)),
        "icrc103_get_allowances" => return enc((GetAllowancesArgs { from_account: Some(a.clone()), prev_spender: Some(a), take: Some(k.into()) },)),
        "http_request" => return enc((HttpRequest { url: "/metrics".into(), method: "GET".into(), body: ByteBuf::new(), headers: vec![("a".into(), "b".into())] },)),
        "icrc3_get_archives" => return enc((GetArchivesArgs { from: Some(a.owner) },)),
        _ => return enc(()),
    };
    let other = account((k / 7 % 3, 0));
    let mut i = blank(kind, a.owner, a.clone());
    i.spender = Some(a);
    i.to = Some(other);
    i.target = Some(principal(3 + k % 3));
    i.amount = (FEE * (k as u128 % 4)).into();
    i.cat = (k % 2 == 0).then_some(w.m.now);
    i.args = w.cmc_args(&iface::ops::CArgs { shape: k % 4, bits: k.wrapping_mul(57), subnet: k / 4 });
    World::encode(&i)
}

pub fn raw(w: &mut World, method: u8, caller: u8, bytes: &[u8], mutate: &Option<(u8, u16, u8)>) {
    let m = methods()[method as usize % methods().len()];
    let caller = principal(caller);
    let arg = match mutate {
        None => bytes.to_vec(),
        Some((how, pos, val)) => {
            let mut b = template(w, m, *val);
            let at = *pos as usize % b.len().max(1);
            match how % 8 {
                0 => b[at] ^= 1 << (val % 8),
                1 => b[at] = *val,
                2 => b.truncate(at),
                3 => b.extend_from_slice(bytes),
                4 => {
                    let t = b.split_off(at);
                    b.extend_from_slice(bytes);
                    b.extend(t);
                }
                5 => {
                    let e = (at + *val as usize % 9).min(b.len());
                    b.drain(at..e);
                }
                6 => b = [b"DIDL".as_slice(), bytes].concat(),
                _ => {
                    // The right argument for another endpoint.
                    b = template(w, methods()[*pos as usize % methods().len()], *val)
                }
            }
            b
        }
    };
    send(w, m, caller, arg);
}

fn send(w: &mut World, m: &'static str, caller: Principal, arg: Vec<u8>) {
    w.stats.hit("raw");
    let (mode, _) = entry(m).unwrap();
    if mode == Mode::Query {
        match w.c.query(m, caller.as_slice(), arg) {
            Res::Reply(_) => w.stats.hit("raw_answered"),
            _ => w.stats.hit("raw_refused"),
        }
        return;
    }
    let cycles = if m == "deposit" { FEE * 2 + 3 } else { 0 };
    if let Some(i) = parse(m, caller, &arg, cycles) {
        w.stats.hit("raw_understood");
        w.lenient = true;
        w.request_bytes(&i, arg, cycles);
        w.lenient = false;
        return;
    }
    let a = w.dump(true);
    let r = w.c.update(m, caller.as_slice(), arg.clone(), cycles, Fault::None);
    let b = w.dump(true);
    w.stats.hit("raw_refused");
    match (&r, &a, &b) {
        (_, Ok(a), Ok(b)) if a == b => {}
        // The candid library reads a blob of more than 32 bytes as a subaccount and takes what
        // is left of it for what follows, so that it can make sense of some tampered messages
        // that have none. What was done then cannot be judged, but for what holds always.
        (Res::Reply(_) | Res::Pending(_), Ok(_), Ok(b)) => {
            w.stats.hit("raw_misread");
            if BigUint::from(w.c.balance) < BigUint::from(crate::inst::FLOAT) + &b.supply.0 {
                w.find(&["C01", "C21"], format!("after {m} with {arg:02x?}: the supply is not backed"));
            }
            w.over = true;
        }
        (_, Ok(a), Ok(b)) => w.find(&["C21", "C08"], format!("{m} with {arg:02x?} was refused ({r:?}) and left traces: {}", diff(a, b))),
        (_, a, b) => w.find(&["C21"], format!("{m} with {arg:02x?}: {:?} {:?}", a.as_ref().err(), b.as_ref().err())),
    }
}

pub fn probe(w: &mut World, what: u8, a: u8, b: u8) {
    w.stats.hit("probes");
    let kinds = [Kind::Transfer, Kind::TransferFrom, Kind::Approve, Kind::Withdraw, Kind::WithdrawFrom, Kind::Create, Kind::CreateFrom, Kind::Deposit];
    let kind = kinds[b as usize % 8];
    let payer = account((a % 3, a / 3 % 3));
    let other = account((a / 9 % 4, a / 36 % 3));
    let by_allowance = matches!(kind, Kind::TransferFrom | Kind::WithdrawFrom | Kind::CreateFrom);
    let base = || {
        let mut i = blank(kind, if by_allowance { other.owner } else { payer.owner }, payer.clone());
        if by_allowance {
            i.spender = Some(other.clone());
        }
        if matches!(kind, Kind::Transfer | Kind::TransferFrom | Kind::Approve) {
            i.to = Some(account((3, 0)));
        }
        if matches!(kind, Kind::Withdraw | Kind::WithdrawFrom) {
            i.target = Some(principal(3));
        }
        i.amount = (FEE * 2).into();
        i
    };
    match what % 9 {
        // Subaccounts that are none.
        0 => {
            let s = Some(ByteBuf::from(vec![a; [0, 1, 31, 33, 64, 1000][b as usize / 8 % 6]]));
            let mut i = base();
            match a % 3 {
                1 if i.spender.is_some() => i.spender.as_mut().unwrap().subaccount = s,
                2 if i.to.is_some() => i.to.as_mut().unwrap().subaccount = s,
                _ => i.from.subaccount = s,
            }
            w.request(&i);
        }
        // Very large numbers.
        1 => {
            let big = BigUint::from(1u8) << [127usize, 128, 129, 192, 256, 1000, 5000][a as usize % 7];
            let big = if a & 128 == 0 { big - 1u8 } else { big };
            let mut i = base();
            match b / 8 % 3 {
                1 if matches!(kind, Kind::Transfer | Kind::TransferFrom | Kind::Approve) => i.fee = Some(big),
                2 if kind == Kind::Approve => i.expected = Some(big),
                _ if kind == Kind::Deposit => {}
                _ => i.amount = big,
            }
            w.request(&i);
        }
        // Memos of any length.
        2 => {
            let mut i = base();
            if matches!(kind, Kind::Transfer | Kind::TransferFrom | Kind::Approve | Kind::Deposit) {
                i.memo = Some(vec![a; [0, 32, 33, 64, 255, 256, 5000, 70_000][b as usize / 8 % 8]]);
            }
            w.request(&i);
        }
        // Principals of any length.
        3 => {
            let p = |x: u8| Principal::from_slice(&vec![x; x as usize % 30]);
            let mut i = base();
            i.from.owner = p(a);
            match &mut i.spender {
                Some(s) => {
                    s.owner = p(b);
                    i.caller = p(b)
                }
                None => i.caller = p(a),
            }
            if let Some(t) = &mut i.to {
                t.owner = p(b.wrapping_add(a))
            }
            if let Some(t) = &mut i.target {
                *t = p(b.wrapping_add(a))
            }
            w.request(&i);
        }
        // Pages over HTTP.
        4 => {
            let urls = ["/", "/metrics", "/metrics?x=1", "", "//", "/logs", "/metrics/", "http://[::1", "é", "/%00", "/dashboard"];
            w.check_http(urls[a as usize % urls.len()], ["GET", "POST", "", "PUT"][b as usize % 4], vec![b; a as usize]);
        }
        // Many ranges, and ranges out of this world.
        5 => {
            let huge = Nat(BigUint::from(1u8) << (b as usize % 300));
            let n = [0usize, 1, 100, 101, 1000, 3000][a as usize % 6];
            let args: Vec<_> = (0..n).map(|k| BlockRange { start: if a & 64 == 0 { Nat::from(k) } else { huge.clone() }, length: huge.clone() }).collect();
            match w.get_blocks(args) {
                Ok(r) if (r.blocks.len() as u64) <= w.m.max_blocks => {}
                Ok(r) => w.find(&["C17"], format!("icrc3_get_blocks gives {} blocks at once", r.blocks.len())),
                Err(e) => w.find(&["C17", "C21"], format!("icrc3_get_blocks with {n} ranges to {huge}: {e}")),
            }
        }
        6 => {
            let sub = |x: u8| Some(ByteBuf::from(vec![x; 32]));
            let acc = |x: u8| Account { owner: Principal::from_slice(&vec![255; x as usize % 30]), subaccount: if x & 64 == 0 { None } else { sub(255) } };
            let args = GetAllowancesArgs { from_account: (a & 1 == 0).then(|| acc(a)), prev_spender: (b & 1 == 0).then(|| acc(b)), take: (a & 2 == 0).then(|| Nat(BigUint::from(1u8) << (b as usize))) };
            let caller = principal(a / 4);
            let r: Result<Result<Vec<AllowanceEntry>, GetAllowancesError>, String> = w.q("icrc103_get_allowances", caller, enc((args.clone(),)));
            if let Err(e) = r {
                w.find(&["C18", "C21"], format!("icrc103_get_allowances {args:?}: {e}"));
            }
        }
        7 => {
            let from = (a & 1 == 0).then(|| principal(b));
            let r: Result<Vec<ArchiveInfo>, String> = w.q("icrc3_get_archives", principal(a), enc((GetArchivesArgs { from },)));
            match r {
                Ok(v) if v.is_empty() => {}
                r => w.find(&["C17", "C25"], format!("icrc3_get_archives: {r:?}")),
            }
        }
        // Times at the ends of time.
        _ => {
            let t = [0, 1, u64::MAX, u64::MAX - 1, 1 << 63, w.m.now.wrapping_neg(), w.m.now / 1_000_000_000, w.m.now - 1][a as usize % 8];
            let mut i = base();
            if kind == Kind::Approve && b & 8 == 0 {
                i.expires = Some(t);
            } else if kind != Kind::Deposit {
                i.cat = Some(t);
            }
            w.request(&i);
        }
    }
    let _ = (Amt::Abs(0), 0u128.to_u128());
}
