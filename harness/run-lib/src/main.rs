//! C30: what the ledger's library makes of a block: its value, its stored bytes, its fingerprints
//! and the way back from each, and the conversion between CBOR and generic values under it all.
use candid::{Int, Nat, Principal};
use ciborium::Value as CV;
use cycles_ledger::config::Config;
use cycles_ledger::storage::{Block, Cbor, Operation, Transaction};
use cycles_ledger::{ciborium_to_generic_value, generic_to_ciborium_value};
use iface::{icrc3, types::Value as V};
use ic_stable_structures::Storable;
use icrc_ledger_types::icrc::generic_value::Value as GV;
use icrc_ledger_types::icrc1::{account::Account, transfer::Memo};
use num_bigint::BigUint;
use num_traits::Signed;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_bytes::ByteBuf;
use sim::engine::{Outcome, Prop};
use sim::{Find, Stats};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    block: B,
    edits: Vec<Edit>,
    tree: Tree,
    /// Layers around the tree: 0 array, 1 map, 2 self-described tag (CBOR only).
    layers: Vec<u8>,
    page: u64,
    index: Option<Vec<u8>>,
    balances: Option<Vec<(A, N)>>,
}
/// A number of 128 bits.
type N = (u64, u64);
type A = (Vec<u8>, Option<[u8; 32]>);

/// All fields a block may have; each operation takes those it knows.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct B {
    op: u8,
    from: A,
    to: A,
    spender: Option<A>,
    amount: N,
    fee: Option<N>,
    expected: Option<N>,
    expires: Option<u64>,
    created: Option<u64>,
    memo: Option<Vec<u8>>,
    time: u64,
    phash: Option<[u8; 32]>,
    effective: Option<N>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    /// Without the key of this number.
    Drop(u8),
    /// With another operation's name.
    Name(u8),
    /// An account with other parts.
    Parts(u8, u8),
    /// A number that is too large.
    Large(u8, u8),
    /// Bytes of a wrong length.
    Length(u8, u8),
    /// Something of another kind.
    Kind(u8, Tree),
    /// An integer for a natural number.
    Integers,
    /// One more field.
    More(u8, Tree),
    /// Not a map at all.
    Other(Tree),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tree {
    Nat(u64, u8),
    Nat64(u64),
    Int(u64),
    Negative(u64),
    BigInt(u64, u8),
    Blob(Vec<u8>),
    Text(String),
    Array(Vec<Tree>),
    Map(Vec<(String, Tree)>),
    // In CBOR only.
    Bool(bool),
    Null,
    Float(u32),
    Tag(u64, Box<Tree>),
    Padded(u64, u8),
    BadKey(Box<Tree>, Box<Tree>),
    Selfed(Box<Tree>),
}

fn n(x: &N) -> u128 {
    (x.0 as u128) << 64 | x.1 as u128
}
fn acc(a: &A) -> Account {
    Account { owner: Principal::from_slice(&a.0), subaccount: a.1 }
}

// ---- the library's types ----

fn block(b: &B) -> Block {
    let fee = b.fee.as_ref().map(n);
    let operation = match b.op % 4 {
        0 => Operation::Mint { to: acc(&b.to), amount: n(&b.amount), fee: fee.unwrap_or(0) },
        1 => Operation::Burn { from: acc(&b.from), spender: b.spender.as_ref().map(acc), amount: n(&b.amount) },
        2 => Operation::Transfer { from: acc(&b.from), to: acc(&b.to), spender: b.spender.as_ref().map(acc), amount: n(&b.amount), fee },
        _ => Operation::Approve {
            from: acc(&b.from),
            spender: acc(b.spender.as_ref().unwrap_or(&b.to)),
            amount: n(&b.amount),
            expected_allowance: b.expected.as_ref().map(n),
            expires_at: b.expires,
            fee,
        },
    };
    Block {
        transaction: Transaction { operation, created_at_time: b.created, memo: b.memo.clone().map(|m| Memo(ByteBuf::from(m))) },
        timestamp: b.time,
        phash: b.phash,
        effective_fee: b.effective.as_ref().map(n),
    }
}
fn from_gv(v: &GV) -> V {
    match v {
        GV::Blob(b) => V::Blob(b.clone()),
        GV::Text(t) => V::Text(t.clone()),
        GV::Nat(x) => V::Nat(x.clone()),
        GV::Nat64(x) => V::Nat64(*x),
        GV::Int(x) => V::Int(x.clone()),
        GV::Array(a) => V::Array(a.iter().map(from_gv).collect()),
        GV::Map(m) => V::Map(m.iter().map(|(k, v)| (k.clone(), from_gv(v))).collect()),
    }
}
fn to_gv(v: &V) -> GV {
    match v {
        V::Blob(b) => GV::Blob(b.clone()),
        V::Text(t) => GV::Text(t.clone()),
        V::Nat(x) => GV::Nat(x.clone()),
        V::Nat64(x) => GV::Nat64(*x),
        V::Int(x) => GV::Int(x.clone()),
        V::Array(a) => GV::Array(a.iter().map(to_gv).collect()),
        V::Map(m) => GV::Map(m.iter().map(|(k, v)| (k.clone(), to_gv(v))).collect()),
    }
}

// ---- the model: ICRC-3 and the format of the stored log ----

fn nat(x: u128) -> V {
    V::Nat(Nat::from(x))
}
fn blob(b: &[u8]) -> V {
    V::Blob(ByteBuf::from(b.to_vec()))
}
fn account(a: &A) -> V {
    let mut parts = vec![blob(&a.0)];
    parts.extend(a.1.as_ref().map(|s| blob(s)));
    V::Array(parts)
}
const OPS: [&str; 4] = ["mint", "burn", "xfer", "approve"];
/// The fields of the transaction of a block.
fn tx(b: &B) -> Vec<(String, V)> {
    let mut m: Vec<(&str, V)> = vec![("op", V::Text(OPS[b.op as usize % 4].into())), ("amt", nat(n(&b.amount)))];
    let fee = b.fee.as_ref().map(n);
    let op = b.op % 4;
    if op != 0 {
        m.push(("from", account(&b.from)));
    }
    if op == 0 || op == 2 {
        m.push(("to", account(&b.to)));
    }
    match (op, &b.spender) {
        (1 | 2, Some(s)) => m.push(("spender", account(s))),
        (3, s) => m.push(("spender", account(s.as_ref().unwrap_or(&b.to)))),
        _ => {}
    }
    match (op, fee) {
        (0, f) => m.push(("fee", nat(f.unwrap_or(0)))),
        (2 | 3, Some(f)) => m.push(("fee", nat(f))),
        _ => {}
    }
    if op == 3 {
        m.extend(b.expected.as_ref().map(|x| ("expected_allowance", nat(n(x)))));
        m.extend(b.expires.map(|x| ("expires_at", nat(x.into()))));
    }
    m.extend(b.created.map(|x| ("ts", nat(x.into()))));
    m.extend(b.memo.as_ref().map(|x| ("memo", blob(x))));
    sorted(m)
}
fn sorted(m: Vec<(&str, V)>) -> Vec<(String, V)> {
    let mut m: Vec<_> = m.into_iter().map(|(k, v)| (k.to_string(), v)).collect();
    m.sort_by(|a, b| a.0.cmp(&b.0));
    m
}
fn value(b: &B) -> V {
    let mut m = vec![("tx", V::Map(tx(b))), ("ts", nat(b.time.into()))];
    m.extend(b.phash.as_ref().map(|x| ("phash", blob(x))));
    m.extend(b.effective.as_ref().map(|x| ("fee", nat(n(x)))));
    V::Map(sorted(m))
}
/// What the log's pages hold: numbers as CBOR integers, as bignums where they are too large.
fn stored(v: &V) -> CV {
    match v {
        V::Nat(x) => match u64::try_from(&x.0) {
            Ok(x) => CV::Integer(x.into()),
            Err(_) => CV::Tag(2, Box::new(CV::Bytes(x.0.to_bytes_be()))),
        },
        V::Blob(b) => CV::Bytes(b.to_vec()),
        V::Text(t) => CV::Text(t.clone()),
        V::Array(a) => CV::Array(a.iter().map(stored).collect()),
        V::Map(m) => CV::Map(m.iter().map(|(k, v)| (CV::Text(k.clone()), stored(v))).collect()),
        V::Nat64(_) | V::Int(_) => unreachable!(),
    }
}

// ---- foreign values ----

fn biguint(x: u64, shift: u8) -> BigUint {
    BigUint::from(x) << shift as usize
}
/// As a generic value, if it is one.
fn generic(t: &Tree) -> Option<V> {
    Some(match t {
        Tree::Nat(x, s) => V::Nat(Nat(biguint(*x, *s))),
        Tree::Nat64(x) => V::Nat64(*x),
        Tree::Int(x) => V::Int(Int::from(*x)),
        Tree::Negative(x) => V::Int(Int(-num_bigint::BigInt::from(*x) - 1)),
        Tree::BigInt(x, s) => V::Int(Int(biguint(*x, *s).into())),
        Tree::Blob(b) => blob(b),
        Tree::Text(x) => V::Text(x.clone()),
        Tree::Array(a) => V::Array(a.iter().map(generic).collect::<Option<_>>()?),
        Tree::Map(m) => {
            let mut m = m.iter().map(|(k, v)| Some((k.clone(), generic(v)?))).collect::<Option<Vec<_>>>()?;
            m.sort_by(|a, b| a.0.cmp(&b.0));
            m.dedup_by(|a, b| a.0 == b.0);
            V::Map(m)
        }
        _ => return None,
    })
}
fn cbor(t: &Tree) -> CV {
    let bignum = |b| CV::Tag(2, Box::new(CV::Bytes(b)));
    match t {
        Tree::Nat(x, s) => bignum(biguint(*x, *s).to_bytes_be()),
        Tree::Padded(x, zeros) => bignum([vec![0; *zeros as usize % 9], BigUint::from(*x).to_bytes_be()].concat()),
        Tree::Nat64(x) | Tree::Int(x) | Tree::BigInt(x, _) => CV::Integer((*x).into()),
        Tree::Negative(x) => CV::Integer((-1 - *x as i128).try_into().unwrap()),
        Tree::Blob(b) => CV::Bytes(b.clone()),
        Tree::Text(x) => CV::Text(x.clone()),
        Tree::Array(a) => CV::Array(a.iter().map(cbor).collect()),
        Tree::Map(m) => CV::Map(m.iter().map(|(k, v)| (CV::Text(k.clone()), cbor(v))).collect()),
        Tree::Bool(x) => CV::Bool(*x),
        Tree::Null => CV::Null,
        Tree::Float(x) => CV::Float(*x as f64 / 2.0),
        Tree::Tag(t, x) => CV::Tag(*t, Box::new(cbor(x))),
        Tree::BadKey(k, v) => CV::Map(vec![(cbor(k), cbor(v))]),
        Tree::Selfed(x) => CV::Tag(55799, Box::new(cbor(x))),
    }
}
/// What a CBOR value stands for. `Err(true)`: nothing, it must be refused. `Err(false)`: unclear.
fn meaning(c: &CV) -> Result<V, bool> {
    let all = |it: Vec<Result<V, bool>>| -> Result<Vec<V>, bool> {
        if it.contains(&Err(true)) {
            return Err(true);
        }
        it.into_iter().collect()
    };
    match c {
        CV::Integer(i) => {
            let i: i128 = (*i).into();
            if i < 0 { Err(true) } else { Ok(V::Int(Int::from(i))) }
        }
        CV::Bytes(b) => Ok(blob(b)),
        CV::Text(t) => Ok(V::Text(t.clone())),
        CV::Array(a) => all(a.iter().map(meaning).collect()).map(V::Array),
        CV::Map(m) => {
            let values = all(m.iter().map(|(_, v)| meaning(v)).collect());
            if m.iter().any(|(k, _)| !matches!(k, CV::Text(_))) {
                return Err(true);
            }
            let mut out: Vec<(String, V)> = m.iter().map(|(k, _)| k.as_text().unwrap().to_string()).zip(values?).collect();
            out.sort_by(|a, b| a.0.cmp(&b.0));
            if out.windows(2).any(|w| w[0].0 == w[1].0) {
                return Err(false);
            }
            Ok(V::Map(out))
        }
        CV::Tag(2, b) => match &**b {
            CV::Bytes(b) => Ok(V::Nat(Nat(BigUint::from_bytes_be(b)))),
            _ => Err(true),
        },
        CV::Tag(55799, x) => meaning(x),
        _ => Err(true),
    }
}
fn plain(v: &V) -> bool {
    match v {
        V::Nat(_) | V::Blob(_) | V::Text(_) => true,
        V::Int(i) => !i.0.is_negative() && i.0.bits() <= 64,
        V::Nat64(_) => false,
        V::Array(a) => a.iter().all(plain),
        V::Map(m) => m.iter().all(|(_, v)| plain(v)),
    }
}
fn negative(v: &V) -> bool {
    match v {
        V::Int(i) => i.0.is_negative(),
        V::Array(a) => a.iter().any(negative),
        V::Map(m) => m.iter().any(|(_, v)| negative(v)),
        _ => false,
    }
}
fn depth(v: &V) -> usize {
    match v {
        V::Array(a) => 1 + a.iter().map(depth).max().unwrap_or(0),
        V::Map(m) => 1 + m.iter().map(|(_, v)| depth(v)).max().unwrap_or(0),
        _ => 0,
    }
}
fn cdepth(c: &CV) -> usize {
    match c {
        CV::Array(a) => 1 + a.iter().map(cdepth).max().unwrap_or(0),
        CV::Map(m) => 1 + m.iter().map(|(_, v)| cdepth(v)).max().unwrap_or(0),
        CV::Tag(55799, x) => 1 + cdepth(x),
        _ => 0,
    }
}
/// All values nested less than this deep can be converted, none nested deeper than `TOO_DEEP`.
const DEEP: usize = 60;
const TOO_DEEP: usize = 66;

// ---- the check ----

struct Log {
    finds: Vec<Find>,
    stats: Stats,
    trace: Vec<String>,
    checks: u64,
}
impl Log {
    fn bad(&mut self, m: String) {
        self.finds.push(Find { props: vec!["C30"], msg: m });
    }
    fn same<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, got: T, want: T) {
        self.checks += 1;
        if got != want {
            self.bad(format!("{what} is {got:?}, expected {want:?}"));
        }
    }
    /// The library takes the two spellings of the default subaccount for equal; the log does not.
    fn same_block(&mut self, what: &str, got: &Block, want: &Block) {
        self.checks += 1;
        if got != want || format!("{got:?}") != format!("{want:?}") {
            self.bad(format!("{what} is {got:?}, expected {want:?}"));
        }
    }
    /// Runs a conversion, which must not panic.
    fn go<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        self.checks += 1;
        let r = catch_unwind(AssertUnwindSafe(f));
        if r.is_err() {
            self.bad(format!("{what} panics"));
        }
        r.ok()
    }
}

fn run(c: &Case) -> Outcome {
    let mut l = Log { finds: vec![], stats: Stats::default(), trace: vec![], checks: 0 };
    let b = &c.block;
    let (lib, want) = (block(b), value(b));
    l.trace.push(format!("block {lib:?}"));
    l.stats.hit(["mint", "burn", "transfer", "approve"][b.op as usize % 4]);
    // The value.
    if let Some(v) = l.go("to_value", || lib.clone().to_value()) {
        l.same("the block's value", from_gv(&v), want.clone());
    }
    if let Some(r) = l.go("from_value", || Block::from_value(to_gv(&want))) {
        match r {
            Ok(got) => l.same_block("the block read from its value", &got, &lib),
            Err(e) => l.bad(format!("a block's value is not read: {e:#}: {want:?}")),
        }
    }
    // The fingerprints.
    if let Some(h) = l.go("Block::hash", || lib.clone().hash()) {
        l.same("the block's hash", h, icrc3::hash(&want));
    }
    if let Some(h) = l.go("Transaction::hash", || lib.transaction.hash()) {
        l.same("the transaction's fingerprint", h.map_err(|e| e.to_string()), Ok(icrc3::hash(&V::Map(tx(b)))));
    }
    // The stored form.
    if let Some(bytes) = l.go("to_bytes", || Cbor(lib.clone()).to_bytes().into_owned()) {
        if let Some(got) = l.go("from_bytes of the block's own bytes", || Cbor::<Block>::from_bytes(bytes.into()).0) {
            l.same_block("the block read from its bytes", &got, &lib);
        }
    }
    let mut bytes = vec![];
    ciborium::into_writer(&stored(&want), &mut bytes).unwrap();
    if let Some(got) = l.go("from_bytes of a stored block", || Cbor::<Block>::from_bytes(bytes.into()).0) {
        l.same_block("the block read from the log's bytes", &got, &lib);
    }
    // The settings.
    let cfg = Config {
        max_blocks_per_request: c.page,
        index_id: c.index.as_ref().map(|p| Principal::from_slice(p)),
        initial_balances: c.balances.as_ref().map(|l| l.iter().map(|(a, x)| (acc(a), n(x))).collect()),
    };
    if let Some(got) = l.go("the settings' bytes", || Config::from_bytes(cfg.to_bytes().into_owned().into())) {
        l.same("the settings read back", got, cfg.clone());
    }
    // Values that are nearly a block's.
    for e in &c.edits {
        edited(&mut l, b, &lib, &want, e);
    }
    foreign(&mut l, c);
    let Log { finds, stats, trace, checks } = l;
    Outcome { nontrivial: !c.edits.is_empty() && stats.get("refused") > 0, finds, stats, trace, checks }
}

fn field<'a>(m: &'a mut V, k: &str) -> Option<&'a mut V> {
    match m {
        V::Map(m) => m.iter_mut().find(|x| x.0 == k).map(|x| &mut x.1),
        _ => None,
    }
}
fn map(v: &mut V) -> &mut Vec<(String, V)> {
    match v {
        V::Map(m) => m,
        _ => unreachable!(),
    }
}
/// What reading an edited value must give.
enum Must {
    Fail,
    Be(Block),
    /// The block it was made from, or a refusal.
    BeOrFail,
    /// Anything but a panic.
    Return,
}

fn edited(l: &mut Log, b: &B, lib: &Block, want: &V, e: &Edit) {
    let mut v = want.clone();
    let numbers = ["ts", "fee", "tx.ts", "tx.fee", "tx.amt", "tx.expected_allowance", "tx.expires_at"];
    let accounts = ["from", "to", "spender"];
    let all = ["tx", "ts", "fee", "phash", "tx.op", "tx.ts", "tx.fee", "tx.amt", "tx.expected_allowance", "tx.expires_at", "tx.memo", "tx.from", "tx.to", "tx.spender"];
    // The fields this block has.
    fn at<'a>(v: &'a mut V, path: &str) -> Option<&'a mut V> {
        match path.split_once('.') {
            Some((a, b)) => field(v, a).and_then(|x| field(x, b)),
            None => field(v, path),
        }
    }
    let mut present: Vec<&str> = all.into_iter().filter(|p| at(&mut v, p).is_some()).collect();
    let op = b.op % 4;
    let name;
    let must = match e {
        Edit::Drop(i) => {
            let p = present.remove(*i as usize % present.len());
            name = format!("without {p}");
            match p.split_once('.') {
                Some((_, k)) => map(field(&mut v, "tx").unwrap()).retain(|x| x.0 != k),
                None => map(&mut v).retain(|x| x.0 != p),
            }
            let mut less = lib.clone();
            match (p, &mut less.transaction.operation) {
                ("fee", _) => less.effective_fee = None,
                ("phash", _) => less.phash = None,
                ("tx.ts", _) => less.transaction.created_at_time = None,
                ("tx.memo", _) => less.transaction.memo = None,
                ("tx.fee", Operation::Transfer { fee, .. } | Operation::Approve { fee, .. }) => *fee = None,
                ("tx.expected_allowance", Operation::Approve { expected_allowance, .. }) => *expected_allowance = None,
                ("tx.expires_at", Operation::Approve { expires_at, .. }) => *expires_at = None,
                ("tx.spender", Operation::Burn { spender, .. } | Operation::Transfer { spender, .. }) => *spender = None,
                _ => less = lib.clone(),
            }
            if less == *lib { Must::Fail } else { Must::Be(less) }
        }
        Edit::Name(i) => {
            let names = ["", "Mint", "transfer", "xfer ", "2xfer", "approve2", "BURN", "burn\0", "1mint", "deposit"];
            let x = names[*i as usize % names.len()];
            name = format!("with op {x:?}");
            *at(&mut v, "tx.op").unwrap() = V::Text(x.into());
            Must::Fail
        }
        Edit::Parts(i, how) => {
            let has: Vec<_> = accounts.iter().filter(|k| present.contains(&format!("tx.{k}").as_str())).collect();
            let k = has[*i as usize % has.len()];
            let a = at(&mut v, &format!("tx.{k}")).unwrap();
            let V::Array(parts) = &mut *a else { unreachable!() };
            match how % 8 {
                0 => parts.clear(),
                1 => {
                    parts.truncate(1);
                    parts.extend([blob(&[0; 32]), blob(&[0; 32])]);
                }
                2 => {
                    parts.truncate(1);
                    parts.push(blob(&[7; 31]));
                }
                3 => {
                    parts.truncate(1);
                    parts.push(blob(&[7; 33]));
                }
                4 => {
                    parts.truncate(1);
                    parts.push(blob(&[]));
                }
                5 => parts[0] = blob(&[9; 30]),
                6 => {
                    parts.truncate(1);
                    parts.extend([blob(&[0; 32]), blob(&[])]);
                }
                _ => *a = V::Map(vec![]),
            }
            name = format!("with {k} {a:?}");
            Must::Fail
        }
        Edit::Large(i, how) => {
            let has: Vec<_> = numbers.iter().filter(|p| present.contains(p)).collect();
            let p = *has[*i as usize % has.len()];
            let bits: usize = if ["ts", "tx.ts", "tx.expires_at"].contains(&p) { 64 } else { 128 };
            let x = at(&mut v, p).unwrap();
            let V::Nat(old) = &*x else { unreachable!() };
            let mut new = old.0.clone();
            match how % 3 {
                0 => new += BigUint::from(1u8) << bits,
                1 => new = BigUint::from(1u8) << bits,
                _ => new |= BigUint::from(1u8) << (bits + *how as usize % 90),
            }
            *x = V::Nat(Nat(new));
            name = format!("with {p} {x:?}");
            Must::Fail
        }
        Edit::Length(i, how) => {
            let k = ["phash", "phash", "tx.memo"][*i as usize % 3];
            if k == "tx.memo" {
                // Memos of the log may have any length.
                let m = vec![5; *how as usize];
                let tx = map(field(&mut v, "tx").unwrap());
                tx.retain(|x| x.0 != "memo");
                tx.push(("memo".into(), blob(&m)));
                let mut other = lib.clone();
                other.transaction.memo = Some(Memo(ByteBuf::from(m)));
                name = format!("with a memo of {how} bytes");
                Must::Be(other)
            } else {
                let len = match *how as usize % 70 { 32 => 64, x => x };
                let m = map(&mut v);
                m.retain(|x| x.0 != "phash");
                m.push(("phash".into(), blob(&vec![3; len])));
                name = format!("with a phash of {len} bytes");
                Must::Fail
            }
        }
        Edit::Kind(i, t) => {
            let Some(t) = generic(t) else { return };
            let p = present[*i as usize % present.len()];
            name = format!("with {p} {t:?}");
            let x = at(&mut v, p).unwrap();
            let number = numbers.contains(&p);
            let must = match (&t, &*x) {
                (V::Text(_) | V::Map(_), V::Nat(_)) => Must::Fail,
                (V::Map(_) | V::Nat(_) | V::Int(_) | V::Nat64(_), V::Text(_) | V::Blob(_)) => Must::Return,
                (V::Map(_), V::Array(_)) => Must::Fail,
                (V::Text(_) | V::Nat(_) | V::Int(_) | V::Nat64(_) | V::Blob(_), V::Map(_)) => Must::Fail,
                (V::Int(i), V::Nat(_)) if i.0.is_negative() && number => Must::Fail,
                _ => Must::Return,
            };
            *x = t;
            must
        }
        Edit::Integers => {
            fn ints(v: &mut V) {
                match v {
                    V::Nat(x) => *v = V::Int(Int(x.0.clone().into())),
                    V::Map(m) => m.iter_mut().for_each(|x| ints(&mut x.1)),
                    V::Array(a) => a.iter_mut().for_each(ints),
                    _ => {}
                }
            }
            ints(&mut v);
            name = "with integers".into();
            Must::BeOrFail
        }
        Edit::More(i, t) => {
            let Some(t) = generic(t) else { return };
            let k = ["btype", "Ts", "", "parent_hash", "memo1", "zz", "amount", "fees"][*i as usize % 8];
            let m = if i & 8 == 0 { map(&mut v) } else { map(field(&mut v, "tx").unwrap()) };
            m.push((k.into(), t));
            m.sort_by(|a, b| a.0.cmp(&b.0));
            name = format!("with {k:?} beside");
            Must::BeOrFail
        }
        Edit::Other(t) => {
            let Some(t) = generic(t) else { return };
            name = "quite another".into();
            let must = if matches!(t, V::Array(_)) { Must::Return } else { Must::Fail };
            v = t;
            must
        }
    };
    l.trace.push(format!("{} block {name}", OPS[op as usize]));
    let Some(got) = l.go(&format!("from_value of a value {name}"), || Block::from_value(to_gv(&v))) else { return };
    if got.is_err() {
        l.stats.hit("refused");
    } else {
        l.stats.hit("edited and read");
    }
    match (must, got) {
        (Must::Fail, Ok(x)) => l.bad(format!("a value {name} is read as the block {x:?}")),
        (Must::Be(_), Err(e)) => l.bad(format!("a value {name} is not read: {e:#}")),
        (Must::Be(x), Ok(y)) => l.same_block(&format!("the block of a value {name}"), &y, &x),
        (Must::BeOrFail, Ok(y)) => l.same_block(&format!("the block of a value {name}"), &y, lib),
        _ => {}
    }
}

/// The conversions between CBOR and generic values.
fn foreign(l: &mut Log, c: &Case) {
    let mut cv = cbor(&c.tree);
    for x in &c.layers {
        cv = match x % 3 {
            0 => CV::Array(vec![cv]),
            1 => CV::Map(vec![(CV::Text("k".into()), cv)]),
            _ => CV::Tag(55799, Box::new(cv)),
        };
    }
    let deep = cdepth(&cv);
    l.stats.hit(if deep > TOO_DEEP { "too deep" } else if deep > 8 { "deep" } else { "shallow" });
    let means = meaning(&cv);
    if let Some(got) = l.go("ciborium_to_generic_value", || ciborium_to_generic_value(&cv, 0)) {
        match (&means, got) {
            (_, Ok(_)) if deep > TOO_DEEP => l.bad(format!("a CBOR value nested {deep} deep is converted")),
            (Err(true), Ok(x)) => l.bad(format!("{cv:?} is converted, to {x:?}")),
            (Ok(_), Err(e)) if deep < DEEP => l.bad(format!("{cv:?} is not converted: {e}")),
            (Ok(want), Ok(x)) => {
                l.stats.hit("converted");
                l.same("the generic value", from_gv(&x), want.clone());
                back(l, want, false);
            }
            (_, Err(_)) => l.stats.hit("not converted"),
            _ => {}
        }
    }
    if let Some(mut v) = generic(&c.tree) {
        for x in &c.layers {
            v = if x % 3 == 1 { V::Map(vec![("k".into(), v)]) } else { V::Array(vec![v]) };
        }
        back(l, &v, true);
    }
}
/// From a generic value to CBOR and back.
fn back(l: &mut Log, v: &V, count: bool) {
    let Some(got) = l.go("generic_to_ciborium_value", || generic_to_ciborium_value(&to_gv(v), 0)) else { return };
    let deep = depth(v);
    match got {
        Err(_) if count => l.stats.hit("no CBOR"),
        _ => {}
    }
    match got {
        Ok(_) if deep > TOO_DEEP => l.bad(format!("a value nested {deep} deep is converted")),
        Ok(c) if negative(v) => l.bad(format!("{v:?} is converted, to {c:?}")),
        Ok(c) => {
            // Numbers may change their kind, not what they are.
            let Some(again) = l.go("the way back", || ciborium_to_generic_value(&c, 0)) else { return };
            match again {
                Ok(w) if plain(v) => l.same("the value after CBOR", from_gv(&w), v.clone()),
                Ok(w) => l.same("the hash of the value after CBOR", icrc3::hash(&unsign(&from_gv(&w))), icrc3::hash(&unsign(v))),
                Err(e) => l.bad(format!("{v:?} does not come back from CBOR: {e}")),
            }
        }
        Err(e) if plain(v) && deep < DEEP => l.bad(format!("{v:?} is not converted: {e:#}")),
        Err(_) => {}
    }
}
/// Integers as natural numbers.
fn unsign(v: &V) -> V {
    match v {
        V::Int(i) => i.0.to_biguint().map_or(v.clone(), |x| V::Nat(Nat(x))),
        V::Nat64(x) => V::Nat(Nat::from(*x)),
        V::Array(a) => V::Array(a.iter().map(unsign).collect()),
        V::Map(m) => V::Map(m.iter().map(|(k, v)| (k.clone(), unsign(v))).collect()),
        _ => v.clone(),
    }
}

// ---- generators ----

fn number() -> BoxedStrategy<N> {
    prop_oneof![
        3 => (0u64..300).prop_map(|x| (0, x)),
        3 => (0u32..128, 0u128..3).prop_map(|(k, d)| (1u128 << k).wrapping_add(d).wrapping_sub(1)).prop_map(|x| ((x >> 64) as u64, x as u64)),
        2 => any::<(u64, u64)>(),
        2 => any::<u64>().prop_map(|x| (0, x)),
        1 => Just((u64::MAX, u64::MAX)),
        1 => Just((0, 100_000_000)),
        1 => (1u64..300).prop_map(|x| (x, 0)),
        1 => (0u64..300).prop_map(|x| (u64::MAX, u64::MAX - x)),
    ]
    .boxed()
}
fn time() -> BoxedStrategy<u64> {
    prop_oneof![
        2 => 0u64..300,
        2 => (0u32..64, 0u64..3).prop_map(|(k, d)| (1u64 << k).wrapping_add(d).wrapping_sub(1)),
        2 => any::<u64>(),
        2 => 1_700_000_000_000_000_000u64..1_900_000_000_000_000_000,
        1 => Just(u64::MAX),
    ]
    .boxed()
}
fn bytes(max: usize) -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        3 => proptest::collection::vec(any::<u8>(), 0..=max),
        1 => proptest::collection::vec(Just(0u8), 0..=max),
        1 => proptest::collection::vec(any::<u8>(), max..=max),
        1 => Just(vec![]),
    ]
    .boxed()
}
fn b32() -> BoxedStrategy<[u8; 32]> {
    prop_oneof![
        3 => any::<[u8; 32]>(),
        1 => Just([0; 32]),
        1 => Just([255; 32]),
        1 => (0usize..32, any::<u8>()).prop_map(|(i, x)| { let mut a = [0; 32]; a[i] = x; a }),
    ]
    .boxed()
}
fn an_account() -> BoxedStrategy<A> {
    (bytes(29), proptest::option::of(b32())).boxed()
}
fn a_block() -> BoxedStrategy<B> {
    let who = (0u8..4, an_account(), an_account(), proptest::option::of(an_account()), number(), 0u8..8);
    let what = (proptest::option::of(number()), proptest::option::of(number()), proptest::option::of(time()), proptest::option::of(time()), proptest::option::of(bytes(48)));
    let around = (time(), proptest::option::of(b32()), proptest::option::of(number()));
    (who, what, around)
        .prop_map(|((op, from, mut to, mut spender, amount, same), (fee, expected, expires, created, memo), (time, phash, effective))| {
            // Accounts that are the same, or nearly.
            match same {
                0 => to = from.clone(),
                1 => to = (from.0.clone(), Some([0; 32])),
                2 => spender = Some(from.clone()),
                3 => spender = Some(to.clone()),
                _ => {}
            }
            B { op, from, to, spender, amount, fee, expected, expires, created, memo, time, phash, effective }
        })
        .boxed()
}
fn text() -> BoxedStrategy<String> {
    prop_oneof![3 => "[a-z]{0,6}", 1 => "\\PC{0,5}", 1 => Just(String::new()), 1 => Just("tx".to_string())].boxed()
}
fn tree(odd: bool) -> BoxedStrategy<Tree> {
    let leaf = prop_oneof![
        4 => (time(), prop_oneof![Just(0u8), 0u8..200]).prop_map(|(x, s)| Tree::Nat(x, s)),
        3 => time().prop_map(Tree::Int),
        3 => bytes(40).prop_map(Tree::Blob),
        3 => text().prop_map(Tree::Text),
    ];
    let leaf = if odd {
        prop_oneof![
            12 => leaf,
            1 => time().prop_map(Tree::Nat64),
            1 => time().prop_map(Tree::Negative),
            1 => (time(), 0u8..200).prop_map(|(x, s)| Tree::BigInt(x, s)),
            1 => any::<bool>().prop_map(Tree::Bool),
            1 => Just(Tree::Null),
            1 => any::<u32>().prop_map(Tree::Float),
            1 => any::<(u64, u8)>().prop_map(|(x, z)| Tree::Padded(x, z)),
        ]
        .boxed()
    } else {
        leaf.boxed()
    };
    leaf.prop_recursive(4, 24, 5, move |inner| {
        let usual = prop_oneof![
            proptest::collection::vec(inner.clone(), 0..5).prop_map(Tree::Array),
            proptest::collection::vec((text(), inner.clone()), 0..5).prop_map(Tree::Map),
        ];
        if odd {
            prop_oneof![
                10 => usual,
                2 => inner.clone().prop_map(|x| Tree::Selfed(Box::new(x))),
                1 => (prop_oneof![Just(2u64), Just(3), Just(0), Just(1), Just(55798), Just(55800), any::<u64>()], inner.clone()).prop_map(|(t, x)| Tree::Tag(t, Box::new(x))),
                1 => (inner.clone(), inner.clone()).prop_map(|(k, v)| Tree::BadKey(Box::new(k), Box::new(v))),
            ]
            .boxed()
        } else {
            usual.boxed()
        }
    })
    .boxed()
}
fn edit() -> BoxedStrategy<Edit> {
    prop_oneof![
        4 => any::<u8>().prop_map(Edit::Drop),
        2 => any::<u8>().prop_map(Edit::Name),
        4 => any::<(u8, u8)>().prop_map(|(i, h)| Edit::Parts(i, h)),
        4 => any::<(u8, u8)>().prop_map(|(i, h)| Edit::Large(i, h)),
        2 => any::<(u8, u8)>().prop_map(|(i, h)| Edit::Length(i, h)),
        3 => (any::<u8>(), tree(true)).prop_map(|(i, t)| Edit::Kind(i, t)),
        1 => Just(Edit::Integers),
        2 => (any::<u8>(), tree(false)).prop_map(|(i, t)| Edit::More(i, t)),
        1 => tree(true).prop_map(Edit::Other),
    ]
    .boxed()
}
fn case() -> BoxedStrategy<Case> {
    let layers = prop_oneof![
        6 => proptest::collection::vec(0u8..3, 0..4),
        2 => proptest::collection::vec(0u8..3, 0..90),
        1 => (0u8..3, 20usize..400).prop_map(|(x, n)| vec![x; n]),
    ];
    let trees = prop_oneof![tree(false), tree(true)];
    let balances = proptest::option::of(proptest::collection::vec((an_account(), number()), 0..4));
    (a_block(), proptest::collection::vec(edit(), 0..6), trees, layers, (time(), proptest::option::of(bytes(29)), balances))
        .prop_map(|(block, edits, tree, layers, (page, index, balances))| Case { block, edits, tree, layers, page, index, balances })
        .boxed()
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    sim::main_of(Prop {
        id: "C30",
        strategy: case(),
        run: Arc::new(run),
        rule: "values that are not a block's were refused besides the block's own conversions",
        how: "A case is a block of any operation with any fields, edits of its value, and a CBOR or generic value of any shape, generated by proptest and converted by the ledger's library; an independent encoder, hash and reader of values are the oracle.",
        assumptions: &["the library is compiled to native code instead of wasm"],
        quick: (60_000, 60),
        thorough: (30_000_000, 600),
        fixed: vec![],
    })
}
