//! Symbolic operations (what a generated case consists of, and what a replay file holds) and
//! the strategies that generate them. Amounts and times are given relative to the state they
//! will meet, so that a shorter history of the same operations still aims at the same edges.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Owner and subaccount; from 200 on, an account that can pay, or an approval that can be used.
pub type Acc = (u8, u8);

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Amt {
    Abs(u64),
    /// m fees plus d
    Fee(u8, i8),
    /// What the payer can just afford with one fee, plus d
    Bal(i8),
    /// The payer's whole balance, plus d
    BalRaw(i8),
    /// What the allowance just covers with one fee, plus d
    Allow(i8),
    /// The allowance, plus d
    AllowRaw(i8),
    /// k/255 of the payer's balance
    Frac(u8),
    MaxMinus(u8),
    /// 2^128 - FEE + d
    MaxFee(i8),
    /// 2^128 + k
    Over(u8),
    /// 2^k
    Pow(u8),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Cat {
    None,
    Now(i32),
    /// The oldest acceptable time plus d
    Old(i32),
    /// The latest acceptable time plus d
    Fut(i32),
    AgoSecs(u32),
    Zero,
    Max,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Exp {
    None,
    Rel(i32),
    Secs(u32),
    Zero,
    One,
    Max,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Expect {
    None,
    Cur(i8),
    Abs(u64),
    Over,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum FeeSpec {
    None,
    Exact,
    Delta(i8),
    Zero,
    Double,
    Max,
    Over,
    /// 2^64 + FEE and 2^128 + FEE: truncation must not make them right
    Wrap64,
    Wrap128,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum MemoSpec {
    None,
    Len(u8, u8),
    /// One of the bytes people and programs write, see `memo_text`; the other number cuts or pads it.
    Text(u8, u8),
}
pub fn memo_text(k: u8, n: u8) -> Vec<u8> {
    let t: &[&[u8]] = &[
        b"invoice 4711",
        b"0x1",
        b"0xdeadbeef",
        b"DEADBEEF",
        b"{\"id\":1}",
        b"{\"id\":",
        "\u{2713} bezahlt \u{1F980}".as_bytes(),
        &[0xff, 0xfe, 0x00, 0x41],
        &[0xc3, 0x28, 0xa0, 0xa1],
        &[0, 0, 0, 0],
        &[0, 0, 0, 0, 0, 0, 0, 1],
        b"\0\n\r\x1b[31m\"'<>&%s%n",
        // CBOR: a map, an array with bytes (the memo of a withdrawal), a tag, cut off
        &[0xa1, 0x61, 0x61, 0x01],
        &[0x81, 0x4a, 0, 0, 0, 0, 1, 0, 0, 3, 1, 1],
        &[0xc2, 0x58, 0x40],
        b"DIDL\0\0",
        b"DIDL\x01\x6c\x00",
        b"PUPT\0\0\0\0",
        b"CREA\0\0\0\0",
        b"TPUP\0\0\0\0",
        b"fee collected\0",
        b"refund",
        &[0xd9, 0xd9, 0xf7, 0xa0],
        b"-1",
    ];
    let mut m = t[k as usize % t.len()].to_vec();
    match n % 8 {
        0 => m.truncate(n as usize / 8 % (m.len() + 1)),
        1 => m.resize(32, 0),
        2 => m.resize(32, b' '),
        _ => {}
    }
    m
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Tweak {
    Same,
    Amount,
    Memo,
    Fee,
    /// Spells the default subaccount the other way
    Sub,
    To,
    Created(i8),
    Extra,
    Caller(u8),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ans {
    Ok(u8),
    Reject(u8),
    /// The CMC reports an error and gives back all but m fees and d cycles
    Refunded(u8, i8),
    /// The CMC reports an error and gives back m fees and d cycles
    RefundedOnly(u8, i8),
    RefundFailed,
    /// The CMC rejects with this code, or (0) says what nobody understands, and gives back m fees
    /// and d cycles (of 250 fees on: all)
    Kept(u8, u8, i8),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Dt {
    Ns(u32),
    Secs(u32),
    /// To the next approval expiry, plus d
    ToExpiry(i8),
    /// To the end of the oldest remembered transaction's window, plus d
    ToWindow(i8),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default, Serialize, Deserialize)]
pub struct CArgs {
    /// 0: no creation_args; 1: no settings; 2: settings without controllers; 3: with
    pub shape: u8,
    pub bits: u8,
    pub subnet: u8,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Deposit { caller: u8, to: Acc, amt: Amt, memo: MemoSpec },
    Transfer { from: Acc, to: Acc, amt: Amt, fee: FeeSpec, memo: MemoSpec, cat: Cat },
    TransferFrom { spender: Acc, from: Acc, to: Acc, amt: Amt, fee: FeeSpec, memo: MemoSpec, cat: Cat },
    Approve { from: Acc, spender: Acc, amt: Amt, expect: Expect, exp: Exp, fee: FeeSpec, memo: MemoSpec, cat: Cat },
    Withdraw { from: Acc, to: u8, amt: Amt, cat: Cat, fault: u8 },
    WithdrawFrom { spender: Acc, from: Acc, to: u8, amt: Amt, cat: Cat, fault: u8 },
    Create { from: Acc, amt: Amt, cat: Cat, args: CArgs, fault: u8 },
    CreateFrom { spender: Acc, from: Acc, amt: Amt, cat: Cat, args: CArgs, fault: u8 },
    Respond { k: u8, ans: Ans },
    Advance(Dt),
    /// Resubmits one of the requests made before.
    Again { k: u8, tweak: Tweak },
    /// Approves n spenders, all expiring `secs` from now (0: never).
    Crowd { from: Acc, n: u16, secs: u32 },
    /// Many requests of one kind: with a creation time, or under way at the same time.
    Mass { from: Acc, n: u16, what: u8, seed: u16 },
    Upgrade { max_blocks: Option<u64>, index: u8, wrong: bool },
    Blocks(Vec<(i32, u32)>),
    Pages { from: Acc, take: u8, stop: u16, explicit: bool },
    /// Bytes thrown at an endpoint as its argument.
    Raw { method: u8, caller: u8, bytes: Vec<u8>, mutate: Option<(u8, u16, u8)> },
    /// Calls the endpoint with typed but extreme arguments.
    Probe { what: u8, a: u8, b: u8 },
}

fn principal(weird: u32) -> BoxedStrategy<u8> {
    if weird == 0 {
        prop_oneof![6 => 0u8..3, 2 => 3u8..6].boxed()
    } else {
        prop_oneof![60 => 0u8..3, 20 => 3u8..6, weird => 6u8..12].boxed()
    }
}
pub fn acc(weird: u32) -> BoxedStrategy<Acc> {
    (principal(weird), prop_oneof![6 => Just(0u8), 2 => Just(1u8), 2 => Just(2u8), 1 => 3u8..6]).boxed()
}
/// Who pays: mostly someone who can.
fn payer(weird: u32) -> BoxedStrategy<Acc> {
    prop_oneof![3 => (Just(200u8), any::<u8>()), 2 => acc(weird)].boxed()
}
fn d() -> BoxedStrategy<i8> {
    prop_oneof![4 => -1i8..=1, 1 => any::<i8>()].boxed()
}
pub fn amt(edge: u32) -> BoxedStrategy<Amt> {
    prop_oneof![
        6 => (1u8..8, d()).prop_map(|(m, d)| Amt::Fee(m, d)),
        2 => (1u8..40, d()).prop_map(|(m, d)| Amt::Fee(m, d)),
        2 => (1u8..120).prop_map(Amt::Frac),
        edge => prop_oneof![
            2 => d().prop_map(Amt::Bal), 1 => d().prop_map(Amt::BalRaw),
            3 => d().prop_map(Amt::Allow), 1 => d().prop_map(Amt::AllowRaw),
            1 => Just(Amt::Abs(0)), 1 => (0u64..3).prop_map(Amt::Abs),
            2 => (0u8..4, d()).prop_map(|(m, d)| Amt::Fee(m, d)),
            1 => any::<u64>().prop_map(Amt::Abs),
            1 => (0u8..3).prop_map(Amt::MaxMinus), 1 => d().prop_map(Amt::MaxFee),
            1 => prop_oneof![Just(0u8), Just(1u8), any::<u8>()].prop_map(Amt::Over),
            1 => (60u8..128).prop_map(Amt::Pow),
        ],
    ]
    .boxed()
}
pub fn dep_amt() -> BoxedStrategy<Amt> {
    prop_oneof![
        8 => (10u8..250, d()).prop_map(|(m, d)| Amt::Fee(m, d)),
        2 => (0u8..3, d()).prop_map(|(m, d)| Amt::Fee(m, d)),
        2 => (35u8..100).prop_map(Amt::Pow),
        1 => Just(Amt::Abs(0)),
        1 => any::<u64>().prop_map(Amt::Abs),
    ]
    .boxed()
}
fn d32() -> BoxedStrategy<i32> {
    prop_oneof![5 => -1i32..=1, 1 => -2000i32..2000, 1 => any::<i32>()].boxed()
}
pub fn cat(w: u32) -> BoxedStrategy<Cat> {
    prop_oneof![
        8 => Just(Cat::None),
        w => prop_oneof![
            6 => (-3i32..=3).prop_map(Cat::Now),
            3 => d32().prop_map(Cat::Old), 3 => d32().prop_map(Cat::Fut),
            3 => (0u32..90_000).prop_map(Cat::AgoSecs),
            1 => Just(Cat::Zero), 1 => Just(Cat::Max),
        ],
    ]
    .boxed()
}
/// Acceptable `created_at_time`s only.
pub fn cat_ok() -> BoxedStrategy<Cat> {
    prop_oneof![
        6 => (-3i32..=3).prop_map(Cat::Now),
        2 => (0i32..3).prop_map(Cat::Old), 2 => (-3i32..=0).prop_map(Cat::Fut),
        3 => (0u32..86_000).prop_map(Cat::AgoSecs),
    ]
    .boxed()
}
pub fn exp(w: u32) -> BoxedStrategy<Exp> {
    prop_oneof![
        6 => Just(Exp::None),
        w => prop_oneof![
            4 => (1i32..50).prop_map(Exp::Rel), 6 => (1u32..100_000).prop_map(Exp::Secs),
            1 => d32().prop_map(Exp::Rel),
            1 => Just(Exp::Zero), 1 => Just(Exp::One), 1 => Just(Exp::Max),
        ],
    ]
    .boxed()
}
fn expect() -> BoxedStrategy<Expect> {
    prop_oneof![8 => Just(Expect::None), 3 => d().prop_map(Expect::Cur), 1 => any::<u64>().prop_map(Expect::Abs), 1 => Just(Expect::Over)].boxed()
}
pub fn fee(w: u32) -> BoxedStrategy<FeeSpec> {
    prop_oneof![
        10 => Just(FeeSpec::None), 6 => Just(FeeSpec::Exact),
        w => prop_oneof![
            3 => d().prop_map(FeeSpec::Delta), 2 => Just(FeeSpec::Zero), 1 => Just(FeeSpec::Double),
            1 => Just(FeeSpec::Max), 1 => Just(FeeSpec::Over), 1 => Just(FeeSpec::Wrap64), 1 => Just(FeeSpec::Wrap128),
        ],
    ]
    .boxed()
}
pub fn memo(w: u32) -> BoxedStrategy<MemoSpec> {
    prop_oneof![
        8 => Just(MemoSpec::None),
        3 => (0u8..=32, any::<u8>()).prop_map(|(l, f)| MemoSpec::Len(l, f)),
        1 => (Just(32u8), 250u8..=255).prop_map(|(l, f)| MemoSpec::Len(l, f)),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(k, n)| MemoSpec::Text(k, n)),
        w => (31u8..=40, any::<u8>()).prop_map(|(l, f)| MemoSpec::Len(l, f)),
    ]
    .boxed()
}
pub fn cargs() -> BoxedStrategy<CArgs> {
    (0u8..4, any::<u8>(), 0u8..4).prop_map(|(shape, bits, subnet)| CArgs { shape, bits, subnet }).boxed()
}
fn target() -> BoxedStrategy<u8> {
    prop_oneof![8 => 3u8..6, 2 => 0u8..12, 2 => any::<u8>()].boxed()
}
fn fault() -> BoxedStrategy<u8> {
    prop_oneof![8 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)].boxed()
}
pub fn ans() -> BoxedStrategy<Ans> {
    prop_oneof![
        4 => any::<u8>().prop_map(Ans::Ok),
        5 => (1u8..=6).prop_map(Ans::Reject),
        3 => (0u8..3, d()).prop_map(|(m, d)| Ans::Refunded(m, d)),
        3 => (0u8..4, d()).prop_map(|(m, d)| Ans::RefundedOnly(m, d)),
        1 => Just(Ans::RefundFailed),
        2 => (prop_oneof![1 => Just(0u8), 1 => 4u8..6], prop_oneof![2 => Just(0u8), 3 => 0u8..5, 2 => Just(255u8)], d()).prop_map(|(c, m, d)| Ans::Kept(c, m, d)),
    ]
    .boxed()
}
pub fn dt() -> BoxedStrategy<Dt> {
    prop_oneof![
        3 => (0u32..100).prop_map(Dt::Ns), 3 => (1u32..4000).prop_map(Dt::Secs),
        1 => (1u32..200_000).prop_map(Dt::Secs),
        3 => (-1i8..=1).prop_map(Dt::ToExpiry), 3 => (-1i8..=1).prop_map(Dt::ToWindow),
    ]
    .boxed()
}
pub fn tweak() -> BoxedStrategy<Tweak> {
    prop_oneof![
        12 => Just(Tweak::Same), 1 => Just(Tweak::Amount), 1 => Just(Tweak::Memo), 1 => Just(Tweak::Fee),
        1 => Just(Tweak::Sub), 1 => Just(Tweak::To), 1 => prop_oneof![Just(-1i8), Just(1i8)].prop_map(Tweak::Created),
        1 => Just(Tweak::Extra), 1 => (0u8..6).prop_map(Tweak::Caller),
    ]
    .boxed()
}
fn upgrade() -> BoxedStrategy<Op> {
    (
        prop_oneof![4 => Just(None), 2 => (1u64..200).prop_map(Some), 1 => Just(Some(u64::MAX)), 1 => Just(Some(1 << 32))],
        prop_oneof![3 => 0u8..5, 1 => 5u8..10],
        prop::bool::weighted(0.12),
    )
        .prop_map(|(max_blocks, index, wrong)| Op::Upgrade { max_blocks, index, wrong })
        .boxed()
}
fn blocks() -> BoxedStrategy<Op> {
    let range = prop_oneof![
        4 => (0i32..40, 0u32..40),
        2 => (-5i32..5, 0u32..300),
        1 => (any::<i32>(), any::<u32>()),
        1 => (0i32..40, (u32::MAX - 20)..=u32::MAX),
    ];
    prop_oneof![30 => prop::collection::vec(range.clone(), 0..6), 1 => prop::collection::vec(range, 6..150)].prop_map(Op::Blocks).boxed()
}

/// How often each kind of operation is drawn, and how wild its arguments are.
#[derive(Clone, Debug)]
pub struct Weights {
    pub deposit: u32,
    pub transfer: u32,
    pub transfer_from: u32,
    pub approve: u32,
    pub withdraw: u32,
    pub withdraw_from: u32,
    pub create: u32,
    pub create_from: u32,
    pub respond: u32,
    pub advance: u32,
    pub again: u32,
    pub crowd: u32,
    /// How many in 400 crowds have more than the 500 members of a page.
    pub throng: u32,
    /// Masses of requests per 1000 other operations or plays.
    pub mass: u32,
    /// What they are (0 to 4; from here on, how many kinds).
    pub masses: (u8, u8),
    pub upgrade: u32,
    pub blocks: u32,
    pub pages: u32,
    pub raw: u32,
    pub probe: u32,
    /// Edge amounts, of about 10
    pub edge: u32,
    pub badfee: u32,
    pub cat: u32,
    pub exp: u32,
    pub weird: u32,
    pub longmemo: u32,
    /// How often, of 100 + all, what comes next is a play of the given kind rather than a
    /// single operation: the life of one approval, resubmissions, calls in flight.
    pub life: u32,
    pub resubmit: u32,
    pub flight: u32,
    /// How often, of 100 + this, a history starts on a log of some length.
    pub long: u32,
    pub len: (usize, usize),
}
impl Default for Weights {
    fn default() -> Self {
        Weights {
            deposit: 5,
            transfer: 10,
            transfer_from: 10,
            approve: 10,
            withdraw: 5,
            withdraw_from: 6,
            create: 4,
            create_from: 5,
            respond: 14,
            advance: 6,
            again: 4,
            crowd: 0,
            throng: 0,
            mass: 0,
            masses: (0, 5),
            upgrade: 2,
            blocks: 1,
            pages: 1,
            raw: 0,
            probe: 0,
            edge: 6,
            badfee: 1,
            cat: 4,
            exp: 6,
            weird: 4,
            longmemo: 1,
            life: 3,
            resubmit: 2,
            flight: 3,
            long: 3,
            len: (8, 42),
        }
    }
}

/// Pairs (owner, spender) that mostly have an approval between them.
fn used_pair(weird: u32) -> BoxedStrategy<(Acc, Acc)> {
    prop_oneof![3 => any::<u8>().prop_map(|k| ((0, 0), (200, k))), 2 => pair(weird)].boxed()
}
/// Pairs (owner, spender) that are likely to have an approval between them.
fn pair(weird: u32) -> BoxedStrategy<(Acc, Acc)> {
    prop_oneof![
        5 => (0u8..2, 2u8..4).prop_map(|(a, b)| ((a, 0), (b, 0))),
        2 => (0u8..2, prop_oneof![Just(0u8), Just(2u8)], 2u8..4, prop_oneof![Just(0u8), Just(1u8)]).prop_map(|(a, s, b, t)| ((a, s), (b, t))),
        3 => (payer(weird), acc(weird)),
        1 => acc(weird).prop_map(|a| (a, a)),
        1 => (acc(weird), 0u8..3).prop_map(|(a, s)| (a, (a.0, s))),
    ]
    .boxed()
}

pub fn op(w: &Weights) -> BoxedStrategy<Op> {
    let (edge, wd) = (w.edge, w.weird);
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![];
    v.push((w.deposit, (principal(wd), acc(wd), dep_amt(), memo(w.longmemo)).prop_map(|(caller, to, amt, memo)| Op::Deposit { caller, to, amt, memo }).boxed()));
    v.push((w.transfer, (payer(wd), acc(wd), amt(edge), fee(w.badfee), memo(w.longmemo), cat(w.cat)).prop_map(|(from, to, amt, fee, memo, cat)| Op::Transfer { from, to, amt, fee, memo, cat }).boxed()));
    v.push((w.transfer_from, (used_pair(wd), acc(wd), amt(edge + 2), fee(w.badfee), memo(w.longmemo), cat(w.cat)).prop_map(|((from, spender), to, amt, fee, memo, cat)| Op::TransferFrom { spender, from, to, amt, fee, memo, cat }).boxed()));
    v.push((w.approve, (pair(wd), amt(edge), expect(), exp(w.exp), fee(w.badfee), memo(w.longmemo), cat(w.cat)).prop_map(|((from, spender), amt, expect, exp, fee, memo, cat)| Op::Approve { from, spender, amt, expect, exp, fee, memo, cat }).boxed()));
    v.push((w.withdraw, (payer(wd), target(), amt(edge), cat(w.cat), fault()).prop_map(|(from, to, amt, cat, fault)| Op::Withdraw { from, to, amt, cat, fault }).boxed()));
    v.push((w.withdraw_from, (used_pair(wd), target(), amt(edge), cat(w.cat), fault()).prop_map(|((from, spender), to, amt, cat, fault)| Op::WithdrawFrom { spender, from, to, amt, cat, fault }).boxed()));
    v.push((w.create, (payer(wd), amt(edge), cat(w.cat), cargs(), fault()).prop_map(|(from, amt, cat, args, fault)| Op::Create { from, amt, cat, args, fault }).boxed()));
    v.push((w.create_from, (used_pair(wd), amt(edge), cat(w.cat), cargs(), fault()).prop_map(|((from, spender), amt, cat, args, fault)| Op::CreateFrom { spender, from, amt, cat, args, fault }).boxed()));
    v.push((w.respond, (any::<u8>(), ans()).prop_map(|(k, ans)| Op::Respond { k, ans }).boxed()));
    v.push((w.advance, dt().prop_map(Op::Advance).boxed()));
    v.push((w.again, (any::<u8>(), tweak()).prop_map(|(k, tweak)| Op::Again { k, tweak }).boxed()));
    v.push((w.crowd, (acc(0), prop_oneof![300 => 1u16..12, 100 => 95u16..110, w.throng => 505u16..560], prop_oneof![1 => Just(0u32), 3 => 1u32..500]).prop_map(|(from, n, secs)| Op::Crowd { from, n, secs }).boxed()));
    v.push((w.upgrade, upgrade()));
    v.push((w.blocks, blocks()));
    v.push((w.pages, (acc(0), prop_oneof![8 => 0u8..6, 2 => any::<u8>(), 1 => 252u8..=255], any::<u16>(), any::<bool>()).prop_map(|(from, take, stop, explicit)| Op::Pages { from, take, stop, explicit }).boxed()));
    v.push((
        w.raw,
        (any::<u8>(), principal(4), prop::collection::vec(any::<u8>(), 0..40), prop::option::weighted(0.8, (any::<u8>(), any::<u16>(), any::<u8>())))
            .prop_map(|(method, caller, bytes, mutate)| Op::Raw { method, caller, bytes, mutate })
            .boxed(),
    ));
    v.push((w.probe, (any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(what, a, b)| Op::Probe { what, a, b }).boxed()));
    v.retain(|x| x.0 > 0);
    proptest::strategy::Union::new_weighted(v).boxed()
}

fn plain_approve(from: Acc, spender: Acc, amt: Amt, exp: Exp) -> Op {
    Op::Approve { from, spender, amt, expect: Expect::None, exp, fee: FeeSpec::None, memo: MemoSpec::None, cat: Cat::None }
}
/// Times on a small grid, so that different things fall due together.
fn grid() -> BoxedStrategy<Exp> {
    prop_oneof![3 => Just(Exp::None), 6 => (1u32..5).prop_map(|k| Exp::Secs(10 * k)), 1 => Just(Exp::Max), 1 => Just(Exp::Rel(1))].boxed()
}
fn fixed_pair() -> BoxedStrategy<(Acc, Acc)> {
    (0u8..2, prop_oneof![3 => Just(0u8), 1 => Just(2u8)], 2u8..5, prop_oneof![3 => Just(0u8), 1 => Just(2u8)]).prop_map(|(a, s, b, t)| ((a, s), (b, t))).boxed()
}
/// Something that happens to one approval.
fn moment(from: Acc, spender: Acc) -> BoxedStrategy<Op> {
    prop_oneof![
        6 => (prop_oneof![2 => Just(Amt::Abs(0)), 4 => (1u8..9, d()).prop_map(|(m, d)| Amt::Fee(m, d)), 1 => Just(Amt::AllowRaw(0)), 1 => Just(Amt::MaxMinus(0))], grid())
            .prop_map(move |(a, e)| plain_approve(from, spender, a, e)),
        1 => (Just(()), grid(), -1i8..=1).prop_map(move |(_, exp, d)| Op::Approve { from, spender, amt: Amt::Fee(4, 0), expect: Expect::Cur(d), exp, fee: FeeSpec::None, memo: MemoSpec::None, cat: Cat::None }),
        4 => prop_oneof![2 => Just(Amt::Fee(1, 0)), 2 => Just(Amt::Allow(0)), 1 => Just(Amt::Allow(1)), 1 => Just(Amt::Abs(0))]
            .prop_map(move |amt| Op::TransferFrom { spender, from, to: (4, 0), amt, fee: FeeSpec::None, memo: MemoSpec::None, cat: Cat::None }),
        4 => prop_oneof![3 => Just(Dt::Secs(10)), 1 => Just(Dt::Secs(5)), 2 => (-1i8..=1).prop_map(Dt::ToExpiry), 1 => Just(Dt::Ns(1))].prop_map(Op::Advance),
        // Anything that prunes.
        2 => Just(Op::Transfer { from: (200, 1), to: (4, 0), amt: Amt::Abs(1), fee: FeeSpec::None, memo: MemoSpec::None, cat: Cat::None }),
        1 => Just(Op::Deposit { caller: 1, to: from, amt: Amt::Fee(30, 0), memo: MemoSpec::None }),
        // The neighbour of the pair.
        1 => grid().prop_map(move |e| plain_approve(from, (spender.0, spender.1 ^ 1), Amt::Fee(5, 0), e)),
        1 => Just(Op::Pages { from, take: 3, stop: 2, explicit: true }),
    ]
    .boxed()
}
fn life() -> BoxedStrategy<Vec<Op>> {
    fixed_pair()
        .prop_flat_map(|(f, s)| {
            let m = moment(f, s);
            (prop_oneof![3 => Just(Amt::Fee(20, 0)), 1 => Just(Amt::Fee(4, 1))], grid(), prop::collection::vec(m, 2..9)).prop_map(move |(a, e, mut v)| {
                v.insert(0, plain_approve(f, s, a, e));
                v
            })
        })
        .boxed()
}
fn timed(cat: Cat, from: Acc, spender: Acc, what: u8, amt: Amt, args: CArgs) -> Op {
    let (fee, memo, fault) = (FeeSpec::None, MemoSpec::None, 0);
    match what % 8 {
        0 | 1 => Op::Transfer { from, to: (4, 0), amt, fee, memo, cat },
        2 => Op::TransferFrom { spender, from, to: (4, 0), amt, fee, memo, cat },
        3 => Op::Approve { from, spender, amt, expect: Expect::None, exp: Exp::Secs(50), fee, memo, cat },
        4 => Op::Withdraw { from, to: 3, amt, cat, fault },
        5 => Op::WithdrawFrom { spender, from, to: 3, amt, cat, fault },
        6 => Op::Create { from, amt, cat, args, fault },
        _ => Op::CreateFrom { spender, from, amt, cat, args, fault },
    }
}
/// A request with a creation time, and resubmissions of it around the window.
fn resubmit() -> BoxedStrategy<Vec<Op>> {
    let between = prop_oneof![
        4 => (any::<u8>(), tweak()).prop_map(|(k, tweak)| Op::Again { k: k % 3, tweak }),
        2 => Just(Op::Again { k: 1, tweak: Tweak::Same }),
        2 => (0u8..2, ans()).prop_map(|(k, ans)| Op::Respond { k, ans }),
        2 => dt().prop_map(Op::Advance),
        2 => (-1i8..=1).prop_map(|d| Op::Advance(Dt::ToWindow(d))),
        1 => Just(Op::Transfer { from: (200, 1), to: (4, 0), amt: Amt::Abs(1), fee: FeeSpec::None, memo: MemoSpec::None, cat: Cat::None }),
        1 => upgrade(),
    ];
    (fixed_pair(), cat_ok(), any::<u8>(), cargs(), prop::bool::ANY, prop::collection::vec(between, 2..8))
        .prop_map(|((from, spender), cat, what, args, rich, v)| {
            let mut ops = vec![Op::Deposit { caller: 1, to: from, amt: Amt::Fee(60, 0), memo: MemoSpec::None }];
            if what % 8 > 1 {
                ops.push(plain_approve(from, spender, Amt::Fee(60, 0), Exp::None));
            }
            let amt = if rich { Amt::Fee(2, 0) } else { Amt::Frac(130) };
            ops.push(timed(cat, from, spender, what, amt, args));
            ops.extend(v);
            ops
        })
        .boxed()
}
/// Calls that are under way while other things happen to the same account and approval.
fn flight() -> BoxedStrategy<Vec<Op>> {
    (fixed_pair(), any::<bool>(), any::<bool>(), grid(), cargs())
        .prop_flat_map(|((from, spender), create, own, exp, args)| {
            let amt = prop_oneof![3 => (1u8..6, d()).prop_map(|(m, d)| Amt::Fee(m, d)), 1 => Just(Amt::Allow(0)), 1 => Just(Amt::Bal(0)), 1 => Just(Amt::Fee(1, 1))];
            let leave = (amt, cat(2), fault()).prop_map(move |(amt, cat, fault)| match (create, own) {
                (false, true) => Op::Withdraw { from, to: 3, amt, cat, fault },
                (false, false) => Op::WithdrawFrom { spender, from, to: 3, amt, cat, fault },
                (true, true) => Op::Create { from, amt, cat, args, fault },
                (true, false) => Op::CreateFrom { spender, from, amt, cat, args, fault },
            });
            let fail = (0u8..3, prop_oneof![4 => (1u8..=6).prop_map(Ans::Reject), 1 => ans()]).prop_map(|(k, ans)| Op::Respond { k, ans });
            let next = prop_oneof![6 => moment(from, spender), 2 => leave.clone(), 4 => fail.clone()];
            (leave, prop::collection::vec(next, 1..7), fail, any::<bool>()).prop_map(move |(l, v, f, rich)| {
                let mut ops = vec![];
                if rich {
                    ops.push(Op::Deposit { caller: 1, to: from, amt: Amt::Fee(60, 0), memo: MemoSpec::None });
                }
                ops.push(plain_approve(from, spender, Amt::Fee(9, 0), exp.clone()));
                ops.push(l);
                ops.extend(v);
                ops.push(f);
                ops
            })
        })
        .boxed()
}
fn chunk(w: &Weights) -> BoxedStrategy<Vec<Op>> {
    let mut v: Vec<(u32, BoxedStrategy<Vec<Op>>)> = vec![(100, op(w).prop_map(|o| vec![o]).boxed()), (w.life, life()), (w.resubmit, resubmit()), (w.flight, flight())];
    for x in &mut v {
        x.0 *= 10;
    }
    let (first, kinds) = w.masses;
    let n = prop_oneof![5 => 3u16..30, 4 => 30u16..140, 1 => 140u16..600];
    v.push((w.mass, (0u8..2, n, first..first + kinds, any::<u16>()).prop_map(|(from, n, what, seed)| vec![Op::Mass { from: (from, 0), n, what, seed }]).boxed()));
    v.retain(|x| x.0 > 0);
    proptest::strategy::Union::new_weighted(v).boxed()
}

/// A whole case: what the ledger starts with, and the history.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Case {
    /// Initial balances (account, fees, plus).
    pub init: Vec<(Acc, u8, u8)>,
    pub max_blocks: u64,
    pub index: u8,
    /// Small initial mints before the others.
    #[serde(default)]
    pub pad: u16,
    pub ops: Vec<Op>,
}
pub fn case(w: &Weights) -> BoxedStrategy<Case> {
    let (lo, hi) = w.len;
    (
        prop::collection::vec((acc(0), any::<u8>(), 0u8..3), 0..4),
        prop_oneof![4 => 1u64..12, 2 => Just(100u64), 1 => Just(u64::MAX)],
        0u8..3,
        prop::collection::vec(chunk(w), lo..hi),
        0u8..3,
        prop_oneof![
            100 => Just(0u16),
            // Indices get a second byte in LEB128, and a third one.
            w.long => prop_oneof![30 => 100u16..127, 9 => 240u16..256, 1 => 16365u16..16384],
        ],
    )
        .prop_map(|(init, mut max_blocks, index, ops, approvals, pad)| {
            if pad > 0 {
                max_blocks = max_blocks.max(if pad > 1000 { 5000 } else { 9 });
            }
            let mut ops: Vec<Op> = ops.into_iter().flatten().collect();
            // Most histories need someone to have cycles.
            ops.insert(0, Op::Deposit { caller: 0, to: (0, 0), amt: Amt::Fee(200, 7), memo: MemoSpec::None });
            ops.insert(1, Op::Deposit { caller: 1, to: (1, 0), amt: Amt::Fee(120, 0), memo: MemoSpec::None });
            let plain = |from, spender, m| plain_approve(from, spender, Amt::Fee(m, 3), Exp::None);
            if approvals > 0 {
                ops.insert(2, plain((0, 0), (2, 0), 60));
            }
            if approvals > 1 {
                ops.insert(3, plain((1, 0), (3, 0), 30));
            }
            Case { init, max_blocks, index, pad, ops }
        })
        .boxed()
}
