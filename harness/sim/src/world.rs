//! Runs a case against the real canister and the reference model side by side.
use iface::icrc3::{self, Tree};
use crate::inst::{Canister, Fault, Pending, Res, FLOAT};
use iface::model::*;
use iface::ops::*;
use iface::types::*;
use candid::{CandidType, Nat, Principal};
use num_bigint::BigUint;
use num_traits::ToPrimitive;
use serde::de::DeserializeOwned;
use serde_bytes::ByteBuf;
use std::collections::{BTreeMap, BTreeSet};

pub const LEDGER: &[u8] = &[0, 0, 0, 0, 2, 16, 0, 2, 1, 1];
pub const START: u64 = 1_700_000_000_123_456_789;

/// Something that is not as promised, and the properties it goes against.
#[derive(Clone, Debug)]
pub struct Find {
    pub props: Vec<&'static str>,
    pub msg: String,
}

#[derive(Default, Clone, Debug)]
pub struct Stats(pub BTreeMap<&'static str, u64>);
impl Stats {
    pub fn hit(&mut self, k: &'static str) {
        *self.0.entry(k).or_default() += 1;
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.0.entry(k).or_default() += n;
    }
    pub fn get(&self, k: &str) -> u64 {
        self.0.get(k).copied().unwrap_or(0)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Dump {
    pub bal: BTreeMap<Key, Nat>,
    pub appr: BTreeMap<Pair, (Nat, Option<u64>)>,
    pub supply: Nat,
    pub len: u64,
    pub blocks: Option<Vec<Value>>,
    pub certified: Option<Vec<u8>>,
    pub cycles: u128,
    pub gauges: BTreeMap<String, String>,
}

pub struct World {
    pub c: Canister,
    pub m: Model,
    pub finds: Vec<Find>,
    pub stats: Stats,
    /// Blocks as the ledger served them.
    pub log: Vec<Value>,
    pub replay: Replay,
    pub replay_broken: bool,
    pub focus: &'static str,
    /// Requests made, for `Again`.
    pub requests: Vec<Intent>,
    pub trace: Vec<String>,
    stale_appr: u64,
    next_canister: u64,
    pub expect_cycles: u128,
    /// What the canister held beyond what backs the supply, after the last message.
    pub surplus: i128,
    steps: u64,
    /// The request at hand is one the ledger may also fail to understand.
    pub lenient: bool,
    /// The model cannot follow any more, through nobody's fault.
    /// Leaves out the requests that are to be refused.
    pub skip_refused: bool,
    /// The gauges are looked at after every step.
    pub gauges_too: bool,
    pub over: bool,
}

pub use iface::wire::{dec, enc};

pub fn principal(i: u8) -> Principal {
    let key = |x: u8| {
        let mut b = [x; 29];
        b[28] = 2;
        b[0] = x.wrapping_mul(37) ^ 0x5a;
        Principal::from_slice(&b)
    };
    match i % 12 {
        x @ 0..=2 => key(x + 1),
        3 => Principal::from_slice(&[0, 0, 0, 0, 0, 16, 0, 3, 1, 1]),
        4 => Principal::from_slice(&[0, 0, 0, 0, 0, 16, 0, 4, 1, 1]),
        5 => Principal::from_slice(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 7]),
        6 => Principal::anonymous(),
        7 => Principal::management_canister(),
        8 => Principal::from_slice(&[1]),
        9 => Principal::from_slice(&[1, 0]),
        10 => Principal::from_slice(CMC),
        _ => Principal::from_slice(LEDGER),
    }
}
/// Where cycles are sent: the principals above, and others of every length, many of which end
/// the way the keys' principals do.
pub fn target(i: u8) -> Principal {
    if i < 12 {
        return principal(i);
    }
    let (len, v) = ((i - 12) as usize % 30, (i - 12) / 30);
    let mut b = vec![i; len];
    if v == 6 {
        b.fill(2);
    }
    if let Some(l) = b.last_mut() {
        *l = [2, 1, 3, 2, 0, 2, 2, 130, 7][v as usize];
    }
    Principal::from_slice(&b)
}
pub fn sub(i: u8) -> Option<ByteBuf> {
    let s = match i % 6 {
        0 => return None,
        1 => [0; 32],
        2 => {
            let mut s = [0; 32];
            s[31] = 1;
            s
        }
        3 => [255; 32],
        4 => {
            let mut s = [0; 32];
            s[0] = 1;
            s
        }
        _ => {
            let mut s = [7; 32];
            s[5] = 200;
            s
        }
    };
    Some(ByteBuf::from(s.to_vec()))
}
pub fn account(a: Acc) -> Account {
    Account { owner: principal(a.0), subaccount: sub(a.1) }
}
pub fn crowd_spender(i: u16) -> Account {
    let [high, low] = i.to_be_bytes();
    Account { owner: Principal::from_slice(&[0, 0, 0, 0, 1, low, high, 9, 1, 1]), subaccount: (i % 3 == 2).then(|| ByteBuf::from(vec![low; 32])) }
}

fn ended(l: &[AllowanceEntry], now: u64) -> bool {
    l.iter().any(|e| e.expires_at.is_some_and(|x| x <= now))
}

pub fn init_args(case: &Case) -> InitArgs {
    InitArgs {
        max_blocks_per_request: case.max_blocks,
        index_id: (case.index > 0).then(|| principal(case.index)),
        initial_balances: if case.init.is_empty() && case.pad == 0 {
            None
        } else {
            let pad = (0..case.pad).map(|_| (account((0, 0)), Nat::from(1u8)));
            Some(pad.chain(case.init.iter().map(|(a, m, d)| (account(*a), Nat::from(*m as u128 * FEE + *d as u128)))).collect())
        },
    }
}

fn shorten(s: String) -> String {
    if s.len() > 2000 {
        let mut k = 2000;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}…", &s[..k])
    } else {
        s
    }
}

impl World {
    pub fn new(case: &Case, focus: &'static str) -> Result<World, String> {
        World::install(init_args(case), focus)
    }
    pub fn install(args: InitArgs, focus: &'static str) -> Result<World, String> {
        let c = Canister::install(LEDGER, START, enc((LedgerArgs::Init(args.clone()),)), focus == "C16")?;
        let mut w = World {
            c,
            m: Model { now: START, max_blocks: args.max_blocks_per_request, index_id: args.index_id, ..Default::default() },
            finds: vec![],
            stats: Stats::default(),
            log: vec![],
            replay: Replay::default(),
            replay_broken: false,
            focus,
            requests: vec![],
            trace: vec![],
            stale_appr: 0,
            next_canister: 1,
            expect_cycles: FLOAT,
            surplus: FLOAT as i128,
            steps: 0,
            lenient: false,
            over: false,
            skip_refused: false,
            gauges_too: false,
        };
        let mut touched = BTreeSet::new();
        for (a, x) in args.initial_balances.iter().flatten() {
            let x = x.0.to_u128().unwrap();
            w.m.initial_mint(a, x);
            // Whoever installs the ledger has to send the cycles along.
            w.c.balance = w.c.balance.saturating_add(x);
            w.expect_cycles = w.expect_cycles.saturating_add(x);
            touched.insert(key(a));
            w.stats.hit("initial_balances");
        }
        w.observe("init", &touched, &BTreeSet::new(), &["C24"], None, true);
        Ok(w)
    }
    pub fn find(&mut self, props: &[&'static str], msg: String) {
        self.finds.push(Find { props: props.to_vec(), msg: shorten(msg) });
    }
    fn focused(&self, ids: &[&str]) -> bool {
        ids.contains(&self.focus)
    }

    // ---- queries -------------------------------------------------------------------------
    pub fn q<T: DeserializeOwned + CandidType>(&mut self, method: &str, caller: Principal, arg: Vec<u8>) -> Result<T, String> {
        match self.c.query(method, caller.as_slice(), arg) {
            Res::Reply(b) => dec(&b).map_err(|e| format!("{method}: reply does not decode: {e}")),
            r => Err(format!("{method}: {r:?}")),
        }
    }
    pub fn balance_of(&mut self, a: &Account) -> Result<Nat, String> {
        self.q("icrc1_balance_of", Principal::anonymous(), enc((a.clone(),)))
    }
    pub fn allowance_of(&mut self, p: &Pair) -> Result<Allowance, String> {
        let sp = |k: &Key, alt: bool| if alt && k.1 == [0; 32] { Account { owner: k.0, subaccount: None } } else { acct(k) };
        let alt = self.steps % 2 == 0;
        self.q("icrc2_allowance", Principal::anonymous(), enc((AllowanceArgs { account: sp(&p.0, alt), spender: sp(&p.1, !alt) },)))
    }
    pub fn supply_of(&mut self) -> Result<Nat, String> {
        self.q("icrc1_total_supply", Principal::anonymous(), enc(()))
    }
    pub fn get_blocks(&mut self, args: Vec<BlockRange>) -> Result<GetBlocksResult, String> {
        self.q("icrc3_get_blocks", Principal::anonymous(), enc((args,)))
    }
    pub fn log_length(&mut self) -> Result<u64, String> {
        Ok(self.get_blocks(vec![])?.log_length.0.to_u64().unwrap_or(u64::MAX))
    }
    /// All blocks from `from` on.
    pub fn fetch(&mut self, from: u64) -> Result<(u64, Vec<Value>), String> {
        let mut out: Vec<Value> = vec![];
        let mut len;
        loop {
            let at = from + out.len() as u64;
            let want = if self.m.max_blocks > 1000 { 500u64 } else { 1000 };
            let r = self.get_blocks(vec![BlockRange { start: at.into(), length: want.into() }])?;
            len = r.log_length.0.to_u64().ok_or("log_length above 2^64")?;
            for (i, b) in r.blocks.iter().enumerate() {
                if b.id != Nat::from(at + i as u64) {
                    return Err(format!("icrc3_get_blocks from {at} gives block {} at place {i}", b.id));
                }
                out.push(sorted(&b.block));
            }
            if from + out.len() as u64 >= len {
                break;
            }
            if r.blocks.is_empty() {
                return Err(format!("icrc3_get_blocks gives nothing from {at} on although the log has {len} blocks"));
            }
        }
        Ok((len, out))
    }
    pub fn gauges(&mut self) -> Result<BTreeMap<String, String>, String> {
        let r: HttpResponse = self.q(
            "http_request",
            Principal::anonymous(),
            enc((HttpRequest { url: "/metrics".into(), method: "GET".into(), body: ByteBuf::new(), headers: vec![] },)),
        )?;
        if r.status_code != 200 {
            return Err(format!("/metrics answers with status {}", r.status_code));
        }
        let text = String::from_utf8_lossy(&r.body).into_owned();
        let mut m = BTreeMap::new();
        for l in text.lines().filter(|l| !l.starts_with('#') && !l.is_empty()) {
            let p: Vec<_> = l.split_whitespace().collect();
            if p.len() >= 2 {
                m.insert(p[0].to_string(), p[1].to_string());
            }
            // In milliseconds, when it is given.
            if p.len() >= 3 && p[2] != (self.m.now / 1_000_000).to_string() {
                return Err(format!("/metrics gives {l:?} at {}", self.m.now));
            }
        }
        Ok(m)
    }
    /// What HTTP requests get: the metrics, the log, or nothing.
    pub fn check_http(&mut self, url: &str, method: &str, body: Vec<u8>) {
        let r = HttpRequest { url: url.into(), method: method.into(), body: ByteBuf::from(body), headers: vec![] };
        let a: HttpResponse = match self.q("http_request", Principal::anonymous(), enc((r,))) {
            Ok(a) => a,
            Err(e) => return self.find(&["C21", "C23"], format!("HTTP {method} {url}: {e}")),
        };
        let len = a.headers.iter().find(|(k, _)| k.eq_ignore_ascii_case("content-length"));
        let path = url.split('?').next().unwrap_or_default();
        let bad = match path {
            "/metrics" if a.status_code != 200 || !String::from_utf8_lossy(&a.body).contains("cycles_ledger_total_supply") => Some("no metrics"),
            "/logs" => match serde_json::from_slice::<serde_json::Value>(&a.body) {
                Ok(v) if a.status_code == 200 && v["entries"].as_array().is_some_and(|e| e.iter().all(|e| e["message"].is_string() && e["timestamp"].is_u64())) => None,
                _ => Some("no log"),
            },
            "/metrics" => None,
            _ if (200..300).contains(&a.status_code) => Some("a page that there is not"),
            _ => None,
        };
        let bad = bad.or(len.is_some_and(|l| l.1 != a.body.len().to_string()).then_some("a wrong length"));
        if let Some(b) = bad {
            self.find(&["C23", "C21"], format!("HTTP {method} {url} gives {b}: status {}, {:?}", a.status_code, String::from_utf8_lossy(&a.body[..a.body.len().min(300)])));
        }
    }
    pub fn dump(&mut self, with_blocks: bool) -> Result<Dump, String> {
        let accounts: Vec<Key> = self.m.known.iter().copied().collect();
        let pairs: Vec<Pair> = self.m.known_pairs.iter().copied().collect();
        let mut bal = BTreeMap::new();
        for k in accounts {
            bal.insert(k, self.balance_of(&acct(&k))?);
        }
        let mut appr = BTreeMap::new();
        for p in pairs {
            let a = self.allowance_of(&p)?;
            appr.insert(p, (a.allowance, a.expires_at));
        }
        let (len, blocks) = if with_blocks {
            let (l, b) = self.fetch(0)?;
            (l, Some(b))
        } else {
            (self.log_length()?, None)
        };
        let mut gauges = self.gauges()?;
        gauges.retain(|k, _| !k.contains("stable_memory"));
        Ok(Dump { bal, appr, supply: self.supply_of()?, len, blocks, certified: self.c.certified.clone(), cycles: self.c.balance, gauges })
    }

    // ---- observation ---------------------------------------------------------------------
    /// Compares what can be seen of the ledger with the model and with what must hold of any
    /// ledger whatever the model says. `extra`: the properties that a difference from the
    /// model goes against besides the usual ones.
    pub fn observe(&mut self, what: &str, touched: &BTreeSet<Key>, pairs: &BTreeSet<Pair>, extra: &[&'static str], caller: Option<Principal>, full: bool) {
        if let Err(e) = self.observe_inner(what, touched, pairs, extra, caller, full) {
            let mut p = vec!["C02", "C03", "C04", "C05", "C17", "C21"];
            p.extend(extra);
            self.find(&p, format!("after {what}: {e}"));
        }
    }
    fn observe_inner(&mut self, what: &str, touched: &BTreeSet<Key>, pairs: &BTreeSet<Pair>, extra: &[&'static str], caller: Option<Principal>, full: bool) -> Result<(), String> {
        self.steps += 1;
        let with = |base: &[&'static str]| -> Vec<&'static str> { base.iter().chain(extra.iter()).copied().collect() };
        // The log.
        let (len, new) = self.fetch(self.log.len() as u64)?;
        if len < self.log.len() as u64 {
            self.find(&with(&["C04", "C03"]), format!("after {what}: the log shrank from {} to {len} blocks", self.log.len()));
            return Ok(());
        }
        for (i, b) in new.iter().enumerate() {
            let idx = self.log.len();
            let m = b.map().unwrap_or_default();
            let phash = match m.get("phash") {
                Some(Value::Blob(h)) => Some(h.to_vec()),
                None => None,
                x => Some(format!("{x:?}").into_bytes()),
            };
            let want = self.log.last().map(|p| icrc3::hash(p).to_vec());
            if phash != want {
                self.find(&["C04"], format!("after {what}: block {idx} has phash {phash:?}, but the block before hashes to {want:?}"));
            }
            match m.get("ts") {
                Some(Value::Nat(t)) if *t == Nat::from(self.m.now) => {}
                t => self.find(&["C04", "C20"], format!("after {what}: block {idx} has timestamp {t:?}, the time being {}", self.m.now)),
            }
            // Nobody's account is debited but at their own or their spender's word.
            if let (Some(caller), Ok((op, from, _, spender))) = (caller, parties(b)) {
                let mine = |a: &Option<Account>| a.as_ref().is_some_and(|a| a.owner == caller);
                let ok = match op.as_str() {
                    "mint" => true,
                    "approve" => mine(&from) || ((what.starts_with("respond") || what.contains("_from by")) && mine(&spender)),
                    _ => mine(&from) || mine(&spender),
                };
                if !ok {
                    self.find(&["C19"], format!("after {what}: block {idx} debits {from:?} (spender {spender:?}) at the word of {caller}"));
                }
            }
            match self.m.blocks.get(idx) {
                Some(x) if x == b => {}
                Some(x) => {
                    let mut x = x.clone();
                    let lenient = what == "init";
                    let mut b2 = b.clone();
                    if lenient {
                        strip_mint_fee(&mut x);
                        strip_mint_fee(&mut b2);
                    }
                    if x != b2 {
                        self.find(&with(&["C20"]), format!("after {what}: block {idx} is {b:?}, expected {x:?}"));
                    } else {
                        // Later hashes build on what the ledger holds.
                        self.m.blocks[idx] = b.clone();
                        self.rehash(idx);
                    }
                }
                None => self.find(&with(&["C20"]), format!("after {what}: unexpected block {idx}: {b:?}")),
            }
            if !self.replay_broken {
                if let Err(e) = self.replay.block(b) {
                    self.replay_broken = true;
                    self.find(&["C03", "C10", "C02"], format!("after {what}: the log cannot be replayed: {e}"));
                }
            }
            self.log.push(b.clone());
            let _ = i;
        }
        if self.m.blocks.len() > self.log.len() {
            let missing = self.m.blocks[self.log.len()].clone();
            self.find(&with(&["C20"]), format!("after {what}: block {} is missing; expected {missing:?}", self.log.len()));
        }
        // The certified tip.
        if self.focused(&["C05", "C04", "C15"]) || full || !new.is_empty() {
            self.check_tip(what)?;
        }
        // Supply and backing.
        let supply = self.supply_of()?;
        if BigUint::from(self.c.balance) < BigUint::from(FLOAT) + &supply.0 {
            self.find(&["C01"], format!("after {what}: a supply of {supply} cycles is backed by only {} cycles", self.c.balance as i128 - FLOAT as i128));
        }
        // Every message leaves at least as much to spare as there was before it.
        if let (Ok(b), Some(x)) = (i128::try_from(self.c.balance), supply.0.to_u128().and_then(|x| i128::try_from(x).ok())) {
            let left = b - x;
            if left < self.surplus {
                self.find(&["C01"], format!("after {what}: {left} cycles more than the supply of {supply} are left, there were {} more before", self.surplus));
            }
            self.surplus = left;
        }
        let ms = self.m.supply();
        if supply != Nat::from(ms) {
            self.find(&with(&["C02"]), format!("after {what}: the total supply is {supply}, expected {ms}"));
        }
        if !self.replay_broken && supply != Nat::from(self.replay.supply) {
            self.find(&["C03"], format!("after {what}: the total supply is {supply}, but the log's blocks give {}", self.replay.supply));
        }
        // Balances and allowances.
        let all = full || self.focused(&["C02", "C03", "C08"]);
        let keys: Vec<Key> = if all { self.m.known.iter().chain(touched.iter()).copied().collect::<BTreeSet<_>>().into_iter().collect() } else { touched.iter().copied().collect() };
        let mut sum = BigUint::from(0u8);
        for k in &keys {
            let a = if k.1 == [0; 32] && self.steps % 2 == 0 { Account { owner: k.0, subaccount: None } } else { acct(k) };
            let b = self.balance_of(&a)?;
            let mb = self.m.balance(k);
            if b != Nat::from(mb) {
                self.find(&with(&["C02"]), format!("after {what}: the balance of {} is {b}, expected {mb}", show(&a)));
            }
            let rb = self.replay.bal.get(k).copied().unwrap_or(0);
            if !self.replay_broken && b != Nat::from(rb) {
                self.find(&["C03"], format!("after {what}: the balance of {} is {b}, but the log's blocks give {rb}", show(&a)));
            }
            sum += b.0;
        }
        if all && sum != supply.0 {
            self.find(&["C02"], format!("after {what}: the balances add up to {sum}, the total supply is {supply}"));
        }
        let allp = full || self.focused(&["C03", "C08", "C10", "C11"]);
        let ps: Vec<Pair> = if allp && self.m.known_pairs.len() < 40 || full {
            self.m.known_pairs.iter().chain(pairs.iter()).copied().collect::<BTreeSet<_>>().into_iter().collect()
        } else {
            pairs.iter().copied().collect()
        };
        for p in &ps {
            let a = self.allowance_of(p)?;
            let (ma, me) = self.m.allowance(p);
            let got = (a.allowance.clone(), a.expires_at);
            if got != (Nat::from(ma), (me > 0).then_some(me)) {
                let exp = self.m.appr.get(p).map_or(0, |x| x.1);
                let mut props = with(&["C10"]);
                if exp != 0 || a.expires_at.is_some() || !pairs.contains(p) {
                    props.push("C11");
                }
                self.find(&props, format!("after {what}: the allowance of {} from {} is {got:?} at {}, expected ({ma}, {me})", show(&acct(&p.1)), show(&acct(&p.0)), self.m.now));
            }
            if !self.replay_broken {
                let r = self.replay.allowance(p, self.m.now);
                if got != (Nat::from(r.0), (r.1 > 0).then_some(r.1)) {
                    self.find(&["C03"], format!("after {what}: the allowance of {} from {} is {got:?}, but the log's blocks give {r:?}", show(&acct(&p.1)), show(&acct(&p.0))));
                }
            }
        }
        // The canister's cycles.
        if self.c.balance != self.expect_cycles {
            let b = self.c.balance;
            let e = self.expect_cycles;
            self.find(&with(&["C01"]), format!("after {what}: the ledger canister holds {b} cycles, expected {e}"));
        }
        if full {
            self.check_whole_log(what)?;
        }
        Ok(())
    }
    fn rehash(&mut self, from: usize) {
        for i in from..self.m.blocks.len() {
            if i > from {
                let h = self.m.hashes[i - 1];
                if let Value::Map(m) = &mut self.m.blocks[i] {
                    for (k, v) in m.iter_mut() {
                        if k == "phash" {
                            *v = Value::Blob(ByteBuf::from(h.to_vec()));
                        }
                    }
                }
            }
            self.m.hashes[i] = icrc3::hash(&self.m.blocks[i]);
        }
    }
    fn check_whole_log(&mut self, what: &str) -> Result<(), String> {
        let (len, all) = self.fetch(0)?;
        if len != self.log.len() as u64 || all != self.log {
            let at = all.iter().zip(&self.log).position(|(a, b)| a != b);
            self.find(&["C04", "C03"], format!("after {what}: the log is not what it was: {len} blocks (was {}), first difference at {at:?}", self.log.len()));
        }
        Ok(())
    }
    pub fn check_tip(&mut self, what: &str) -> Result<(), String> {
        if self.log.is_empty() {
            return Ok(());
        }
        let r: Option<DataCertificate> = self.q("icrc3_get_tip_certificate", Principal::anonymous(), enc(()))?;
        let Some(dc) = r else {
            self.find(&["C05"], format!("after {what}: no tip certificate"));
            return Ok(());
        };
        let idx = self.log.len() as u64 - 1;
        let hash = icrc3::hash(self.log.last().unwrap());
        let cert = self.c.certified.clone().unwrap_or_default();
        if *dc.certificate != cert {
            self.find(&["C05"], format!("after {what}: the certificate is not the system's"));
        }
        match Tree::parse(&dc.hash_tree) {
            Err(e) => self.find(&["C05"], format!("after {what}: the tip's hash tree does not parse: {e}")),
            Ok(t) => {
                if t.root()[..] != cert[..] {
                    self.find(&["C05"], format!("after {what}: the tip's hash tree does not match the certified data"));
                }
                if t.lookup(b"last_block_index") != Some(icrc3::uleb(idx.into())) {
                    self.find(&["C05"], format!("after {what}: the certified index is {:?}, the last block's is {idx}", t.lookup(b"last_block_index")));
                }
                if t.lookup(b"last_block_hash").as_deref() != Some(&hash[..]) {
                    self.find(&["C05"], format!("after {what}: the certified hash is not the last block's"));
                }
            }
        }
        self.stats.hit("tip_checks");
        Ok(())
    }

    // ---- symbolic to concrete ------------------------------------------------------------
    pub fn amount(&self, a: &Amt, payer: &Key, spender: Option<&Key>) -> BigUint {
        let bal = self.m.balance(payer);
        let al = spender.map_or(0, |s| self.m.allowance(&(*payer, *s)).0);
        let f = FEE;
        let plus = |b: u128, d: i8| -> BigUint { if d >= 0 { BigUint::from(b) + d as u8 } else { BigUint::from(b.saturating_sub(d.unsigned_abs() as u128)) } };
        match *a {
            Amt::Abs(x) => x.into(),
            Amt::Fee(m, d) => plus(m as u128 * f, d),
            Amt::Bal(d) => plus(bal.saturating_sub(f), d),
            Amt::BalRaw(d) => plus(bal, d),
            Amt::Allow(d) => plus(al.saturating_sub(f), d),
            Amt::AllowRaw(d) => plus(al, d),
            Amt::Frac(k) => (bal / 255 * k as u128).into(),
            Amt::MaxMinus(k) => (u128::MAX - k as u128).into(),
            Amt::MaxFee(d) => plus(u128::MAX - f, d) + 1u8,
            Amt::Over(k) => BigUint::from(u128::MAX) + 1u8 + k,
            Amt::Pow(k) => BigUint::from(1u8) << k.min(127) as usize,
        }
    }
    pub fn time(&self, c: &Cat) -> Option<u64> {
        let now = self.m.now;
        let plus = |b: u64, d: i32| if d >= 0 { b.saturating_add(d as u64) } else { b.saturating_sub(d.unsigned_abs() as u64) };
        match *c {
            Cat::None => None,
            Cat::Now(d) => Some(plus(now, d)),
            Cat::Old(d) => Some(plus(now - WINDOW - DRIFT, d)),
            Cat::Fut(d) => Some(plus(now + DRIFT, d)),
            Cat::AgoSecs(s) => Some(now - s as u64 * 1_000_000_000),
            Cat::Zero => Some(0),
            Cat::Max => Some(u64::MAX),
        }
    }
    fn expiry(&self, e: &Exp) -> Option<u64> {
        let now = self.m.now;
        match *e {
            Exp::None => None,
            Exp::Rel(d) => Some(if d >= 0 { now + d as u64 } else { now - d.unsigned_abs() as u64 }),
            Exp::Secs(s) => Some(now + s as u64 * 1_000_000_000),
            Exp::Zero => Some(0),
            Exp::One => Some(1),
            Exp::Max => Some(u64::MAX),
        }
    }
    fn fee(&self, f: &FeeSpec) -> Option<BigUint> {
        let fee = BigUint::from(FEE);
        match *f {
            FeeSpec::None => None,
            FeeSpec::Exact => Some(fee),
            FeeSpec::Delta(d) => Some(if d >= 0 { fee + d as u8 } else { fee - d.unsigned_abs() }),
            FeeSpec::Zero => Some(0u8.into()),
            FeeSpec::Double => Some(fee * 2u8),
            FeeSpec::Max => Some(u128::MAX.into()),
            FeeSpec::Over => Some(BigUint::from(1u8) << 128),
            FeeSpec::Wrap64 => Some((BigUint::from(1u8) << 64) + fee),
            FeeSpec::Wrap128 => Some((BigUint::from(1u8) << 128) + fee),
        }
    }
    fn memo(&self, m: &MemoSpec) -> Option<Vec<u8>> {
        match *m {
            MemoSpec::None => None,
            MemoSpec::Text(k, n) => Some(memo_text(k, n)),
            MemoSpec::Len(l, f) => Some((0..l).map(|i| f.wrapping_add(if f % 2 == 1 { i } else { 0 })).collect()),
        }
    }
    pub fn cmc_args(&self, a: &CArgs) -> Option<CmcArgs> {
        cmc_args(a)
    }
    fn fault(f: u8) -> Fault {
        match f % 3 {
            0 => Fault::None,
            1 => Fault::NoLiquidCycles,
            _ => Fault::CallFails,
        }
    }
    /// The account meant: from 200 on, one of those that can pay.
    fn who(&self, a: Acc) -> Account {
        if a.0 < 200 {
            return account(a);
        }
        let rich: Vec<Key> = self.m.bal.iter().filter(|(_, b)| **b >= 3 * FEE).map(|(k, _)| *k).collect();
        if rich.is_empty() {
            return account((a.1 % 3, 0));
        }
        self.spell(rich[a.1 as usize % rich.len()], a.1)
    }
    fn spell(&self, k: Key, how: u8) -> Account {
        if k.1 == [0; 32] && how % 4 != 0 {
            Account { owner: k.0, subaccount: None }
        } else {
            acct(&k)
        }
    }
    fn pair(&self, from: Acc, spender: Acc) -> (Account, Account) {
        if spender.0 < 200 {
            return (self.who(from), account(spender));
        }
        let live: Vec<Pair> = self.m.appr.iter().filter(|(p, _)| self.m.balance(&p.0) > FEE).map(|(k, _)| *k).collect();
        if live.is_empty() {
            return (account(from), account((spender.1 % 3, 0)));
        }
        let p = live[(spender.1 / 4) as usize % live.len()];
        (self.spell(p.0, spender.1), self.spell(p.1, spender.1 >> 2))
    }
    pub fn intent(&self, op: &Op) -> Option<Intent> {
        let base = |kind, caller: Principal, from: Account| Intent {
            kind,
            caller,
            from,
            spender: None,
            to: None,
            target: None,
            amount: 0u8.into(),
            fee: None,
            memo: None,
            cat: None,
            expected: None,
            expires: None,
            args: None,
            fault: Fault::None,
        };
        Some(match op {
            Op::Deposit { caller, to, amt, memo } => {
                let to = account(*to);
                let mut a = self.amount(amt, &key(&to), None);
                // There are not that many cycles.
                if a >= BigUint::from(1u8) << 100 {
                    a >>= 40usize;
                }
                Intent { amount: a, memo: self.memo(memo), ..base(Kind::Deposit, principal(*caller), to) }
            }
            Op::Transfer { from, to, amt, fee, memo, cat } => {
                let f = self.who(*from);
                Intent { to: Some(account(*to)), amount: self.amount(amt, &key(&f), None), fee: self.fee(fee), memo: self.memo(memo), cat: self.time(cat), ..base(Kind::Transfer, f.owner, f.clone()) }
            }
            Op::TransferFrom { spender, from, to, amt, fee, memo, cat } => {
                let (f, s) = self.pair(*from, *spender);
                Intent {
                    to: Some(account(*to)),
                    amount: self.amount(amt, &key(&f), Some(&key(&s))),
                    fee: self.fee(fee),
                    memo: self.memo(memo),
                    cat: self.time(cat),
                    spender: Some(s.clone()),
                    ..base(Kind::TransferFrom, s.owner, f)
                }
            }
            Op::Approve { from, spender, amt, expect, exp, fee, memo, cat } => {
                let (f, s) = self.pair(*from, *spender);
                let cur = self.m.allowance(&(key(&f), key(&s))).0;
                Intent {
                    to: Some(s.clone()),
                    amount: self.amount(amt, &key(&f), Some(&key(&s))),
                    fee: self.fee(fee),
                    memo: self.memo(memo),
                    cat: self.time(cat),
                    expected: match *expect {
                        Expect::None => None,
                        Expect::Cur(d) => Some(if d >= 0 { BigUint::from(cur) + d as u8 } else { cur.saturating_sub(d.unsigned_abs() as u128).into() }),
                        Expect::Abs(x) => Some(x.into()),
                        Expect::Over => Some((BigUint::from(1u8) << 128) + cur),
                    },
                    expires: self.expiry(exp),
                    ..base(Kind::Approve, f.owner, f.clone())
                }
            }
            Op::Withdraw { from, to, amt, cat, fault } => {
                let f = self.who(*from);
                Intent { target: Some(target(*to)), amount: self.amount(amt, &key(&f), None), cat: self.time(cat), fault: Self::fault(*fault), ..base(Kind::Withdraw, f.owner, f.clone()) }
            }
            Op::WithdrawFrom { spender, from, to, amt, cat, fault } => {
                let (f, s) = self.pair(*from, *spender);
                Intent {
                    target: Some(target(*to)),
                    amount: self.amount(amt, &key(&f), Some(&key(&s))),
                    cat: self.time(cat),
                    fault: Self::fault(*fault),
                    spender: Some(s.clone()),
                    ..base(Kind::WithdrawFrom, s.owner, f)
                }
            }
            Op::Create { from, amt, cat, args, fault } => {
                let f = self.who(*from);
                Intent { amount: self.amount(amt, &key(&f), None), cat: self.time(cat), args: self.cmc_args(args), fault: Self::fault(*fault), ..base(Kind::Create, f.owner, f.clone()) }
            }
            Op::CreateFrom { spender, from, amt, cat, args, fault } => {
                let (f, s) = self.pair(*from, *spender);
                Intent {
                    amount: self.amount(amt, &key(&f), Some(&key(&s))),
                    cat: self.time(cat),
                    args: self.cmc_args(args),
                    fault: Self::fault(*fault),
                    spender: Some(s.clone()),
                    ..base(Kind::CreateFrom, s.owner, f)
                }
            }
            _ => return None,
        })
    }

    // ---- requests ------------------------------------------------------------------------
    pub fn encode(i: &Intent) -> Vec<u8> {
        iface::wire::encode(i)
    }
    pub fn decode(kind: Kind, r: Res) -> Out {
        match r {
            Res::Reply(b) => iface::wire::decode(kind, &b),
            Res::Trap(t) => Out::Trap(t),
            Res::Reject(t) => Out::Trap(format!("reject: {t}")),
            Res::Pending(c) => Out::Pending(c),
        }
    }

    /// Which property a reason for refusal belongs to.
    fn bar_props(kind: Kind, b: &Bar) -> Vec<&'static str> {
        let mut p: Vec<&'static str> = match b {
            Bar::BadFee => vec!["C25"],
            Bar::Funds(_) => vec!["C02"],
            Bar::Allowance(Some(_)) => vec!["C10", "C19"],
            Bar::Allowance(None) => vec!["C11", "C10", "C19"],
            Bar::AllowanceChanged(_) => vec!["C10"],
            Bar::Expired => vec!["C11"],
            Bar::TooOld | Bar::Future => vec!["C07"],
            Bar::Duplicate(..) | Bar::MaybeDuplicate(..) => vec!["C06"],
            Bar::Receiver | Bar::ZeroAmount => vec!["C12"],
            Bar::Denied => vec!["C19"],
            Bar::SelfApproval => vec!["C19", "C10"],
            Bar::LongMemo => vec!["C21"],
            Bar::SmallDeposit => vec!["C26"],
            Bar::BadSubaccount => vec!["C21"],
        };
        if matches!(b, Bar::Duplicate(..)) && matches!(kind, Kind::Create | Kind::CreateFrom) {
            p.push("C13");
        }
        if matches!(b, Bar::Funds(_)) {
            p.push(match kind {
                Kind::Withdraw | Kind::WithdrawFrom => "C12",
                Kind::Create | Kind::CreateFrom => "C13",
                _ => "C02",
            });
        }
        p.push("C09");
        p
    }
    /// Whether an error says one of the things that are true.
    fn truthful(&self, e: &E, bars: &[Bar], target: Option<Principal>) -> bool {
        let nat = |x: &u128| Nat::from(*x);
        let code = |c: &Nat, x: u32| *c == Nat::from(x);
        let bad_fee = bars.contains(&Bar::BadFee);
        bars.iter().any(|b| match (b, e) {
            (Bar::BadFee, E::BadFee(f)) => *f == Nat::from(FEE),
            (Bar::Funds(x), E::Funds(y)) => *y == nat(x) && !bad_fee,
            (Bar::Allowance(Some(x)), E::Allowance(y)) => *y == nat(x),
            (Bar::Allowance(None), E::Allowance(y)) => *y == Nat::from(0u8),
            (Bar::Allowance(None), E::Generic(c, m)) => code(c, 100_003) && !m.is_empty(),
            (Bar::AllowanceChanged(x), E::AllowanceChanged(y)) => *y == nat(x),
            (Bar::Expired, E::Expired(t)) => *t == self.m.now,
            (Bar::TooOld, E::TooOld) => true,
            (Bar::Future, E::Future(t)) => *t == self.m.now,
            (Bar::Duplicate(i, c) | Bar::MaybeDuplicate(i, c), E::Duplicate(j, d)) => Nat::from(*i) == *j && d.as_ref().is_none_or(|d| d == c),
            (Bar::Receiver, E::Receiver(p)) => Some(*p) == target,
            (Bar::ZeroAmount, E::Generic(c, m)) => code(c, 100_002) && !m.is_empty(),
            (Bar::Denied, E::Generic(c, m)) => code(c, 100_001) && !m.is_empty(),
            (Bar::SelfApproval | Bar::LongMemo | Bar::BadSubaccount, E::Generic(c, m)) => code(c, 100_000) && !m.is_empty(),
            _ => false,
        })
    }
    fn kind_props(kind: Kind) -> Vec<&'static str> {
        match kind {
            Kind::Deposit => vec!["C26"],
            Kind::Transfer => vec![],
            Kind::TransferFrom => vec!["C10"],
            Kind::Approve => vec!["C10"],
            Kind::Withdraw => vec!["C12"],
            Kind::WithdrawFrom => vec!["C12", "C10"],
            Kind::Create => vec!["C13"],
            Kind::CreateFrom => vec!["C13", "C10"],
        }
    }
    pub fn request(&mut self, i: &Intent) {
        let arg = Self::encode(i);
        let cycles = if i.kind == Kind::Deposit { i.amount.to_u128().unwrap() } else { 0 };
        self.request_bytes(i, arg, cycles);
    }
    pub fn request_bytes(&mut self, i: &Intent, arg: Vec<u8>, cycles: u128) {
        let name = i.kind.method();
        let bars = self.m.judge(i);
        if self.skip_refused && bars.iter().any(|b| !matches!(b, Bar::MaybeDuplicate(..))) {
            return;
        }
        let now = self.m.now;
        let before_pending = self.c.pending.len();
        let res = self.c.update(name, i.caller.as_slice(), arg, cycles, i.fault);
        let out = Self::decode(i.kind, res);
        let what = format!("{} {}", name, summary(i));
        self.trace.push(format!("t+{} {what} -> {out:?}", now - START));
        self.stats.hit(match i.kind {
            Kind::Deposit => "deposit",
            Kind::Transfer => "transfer",
            Kind::TransferFrom => "transfer_from",
            Kind::Approve => "approve",
            Kind::Withdraw => "withdraw",
            Kind::WithdrawFrom => "withdraw_from",
            Kind::Create => "create",
            Kind::CreateFrom => "create_from",
        });
        let mut touched: BTreeSet<Key> = [key(&i.from)].into();
        touched.extend(i.to.iter().map(key));
        touched.extend(i.spender.iter().map(key));
        let mut pairs: BTreeSet<Pair> = BTreeSet::new();
        for s in i.spender.iter().chain(i.to.iter().filter(|_| i.kind == Kind::Approve)) {
            pairs.insert((key(&i.from), key(s)));
        }
        if i.to.is_some() && i.kind != Kind::Approve {
            self.m.known.insert(key(i.to.as_ref().unwrap()));
        }
        self.m.known.insert(key(&i.from));
        for b in &bars {
            self.stats.hit(match b {
                Bar::BadFee => "bar_bad_fee",
                Bar::Funds(_) => "bar_funds",
                Bar::Allowance(Some(_)) => "bar_allowance",
                Bar::Allowance(None) => "bar_expired_allowance",
                Bar::AllowanceChanged(_) => "bar_allowance_changed",
                Bar::Expired => "bar_expired",
                Bar::TooOld => "bar_too_old",
                Bar::Future => "bar_future",
                Bar::Duplicate(..) => "bar_duplicate",
                Bar::MaybeDuplicate(..) => "bar_maybe_duplicate",
                Bar::Receiver => "bar_receiver",
                Bar::ZeroAmount => "bar_zero",
                Bar::Denied => "bar_denied",
                Bar::SelfApproval => "bar_self_approval",
                Bar::LongMemo => "bar_long_memo",
                Bar::SmallDeposit => "bar_small_deposit",
                Bar::BadSubaccount => "bar_subaccount",
            });
        }
        let hard: Vec<Bar> = bars.iter().filter(|b| !matches!(b, Bar::MaybeDuplicate(..))).cloned().collect();
        let must_dup = hard.iter().any(|b| matches!(b, Bar::Duplicate(..)));
        let trap_ok = self.lenient || hard.iter().any(|b| matches!(b, Bar::LongMemo | Bar::SelfApproval | Bar::SmallDeposit | Bar::BadSubaccount));
        let granted = matches!(out, Out::Ok { .. } | Out::Pending(_) | Out::Err(E::Failed(_)));
        let kp = Self::kind_props(i.kind);
        if granted && i.cat.is_some() {
            self.stats.hit("granted_with_time");
        }
        if !granted {
            self.stats.hit("refused");
            match &out {
                Out::Garbled(e) => self.find(&["C09", "C21"], format!("{what}: the reply does not decode: {e}")),
                Out::Trap(t) if !trap_ok => {
                    let mut p = vec!["C09", "C21"];
                    p.extend(&kp);
                    self.find(&p, format!("{what}: trapped ({t}); reasons against it: {bars:?}"))
                }
                Out::Trap(_) => self.stats.hit("traps"),
                Out::Err(E::Duplicate(..)) if !bars.iter().any(|b| matches!(b, Bar::Duplicate(..) | Bar::MaybeDuplicate(..))) => {
                    self.find(&["C06", "C09"], format!("{what}: refused as {out:?}, but there was no such transaction"))
                }
                Out::Err(e) => {
                    let ok = if must_dup { matches!(e, E::Duplicate(..)) && self.truthful(e, &bars, i.target) } else { self.truthful(e, &bars, i.target) };
                    if !ok {
                        let mut p = vec!["C09"];
                        match e {
                            E::Duplicate(..) => p.extend(["C06", "C13"]),
                            E::TooOld | E::Future(_) => p.push("C07"),
                            E::Allowance(_) | E::AllowanceChanged(_) => p.extend(["C10", "C11"]),
                            E::Expired(_) => p.push("C11"),
                            E::BadFee(_) => p.push("C25"),
                            E::Receiver(_) => p.push("C12"),
                            E::Generic(..) => p.extend(&kp),
                            _ => {}
                        }
                        if must_dup {
                            p.push("C06");
                        }
                        if bars.contains(&Bar::BadFee) {
                            p.push("C25");
                        }
                        if bars.is_empty() {
                            p.extend(&kp);
                            if i.cat.is_some() && matches!(e, E::TooOld | E::Future(_)) {
                                p.push("C07");
                            }
                        }
                        self.find(&p, format!("{what}: refused with {e:?} at {now}; true reasons against it: {bars:?}"));
                    }
                }
                _ => unreachable!(),
            }
            // No trace.
            self.observe(&format!("refused {what}"), &touched, &pairs, &["C08"], Some(i.caller), false);
            if self.c.pending.len() != before_pending {
                self.find(&["C08", "C01"], format!("{what}: refused, but a call was made"));
            }
            return;
        }
        if !hard.is_empty() {
            let mut p = vec![];
            for b in &hard {
                p.extend(Self::bar_props(i.kind, b));
            }
            if i.kind == Kind::Deposit {
                p.push("C26");
            }
            self.find(&p, format!("{what}: granted ({out:?}) at {now}, although {hard:?}"));
            // The model cannot follow, but what must hold of any ledger still must.
            self.observe(&format!("wrongly granted {what}"), &touched, &pairs, &[], Some(i.caller), true);
            return;
        }
        self.stats.hit("granted");
        if i.spender.as_ref().is_some_and(|s| key(s) != key(&i.from)) {
            self.stats.hit("granted_by_allowance");
            if self.m.drawn_expiry(i) != 0 {
                self.stats.hit("granted_by_expiring_allowance");
            }
        }
        let old_exp = self.m.drawn_expiry(i);
        let idx = self.m.grant(i);
        self.note_prune();
        if i.kind == Kind::Deposit {
            self.expect_cycles += cycles;
            if self.c.last_accepted != cycles {
                self.find(&["C26", "C01"], format!("{what}: accepted {} of {cycles} cycles", self.c.last_accepted));
            }
        }
        let asynch = matches!(i.kind, Kind::Withdraw | Kind::WithdrawFrom | Kind::Create | Kind::CreateFrom);
        match &out {
            Out::Ok { block, balance, canister } => {
                if asynch {
                    self.find(&kp, format!("{what}: succeeded without the call that would carry it out"));
                }
                if *block != Nat::from(idx) {
                    let mut p = vec!["C04", "C20", "C09"];
                    p.extend(&kp);
                    self.find(&p, format!("{what}: reported block {block}, recorded as block {idx}"));
                }
                if let Some(b) = balance {
                    if *b != Nat::from(self.m.balance(&key(&i.from))) {
                        self.find(&["C26", "C02"], format!("{what}: reported a balance of {b}"));
                    }
                }
                let _ = canister;
            }
            Out::Pending(ctx) => {
                if !asynch {
                    self.find(&kp, format!("{what}: no answer"));
                } else {
                    let w = self.m.wait(i, idx, old_exp);
                    self.m.waiting.insert(*ctx, w.clone());
                    let ctx = *ctx;
                    let calls: Vec<Pending> = self.c.pending[before_pending..].to_vec();
                    self.expect_cycles -= w.amount;
                    self.check_call(&what, &w, &calls, ctx);
                    self.stats.hit("in_flight");
                    if self.c.pending.len() > 1 {
                        self.stats.hit("overlapping");
                    }
                }
            }
            Out::Err(E::Failed(f)) => {
                if i.fault == Fault::None {
                    self.find(&kp, format!("{what}: failed with {f:?} though the call could be made"));
                }
                let w = self.m.wait(i, idx, old_exp);
                let f = f.clone();
                self.settle_failure(&what, &w, w.amount, Some(RejectionCode::SysTransient), None, &f);
                if self.c.pending.len() != before_pending {
                    self.find(&kp, format!("{what}: a call is in flight after the failure was reported"));
                }
            }
            _ => unreachable!(),
        }
        self.observe(&what, &touched, &pairs, &kp, Some(i.caller), false);
    }
    /// Pruning happened: of what had expired at most 100 fewer are left.
    fn note_prune(&mut self) {
        self.stale_appr = 0;
    }
    fn check_call(&mut self, what: &str, w: &Waiting, calls: &[Pending], ctx: usize) {
        let i = &w.intent;
        let create = matches!(i.kind, Kind::Create | Kind::CreateFrom);
        let props: &[&'static str] = if create { &["C13", "C01"] } else { &["C12", "C01"] };
        if calls.len() != 1 || calls[0].ctx != ctx {
            self.find(props, format!("{what}: {} calls made", calls.len()));
            return;
        }
        let c = &calls[0];
        if c.cycles != w.amount {
            self.find(props, format!("{what}: sends {} cycles along instead of {}", c.cycles, w.amount));
        }
        if create {
            if c.callee != CMC || c.method != "create_canister" {
                self.find(&["C13"], format!("{what}: calls {} of {:?}", c.method, c.callee));
                return;
            }
            let dflt = || CanisterSettings { controllers: Some(vec![i.caller]), ..Default::default() };
            let want = CmcArgs {
                subnet_selection: i.args.as_ref().and_then(|a| a.subnet_selection.clone()),
                settings: Some(match i.args.as_ref().and_then(|a| a.settings.clone()) {
                    None => dflt(),
                    Some(s) => CanisterSettings { controllers: s.controllers.clone().or(Some(vec![i.caller])), ..s },
                }),
            };
            match dec::<CmcArgs>(&c.arg) {
                Ok(a) if a == want => {}
                a => self.find(&["C13"], format!("{what}: asks the CMC for {a:?}, expected {want:?}")),
            }
        } else {
            if !c.callee.is_empty() || c.method != "deposit_cycles" {
                self.find(&["C12"], format!("{what}: calls {} of {:?}", c.method, c.callee));
                return;
            }
            match dec::<DepositCyclesArgs>(&c.arg) {
                Ok(a) if a.canister_id == i.target.unwrap() => {}
                a => self.find(&["C12"], format!("{what}: sends the cycles to {a:?}")),
            }
        }
    }
    fn settle_failure(&mut self, what: &str, w: &Waiting, returned: u128, code: Option<RejectionCode>, reason: Option<&str>, f: &Failed) {
        let create = matches!(w.intent.kind, Kind::Create | Kind::CreateFrom);
        let mine: &'static str = if create { "C13" } else { "C12" };
        let (rb, ab) = self.m.refund(w, returned);
        self.note_prune();
        self.stats.hit("failed_calls");
        if rb.is_some() {
            self.stats.hit("refunds");
        }
        if ab.is_some() {
            self.stats.hit("approval_refunds");
        }
        let opt = |x: Option<u64>| x.map(Nat::from);
        if let Some(b) = &f.burn {
            if *b != Some(Nat::from(w.burn)) {
                self.find(&[mine, "C04", "C09"], format!("{what}: reports block {b:?} for the burn in block {}", w.burn));
            }
        }
        if let Some(b) = &f.refund {
            if *b != opt(rb) {
                self.find(&[mine, "C04", "C09"], format!("{what}: reports refund block {b:?}, expected {rb:?}"));
            }
        }
        if let Some(b) = &f.approval {
            if *b != opt(ab) {
                self.find(&["C14", "C09"], format!("{what}: reports approval refund block {b:?}, expected {ab:?}"));
            }
        }
        if let (Some(c), Some(g)) = (&code, &f.code) {
            if c != g {
                self.find(&[mine, "C09"], format!("{what}: reports rejection code {g:?}, it was {c:?}"));
            }
        }
        if let Some(r) = reason {
            // (Of several reasons, each.)
            if r.split('\0').any(|r| !f.reason.contains(r)) {
                self.find(&[mine, "C09"], format!("{what}: reports the reason {:?}, it was {r:?}", f.reason));
            }
        }
    }
    /// Answers a call.
    pub fn respond(&mut self, k: u16, ans: &Ans) {
        #[derive(candid::CandidType)]
        enum Strange {
            Unheard(Nat),
        }
        if self.c.pending.is_empty() {
            return;
        }
        let pos = k as usize % self.c.pending.len();
        let p = self.c.pending[pos].clone();
        let Some(w) = self.m.waiting.remove(&p.ctx) else {
            self.c.pending.remove(pos);
            return;
        };
        let kind = w.intent.kind;
        let create = matches!(kind, Kind::Create | Kind::CreateFrom);
        let mine: &'static str = if create { "C13" } else { "C12" };
        let msgs = ["", "canister not found", "no subnet ♥ available", "x"];
        enum Sent {
            Ok(Option<Principal>),
            Fail { returned: u128, code: RejectionCode, reason: String },
        }
        let reject = |c: u8| {
            let c = if (1..=6).contains(&c) { c } else { 4 };
            let code = match c {
                1 => RejectionCode::SysFatal,
                2 => RejectionCode::SysTransient,
                3 => RejectionCode::DestinationInvalid,
                4 => RejectionCode::CanisterReject,
                5 => RejectionCode::CanisterError,
                _ => RejectionCode::Unknown,
            };
            let msg = msgs[(c as usize + k as usize) % 4].to_string();
            (Err((c as u32, msg.clone())), p.cycles, Sent::Fail { returned: w.amount, code, reason: msg })
        };
        let (answer, refund, sent): (Result<Vec<u8>, (u32, String)>, u128, Sent) = match (create, ans) {
            (false, Ans::Ok(_)) => (Ok(enc(())), 0, Sent::Ok(None)),
            (true, Ans::Ok(_)) => {
                let id = Principal::from_slice(&[0, 0, 0, 0, 9, (self.next_canister >> 8) as u8, self.next_canister as u8, 1, 1, 1]);
                self.next_canister += 1;
                (Ok(enc((Ok::<Principal, CmcError>(id),))), 0, Sent::Ok(Some(id)))
            }
            (_, Ans::Reject(c)) => reject(*c),
            // (The deployed version takes it for granted that all of it comes back.)
            (true, Ans::Kept(c, ..)) if self.c.old => reject(*c),
            (true, Ans::Kept(c, m, d)) => {
                let r = if *m >= 250 { p.cycles } else { (*m as i128 * FEE as i128 + *d as i128).max(0).min(p.cycles as i128) as u128 };
                match c {
                    0 => {
                        let bytes = match k % 3 {
                            0 => vec![],
                            1 => b"DIDL".to_vec(),
                            _ => enc((Err::<Principal, Strange>(Strange::Unheard(r.into())),)),
                        };
                        (Ok(bytes), r, Sent::Fail { returned: r, code: RejectionCode::CanisterError, reason: String::new() })
                    }
                    c => {
                        let (a, _, s) = reject(*c);
                        let Sent::Fail { code, reason, .. } = s else { unreachable!() };
                        (a, r, Sent::Fail { returned: r, code, reason })
                    }
                }
            }
            (true, Ans::Refunded(m, d)) | (true, Ans::RefundedOnly(m, d)) => {
                let x = (*m as i128 * FEE as i128 + *d as i128).max(0) as u128;
                let r = if matches!(ans, Ans::Refunded(..)) { p.cycles.saturating_sub(x) } else { x.min(p.cycles) };
                let e = msgs[1 + k as usize % 3].to_string();
                let reply = CmcError::Refunded { refund_amount: r.into(), create_error: e.clone() };
                (Ok(enc((Err::<Principal, CmcError>(reply),))), r, Sent::Fail { returned: r, code: RejectionCode::CanisterError, reason: e })
            }
            (true, Ans::RefundFailed) => {
                let reply = CmcError::RefundFailed { create_error: "no room".into(), refund_error: "not taken".into() };
                (Ok(enc((Err::<Principal, CmcError>(reply),))), 0, Sent::Fail { returned: 0, code: RejectionCode::CanisterError, reason: "no room\0not taken".into() })
            }
            (false, _) => reject(4),
        };
        self.expect_cycles += refund;
        let out = Self::decode(kind, self.c.respond(pos, answer, refund));
        let what = format!("respond to {} {} with {ans:?}", kind.method(), summary(&w.intent));
        self.trace.push(format!("t+{} {what} -> {out:?}", self.m.now - START));
        self.stats.hit("responses");
        match (sent, out) {
            (Sent::Ok(id), Out::Ok { block, canister, .. }) => {
                self.stats.hit("call_succeeded");
                if block != Nat::from(w.burn) {
                    self.find(&[mine, "C04", "C09"], format!("{what}: reports block {block}, it was {}", w.burn));
                }
                if canister != id {
                    self.find(&["C13"], format!("{what}: reports canister {canister:?}, it was {id:?}"));
                }
                if let Some(id) = id {
                    self.m.created(&w, id);
                }
            }
            (Sent::Fail { returned, code, reason }, Out::Err(E::Failed(f))) => {
                if w.intent.spender.as_ref().is_some_and(|s| key(s) != key(&w.intent.from)) {
                    self.stats.hit("failed_from_calls");
                }
                self.settle_failure(&what, &w, returned, Some(code), Some(&reason), &f);
            }
            (_, out) => {
                self.find(&[mine, "C14", "C09", "C02"], format!("{what}: answered {out:?}"));
            }
        }
        let mut touched: BTreeSet<Key> = [key(&w.intent.from)].into();
        let mut pairs = BTreeSet::new();
        if let Some(s) = &w.intent.spender {
            touched.insert(key(s));
            pairs.insert((key(&w.intent.from), key(s)));
        }
        self.observe(&what, &touched, &pairs, &[mine, "C14"], Some(w.intent.caller), false);
    }

    // ---- the rest ------------------------------------------------------------------------
    pub fn advance(&mut self, dt: &Dt) {
        let now = self.m.now;
        let plus = |t: u64, d: i8| if d >= 0 { t.saturating_add(d as u64) } else { t.saturating_sub(d.unsigned_abs() as u64) };
        let t = match dt {
            Dt::Ns(n) => now + *n as u64,
            Dt::Secs(s) => now + *s as u64 * 1_000_000_000,
            Dt::ToExpiry(d) => self.m.appr.values().map(|x| x.1).filter(|e| *e > now && *e < u64::MAX / 2).min().map_or(now, |e| plus(e, *d)),
            Dt::ToWindow(d) => self.m.seen.values().flatten().map(|s| s.cat.saturating_add(WINDOW + DRIFT)).filter(|e| *e > now).min().map_or(now, |e| plus(e, *d)),
        };
        if t > now && t < now + (1 << 60) {
            self.m.now = t;
            self.c.now = t;
            self.stats.hit("advance");
        }
    }
    pub fn again(&mut self, k: u8, tweak: &Tweak) {
        if self.requests.is_empty() {
            return;
        }
        // Mostly recent ones with a creation time.
        let with_time: Vec<usize> = (0..self.requests.len()).filter(|i| self.requests[*i].cat.is_some()).collect();
        let idx = if with_time.is_empty() || k % 8 == 0 {
            self.requests.len() - 1 - k as usize % self.requests.len()
        } else {
            with_time[with_time.len() - 1 - (k / 8) as usize % with_time.len()]
        };
        let mut i = self.requests[idx].clone();
        i.fault = Fault::None;
        let flip = |s: &mut Option<ByteBuf>| {
            *s = match s {
                None => Some(ByteBuf::from(vec![0; 32])),
                Some(b) if b.iter().all(|x| *x == 0) => None,
                Some(b) => Some(b.clone()),
            }
        };
        match tweak {
            Tweak::Same => {}
            Tweak::Amount => i.amount += 1u8,
            Tweak::Memo => {
                i.memo = Some(match &i.memo {
                    None => vec![],
                    Some(m) => m.iter().map(|x| x ^ 1).collect(),
                })
            }
            Tweak::Fee => i.fee = if i.fee.is_none() { Some(FEE.into()) } else { None },
            Tweak::Sub => flip(&mut i.from.subaccount),
            Tweak::To => {
                if let Some(t) = &mut i.to {
                    t.subaccount = Some(ByteBuf::from(vec![9; 32]))
                } else if let Some(t) = &mut i.target {
                    *t = if *t == principal(3) { principal(4) } else { principal(3) }
                }
            }
            Tweak::Created(d) => i.cat = i.cat.map(|c| if *d >= 0 { c.saturating_add(*d as u64) } else { c.saturating_sub(d.unsigned_abs() as u64) }),
            Tweak::Extra => {
                if i.kind == Kind::Approve {
                    i.expires = Some(self.m.now + 1_000_000_000)
                } else if matches!(i.kind, Kind::Create | Kind::CreateFrom) {
                    i.args = Some(CmcArgs { settings: None, subnet_selection: None })
                }
            }
            Tweak::Caller(c) => {
                let p = principal(*c);
                i.caller = p;
                match &mut i.spender {
                    Some(s) => s.owner = p,
                    None => {
                        if i.kind != Kind::Deposit {
                            i.from.owner = p
                        }
                    }
                }
            }
        }
        if matches!(i.kind, Kind::Withdraw | Kind::WithdrawFrom | Kind::Create | Kind::CreateFrom) {
            i.memo = None;
            i.fee = None;
        }
        self.stats.hit("again");
        self.request(&i);
    }
    pub fn crowd(&mut self, from: Acc, n: u16, secs: u32) {
        let f = account(from);
        // They need the fees.
        let need = FEE * (n as u128 + 2);
        for part in 0..1 + n / 250 {
            if self.m.balance(&key(&f)) < need {
                let dep = Op::Deposit { caller: 0, to: from, amt: Amt::Fee((n - part * 250).min(250) as u8 + 4, 0), memo: MemoSpec::None };
                let i = self.intent(&dep).unwrap();
                self.request(&i);
            }
        }
        for k in 0..n {
            if !self.finds.is_empty() {
                return;
            }
            let i = Intent {
                kind: Kind::Approve,
                caller: f.owner,
                from: f.clone(),
                spender: None,
                to: Some(crowd_spender(k)),
                target: None,
                amount: (FEE * (3 + k as u128)).into(),
                fee: None,
                memo: None,
                cat: None,
                expected: None,
                expires: (secs > 0).then(|| self.m.now + secs as u64 * 1_000_000_000),
                args: None,
                fault: Fault::None,
            };
            self.request(&i);
        }
        self.stats.hit("crowds");
        if n > 100 {
            self.stats.hit("big_crowds");
        }
        if n > 500 {
            self.stats.hit("crowds_beyond_a_page");
            for take in 252..=255 {
                if self.finds.is_empty() {
                    self.pages(from, take, (n - 500) * take as u16 / 2, take % 2 == 0);
                }
            }
        }
    }
    /// Many requests of one kind, of which some are sent again, or answered in any order.
    pub fn mass(&mut self, from: Acc, n: u16, what: u8, seed: u16) {
        let spender: Acc = ((from.0 + 2) % 6, from.1);
        let (fee, memo, fault, no) = (FeeSpec::None, MemoSpec::None, 0, CArgs { shape: 0, bits: 0, subnet: 0 });
        let mut funds = 4 * FEE * (n as u128 + 4);
        while self.finds.is_empty() && self.m.balance(&key(&account(from))) < funds {
            let dep = Op::Deposit { caller: 0, to: from, amt: Amt::Fee(250, 0), memo: MemoSpec::None };
            self.request(&self.intent(&dep).unwrap());
            funds = funds.saturating_sub(FEE);
        }
        if what % 5 > 2 {
            let a = Op::Approve { from, spender, amt: Amt::MaxMinus(0), expect: Expect::None, exp: Exp::None, fee: fee.clone(), memo: memo.clone(), cat: Cat::None };
            self.request(&self.intent(&a).unwrap());
        }
        let mut sent = vec![];
        for k in 0..n {
            if !self.finds.is_empty() {
                return;
            }
            // Every one differs, in the amount or in the time.
            let cat = if what % 5 == 0 || k % 2 == 0 { Cat::Now(-(k as i32 / 3)) } else { Cat::None };
            let amt = Amt::Abs(2 * FEE as u64 + k as u64 % 3);
            let op = match what % 5 {
                0 => Op::Transfer { from, to: (4, 0), amt, fee: fee.clone(), memo: memo.clone(), cat },
                1 => Op::Withdraw { from, to: 3, amt, cat, fault },
                2 => Op::Create { from, amt, cat, args: no.clone(), fault },
                3 => Op::WithdrawFrom { spender, from, to: 3, amt, cat, fault },
                _ => Op::CreateFrom { spender, from, amt, cat, args: no.clone(), fault },
            };
            let i = self.intent(&op).unwrap();
            self.request(&i);
            sent.push(i);
        }
        self.stats.hit("masses");
        if n >= 100 {
            self.stats.hit("big_masses");
        }
        // The first, the last and one in between once more.
        for at in [0, seed as usize % sent.len().max(1), sent.len().saturating_sub(1)] {
            if let Some(i) = sent.get(at).filter(|_| self.finds.is_empty()).cloned() {
                self.request(&i);
            }
        }
        // Some stay under way.
        let answers = if seed % 3 == 0 { n / 2 } else { n };
        for k in 0..answers {
            if what % 5 == 0 || !self.finds.is_empty() {
                break;
            }
            let ans = match (seed ^ k) % 4 {
                0 => Ans::Reject(1 + (k % 6) as u8),
                1 if what % 5 % 2 == 0 => Ans::Refunded(1, 0),
                _ => Ans::Ok(k as u8),
            };
            self.respond(k.wrapping_mul(seed), &ans);
        }
        if let Some(i) = sent.get(seed as usize % sent.len().max(1)).filter(|_| self.finds.is_empty()).cloned() {
            self.request(&i);
        }
        self.requests.extend(sent.into_iter().take(3));
    }
    pub fn upgrade(&mut self, max_blocks: Option<u64>, index: u8, wrong: bool) {
        // The harness upgrades stopped canisters only: answer what is in flight first.
        while !self.c.pending.is_empty() {
            let n = self.c.pending.len();
            self.respond(0, &if n % 2 == 0 { Ans::Ok(0) } else { Ans::Reject(5) });
            if !self.finds.is_empty() || self.c.pending.len() >= n {
                return;
            }
        }
        let before = self.dump(true);
        let wrong_init = || LedgerArgs::Init(InitArgs { max_blocks_per_request: 7, index_id: Some(principal(4)), initial_balances: (index % 4 == 3).then(|| vec![(account((0, 0)), 77u8.into())]) });
        let args = if wrong {
            Some(wrong_init())
        } else if max_blocks.is_none() && index % 5 == 0 {
            None
        } else if max_blocks.is_none() && index % 5 == 1 {
            Some(LedgerArgs::Upgrade(None))
        } else {
            Some(LedgerArgs::Upgrade(Some(UpgradeArgs {
                max_blocks_per_request: max_blocks,
                change_index_id: match index % 5 {
                    2 => Some(ChangeIndexId::Unset),
                    3 => Some(ChangeIndexId::SetTo(principal(3))),
                    4 => Some(ChangeIndexId::SetTo(principal(5))),
                    _ => None,
                },
            })))
        };
        let (mut mb, mut ix) = (self.m.max_blocks, self.m.index_id);
        if let Some(LedgerArgs::Upgrade(Some(u))) = &args {
            mb = u.max_blocks_per_request.unwrap_or(mb);
            match &u.change_index_id {
                Some(ChangeIndexId::Unset) => ix = None,
                Some(ChangeIndexId::SetTo(p)) => ix = Some(*p),
                None => {}
            }
        }
        let p: &[&'static str] = if self.c.old { &["C15", "C16"] } else { &["C15"] };
        let bytes = match (&args, wrong, index) {
            // Not candid.
            (_, true, 6) => vec![index; 7],
            // Candid, but nothing that is known: as good as no argument, or refused.
            (_, true, 7) => enc((42u8,)),
            // Upgrade arguments may come as they are.
            (Some(a), _, 5..) => enc((a.clone(),)),
            (None, _, 5..) => enc(()),
            _ => enc((args.clone(),)),
        };
        let r = self.c.upgrade(bytes);
        let what = format!("upgrade with {} {args:?}", match (wrong, index) { (true, 6) => "garbage instead of", (true, 7) => "a number instead of", (_, 5..) => "bare", _ => "" });
        self.trace.push(format!("t+{} {what} -> {r:?}", self.m.now - START));
        self.stats.hit("upgrades");
        match (&r, wrong) {
            (Ok(()), true) if index != 7 => self.find(&["C24", "C15"], format!("{what}: accepted")),
            (Err(e), false) => self.find(p, format!("{what}: trapped: {e}")),
            (Ok(()), false) => {
                self.m.max_blocks = mb;
                self.m.index_id = ix;
            }
            _ => {}
        }
        let after = self.dump(true);
        let (mut before, mut after) = (before, after);
        if let (true, Ok(a), Ok(b)) = (p.len() > 1, &mut before, &mut after) {
            // Another version may serve more figures, or fewer.
            a.gauges.retain(|k, _| b.gauges.contains_key(k));
            b.gauges.retain(|k, _| a.gauges.contains_key(k));
        }
        if before != after {
            let d = match (&before, &after) {
                (Ok(a), Ok(b)) => diff(a, b),
                (a, b) => format!("{:?} / {:?}", a.as_ref().err(), b.as_ref().err()),
            };
            self.find(p, format!("{what}: the ledger is not what it was: {d}"));
        }
        self.check_config(&what);
        self.observe(&what, &BTreeSet::new(), &BTreeSet::new(), p, None, false);
    }
    pub fn check_config(&mut self, what: &str) {
        let props: &[&'static str] = &["C25", "C15", "C24"];
        let md: Result<Vec<(String, MetadataValue)>, String> = self.q("icrc1_metadata", Principal::anonymous(), enc(()));
        let ix: Result<Result<Principal, GetIndexPrincipalError>, String> = self.q("icrc106_get_index_principal", Principal::anonymous(), enc(()));
        let want_ix = self.m.index_id.ok_or(GetIndexPrincipalError::IndexPrincipalNotSet);
        if ix != Ok(want_ix) {
            self.find(props, format!("after {what}: icrc106_get_index_principal gives {ix:?}, configured is {:?}", self.m.index_id));
        }
        match md {
            Err(e) => self.find(props, format!("after {what}: {e}")),
            Ok(md) => {
                let get = |k: &str| md.iter().filter(|(n, _)| n == k).map(|x| x.1.clone()).collect::<Vec<_>>();
                let mut bad = vec![];
                if get("dfn:max_blocks_per_request") != [MetadataValue::Nat(self.m.max_blocks.into())] {
                    bad.push("dfn:max_blocks_per_request");
                }
                let ixs: Vec<MetadataValue> = self.m.index_id.iter().map(|p| MetadataValue::Text(p.to_text())).collect();
                if get("icrc106:index_principal") != ixs {
                    bad.push("icrc106:index_principal");
                }
                let ixb: Vec<MetadataValue> = self.m.index_id.iter().map(|p| MetadataValue::Blob(ByteBuf::from(p.as_slice().to_vec()))).collect();
                if get("dfn:index_id") != ixb {
                    bad.push("dfn:index_id");
                }
                if !bad.is_empty() {
                    self.find(props, format!("after {what}: metadata wrong in {bad:?}: {:?}", md.iter().filter(|x| x.0 != "icrc1:logo").collect::<Vec<_>>()));
                }
            }
        }
    }
    pub fn blocks_query(&mut self, ranges: &[(i32, u32)]) {
        let len = self.log.len() as u64;
        let place = |s: i32| -> Nat {
            if s >= 1_000_000_000 {
                Nat(BigUint::from(1u8) << (64 + (s % 3) as usize)) + (s % 5) as u64
            } else if s >= 0 {
                Nat::from(s as u64)
            } else if s > -100 {
                Nat::from(len.saturating_sub(s.unsigned_abs() as u64))
            } else {
                Nat::from(u64::MAX - (s.unsigned_abs() % 7) as u64)
            }
        };
        let length = |l: u32| -> Nat {
            if l >= u32::MAX - 9 {
                Nat(BigUint::from(1u8) << (64 + (l % 4) as usize))
            } else if l >= u32::MAX - 20 {
                Nat::from(u64::MAX - (l % 3) as u64)
            } else {
                Nat::from(l)
            }
        };
        let args: Vec<BlockRange> = ranges.iter().map(|(s, l)| BlockRange { start: place(*s), length: length(*l) }).collect();
        let mut want: Vec<u64> = vec![];
        for r in &args {
            let Some(s) = r.start.0.to_u64().filter(|s| *s < len) else { continue };
            let end = (BigUint::from(s) + &r.length.0).min(len.into()).to_u64().unwrap();
            for id in s..end {
                if (want.len() as u64) < self.m.max_blocks {
                    want.push(id);
                }
            }
        }
        self.stats.hit("block_queries");
        if want.len() > 1 {
            self.stats.hit("block_queries_with_answers");
        }
        match self.get_blocks(args.clone()) {
            Err(e) => self.find(&["C17"], format!("icrc3_get_blocks {args:?}: {e}")),
            Ok(r) => {
                let got: Vec<Nat> = r.blocks.iter().map(|b| b.id.clone()).collect();
                let want_n: Vec<Nat> = want.iter().map(|x| Nat::from(*x)).collect();
                if got != want_n {
                    self.find(&["C17"], format!("icrc3_get_blocks {args:?} with {len} blocks and at most {} per request gives blocks {got:?}, expected {want:?}", self.m.max_blocks));
                } else {
                    for (b, id) in r.blocks.iter().zip(&want) {
                        if sorted(&b.block) != self.log[*id as usize] {
                            self.find(&["C17", "C04"], format!("icrc3_get_blocks {args:?}: block {id} differs from what it was"));
                        }
                    }
                }
                if r.log_length != Nat::from(len) {
                    self.find(&["C17"], format!("icrc3_get_blocks: log_length {} of {len}", r.log_length));
                }
                if !r.archived_blocks.is_empty() {
                    self.find(&["C17"], "icrc3_get_blocks: there are no archives".into());
                }
            }
        }
    }
    pub fn pages(&mut self, from: Acc, take: u8, stop: u16, explicit: bool) {
        let mut a = account(from);
        let live = self.m.live_approvals();
        if stop % 4 > 0 && !live.is_empty() && !live.iter().any(|(p, _)| p.0 .0 == a.owner && p.0 .1 >= key(&a).1) {
            // Mostly somebody who has given an allowance.
            let giver = live[stop as usize / 4 % live.len()].0 .0;
            a = Account { owner: giver.0, subaccount: (explicit && giver.1 != [0; 32]).then(|| ByteBuf::from(giver.1.to_vec())) };
        }
        let k = key(&a);
        let all: Vec<AllowanceEntry> = self
            .m
            .live_approvals()
            .into_iter()
            .filter(|(p, _)| p.0 .0 == k.0 && p.0 .1 >= k.1)
            .map(|(p, (amt, e))| AllowanceEntry { from_account: acct(&p.0), to_spender: acct(&p.1), allowance: amt.into(), expires_at: (e > 0).then_some(e) })
            .collect();
        self.stats.hit("page_walks");
        if all.len() > 1 {
            self.stats.hit("page_walks_with_answers");
        }
        let norm = |e: &AllowanceEntry| AllowanceEntry { from_account: acct(&key(&e.from_account)), to_spender: acct(&key(&e.to_spender)), ..e.clone() };
        let implicit = !explicit && k.1 == [0; 32];
        let takes: Vec<Option<Nat>> = match take {
            255 => vec![None],
            254 => vec![Some(Nat(BigUint::from(1u8) << 64))],
            253 => vec![Some(u64::MAX.into())],
            252 => vec![Some(501u16.into())],
            t => vec![Some((t as u64).into())],
        };
        let call = |w: &mut World, from: Option<Account>, prev: Option<Account>, take: Option<Nat>| -> Result<Vec<AllowanceEntry>, String> {
            let caller = if from.is_none() { k.0 } else { principal(4) };
            let r: Result<Vec<AllowanceEntry>, GetAllowancesError> = w.q("icrc103_get_allowances", caller, enc((GetAllowancesArgs { from_account: from, prev_spender: prev, take },)))?;
            r.map_err(|e| format!("{e:?}"))
        };
        for t in takes {
            let limit = t.as_ref().map_or(500, |n| n.0.to_u64().unwrap_or(500).min(500)) as usize;
            // One page.
            let f = if implicit { None } else { Some(a.clone()) };
            match call(self, f, None, t.clone()) {
                Err(e) => return self.find(&["C18"], format!("icrc103_get_allowances: {e}")),
                Ok(r) => {
                    let want: Vec<_> = all.iter().take(limit).cloned().collect();
                    if r.iter().map(norm).collect::<Vec<_>>() != want {
                        let mut p = vec!["C18"];
                        if all.iter().any(|e| e.expires_at.is_some()) || r.iter().any(|e| e.expires_at.is_some()) {
                            p.push("C11");
                        }
                        return self.find(&p, format!("icrc103_get_allowances from {} take {t:?} at {} gives {r:?}, expected {want:?}", show(&a), self.m.now));
                    }
                }
            }
            // The walk through all pages.
            if limit > 0 {
                let mut got: Vec<AllowanceEntry> = vec![];
                let (mut f, mut prev) = (Some(a.clone()), None);
                loop {
                    let r = match call(self, f.clone(), prev.clone(), t.clone()) {
                        Ok(r) => r,
                        Err(e) => return self.find(&["C18"], format!("icrc103_get_allowances: {e}")),
                    };
                    let n = r.len();
                    got.extend(r.iter().map(norm));
                    if n < limit || got.len() > all.len() {
                        break;
                    }
                    let l = got.last().unwrap();
                    f = Some(l.from_account.clone());
                    prev = Some(l.to_spender.clone());
                }
                if got != all {
                    let p: &[&str] = if ended(&got, self.m.now) { &["C18", "C11"] } else { &["C18"] };
                    return self.find(p, format!("walking icrc103_get_allowances from {} by {t:?} gives {got:?}, expected {all:?}", show(&a)));
                }
            }
            // From the middle, with a spender that need not have an allowance any more.
            let prev = match stop % 4 {
                0 => crowd_spender(stop / 4 % 600),
                1 => account(((stop / 4 % 12) as u8, (stop % 3) as u8)),
                _ if !all.is_empty() => all[stop as usize / 4 % all.len()].to_spender.clone(),
                _ => account((3, 0)),
            };
            let want: Vec<_> = all.iter().filter(|e| (key(&e.from_account), key(&e.to_spender)) > (k, key(&prev))).take(limit).cloned().collect();
            match call(self, Some(a.clone()), Some(prev.clone()), t.clone()) {
                Ok(r) if r.iter().map(norm).collect::<Vec<_>>() == want => {}
                r => return self.find(if r.as_ref().is_ok_and(|r| ended(r, self.m.now)) { &["C18", "C11"] } else { &["C18"] }, format!("icrc103_get_allowances from {} after {} take {t:?} gives {r:?}, expected {want:?}", show(&a), show(&prev))),
            }
        }
    }
    /// The gauges against what the model knows.
    pub fn check_gauges(&mut self, what: &str, pruned: bool) {
        let g = match self.gauges() {
            Ok(g) => g,
            Err(e) => return self.find(&["C23"], format!("after {what}: {e}")),
        };
        let now = self.m.now;
        let get = |k: &str| g.get(k).and_then(|v| v.parse::<f64>().ok());
        let live = self.m.live_approvals();
        let gone = (self.m.appr.len() - live.len()) as f64;
        let in_window = self.m.seen.values().flatten().filter(|s| s.cat.saturating_add(WINDOW).saturating_add(DRIFT) >= now).count() as f64;
        let stale = self.m.seen.values().flatten().count() as f64 - in_window;
        let left = if pruned { (gone - 100.0).max(0.0) } else { gone };
        let mut bad = vec![];
        let mut range = |k: &str, lo: f64, hi: f64| match get(k) {
            Some(v) if v >= lo && v <= hi => {}
            v => bad.push(format!("{k} is {v:?}, should be within {lo}..={hi}")),
        };
        range("cycles_ledger_number_of_blocks", self.log.len() as f64, self.log.len() as f64);
        range("cycles_ledger_number_of_balances", self.m.bal.len() as f64, self.m.known.len() as f64);
        range("cycles_ledger_number_of_approvals", live.len() as f64, live.len() as f64 + left);
        let with_exp = live.iter().filter(|(_, v)| v.1 > 0).count() as f64;
        range("cycles_ledger_number_of_approval_expiration_entries", with_exp, with_exp + left);
        let st = if pruned { 0.0 } else { stale };
        range("cycles_ledger_number_of_transaction_hashes", in_window, in_window + st);
        range("cycles_ledger_number_of_transaction_timestamps", in_window, in_window + st);
        let s = self.m.supply() as f64;
        range("cycles_ledger_total_supply", s, s);
        let b = self.c.balance as f64;
        range("cycles_ledger_cycle_balance", b, b);
        range("cycle_balance{canister=\"cycles-ledger\"}", b, b);
        let pages = self.c.stable_pages() as f64;
        range("cycles_ledger_stable_memory_pages", pages, pages);
        range("cycles_ledger_stable_memory_bytes", pages * 65536.0, pages * 65536.0);
        if pruned && gone > 0.0 {
            self.stats.hit("pruned_approvals");
        }
        if pruned && stale > 0.0 {
            self.stats.hit("pruned_transactions");
        }
        if !bad.is_empty() {
            self.find(&["C23"], format!("after {what}: {}", bad.join("; ")));
        }
    }

    pub fn step(&mut self, op: &Op) {
        let blocks = self.m.blocks.len();
        match op {
            Op::Respond { k, ans } => self.respond(*k as u16, ans),
            Op::Advance(dt) => self.advance(dt),
            Op::Again { k, tweak } => self.again(*k, tweak),
            Op::Crowd { from, n, secs } => self.crowd(*from, *n, *secs),
            Op::Mass { from, n, what, seed } => self.mass(*from, *n, *what, *seed),
            Op::Upgrade { max_blocks, index, wrong } => self.upgrade(*max_blocks, *index, *wrong),
            Op::Blocks(r) => self.blocks_query(r),
            Op::Pages { from, take, stop, explicit } => self.pages(*from, *take, *stop, *explicit),
            Op::Raw { method, caller, bytes, mutate } => self.raw(*method, *caller, bytes, mutate),
            Op::Probe { what, a, b } => self.probe(*what, *a, *b),
            _ => {
                let i = self.intent(op).unwrap();
                self.request(&i);
                if i.kind != Kind::Deposit {
                    self.requests.push(i);
                }
            }
        }
        if (self.focused(&["C23", "C08"]) || self.gauges_too && !self.c.old) && self.finds.is_empty() {
            let pruned = self.m.blocks.len() > blocks;
            self.check_gauges(&format!("{op:?}"), pruned);
            if self.steps % 8 == 0 && self.finds.is_empty() {
                self.check_http(["/logs", "/logs?x=1", "/", "/metrics?a=b", "/Metrics", "/metrics/"][self.steps as usize / 8 % 6], "GET", vec![]);
            }
        }
        if self.m.blocks.len() > blocks {
            // What this message pruned is gone for good; the model need not remember it.
            let now = self.m.now;
            let mut dead: Vec<(u64, Pair)> = self.m.appr.iter().filter(|(_, v)| v.1 > 0 && v.1 <= now).map(|(k, v)| (v.1, *k)).collect();
            dead.sort();
            for (_, k) in dead.into_iter().take(100) {
                self.m.appr.remove(&k);
            }
        }
    }
    /// The end of a case: everything is looked at once more.
    pub fn finish(&mut self) {
        self.observe("the end", &BTreeSet::new(), &BTreeSet::new(), &[], None, true);
    }

    // ---- raw bytes and probes ------------------------------------------------------------
    fn raw(&mut self, method: u8, caller: u8, bytes: &[u8], mutate: &Option<(u8, u16, u8)>) {
        crate::raw::raw(self, method, caller, bytes, mutate)
    }
    fn probe(&mut self, what: u8, a: u8, b: u8) {
        crate::raw::probe(self, what, a, b)
    }
}

fn strip_mint_fee(v: &mut Value) {
    if let Value::Map(m) = v {
        for (k, v) in m.iter_mut() {
            if k == "phash" {
                *v = Value::Text("".into());
            }
            if k == "tx" {
                if let Value::Map(t) = v {
                    t.retain(|x| x.0 != "fee");
                }
            }
        }
    }
}
pub fn diff(a: &Dump, b: &Dump) -> String {
    let mut d = vec![];
    for (k, v) in &a.bal {
        if b.bal.get(k) != Some(v) {
            d.push(format!("balance of {}: {v} then {:?}", show(&acct(k)), b.bal.get(k)));
        }
    }
    for (k, v) in &a.appr {
        if b.appr.get(k) != Some(v) {
            d.push(format!("allowance {:?}: {v:?} then {:?}", k, b.appr.get(k)));
        }
    }
    if a.supply != b.supply {
        d.push(format!("supply: {} then {}", a.supply, b.supply));
    }
    if a.len != b.len || a.blocks != b.blocks {
        d.push(format!("log: {} then {} blocks", a.len, b.len));
    }
    if a.certified != b.certified {
        d.push("certified data".into());
    }
    if a.cycles != b.cycles {
        d.push(format!("cycles: {} then {}", a.cycles, b.cycles));
    }
    for (k, v) in &a.gauges {
        if b.gauges.get(k) != Some(v) {
            d.push(format!("{k}: {v} then {:?}", b.gauges.get(k)));
        }
    }
    d.join("; ")
}
pub fn cmc_args(a: &CArgs) -> Option<CmcArgs> {
    if a.shape == 0 {
        return None;
    }
    let bit = |i: u8| a.bits >> i & 1 == 1;
    let settings = (a.shape > 1).then(|| CanisterSettings {
        controllers: (a.shape == 3).then(|| (0..if a.bits % 16 == 15 { 10 + a.bits / 64 } else { a.bits % 4 }).map(|i| principal(a.bits / 4 + i)).collect()),
        compute_allocation: bit(0).then(|| 11u8.into()),
        memory_allocation: bit(1).then(|| 1_000_000u64.into()),
        freezing_threshold: bit(2).then(|| if bit(5) { u64::MAX.into() } else { (u64::MAX as u128 + 5).into() }),
        reserved_cycles_limit: bit(3).then(|| u128::MAX.into()),
        wasm_memory_limit: bit(4).then(|| 4_000_000_000u64.into()),
        wasm_memory_threshold: bit(5).then(|| 5u8.into()),
        log_visibility: bit(6).then(|| match a.bits % 5 {
            0 => LogVisibility::Public,
            1 => LogVisibility::Controllers,
            n => LogVisibility::AllowedViewers((2..n).map(principal).collect()),
        }),
        environment_variables: bit(7).then(|| (0..a.bits % 4).map(|i| EnvironmentVariable { name: "A".repeat(i as usize), value: if i == 1 { "é".into() } else { format!("{i}") } }).collect()),
    });
    let subnet_selection = match a.subnet % 4 {
        0 => None,
        1 => Some(SubnetSelection::Subnet { subnet: principal(a.bits) }),
        2 => Some(SubnetSelection::Filter(SubnetFilter { subnet_type: Some(["fiduciary", "", "é"][a.bits as usize % 3].into()) })),
        _ => Some(SubnetSelection::Filter(SubnetFilter { subnet_type: None })),
    };
    Some(CmcArgs { settings, subnet_selection })
}
pub fn showp(p: &Principal) -> String {
    match (0..12).find(|i| principal(*i) == *p) {
        Some(i) => format!("p{i}"),
        None => p.to_text(),
    }
}
pub fn show(a: &Account) -> String {
    match &a.subaccount {
        None => showp(&a.owner),
        Some(s) => match (1..6).find(|i| sub(*i).as_ref() == Some(s)) {
            Some(i) => format!("{}.s{i}", showp(&a.owner)),
            None => format!("{}.{}", showp(&a.owner), s.iter().map(|b| format!("{b:02x}")).collect::<String>()),
        },
    }
}
pub fn summary(i: &Intent) -> String {
    let mut s = format!("by {} from {} amount {}", showp(&i.caller), show(&i.from), i.amount);
    if let Some(x) = &i.spender {
        s += &format!(" spender {}", show(x));
    }
    if let Some(x) = &i.to {
        s += &format!(" to {}", show(x));
    }
    if let Some(x) = &i.target {
        s += &format!(" target {}", showp(x));
    }
    if let Some(x) = &i.fee {
        s += &format!(" fee {x}");
    }
    if let Some(x) = &i.memo {
        s += &format!(" memo[{}]", x.len());
    }
    if let Some(x) = &i.cat {
        s += &format!(" created {x}");
    }
    if let Some(x) = &i.expected {
        s += &format!(" expecting {x}");
    }
    if let Some(x) = &i.expires {
        s += &format!(" expires {x}");
    }
    if i.fault != Fault::None {
        s += &format!(" fault {:?}", i.fault);
    }
    s
}
