//! One running canister: the ledger's real exported entry points on an OS thread of their own
//! (their thread-locals are the canister's heap), with the Internet Computer's rules for
//! messages: a trap rolls everything back, a query leaves no trace, an upgrade keeps stable
//! memory and drops the heap.
use ic0::mock::{self, Env, Mode, OutCall, Outcome, Stable};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex, Once, OnceLock};

pub use iface::model::Fault;

pub type Entry = unsafe fn();

/// What the canister under test exports. Each program links one canister and says here what it is.
pub struct Table {
    pub entry: fn(&str) -> Option<(Mode, Entry)>,
    pub methods: &'static [&'static str],
    pub init: Option<Entry>,
    pub post_upgrade: Option<Entry>,
    /// The version deployed so far, where there is a copy of it.
    pub deployed: fn(&str) -> Option<(Mode, Entry)>,
    pub deployed_init: Option<Entry>,
    /// A message that does not trap.
    pub probe: fn() -> (Mode, Entry, Vec<u8>),
}
static TABLE: OnceLock<Table> = OnceLock::new();
pub fn register(t: Table) {
    assert!(TABLE.set(t).is_ok());
}
fn table() -> &'static Table {
    TABLE.get().expect("no canister is linked")
}
pub fn entry(method: &str) -> Option<(Mode, Entry)> {
    (table().entry)(method)
}
pub fn methods() -> &'static [&'static str] {
    table().methods
}
/// Names entry points: `exports! { prefix of the symbol after "canister_kind."; kind name, ... }`
/// makes `entry` and `METHODS`.
#[macro_export]
macro_rules! exports {
    ($prefix:literal; $($kind:literal $name:ident),* $(,)?) => {
        mod symbols { $( extern "Rust" { #[link_name = concat!("canister_", $kind, ".", $prefix, stringify!($name))] pub fn $name(); } )* }
        pub fn entry(method: &str) -> Option<($crate::Mode, $crate::Entry)> {
            match method {
                $( stringify!($name) => Some((if $kind == "query" { $crate::Mode::Query } else { $crate::Mode::Update }, symbols::$name as $crate::Entry)), )*
                _ => None,
            }
        }
        #[allow(dead_code)]
        pub const METHODS: &[&str] = &[$(stringify!($name)),*];
    };
}
/// The system's allocator, with a canister's limits.
struct Room;
// SAFETY: the system's allocator does the work.
unsafe impl std::alloc::GlobalAlloc for Room {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        mock::room(l.size());
        unsafe { std::alloc::System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        mock::room(l.size());
        unsafe { std::alloc::System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        unsafe { std::alloc::System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        mock::room(n);
        unsafe { std::alloc::System.realloc(p, l, n) }
    }
}
#[global_allocator]
static ROOM: Room = Room;

#[derive(Clone)]
enum Job {
    Run(Entry, Env),
    /// Answers the `usize`-th call this instance made.
    Callback(usize, bool, Env),
    Cleanup(usize, Env),
}
enum Cmd {
    Job(Job),
    Snapshot,
    Stop,
}
struct Done {
    env: Env,
    trap: Option<String>,
    /// The thread has stopped for good.
    parked: bool,
    /// How many elementary steps it took.
    work: u64,
}
enum Answer {
    Done(Box<Done>),
    Snapshot(Stable),
}

struct Inst {
    tx: Sender<Cmd>,
    rx: Receiver<Answer>,
    dead: bool,
}

fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(mock::TrapMarker(m)) = p.downcast_ref() {
        m.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

impl Inst {
    fn start(stable: Stable) -> Inst {
        process_setup();
        Self::spawn(stable)
    }
    fn spawn(stable: Stable) -> Inst {
        let (tx, jobs) = channel::<Cmd>();
        let (out, rx) = channel::<Answer>();
        std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn(move || {
                let sink_out = out.clone();
                mock::become_canister(Box::new(move |msg| {
                    let env = mock::with_env(std::mem::take);
                    let _ = sink_out.send(Answer::Done(Box::new(Done { env, trap: Some(msg), parked: true, work: mock::take_work() })));
                }));
                mock::stable_install(stable);
                let mut calls: Vec<OutCall> = vec![];
                while let Ok(cmd) = jobs.recv() {
                    match cmd {
                        Cmd::Stop => {
                            ic_cdk_executor::tear_down();
                            return;
                        }
                        Cmd::Snapshot => {
                            let _ = out.send(Answer::Snapshot(mock::stable_snapshot()));
                        }
                        Cmd::Job(job) => {
                            mock::take_work();
                            let trap = match job {
                                Job::Run(f, env) => {
                                    mock::with_env(|e| *e = env);
                                    // SAFETY: an exported entry point; no arguments.
                                    std::panic::catch_unwind(|| unsafe { f() })
                                        .err()
                                        .map(|p| panic_text(&*p))
                                }
                                Job::Callback(k, reply, env) => {
                                    mock::with_env(|e| *e = env);
                                    let c = &calls[k];
                                    let (f, e) = if reply {
                                        (c.reply_fn, c.reply_env)
                                    } else {
                                        (c.reject_fn, c.reject_env)
                                    };
                                    // SAFETY: each call is answered once (the caller sees to it).
                                    unsafe { mock::invoke(f, e) };
                                    None
                                }
                                Job::Cleanup(k, env) => {
                                    mock::with_env(|e| *e = env);
                                    let c = &calls[k];
                                    if c.cleanup_fn != 0 && c.cleanup_fn != usize::MAX {
                                        // SAFETY: as above.
                                        unsafe { mock::invoke(c.cleanup_fn, c.cleanup_env) };
                                    }
                                    None
                                }
                            };
                            let work = mock::take_work();
                            let env = mock::with_env(std::mem::take);
                            calls.extend(env.calls.iter().cloned());
                            let trap = trap.map(|t| env.last_panic.clone().unwrap_or(t));
                            let _ = out.send(Answer::Done(Box::new(Done { env, trap, parked: false, work })));
                        }
                    }
                }
            })
            .expect("cannot start a thread");
        Inst { tx, rx, dead: false }
    }
    fn job(&mut self, job: Job) -> Done {
        self.tx.send(Cmd::Job(job)).expect("canister thread gone");
        match self.rx.recv().expect("canister thread gone") {
            Answer::Done(d) => {
                if d.parked {
                    self.dead = true;
                }
                *d
            }
            Answer::Snapshot(_) => unreachable!(),
        }
    }
    fn snapshot(&mut self) -> Stable {
        self.tx.send(Cmd::Snapshot).expect("canister thread gone");
        match self.rx.recv().expect("canister thread gone") {
            Answer::Snapshot(s) => s,
            Answer::Done(_) => unreachable!(),
        }
    }
}
impl Drop for Inst {
    fn drop(&mut self) {
        if !self.dead {
            let _ = self.tx.send(Cmd::Stop);
        }
    }
}

static SETUP: Once = Once::new();
/// Lets the CDK install its own panic hook first (it does so once per process), then
/// replaces it with one that keeps what the checks need.
fn process_setup() {
    SETUP.call_once(|| {
        let mut i = Inst::spawn(Stable::default());
        let (mode, f, arg) = (table().probe)();
        let env = Env { mode, arg, self_id: vec![1], caller: vec![4], now: 1, ..Default::default() };
        i.job(Job::Run(f, env));
        let last: Arc<Mutex<()>> = Arc::default();
        std::panic::set_hook(Box::new(move |info| {
            let text = panic_text_info(info);
            if mock::is_canister_thread() {
                mock::on_panic(text);
            } else if std::env::var_os("SIM_QUIET").is_none() {
                let _g = last.lock();
                eprintln!("harness panic: {text}");
            }
        }));
    });
}
#[allow(deprecated)]
fn panic_text_info(info: &std::panic::PanicHookInfo) -> String {
    let p = info.payload();
    let m = if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    };
    match info.location() {
        Some(l) => format!("{m} ({}:{})", l.file(), l.line()),
        None => m,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Reply(Vec<u8>),
    Reject(String),
    Trap(String),
    /// Still waiting for a call; the number names the call context.
    Pending(usize),
}

#[derive(Clone, Debug)]
pub struct Pending {
    pub ctx: usize,
    pub call: usize,
    pub callee: Vec<u8>,
    pub method: String,
    pub arg: Vec<u8>,
    pub cycles: u128,
}

struct Ctx {
    caller: Vec<u8>,
    open: usize,
    answered: bool,
}

/// The cycles the ledger has before any deposit: its own fuel, no part of what backs the tokens.
pub const FLOAT: u128 = 1_000_000_000_000_000;

pub struct Canister {
    inst: Inst,
    base: Stable,
    journal: Vec<Job>,
    /// The version deployed so far is still running.
    pub old: bool,
    pub self_id: Vec<u8>,
    pub balance: u128,
    pub certified: Option<Vec<u8>>,
    pub now: u64,
    ctxs: Vec<Ctx>,
    ncalls: usize,
    pub pending: Vec<Pending>,
    pub messages: u64,
    pub traps: u64,
    /// Cycles the caller did not get back (accepted by the canister), over all messages.
    pub last_accepted: u128,
    pub reinstalls: u64,
    /// How many elementary steps the last message took.
    pub last_work: u64,
}

fn arg_env(arg: Vec<u8>) -> Env {
    Env { arg, ..Default::default() }
}

impl Canister {
    /// Installs the ledger, or its version deployed so far. `Err` is the trap message.
    pub fn install(self_id: &[u8], now: u64, arg: Vec<u8>, old: bool) -> Result<Canister, String> {
        let mut c = Canister {
            inst: Inst::start(Stable::default()),
            base: Stable::default(),
            journal: vec![],
            old,
            self_id: self_id.to_vec(),
            balance: FLOAT,
            certified: None,
            now,
            ctxs: vec![],
            ncalls: 0,
            pending: vec![],
            messages: 0,
            traps: 0,
            last_accepted: 0,
            reinstalls: 0,
            last_work: 0,
        };
        let (f, mode) = if old { (table().deployed_init, Mode::Update) } else { (table().init, Mode::Init) };
        let Some(f) = f else { return Ok(c) };
        let env = c.env(mode, &[9], arg_env(arg));
        let d = c.inst.job(Job::Run(f, env.clone()));
        if let Some(t) = d.trap {
            return Err(t);
        }
        c.last_work = d.work;
        c.journal.push(Job::Run(f, env));
        c.absorb(&d.env);
        Ok(c)
    }
    fn entry(&self, method: &str) -> Option<(Mode, Entry)> {
        if self.old {
            (table().deployed)(method)
        } else {
            entry(method)
        }
    }
    fn env(&self, mode: Mode, caller: &[u8], e: Env) -> Env {
        Env {
            mode,
            now: self.now,
            self_id: self.self_id.clone(),
            caller: caller.to_vec(),
            balance: self.balance,
            call_slots: u32::MAX,
            certificate: (mode == Mode::Query).then(|| self.certified.clone().unwrap_or_default()),
            ..e
        }
    }
    fn absorb(&mut self, e: &Env) {
        self.balance = e.balance;
        if let Some(c) = &e.certified {
            self.certified = Some(c.clone());
        }
    }
    /// Brings the instance back to where the journal left it.
    fn rebuild(&mut self) {
        self.reinstalls += 1;
        self.inst = Inst::start(self.base.clone());
        for j in &self.journal {
            let d = self.inst.job(j.clone());
            if let Some(t) = d.trap {
                panic!("harness: replaying a message that ran before now traps: {t}");
            }
        }
    }
    pub fn query(&mut self, method: &str, caller: &[u8], arg: Vec<u8>) -> Res {
        let (mode, f) = self.entry(method).unwrap_or_else(|| panic!("no method {method}"));
        assert!(mode == Mode::Query, "{method} is not a query");
        self.messages += 1;
        let env = self.env(Mode::Query, caller, arg_env(arg));
        let d = self.inst.job(Job::Run(f, env));
        self.last_work = d.work;
        match d.trap {
            Some(t) => {
                self.traps += 1;
                self.rebuild();
                Res::Trap(t)
            }
            None => match d.env.outcome {
                Some(Outcome::Reply(b)) => Res::Reply(b),
                Some(Outcome::Reject(b)) => Res::Reject(String::from_utf8_lossy(&b).into()),
                None => Res::Reject("did not reply".into()),
            },
        }
    }
    pub fn update(&mut self, method: &str, caller: &[u8], arg: Vec<u8>, cycles: u128, fault: Fault) -> Res {
        let (mode, f) = self.entry(method).unwrap_or_else(|| panic!("no method {method}"));
        assert!(mode == Mode::Update, "{method} is not an update");
        self.messages += 1;
        let mut env = self.env(Mode::Update, caller, arg_env(arg));
        env.available = cycles;
        match fault {
            Fault::None => {}
            Fault::NoLiquidCycles => env.frozen = u128::MAX,
            Fault::CallFails => env.call_slots = 0,
        }
        self.last_accepted = 0;
        let job = Job::Run(f, env);
        let d = self.inst.job(job.clone());
        self.last_work = d.work;
        if let Some(t) = d.trap {
            self.traps += 1;
            self.rebuild();
            return Res::Trap(t);
        }
        self.journal.push(job);
        self.last_accepted = d.env.accepted;
        let ctx = self.ctxs.len();
        self.ctxs.push(Ctx { caller: caller.to_vec(), open: 0, answered: false });
        self.finish(ctx, d.env)
    }
    fn finish(&mut self, ctx: usize, env: Env) -> Res {
        self.absorb(&env);
        for c in &env.calls {
            self.pending.push(Pending {
                ctx,
                call: self.ncalls,
                callee: c.callee.clone(),
                method: c.method.clone(),
                arg: c.arg.clone(),
                cycles: c.cycles,
            });
            self.ncalls += 1;
            self.ctxs[ctx].open += 1;
        }
        let c = &mut self.ctxs[ctx];
        match env.outcome {
            Some(Outcome::Reply(b)) => {
                c.answered = true;
                Res::Reply(b)
            }
            Some(Outcome::Reject(b)) => {
                c.answered = true;
                Res::Reject(String::from_utf8_lossy(&b).into())
            }
            None if c.open > 0 || c.answered => Res::Pending(ctx),
            None => {
                c.answered = true;
                Res::Reject("canister did not reply to the call".into())
            }
        }
    }
    /// Answers a pending call (by position in `pending`) with a reply or a reject, giving
    /// back `refund` of the cycles that went with it.
    pub fn respond(&mut self, pos: usize, answer: Result<Vec<u8>, (u32, String)>, refund: u128) -> Res {
        let p = self.pending.remove(pos);
        assert!(refund <= p.cycles);
        self.messages += 1;
        self.ctxs[p.ctx].open -= 1;
        let caller = self.ctxs[p.ctx].caller.clone();
        let reply = answer.is_ok();
        self.balance += refund;
        let mut env = self.env(Mode::Callback, &caller, Env::default());
        env.refunded = refund;
        env.answered = self.ctxs[p.ctx].answered;
        match answer {
            Ok(b) => env.arg = b,
            Err((code, msg)) => {
                env.reject_code = code;
                env.reject_msg = msg.into_bytes();
            }
        }
        let job = Job::Callback(p.call, reply, env.clone());
        let d = self.inst.job(job.clone());
        self.last_work = d.work;
        if let Some(t) = d.trap {
            self.traps += 1;
            self.rebuild();
            env.mode = Mode::Cleanup;
            env.balance = self.balance;
            let job = Job::Cleanup(p.call, env);
            let d = self.inst.job(job.clone());
            if d.trap.is_some() {
                self.rebuild();
            } else {
                self.journal.push(job);
            }
            if self.ctxs[p.ctx].open == 0 {
                self.ctxs[p.ctx].answered = true;
            }
            return Res::Trap(t);
        }
        self.journal.push(job);
        self.finish(p.ctx, d.env)
    }
    /// What it would keep over an upgrade.
    pub fn stable(&mut self) -> Stable {
        self.inst.snapshot()
    }
    /// One that has been upgraded, with such a memory.
    pub fn resume(self_id: &[u8], now: u64, balance: u128, stable: Stable, arg: Vec<u8>) -> Result<Canister, String> {
        let mut c = Canister {
            inst: Inst::start(Stable::default()),
            base: Stable::default(),
            journal: vec![],
            old: false,
            self_id: self_id.to_vec(),
            balance,
            certified: None,
            now,
            ctxs: vec![],
            ncalls: 0,
            pending: vec![],
            messages: 0,
            traps: 0,
            last_accepted: 0,
            reinstalls: 0,
            last_work: 0,
        };
        c.inst = Inst::start(stable.clone());
        c.base = stable;
        let f = table().post_upgrade.expect("no post_upgrade");
        let env = c.env(Mode::PostUpgrade, &[9], arg_env(arg));
        let d = c.inst.job(Job::Run(f, env.clone()));
        if let Some(t) = d.trap {
            return Err(t);
        }
        c.last_work = d.work;
        c.journal.push(Job::Run(f, env));
        c.absorb(&d.env);
        Ok(c)
    }
    pub fn stable_pages(&mut self) -> u64 {
        self.inst.snapshot().size()
    }
    /// Upgrades to the same code. `Err`: it trapped, and the canister stays as it was.
    pub fn upgrade(&mut self, arg: Vec<u8>) -> Result<(), String> {
        assert!(self.pending.is_empty(), "upgrades happen with no call in flight");
        self.messages += 1;
        let stable = self.inst.snapshot();
        let mut new = Inst::start(stable.clone());
        let f = table().post_upgrade.expect("no post_upgrade");
        let env = self.env(Mode::PostUpgrade, &[9], arg_env(arg));
        let d = new.job(Job::Run(f, env.clone()));
        self.last_work = d.work;
        if let Some(t) = d.trap {
            self.traps += 1;
            return Err(t);
        }
        self.inst = new;
        self.old = false;
        self.base = stable;
        self.journal = vec![Job::Run(f, env)];
        self.ncalls = 0;
        self.absorb(&d.env);
        Ok(())
    }
}
