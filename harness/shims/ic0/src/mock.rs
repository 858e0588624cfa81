//! Native stand-in for the Internet Computer system API, used only by the checks in /verif.
//!
//! Every canister instance lives on an OS thread of its own, so that the thread-locals in
//! which canister code keeps its heap state belong to that instance. This module holds, per
//! thread, what the system would hold for one message execution (`Env`) and the instance's
//! stable memory (sparse, copy-on-write pages, so that taking a snapshot is cheap).

use std::cell::{Cell, RefCell};
use std::sync::Arc;

pub const WASM_PAGE: u64 = 65536;
const CHUNK: usize = 4096;
pub type Chunk = Arc<[u8; CHUNK]>;

#[derive(Clone, Default)]
pub struct Stable {
    pages: u64,
    chunks: Vec<Option<Chunk>>,
}

impl std::fmt::Debug for Stable {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Stable({} pages)", self.pages)
    }
}

impl Stable {
    pub fn size(&self) -> u64 {
        self.pages
    }
    pub fn grow(&mut self, n: u64) -> i64 {
        let old = self.pages;
        // 4 GiB is far beyond what a check ever writes.
        if n > 65536 || old + n > 65536 {
            return -1;
        }
        self.pages = old + n;
        self.chunks.resize((self.pages * WASM_PAGE) as usize / CHUNK, None);
        old as i64
    }
    pub fn read(&self, offset: u64, dst: &mut [u8]) -> bool {
        let len = dst.len() as u64;
        if offset.checked_add(len).is_none_or(|e| e > self.pages * WASM_PAGE) {
            return false;
        }
        let mut off = offset as usize;
        let mut done = 0;
        while done < dst.len() {
            let (c, i) = (off / CHUNK, off % CHUNK);
            let n = (CHUNK - i).min(dst.len() - done);
            match &self.chunks[c] {
                Some(ch) => dst[done..done + n].copy_from_slice(&ch[i..i + n]),
                None => dst[done..done + n].fill(0),
            }
            done += n;
            off += n;
        }
        true
    }
    pub fn write(&mut self, offset: u64, src: &[u8]) -> bool {
        let len = src.len() as u64;
        if offset.checked_add(len).is_none_or(|e| e > self.pages * WASM_PAGE) {
            return false;
        }
        let mut off = offset as usize;
        let mut done = 0;
        while done < src.len() {
            let (c, i) = (off / CHUNK, off % CHUNK);
            let n = (CHUNK - i).min(src.len() - done);
            let ch = self.chunks[c].get_or_insert_with(|| Arc::new([0; CHUNK]));
            Arc::make_mut(ch)[i..i + n].copy_from_slice(&src[done..done + n]);
            done += n;
            off += n;
        }
        true
    }
}

/// What the canister is executing.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub enum Mode {
    /// Nothing: a system call made now is a harness bug.
    #[default]
    Idle,
    Init,
    PostUpgrade,
    Update,
    Query,
    Callback,
    Cleanup,
}

/// A call the canister has queued.
#[derive(Clone, Debug)]
pub struct OutCall {
    pub callee: Vec<u8>,
    pub method: String,
    pub arg: Vec<u8>,
    pub cycles: u128,
    pub best_effort: Option<u32>,
    pub reply_fn: usize,
    pub reply_env: usize,
    pub reject_fn: usize,
    pub reject_env: usize,
    pub cleanup_fn: usize,
    pub cleanup_env: usize,
}

#[derive(Clone, Debug)]
pub enum Outcome {
    Reply(Vec<u8>),
    Reject(Vec<u8>),
}

/// One message execution: the inputs the system provides and what the canister did.
#[derive(Clone, Debug, Default)]
pub struct Env {
    pub mode: Mode,
    // inputs
    pub now: u64,
    pub self_id: Vec<u8>,
    pub caller: Vec<u8>,
    pub arg: Vec<u8>,
    pub available: u128,
    pub refunded: u128,
    pub reject_code: u32,
    pub reject_msg: Vec<u8>,
    /// The canister's cycles balance (updated while the message runs).
    pub balance: u128,
    /// Cycles of the balance that cannot be attached to calls (freezing threshold).
    pub frozen: u128,
    pub call_cost: u128,
    /// How many calls may still be queued before `call_perform` starts to fail.
    pub call_slots: u32,
    pub certificate: Option<Vec<u8>>,
    /// Whether a reply or reject was already sent in this call context.
    pub answered: bool,
    // outputs
    pub accepted: u128,
    pub reply_buf: Vec<u8>,
    pub outcome: Option<Outcome>,
    pub calls: Vec<OutCall>,
    pub building: Option<OutCall>,
    pub certified: Option<Vec<u8>>,
    pub prints: Vec<String>,
    pub last_panic: Option<String>,
}

thread_local! {
    static WORK: Cell<u64> = const { Cell::new(0) };
}
/// Counts elementary steps: accesses to stable memory, blocks of memory asked for.
fn tally(n: u64) {
    let _ = WORK.try_with(|w| w.set(w.get().wrapping_add(n)));
}
/// How many there were since the last time this was asked, on this thread.
pub fn take_work() -> u64 {
    WORK.try_with(|w| w.replace(0)).unwrap_or(0)
}

thread_local! {
    static ENV: RefCell<Env> = RefCell::new(Env::default());
    static STABLE: RefCell<Stable> = RefCell::new(Stable::default());
    static TRAP_SINK: RefCell<Option<Box<dyn Fn(String)>>> = const { RefCell::new(None) };
}

/// The panic payload of a trap outside callbacks.
pub struct TrapMarker(pub String);

pub fn with_env<R>(f: impl FnOnce(&mut Env) -> R) -> R {
    ENV.with(|e| f(&mut e.borrow_mut()))
}
pub fn stable_install(s: Stable) {
    STABLE.with(|c| *c.borrow_mut() = s)
}
pub fn stable_snapshot() -> Stable {
    STABLE.with(|c| c.borrow().clone())
}
pub fn stable_size() -> u64 {
    STABLE.with(|c| c.borrow().size())
}
pub fn stable_grow(n: u64) -> i64 {
    STABLE.with(|c| c.borrow_mut().grow(n))
}
pub fn stable_read(offset: u64, dst: &mut [u8]) {
    tally(1 + dst.len() as u64 / 4096);
    if !STABLE.with(|c| c.borrow().read(offset, dst)) {
        trap_now("stable memory out of bounds".into())
    }
}
pub fn stable_write(offset: u64, src: &[u8]) {
    tally(1 + src.len() as u64 / 4096);
    if !STABLE.with(|c| c.borrow_mut().write(offset, src)) {
        trap_now("stable memory out of bounds".into())
    }
}

/// Marks this thread as a canister; `sink` is told of traps in callbacks.
pub fn become_canister(sink: Box<dyn Fn(String)>) {
    TRAP_SINK.with(|s| *s.borrow_mut() = Some(sink));
}
pub fn is_canister_thread() -> bool {
    TRAP_SINK.try_with(|s| s.try_borrow().map(|s| s.is_some()).unwrap_or(true)).unwrap_or(false)
}

/// Callbacks are `extern "C"` functions, out of which nothing may unwind: the thread
/// reports the trap and stops here for good (the harness rebuilds the instance).
fn park_forever(msg: String) -> ! {
    TRAP_SINK.with(|s| {
        if let Some(f) = s.borrow().as_ref() {
            f(msg)
        }
    });
    STABLE.with(|c| {
        if let Ok(mut c) = c.try_borrow_mut() {
            *c = Stable::default();
        }
    });
    loop {
        std::thread::park();
    }
}

/// The process's allocator asks before it makes room: a canister that wants more than there can
/// be traps.
pub fn room(size: usize) {
    const ROOM: usize = 3 << 30;
    tally(1);
    if size >= ROOM && is_canister_thread() {
        park_forever("out of memory".into())
    }
}

pub fn trap_now(msg: String) -> ! {
    let mode = with_env(|e| e.mode);
    if matches!(mode, Mode::Callback | Mode::Cleanup) {
        park_forever(msg)
    }
    std::panic::resume_unwind(Box::new(TrapMarker(msg)))
}

/// To be called from the process's panic hook on canister threads.
pub fn on_panic(msg: String) {
    let mode = ENV.with(|e| match e.try_borrow_mut() {
        Ok(mut e) => {
            e.last_panic = Some(msg.clone());
            e.mode
        }
        Err(_) => Mode::Idle,
    });
    if matches!(mode, Mode::Callback | Mode::Cleanup) {
        park_forever(msg)
    }
}

/// Runs a queued call's callback or cleanup function.
///
/// # Safety
/// `f` and `env` must come from an [`OutCall`] made on this thread and not yet answered.
pub unsafe fn invoke(f: usize, env: usize) {
    // SAFETY: per the contract above.
    unsafe {
        let f: unsafe extern "C" fn(usize) = std::mem::transmute(f);
        f(env)
    }
}
