//! The system API over [`crate::mock`].
use crate::mock::{self, trap_now, with_env, Mode, OutCall, Outcome};

unsafe fn bytes<'a>(src: usize, size: usize) -> &'a [u8] {
    if size == 0 {
        return &[];
    }
    unsafe { std::slice::from_raw_parts(src as *const u8, size) }
}
unsafe fn put(dst: usize, offset: usize, size: usize, data: &[u8]) {
    match offset.checked_add(size) {
        Some(end) if end <= data.len() => {
            if size > 0 {
                unsafe { std::ptr::copy_nonoverlapping(data.as_ptr().add(offset), dst as *mut u8, size) }
            }
        }
        _ => trap_now("system call out of bounds".into()),
    }
}
unsafe fn put128(dst: usize, v: u128) {
    unsafe { std::ptr::copy_nonoverlapping(v.to_le_bytes().as_ptr(), dst as *mut u8, 16) }
}
fn require(modes: &[Mode], what: &str) {
    let mode = with_env(|e| e.mode);
    if !modes.contains(&mode) {
        trap_now(format!("{what} cannot be executed in {mode:?} mode"))
    }
}
const REPLICATED: &[Mode] =
    &[Mode::Init, Mode::PostUpgrade, Mode::Update, Mode::Callback, Mode::Cleanup];
const ANSWERING: &[Mode] = &[Mode::Update, Mode::Query, Mode::Callback];
const CALLING: &[Mode] = &[Mode::Update, Mode::Callback];

pub unsafe fn msg_arg_data_size() -> usize {
    with_env(|e| e.arg.len())
}
pub unsafe fn msg_arg_data_copy(dst: usize, offset: usize, size: usize) {
    let a = with_env(|e| e.arg.clone());
    unsafe { put(dst, offset, size, &a) }
}
pub unsafe fn msg_caller_size() -> usize {
    with_env(|e| e.caller.len())
}
pub unsafe fn msg_caller_copy(dst: usize, offset: usize, size: usize) {
    let a = with_env(|e| e.caller.clone());
    unsafe { put(dst, offset, size, &a) }
}
pub unsafe fn msg_reject_code() -> u32 {
    require(&[Mode::Callback], "msg_reject_code");
    with_env(|e| e.reject_code)
}
pub unsafe fn msg_reject_msg_size() -> usize {
    with_env(|e| e.reject_msg.len())
}
pub unsafe fn msg_reject_msg_copy(dst: usize, offset: usize, size: usize) {
    let a = with_env(|e| e.reject_msg.clone());
    unsafe { put(dst, offset, size, &a) }
}
pub unsafe fn msg_deadline() -> u64 {
    0
}
pub unsafe fn msg_reply_data_append(src: usize, size: usize) {
    require(ANSWERING, "msg_reply_data_append");
    let d = unsafe { bytes(src, size) };
    with_env(|e| e.reply_buf.extend_from_slice(d));
}
pub unsafe fn msg_reply() {
    require(ANSWERING, "msg_reply");
    if with_env(|e| e.answered) {
        trap_now("the call is already replied".into())
    }
    with_env(|e| {
        e.answered = true;
        e.outcome = Some(Outcome::Reply(std::mem::take(&mut e.reply_buf)));
    });
}
pub unsafe fn msg_reject(src: usize, size: usize) {
    require(ANSWERING, "msg_reject");
    let d = unsafe { bytes(src, size) }.to_vec();
    if with_env(|e| e.answered) {
        trap_now("the call is already replied".into())
    }
    with_env(|e| {
        e.answered = true;
        e.outcome = Some(Outcome::Reject(d));
    });
}
pub unsafe fn msg_cycles_available128(dst: usize) {
    let v = with_env(|e| e.available);
    unsafe { put128(dst, v) }
}
pub unsafe fn msg_cycles_refunded128(dst: usize) {
    let v = with_env(|e| e.refunded);
    unsafe { put128(dst, v) }
}
pub unsafe fn msg_cycles_accept128(max_amount_high: u64, max_amount_low: u64, dst: usize) {
    require(CALLING, "msg_cycles_accept128");
    let max = ((max_amount_high as u128) << 64) | max_amount_low as u128;
    let v = with_env(|e| {
        let v = max.min(e.available);
        e.available -= v;
        e.accepted += v;
        e.balance = e.balance.saturating_add(v);
        v
    });
    unsafe { put128(dst, v) }
}
pub unsafe fn cycles_burn128(amount_high: u64, amount_low: u64, dst: usize) {
    require(REPLICATED, "cycles_burn128");
    let max = ((amount_high as u128) << 64) | amount_low as u128;
    let v = with_env(|e| {
        let v = max.min(e.balance.saturating_sub(e.frozen));
        e.balance -= v;
        v
    });
    unsafe { put128(dst, v) }
}
pub unsafe fn canister_self_size() -> usize {
    with_env(|e| e.self_id.len())
}
pub unsafe fn canister_self_copy(dst: usize, offset: usize, size: usize) {
    let a = with_env(|e| e.self_id.clone());
    unsafe { put(dst, offset, size, &a) }
}
pub unsafe fn canister_cycle_balance128(dst: usize) {
    let v = with_env(|e| e.balance);
    unsafe { put128(dst, v) }
}
pub unsafe fn canister_liquid_cycle_balance128(dst: usize) {
    let v = with_env(|e| e.balance.saturating_sub(e.frozen));
    unsafe { put128(dst, v) }
}
pub unsafe fn canister_status() -> u32 {
    1
}
pub unsafe fn canister_version() -> u64 {
    1
}
pub unsafe fn subnet_self_size() -> usize {
    with_env(|e| e.self_id.len())
}
pub unsafe fn subnet_self_copy(dst: usize, offset: usize, size: usize) {
    let a = with_env(|e| e.self_id.clone());
    unsafe { put(dst, offset, size, &a) }
}
pub unsafe fn msg_method_name_size() -> usize {
    0
}
pub unsafe fn msg_method_name_copy(dst: usize, offset: usize, size: usize) {}
pub unsafe fn accept_message() {}
pub unsafe fn call_new(
    callee_src: usize,
    callee_size: usize,
    name_src: usize,
    name_size: usize,
    reply_fun: usize,
    reply_env: usize,
    reject_fun: usize,
    reject_env: usize,
) {
    require(CALLING, "call_new");
    let callee = unsafe { bytes(callee_src, callee_size) }.to_vec();
    let method = String::from_utf8(unsafe { bytes(name_src, name_size) }.to_vec()).unwrap();
    // A call under construction is dropped; cycles already added to it come back.
    with_env(|e| {
        if let Some(old) = e.building.take() {
            e.balance += old.cycles;
        }
        e.building = Some(OutCall {
            callee,
            method,
            arg: vec![],
            cycles: 0,
            best_effort: None,
            reply_fn: reply_fun,
            reply_env,
            reject_fn: reject_fun,
            reject_env,
            cleanup_fn: 0,
            cleanup_env: 0,
        });
    });
}
fn building(what: &str, f: impl FnOnce(&mut OutCall)) {
    let ok = with_env(|e| e.building.as_mut().map(f).is_some());
    if !ok {
        trap_now(format!("{what} without a call under construction"))
    }
}
pub unsafe fn call_on_cleanup(fun: usize, env: usize) {
    building("call_on_cleanup", |c| {
        c.cleanup_fn = fun;
        c.cleanup_env = env;
    });
}
pub unsafe fn call_data_append(src: usize, size: usize) {
    let d = unsafe { bytes(src, size) };
    building("call_data_append", |c| c.arg.extend_from_slice(d));
}
pub unsafe fn call_with_best_effort_response(timeout_seconds: u32) {
    building("call_with_best_effort_response", |c| c.best_effort = Some(timeout_seconds));
}
pub unsafe fn call_cycles_add128(amount_high: u64, amount_low: u64) {
    let v = ((amount_high as u128) << 64) | amount_low as u128;
    if with_env(|e| e.balance.saturating_sub(e.frozen) < v) {
        trap_now("call_cycles_add128: not enough cycles".into())
    }
    building("call_cycles_add128", |c| c.cycles += v);
    with_env(|e| e.balance -= v);
}
pub unsafe fn call_perform() -> u32 {
    with_env(|e| {
        let c = e.building.take().expect("call_perform without a call under construction");
        if e.call_slots == 0 {
            e.balance += c.cycles;
            return 2;
        }
        e.call_slots -= 1;
        e.calls.push(c);
        0
    })
}
pub unsafe fn stable64_size() -> u64 {
    mock::stable_size()
}
pub unsafe fn stable64_grow(new_pages: u64) -> u64 {
    mock::stable_grow(new_pages) as u64
}
pub unsafe fn stable64_write(offset: u64, src: u64, size: u64) {
    mock::stable_write(offset, unsafe { bytes(src as usize, size as usize) })
}
pub unsafe fn stable64_read(dst: u64, offset: u64, size: u64) {
    let mut v = vec![0; size as usize];
    mock::stable_read(offset, &mut v);
    unsafe { put(dst as usize, 0, size as usize, &v) }
}
pub unsafe fn root_key_size() -> usize {
    0
}
pub unsafe fn root_key_copy(dst: usize, offset: usize, size: usize) {}
pub unsafe fn certified_data_set(src: usize, size: usize) {
    require(REPLICATED, "certified_data_set");
    if size > 32 {
        trap_now("certified data is longer than 32 bytes".into())
    }
    let d = unsafe { bytes(src, size) }.to_vec();
    with_env(|e| e.certified = Some(d));
}
pub unsafe fn data_certificate_present() -> u32 {
    with_env(|e| (e.mode == Mode::Query && e.certificate.is_some()) as u32)
}
pub unsafe fn data_certificate_size() -> usize {
    match with_env(|e| e.certificate.as_ref().map(|c| c.len())) {
        Some(n) => n,
        None => trap_now("no data certificate".into()),
    }
}
pub unsafe fn data_certificate_copy(dst: usize, offset: usize, size: usize) {
    match with_env(|e| e.certificate.clone()) {
        Some(c) => unsafe { put(dst, offset, size, &c) },
        None => trap_now("no data certificate".into()),
    }
}
pub unsafe fn time() -> u64 {
    with_env(|e| e.now)
}
pub unsafe fn global_timer_set(timestamp: u64) -> u64 {
    0
}
pub unsafe fn performance_counter(counter_type: u32) -> u64 {
    0
}
pub unsafe fn is_controller(src: usize, size: usize) -> u32 {
    0
}
pub unsafe fn in_replicated_execution() -> u32 {
    with_env(|e| (e.mode != Mode::Query) as u32)
}
pub unsafe fn cost_call(method_name_size: u64, payload_size: u64, dst: usize) {
    let v = with_env(|e| e.call_cost);
    unsafe { put128(dst, v) }
}
pub unsafe fn cost_create_canister(dst: usize) {
    unsafe { put128(dst, 500_000_000_000) }
}
pub unsafe fn cost_http_request(request_size: u64, max_res_bytes: u64, dst: usize) {
    unsafe { put128(dst, 0) }
}
pub unsafe fn cost_sign_with_ecdsa(src: usize, size: usize, ecdsa_curve: u32, dst: usize) -> u32 {
    1
}
pub unsafe fn cost_sign_with_schnorr(src: usize, size: usize, algorithm: u32, dst: usize) -> u32 {
    1
}
pub unsafe fn cost_vetkd_derive_key(src: usize, size: usize, vetkd_curve: u32, dst: usize) -> u32 {
    1
}
pub unsafe fn env_var_count() -> usize {
    0
}
pub unsafe fn env_var_name_size(index: usize) -> usize {
    0
}
pub unsafe fn env_var_name_copy(index: usize, dst: usize, offset: usize, size: usize) {}
pub unsafe fn env_var_name_exists(name_src: usize, name_size: usize) -> u32 {
    0
}
pub unsafe fn env_var_value_size(name_src: usize, name_size: usize) -> usize {
    0
}
pub unsafe fn env_var_value_copy(
    name_src: usize,
    name_size: usize,
    dst: usize,
    offset: usize,
    size: usize,
) {
}
pub unsafe fn debug_print(src: usize, size: usize) {
    let s = String::from_utf8_lossy(unsafe { bytes(src, size) }).into_owned();
    with_env(|e| e.prints.push(s));
}
pub unsafe fn trap(src: usize, size: usize) {
    let s = String::from_utf8_lossy(unsafe { bytes(src, size) }).into_owned();
    trap_now(s)
}
