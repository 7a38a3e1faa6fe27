//! Native stand-in for the IC system API: same functions as ic0's raw bindings, acting on a thread-local `Mock`.
#![allow(unused_variables, clippy::all)]
pub struct Trap(pub String);
#[derive(Clone, Debug)]
pub struct Call { pub callee: Vec<u8>, pub method: String, pub arg: Vec<u8>, pub cycles: u128, pub reply_fun: usize, pub reply_env: usize, pub reject_fun: usize, pub reject_env: usize, pub best_effort: Option<u32> }
/// stable memory: one lazily committed region
pub struct Mem { pub base: usize, pub pages: u64, pub cap: u64 }
impl std::fmt::Debug for Mem { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Mem({})", self.pages) } }
impl std::fmt::Debug for Trap { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Trap({})", self.0) } }
impl Mem {
    fn layout(cap: u64) -> std::alloc::Layout { std::alloc::Layout::from_size_align((cap * 65536) as usize, 16).unwrap() }
    pub fn new() -> Mem { let cap = 4096; let p = unsafe { std::alloc::alloc_zeroed(Mem::layout(cap)) }; assert!(!p.is_null()); Mem { base: p as usize, pages: 0, cap } }
    fn grow(&mut self, n: u64) -> i64 { if self.pages + n > self.cap { return -1 } let o = self.pages; self.pages += n; o as i64 }
    fn chk(&self, off: u64, n: u64) { assert!(off.checked_add(n).map(|e| e <= self.pages * 65536).unwrap_or(false), "stable memory access out of bounds") }
    fn write(&self, off: u64, src: u64, n: u64) { self.chk(off, n); unsafe { std::ptr::copy_nonoverlapping(src as *const u8, (self.base + off as usize) as *mut u8, n as usize) } }
    fn read(&self, dst: u64, off: u64, n: u64) { self.chk(off, n); unsafe { std::ptr::copy_nonoverlapping((self.base + off as usize) as *const u8, dst as *mut u8, n as usize) } }
}
impl Drop for Mem { fn drop(&mut self) { unsafe { std::alloc::dealloc(self.base as *mut u8, Mem::layout(self.cap)) } } }
#[derive(Default, Debug)]
pub struct Mock {
    pub time: u64, pub caller: Vec<u8>, pub arg: Vec<u8>, pub reject_code: u32, pub reject_msg: String,
    pub reply: Vec<u8>, pub replied: bool, pub rejected: Option<String>, pub avail: u128, pub accepted: u128, pub refunded: u128,
    pub burned: bool, pub liquid_low: bool, pub perform_fail: bool, pub building: Option<Call>, pub calls: Vec<Call>,
    pub certified: Option<Vec<u8>>, pub certificate: Option<Vec<u8>>, pub query: bool, pub mem: Option<Mem>,
}
thread_local! { pub static MOCK: std::cell::RefCell<Mock> = std::cell::RefCell::new(Mock::default()); }
pub fn m<R>(f: impl FnOnce(&mut Mock) -> R) -> R { MOCK.with(|c| f(&mut c.borrow_mut())) }
fn put(dst: usize, s: &[u8]) { unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), dst as *mut u8, s.len()) } }
fn get(src: usize, n: usize) -> &'static [u8] { if n == 0 { &[] } else { unsafe { std::slice::from_raw_parts(src as *const u8, n) } } }
pub unsafe fn msg_arg_data_size() -> usize { m(|x| x.arg.len()) }
pub unsafe fn msg_arg_data_copy(dst: usize, offset: usize, size: usize) { m(|x| put(dst, &x.arg[offset..offset + size])) }
pub unsafe fn msg_caller_size() -> usize { m(|x| x.caller.len()) }
pub unsafe fn msg_caller_copy(dst: usize, offset: usize, size: usize) { m(|x| put(dst, &x.caller[offset..offset + size])) }
pub unsafe fn msg_reject_code() -> u32 { m(|x| x.reject_code) }
pub unsafe fn msg_reject_msg_size() -> usize { m(|x| x.reject_msg.len()) }
pub unsafe fn msg_reject_msg_copy(dst: usize, offset: usize, size: usize) { m(|x| put(dst, &x.reject_msg.as_bytes()[offset..offset + size])) }
pub unsafe fn msg_deadline() -> u64 { 0 }
pub unsafe fn msg_reply_data_append(src: usize, size: usize) { m(|x| x.reply.extend_from_slice(get(src, size))) }
pub unsafe fn msg_reply() { m(|x| x.replied = true) }
pub unsafe fn msg_reject(src: usize, size: usize) { m(|x| { x.rejected = Some(String::from_utf8_lossy(get(src, size)).into_owned()) }) }
pub unsafe fn msg_cycles_available128(dst: usize) { m(|x| put(dst, &x.avail.to_le_bytes())) }
pub unsafe fn msg_cycles_refunded128(dst: usize) { m(|x| put(dst, &x.refunded.to_le_bytes())) }
pub unsafe fn msg_cycles_accept128(max_amount_high: u64, max_amount_low: u64, dst: usize) { m(|x| { let w = ((max_amount_high as u128) << 64) | max_amount_low as u128; let n = w.min(x.avail); x.avail -= n; x.accepted += n; put(dst, &n.to_le_bytes()) }) }
pub unsafe fn cycles_burn128(amount_high: u64, amount_low: u64, dst: usize) { m(|x| { x.burned = true; put(dst, &0u128.to_le_bytes()) }) }
pub unsafe fn canister_self_size() -> usize { 10 }
pub unsafe fn canister_self_copy(dst: usize, offset: usize, size: usize) { put(dst, &[0, 0, 0, 0, 0, 0, 0, 77, 1, 1][offset..offset + size]) }
pub unsafe fn canister_cycle_balance128(dst: usize) { put(dst, &u128::MAX.to_le_bytes()) }
pub unsafe fn canister_liquid_cycle_balance128(dst: usize) { m(|x| put(dst, &(if x.liquid_low { 0u128 } else { u128::MAX }).to_le_bytes())) }
pub unsafe fn canister_status() -> u32 { 1 }
pub unsafe fn canister_version() -> u64 { 1 }
pub unsafe fn subnet_self_size() -> usize { 0 }
pub unsafe fn subnet_self_copy(dst: usize, offset: usize, size: usize) { () }
pub unsafe fn msg_method_name_size() -> usize { 0 }
pub unsafe fn msg_method_name_copy(dst: usize, offset: usize, size: usize) { () }
pub unsafe fn accept_message() { () }
pub unsafe fn call_new(callee_src: usize, callee_size: usize, name_src: usize, name_size: usize, reply_fun: usize, reply_env: usize, reject_fun: usize, reject_env: usize,) { m(|x| { x.building = Some(Call { callee: get(callee_src, callee_size).to_vec(), method: String::from_utf8_lossy(get(name_src, name_size)).into_owned(), arg: vec![], cycles: 0, reply_fun, reply_env, reject_fun, reject_env, best_effort: None }) }) }
pub unsafe fn call_on_cleanup(fun: usize, env: usize) { () }
pub unsafe fn call_data_append(src: usize, size: usize) { m(|x| x.building.as_mut().unwrap().arg.extend_from_slice(get(src, size))) }
pub unsafe fn call_with_best_effort_response(timeout_seconds: u32) { m(|x| x.building.as_mut().unwrap().best_effort = Some(timeout_seconds)) }
pub unsafe fn call_cycles_add128(amount_high: u64, amount_low: u64) { m(|x| x.building.as_mut().unwrap().cycles += ((amount_high as u128) << 64) | amount_low as u128) }
pub unsafe fn call_perform() -> u32 { m(|x| { let c = x.building.take().unwrap(); if x.perform_fail { 2 } else { x.calls.push(c); 0 } }) }
#[unsafe(no_mangle)] pub unsafe extern "C" fn stable64_size() -> u64 { m(|x| x.mem.as_ref().unwrap().pages) }
#[unsafe(no_mangle)] pub unsafe extern "C" fn stable64_grow(new_pages: u64) -> u64 { m(|x| x.mem.as_mut().unwrap().grow(new_pages)) as u64 }
#[unsafe(no_mangle)] pub unsafe extern "C" fn stable64_write(offset: u64, src: u64, size: u64) { m(|x| x.mem.as_ref().unwrap().write(offset, src, size)) }
#[unsafe(no_mangle)] pub unsafe extern "C" fn stable64_read(dst: u64, offset: u64, size: u64) { m(|x| x.mem.as_ref().unwrap().read(dst, offset, size)) }
pub unsafe fn root_key_size() -> usize { 0 }
pub unsafe fn root_key_copy(dst: usize, offset: usize, size: usize) { () }
pub unsafe fn certified_data_set(src: usize, size: usize) { m(|x| x.certified = Some(get(src, size).to_vec())) }
pub unsafe fn data_certificate_present() -> u32 { m(|x| x.certificate.is_some() as u32) }
pub unsafe fn data_certificate_size() -> usize { m(|x| x.certificate.as_ref().unwrap().len()) }
pub unsafe fn data_certificate_copy(dst: usize, offset: usize, size: usize) { m(|x| put(dst, &x.certificate.as_ref().unwrap()[offset..offset + size])) }
pub unsafe fn time() -> u64 { m(|x| x.time) }
pub unsafe fn global_timer_set(timestamp: u64) -> u64 { 0 }
pub unsafe fn performance_counter(counter_type: u32) -> u64 { 0 }
pub unsafe fn is_controller(src: usize, size: usize) -> u32 { 0 }
pub unsafe fn in_replicated_execution() -> u32 { m(|x| !x.query as u32) }
pub unsafe fn cost_call(method_name_size: u64, payload_size: u64, dst: usize) { put(dst, &1000u128.to_le_bytes()) }
pub unsafe fn cost_create_canister(dst: usize) { put(dst, &1000u128.to_le_bytes()) }
pub unsafe fn cost_http_request(request_size: u64, max_res_bytes: u64, dst: usize) { put(dst, &1000u128.to_le_bytes()) }
pub unsafe fn cost_sign_with_ecdsa(src: usize, size: usize, ecdsa_curve: u32, dst: usize,) -> u32 { panic!("cost_sign_with_ecdsa is not provided") }
pub unsafe fn cost_sign_with_schnorr(src: usize, size: usize, algorithm: u32, dst: usize,) -> u32 { panic!("cost_sign_with_schnorr is not provided") }
pub unsafe fn cost_vetkd_derive_key(src: usize, size: usize, vetkd_curve: u32, dst: usize,) -> u32 { panic!("cost_vetkd_derive_key is not provided") }
pub unsafe fn env_var_count() -> usize { 0 }
pub unsafe fn env_var_name_size(index: usize) -> usize { panic!("env_var_name_size is not provided") }
pub unsafe fn env_var_name_copy(index: usize, dst: usize, offset: usize, size: usize) { panic!("env_var_name_copy is not provided") }
pub unsafe fn env_var_name_exists(name_src: usize, name_size: usize) -> u32 { panic!("env_var_name_exists is not provided") }
pub unsafe fn env_var_value_size(name_src: usize, name_size: usize) -> usize { panic!("env_var_value_size is not provided") }
pub unsafe fn env_var_value_copy(name_src: usize, name_size: usize, dst: usize, offset: usize, size: usize,) { panic!("env_var_value_copy is not provided") }
pub unsafe fn debug_print(src: usize, size: usize) { () }
pub unsafe fn trap(src: usize, size: usize) { { let s = String::from_utf8_lossy(get(src, size)).into_owned(); std::panic::panic_any(Trap(s)) } }
