//! Harness interface. Under the symbolic engine the `__sym_*` functions are intercepted by name; compiled natively
//! they replay the input values of one path from a file.
#![allow(dead_code)]
use std::sync::Mutex;

/// native state: everything goes through volatile or locked state so that the optimiser cannot fold these bodies
pub struct Native { vals: Vec<i64>, next: usize, obs: Vec<u64> }
pub static NATIVE: Mutex<Native> = Mutex::new(Native { vals: Vec::new(), next: 0, obs: Vec::new() });
static mut ZERO: u64 = 0;
fn vol() -> u64 { unsafe { std::ptr::read_volatile(&raw const ZERO) } }
static mut SINK: u64 = 0;
fn sink(v: u64) { unsafe { std::ptr::write_volatile(&raw mut SINK, v) } }
fn native() -> std::sync::MutexGuard<'static, Native> { NATIVE.lock().unwrap_or_else(|e| e.into_inner()) }
fn txt(p: *const u8, n: u64) -> String { unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(p, n as usize)).to_string() } }

#[no_mangle] #[inline(never)] pub extern "C" fn __sym_i64(lo: i64, hi: i64, t: *const u8, n: u64) -> i64 { let mut g = native(); let k = g.next; g.next += 1; let v = g.vals.get(k).copied().unwrap_or(lo); if v < lo || v > hi { eprintln!("REPLAY value {} of {} outside {}..{}", v, txt(t, n), lo, hi); std::process::exit(4) } v }
#[no_mangle] #[inline(never)] pub extern "C" fn __sym_choice(c: u64, t: *const u8, n: u64) -> u64 { let mut g = native(); let k = g.next; g.next += 1; let v = g.vals.get(k).copied().unwrap_or(0) as u64; if v >= c { eprintln!("REPLAY choice {} of {} outside 0..{}", v, txt(t, n), c); std::process::exit(4) } v }
#[no_mangle] #[inline(never)] pub extern "C" fn __sym_assume(b: bool) { if !b && vol() == 0 { eprintln!("ASSUME violated"); std::process::exit(5) } }
#[no_mangle] #[inline(never)] pub extern "C" fn __sym_fail(t: *const u8, n: u64) -> ! { println!("FAIL {}{}", txt(t, n), native_loc()); std::process::exit(1) }
#[no_mangle] #[inline(never)] pub extern "C" fn __sym_done() -> ! { let g = native(); let o: Vec<String> = g.obs.iter().map(|v| v.to_string()).collect(); println!("OK {}", o.join(",")); std::process::exit(0) }
#[no_mangle] #[inline(never)] pub extern "C" fn __sym_reach(id: u64) { sink(id) }
#[no_mangle] #[inline(never)] pub extern "C" fn __sym_observe(v: u64) { native().obs.push(v) }
#[no_mangle] #[inline(never)] pub extern "C" fn __sym_is_symbolic(v: u64) -> u64 { vol() & v }
#[no_mangle] #[inline(never)] pub extern "C" fn __sym_concretize(v: u64) -> u64 { v ^ vol() }
#[no_mangle] #[inline(never)] pub extern "C" fn __sym_note(p: *const u8, n: u64) { sink(p as u64); sink(n) }
#[no_mangle] #[inline(never)] pub extern "C" fn __sym_engine() -> u64 { vol() }
#[no_mangle] #[inline(never)] pub extern "C" fn __sym_param() -> u64 { std::env::var("SYM_PARAM").ok().and_then(|s| s.parse().ok()).unwrap_or(0) ^ vol() }
#[no_mangle] #[inline(never)] pub extern "C" fn __sym_print(p: *const u8, n: u64, v: u64) { sink(p as u64); sink(n); sink(v) }
#[no_mangle] #[inline(never)] pub extern "C" fn __sym_flat_hash(on: u64) { sink(on) }
#[no_mangle] #[inline(never)] pub extern "C" fn __sym_fault(op: u64, at: u64, how: u64) { for (a, v) in FAULT.iter().zip([op, at, how, 0]) { a.store(v, std::sync::atomic::Ordering::SeqCst); } }
#[no_mangle] #[inline(never)] pub extern "C" fn __sym_fault_fired() -> u64 { FAULT[3].load(std::sync::atomic::Ordering::SeqCst) ^ vol() }
static FAULT: [std::sync::atomic::AtomicU64; 4] = [const { std::sync::atomic::AtomicU64::new(0) }; 4];
/// system calls of the native replay, with the injected fault
#[cfg(not(feature = "stubbed"))]
mod native_io {
    use super::FAULT; use std::sync::atomic::Ordering::SeqCst;
    extern "C" { fn syscall(n: i64, ...) -> i64; fn __errno_location() -> *mut i32; }
    fn scratch(p: &[u8]) -> bool { static S: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new(); let s = S.get_or_init(|| std::env::var("SYM_SCRATCH").unwrap_or_default().into_bytes()); !s.is_empty() && p.starts_with(s) }
    /// 0: go on, -1: half, otherwise an error number
    fn fault(op: u64, at: impl Fn() -> bool) -> i32 {
        if FAULT[1].load(SeqCst) == 0 || FAULT[0].load(SeqCst) != op || !at() { return 0; }
        if FAULT[1].load(SeqCst) > 1 { FAULT[1].fetch_sub(1, SeqCst); return 0; }
        FAULT[3].fetch_add(1, SeqCst); let how = FAULT[2].load(SeqCst); if how != 1 { FAULT[1].store(0, SeqCst); }
        match how { 2 => -1, 3 => 4, _ => if op == 0 { 28 } else { 5 } }
    }
    fn of_fd(fd: i32) -> bool { let mut b = [0u8; 4096]; let l = format!("/proc/self/fd/{}\0", fd); let n = unsafe { syscall(89, l.as_ptr(), b.as_mut_ptr(), b.len()) }; n > 0 && scratch(&b[..n as usize]) }
    fn bad(e: i32) -> i64 { unsafe { *__errno_location() = e; } -1 }
    #[no_mangle] pub extern "C" fn write(fd: i32, p: *const u8, n: usize) -> i64 { let n = match fault(0, || of_fd(fd)) { 0 => n, -1 => n - n / 2, e => return bad(e) }; unsafe { syscall(1, fd as i64, p, n) } }
    #[no_mangle] pub extern "C" fn read(fd: i32, p: *mut u8, n: usize) -> i64 { let n = match fault(1, || of_fd(fd)) { 0 => n, -1 => n - n / 2, e => return bad(e) }; unsafe { syscall(0, fd as i64, p, n) } }
    #[no_mangle] pub extern "C" fn ftruncate64(fd: i32, len: i64) -> i32 { match fault(3, || true) { 0 | -1 => unsafe { syscall(77, fd as i64, len) as i32 }, e => bad(e) as i32 } }
    #[no_mangle] pub extern "C" fn open64(p: *const u8, flags: i32, mode: u32) -> i32 { let path = unsafe { std::ffi::CStr::from_ptr(p as *const _) }.to_bytes(); match fault(2, || scratch(path)) { 0 | -1 => unsafe { syscall(2, p, flags as i64, mode as i64) as i32 }, e => bad(e) as i32 } }
}
static LOC: Mutex<String> = Mutex::new(String::new());
fn native_loc() -> String { let l = LOC.lock().unwrap_or_else(|e| e.into_inner()); if l.is_empty() { String::new() } else { format!(" [{}]", l) } }

/// any integer in lo..=hi
pub fn int(tag: &str, lo: i64, hi: i64) -> i64 { __sym_i64(lo, hi, tag.as_ptr(), tag.len() as u64) }
pub fn any64(tag: &str) -> i64 { int(tag, i64::MIN, i64::MAX) }
pub fn i32(tag: &str, lo: i32, hi: i32) -> i32 { int(tag, lo as i64, hi as i64) as i32 }
pub fn any32(tag: &str) -> i32 { self::i32(tag, i32::MIN, i32::MAX) }
pub fn boolean(tag: &str) -> bool { int(tag, 0, 1) != 0 }
/// one of n alternatives, explored one path each
pub fn pick(tag: &str, n: usize) -> usize { if n <= 1 { 0 } else { __sym_choice(n as u64, tag.as_ptr(), tag.len() as u64) as usize } }
pub fn coin(tag: &str) -> bool { pick(tag, 2) == 1 }
pub fn assume(b: bool) { __sym_assume(b) }
pub fn fail(m: &str) -> ! { __sym_fail(m.as_ptr(), m.len() as u64) }
pub fn check(b: bool, m: &str) { if !b { fail(m) } }
pub fn done() -> ! { __sym_done() }
pub fn reach(i: u64) { __sym_reach(i) }
pub fn observe(v: i64) { __sym_observe(v as u64) }
pub fn conc(v: i64) -> i64 { __sym_concretize(v as u64) as i64 }
pub fn print(t: &str, v: i64) { __sym_print(t.as_ptr(), t.len() as u64, v as u64) }
/// bounds level: 0 quick, 1 thorough
pub fn deep() -> bool { __sym_param() != 0 }
/// quick bound or thorough bound
pub fn bound(q: usize, t: usize) -> usize { if deep() { t } else { q } }
/// let every hash map of the run hash its keys to one value: they mean the same, and keys may be symbolic
pub fn flat_hash() { __sym_flat_hash(1) }
/// a fault in the code's dealings with its files: the at-th operation from here on
/// (what: 0 write, 1 read, 2 open, 3 growth of the file of an index; how: 0 fails once, 1 fails from there on, 2 is cut short, 3 is interrupted)
pub fn fault(what: usize, at: usize, how: usize) { __sym_fault(what as u64, at as u64, how as u64) }
/// how often the fault struck
pub fn faults() -> u64 { __sym_fault_fired() }
pub fn engine() -> bool { __sym_engine() != 0 }
pub fn last_panic() -> String { native_loc() }

pub fn quiet() { std::panic::set_hook(Box::new(|i| { if !engine() { *LOC.lock().unwrap_or_else(|e| e.into_inner()) = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default(); } })); }
/// run a harness body: a panic that escapes it is a failure
pub fn run(f: impl FnOnce()) { quiet(); match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) { Ok(()) => done(), Err(_) => fail("panic in the code under test") } }
/// did the code under test panic?
pub fn catch<T>(f: impl FnOnce() -> T) -> Option<T> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok() }

/// scratch directory: virtual under the engine, a fresh temporary directory natively
pub fn dir() -> std::path::PathBuf {
    if engine() { return "/work".into(); }
    let d = std::env::var("SYM_SCRATCH").expect("SYM_SCRATCH");
    d.into()
}
pub fn main(table: &[(&str, extern "C" fn())]) {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 { for (n, _) in table { println!("{}", n); } return; }
    let vals = a.get(2).map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse::<i64>().unwrap_or_else(|_| x.parse::<u64>().unwrap() as i64)).collect()).unwrap_or_default();
    NATIVE.lock().unwrap().vals = vals;
    match table.iter().find(|(n, _)| *n == a[1]) { Some((_, f)) => f(), None => { eprintln!("no harness {}", a[1]); std::process::exit(3) } }
}
#[macro_export]
macro_rules! harnesses { ($($(#[$m:meta])* fn $name:ident() $body:block)*) => {
    $( #[no_mangle] #[inline(never)] pub extern "C" fn $name() { $crate::sym::run(|| $body) } )*
    pub const TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($name), $name as extern "C" fn())),*];
} }
