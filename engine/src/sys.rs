//! thin libc layer
use std::ffi::c_void;
extern "C" {
    pub fn mmap(a: *mut c_void, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    pub fn _exit(c: i32) -> !;
    pub fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    pub fn usleep(us: u32) -> i32;
    pub fn getpid() -> i32;
    pub fn kill(pid: i32, sig: i32) -> i32;
    pub fn setpgid(a: i32, b: i32) -> i32;
}
pub fn map(addr: u64, size: usize, shared: bool) -> *mut u8 {
    // PROT_READ|WRITE, MAP_PRIVATE|ANON|NORESERVE (or SHARED), MAP_FIXED_NOREPLACE when an address is given
    let flags = 0x20 | 0x4000 | if shared { 1 } else { 2 } | if addr != 0 { 0x100000 } else { 0 };
    let p = unsafe { mmap(addr as *mut c_void, size, 3, flags, -1, 0) };
    if p as isize == -1 { panic!("mmap {:#x} {} failed", addr, size); }
    p as *mut u8
}
