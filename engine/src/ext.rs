//! Models of the C library, threads, a virtual file system and the harness interface.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::Ordering::SeqCst;

pub struct Inode { pub addr: u64, pub len: u64, pub cap: u64, pub dir: bool }
pub struct Fd { pub ino: usize, pub pos: u64, pub append: bool, pub path: String }
const HUGE: u64 = 1 << 28;
#[derive(Default)]
pub struct Vfs { pub inodes: Vec<Inode>, pub names: BTreeMap<String, usize>, pub fds: HashMap<u64, Fd>, pub next: u64, pub dirs: HashMap<u64, (Vec<String>, usize, u64)>, pub dirfds: HashMap<u64, u64> }

fn norm(p: &str) -> String { let mut parts: Vec<&str> = vec![]; for x in p.split('/') { match x { "" | "." => {} ".." => { parts.pop(); } x => parts.push(x) } } format!("/{}", parts.join("/")) }

fn ret(v: u64) -> Ext { Ext::Ret(c(v)) }
fn err(vm: &mut Vm, e: u64) -> Ext { let a = vm.errno_addr(); vm.store(a, 32, c(e)); ret(u64::MAX) }
const ENOENT: u64 = 2; const EBADF: u64 = 9; const EAGAIN: u64 = 11; const EEXIST: u64 = 17; const EINVAL: u64 = 22; const ENOSYS: u64 = 38; const ENOTDIR: u64 = 20; const EISDIR: u64 = 21; const ENOTEMPTY: u64 = 39;

enum Fault { No, Err(u64), Half }
impl Vm {
    fn fault_at(&mut self, op: u64) -> Fault {
        let f = &mut self.fault; if f[1] == 0 || f[0] != op { return Fault::No; }
        if f[1] > 1 { f[1] -= 1; return Fault::No; }
        f[3] += 1; if f[2] != 1 { f[1] = 0; }
        match f[2] { 2 => Fault::Half, 3 => Fault::Err(4), _ => Fault::Err(if op == 0 { 28 } else { 5 }) }
    }
    fn errno_addr(&mut self) -> u64 { let t = self.cur as u64; self.errno + t % 64 * 8 }
    fn str_arg(&mut self, r: Reg) -> String { let a = self.creg(r, "string pointer"); let mut v = vec![]; let mut i = a; loop { let b = self.load(i, 8); let b = self.creg(b, "path byte"); if b == 0 { break; } v.push(b as u8); i += 1; } String::from_utf8_lossy(&v).to_string() }
    fn slice_arg(&mut self, p: Reg, n: Reg) -> String { let a = self.creg(p, "ptr"); let n = self.creg(n, "len"); String::from_utf8_lossy(&self.mem.bytes(a, n)).to_string() }
    /// from this size on, new space of a file is taken from memory that was never used
    fn ino_reserve(&mut self, i: usize, n: u64) { if n > self.vfs.inodes[i].cap { let huge = n > HUGE; let cap = if huge { n } else { (n * 2).max(4096) }; let a = self.mem.malloc(cap, 16); if !huge { unsafe { std::ptr::write_bytes(a as *mut u8, 0, cap as usize); } self.mem.clear(a, cap); } let (o, l) = (self.vfs.inodes[i].addr, self.vfs.inodes[i].len); self.mem.copy(a, o, l); if self.vfs.inodes[i].cap > 0 { self.mem.free(o); } self.vfs.inodes[i].addr = a; self.vfs.inodes[i].cap = cap; } }
    fn fwrite(&mut self, i: usize, pos: u64, src: u64, n: u64) { self.ino_reserve(i, pos + n); let l = self.vfs.inodes[i].len; let a = self.vfs.inodes[i].addr; if pos > l && pos - l < HUGE { unsafe { std::ptr::write_bytes((a + l) as *mut u8, 0, (pos - l) as usize); } self.mem.clear(a + l, pos - l); } self.mem.copy(a + pos, src, n); if pos + n > l { self.vfs.inodes[i].len = pos + n; } }
    fn new_inode(&mut self, dir: bool) -> usize { self.vfs.inodes.push(Inode { addr: 0, len: 0, cap: 0, dir }); self.vfs.inodes.len() - 1 }
    fn is_dir(&self, p: &str) -> bool { p == "/" || p == "/tmp" || p == "/work" || self.vfs.names.get(p).map(|&i| self.vfs.inodes[i].dir).unwrap_or(false) }
    fn fill_stat(&mut self, a: u64, dir: bool, len: u64, ino: u64) {
        unsafe { std::ptr::write_bytes(a as *mut u8, 0, 144); } self.mem.clear(a, 144);
        self.store(a + 8, 64, c(ino)); self.store(a + 16, 64, c(1)); self.store(a + 24, 32, c(if dir { 0o40755 } else { 0o100644 })); self.store(a + 48, 64, c(len)); self.store(a + 56, 64, c(4096)); self.store(a + 64, 64, c((len + 511) / 512)); self.store(a + 88, 64, c(1_600_000_000));
    }
    pub fn new_input(&mut self, lo: i64, hi: i64, tag: &str) -> Reg {
        if let Some(rp) = &self.o.replay { let v = rp.get(self.inputs.len()).copied().unwrap_or(lo as u64); self.inputs.push(Input { e: 0, v, w: 64, tag: tag.into() }); return c(v); }
        if lo >= hi { self.inputs.push(Input { e: 0, v: lo as u64, w: 64, tag: tag.into() }); return c(lo as u64); }
        let name = format!("{}#{}", tag, self.inputs.len());
        // narrow variable, sign/zero extended, keeps formulas small
        let (e, init) = {
            let span_w = |lo: i64, hi: i64| { if lo >= 0 { for w in [8u16, 16, 32] { if (hi as u64) < 1u64 << w { return (w, false); } } (64, true) } else { for w in [8u16, 16, 32] { if lo >= -(1i64 << (w - 1)) && hi < 1i64 << (w - 1) { return (w, true); } } (64, true) } };
            let (w, signed) = span_w(lo, hi);
            let v = self.p.var_s(&name, w, lo, hi, true, signed);
            let e = if w < 64 { if signed { self.p.sext(v, 64) } else { self.p.zext(v, 64) } } else { v };
            // deterministic but varied default inside the range
            let init = if lo <= 0 && hi >= 0 { 0 } else { lo };
            (e, (init as i128 as u128) & mask(w))
        };
        let n = self.p.vars.len(); while self.model.len() + 1 < n { let i = self.model.len() as u32; let d = self.default_val(i); self.model.push(d); }
        self.model.push(init);
        self.inputs.push(Input { e, v: 0, w: 64, tag: tag.into() });
        Reg { v: 0, e }
    }
    pub fn choose(&mut self, n: u64, tag: &str) -> u64 {
        if let Some(rp) = &self.o.replay { let v = rp.get(self.inputs.len()).copied().unwrap_or(0); self.inputs.push(Input { e: 0, v, w: 64, tag: tag.into() }); return v; }
        let mut v = 0;
        while v + 1 < n { if self.split() { v += 1; } else { break; } }
        // child takes later alternatives: the parent keeps v, the child continues the loop
        self.inputs.push(Input { e: 0, v, w: 64, tag: tag.into() });
        v
    }
    fn cmp_mem(&mut self, a: u64, b: u64, n: u64, eq_only: bool) -> Reg {
        if n == 0 { return c(0); }
        if !self.mem.ok(a, n) { self.bad_addr(a, "memcmp") } if !self.mem.ok(b, n) { self.bad_addr(b, "memcmp") }
        if !self.mem.any_sym(a, n) && !self.mem.any_sym(b, n) {
            let (x, y) = unsafe { (std::slice::from_raw_parts(a as *const u8, n as usize), std::slice::from_raw_parts(b as *const u8, n as usize)) };
            return c(match x.cmp(y) { std::cmp::Ordering::Less => 0xffff_ffff, std::cmp::Ordering::Equal => 0, _ => 1 });
        }
        if eq_only {
            let mut acc = self.p.tru(); let mut i = 0;
            while i < n { let st = if n - i >= 8 { 8 } else { 1 }; let (x, y) = (self.load(a + i, st * 8), self.load(b + i, st * 8)); let e = self.scmp(P::Eq, st * 8, x, y); acc = self.p.and1(acc, e); if self.p.is_c(acc, 0) { return c(1); } i += st as u64; }
            let ne = self.p.not1(acc); let e = self.p.zext(ne, 32); return self.rg(e);
        }
        let mut acc = self.p.konst(0, 32); let (m1, one) = (self.p.konst(0xffff_ffff, 32), self.p.konst(1, 32));
        // find the effective prefix: stop at the first definite difference
        let mut end = n;
        for i in 0..n { let (x, y) = (self.load(a + i, 8), self.load(b + i, 8)); if x.e | y.e == 0 && x.v != y.v { end = i + 1; break; } }
        for i in (0..end).rev() { let (x, y) = (self.load(a + i, 8), self.load(b + i, 8)); let eq = self.scmp(P::Eq, 8, x, y); let lt = self.scmp(P::Ult, 8, x, y); let d = self.p.ite(lt, m1, one); acc = self.p.ite(eq, acc, d); }
        self.rg(acc)
    }
}

pub fn resolve(name: &str) -> Option<ExtFn> {
    let f: ExtFn = match name {
        // ---------------------------------------------------------- harness interface
        "__sym_i64" => |vm, a, _| { let lo = vm.creg(a[0], "lo") as i64; let hi = vm.creg(a[1], "hi") as i64; let t = vm.slice_arg(a[2], a[3]); let r = vm.new_input(lo, hi, &t); Ext::Ret(r) },
        "__sym_choice" => |vm, a, _| { let n = vm.creg(a[0], "n"); let t = vm.slice_arg(a[1], a[2]); let v = vm.choose(n, &t); ret(v) },
        "__sym_assume" => |vm, a, _| { if a[0].e == 0 { if a[0].v & 1 == 0 { vm.finish("dead", "assume") } } else { let w = vm.p.w(a[0].e); let e = if w == 1 { a[0].e } else { vm.p.extract(a[0].e, 0, 1) }; vm.assume(e); } ret(0) },
        "__sym_fail" => |vm, a, _| { let t = vm.slice_arg(a[0], a[1]); let lp = vm.th[vm.cur].last_panic.clone(); let m = if t.contains("panic") { format!("{} [{}]", t, lp) } else { t }; vm.finish("fail", &m) },
        "__sym_done" => |vm, _, _| vm.finish("ok", ""),
        "__sym_reach" => |vm, a, _| { vm.shared.reach[(a[0].v as usize).min(63)].fetch_add(1, SeqCst); ret(0) },
        "__sym_observe" => |vm, a, _| { vm.observed.push(a[0]); ret(0) },
        "__sym_is_symbolic" => |vm, a, _| { let _ = vm; ret((a[0].e != 0) as u64) },
        "__sym_concretize" => |vm, a, _| { let v = vm.creg(a[0], "explicit"); ret(v) },
        "__sym_note" => |vm, a, _| { let t = vm.slice_arg(a[0], a[1]); vm.notes.push(t); ret(0) },
        // the at-th operation (0 write, 1 read, 2 open) from now on fails: once, for good, is cut short, or is interrupted
        "__sym_fault" => |vm, a, _| { let v: Vec<u64> = (0..3).map(|k| vm.creg(a[k], "fault")).collect(); vm.fault = [v[0], v[1], v[2], 0]; ret(0) },
        "__sym_fault_fired" => |vm, _, _| { let n = vm.fault[3]; ret(n) },
        "__sym_flat_hash" => |vm, a, _| { vm.flat = a[0].v != 0; ret(0) },
        "__sym_param" => |vm, _, _| ret(vm.o.param),
        "__sym_engine" => |_, _, _| ret(1),
        "__sym_panic_loc" => |vm, a, _| { // copies the last panic location of any thread into a buffer, returns length
            let s = vm.th.iter().map(|t| t.last_panic.clone()).find(|s| !s.is_empty()).unwrap_or_default(); let d = vm.creg(a[0], "buf"); let n = (s.len() as u64).min(vm.creg(a[1], "cap")); for i in 0..n { vm.store(d + i, 8, c(s.as_bytes()[i as usize] as u64)); } ret(n) },
        "__sym_print" => |vm, a, _| { if vm.o.verbose { let t = vm.slice_arg(a[0], a[1]); let e = if a[2].e != 0 { vm.p.show(a[2].e, 6) } else { format!("{:#x}", a[2].v) }; eprintln!("[{}] {} = {}", std::process::id(), t, e); } ret(0) },
        // ---------------------------------------------------------- memory
        "malloc" => |vm, a, _| { let n = vm.creg(a[0], "malloc size"); let p = vm.mem.malloc(n, 16); ret(p) },
        "calloc" => |vm, a, _| { let n = vm.creg(a[0], "calloc").wrapping_mul(vm.creg(a[1], "calloc")); if n > 1 << 33 { return ret(0); } let p = vm.mem.malloc(n, 16); unsafe { std::ptr::write_bytes(p as *mut u8, 0, n as usize); } vm.mem.clear(p, n); ret(p) },
        "posix_memalign" => |vm, a, _| { let al = vm.creg(a[1], "align"); let n = vm.creg(a[2], "size"); let p = vm.mem.malloc(n, al); vm.store(a[0].v, 64, c(p)); ret(0) },
        "aligned_alloc" | "memalign" => |vm, a, _| { let al = vm.creg(a[0], "align"); let n = vm.creg(a[1], "size"); let p = vm.mem.malloc(n, al); ret(p) },
        "realloc" => |vm, a, _| { let o = a[0].v; let n = vm.creg(a[1], "realloc size"); if o == 0 { let p = vm.mem.malloc(n, 16); return ret(p); } let os = vm.mem.size_of(o); if n <= os { return ret(o); } let p = vm.mem.malloc(n, 16); vm.mem.copy(p, o, os); vm.mem.free(o); ret(p) },
        "free" => |vm, a, _| { let p = vm.creg(a[0], "free"); vm.mem.free(p); ret(0) },
        "bcmp" => |vm, a, _| { let (x, y, n) = (vm.creg(a[0], "bcmp"), vm.creg(a[1], "bcmp"), vm.creg(a[2], "bcmp length")); let r = vm.cmp_mem(x, y, n, true); Ext::Ret(r) },
        "memcmp" => |vm, a, _| { let (x, y, n) = (vm.creg(a[0], "memcmp"), vm.creg(a[1], "memcmp"), vm.creg(a[2], "memcmp length")); let r = vm.cmp_mem(x, y, n, false); Ext::Ret(r) },
        "strlen" => |vm, a, _| { let p = vm.creg(a[0], "strlen"); let mut i = 0; loop { let b = vm.load(p + i, 8); if vm.creg(b, "strlen byte") == 0 { break; } i += 1; } ret(i) },
        "memchr" => |vm, a, _| { let p = vm.creg(a[0], "memchr"); let n = vm.creg(a[2], "memchr n"); for i in 0..n { let b = vm.load(p + i, 8); let ch = c(a[1].v & 255); let e = vm.scmp(P::Eq, 8, b, ch); if vm.branch(e) { return ret(p + i); } } ret(0) },
        "memcpy" | "memmove" => |vm, a, _| { let (d, s, n) = (vm.creg(a[0], "d"), vm.creg(a[1], "s"), vm.creg(a[2], "n")); vm.mem.copy(d, s, n); ret(d) },
        "mmap64" | "mmap" => |vm, a, _| { let n = vm.creg(a[1], "mmap"); let p = vm.mem.malloc(n, 4096); unsafe { std::ptr::write_bytes(p as *mut u8, 0, n as usize); } ret(p) },
        "munmap" | "mprotect" | "madvise" => |_, _, _| ret(0),
        // ---------------------------------------------------------- process
        "__errno_location" => |vm, _, _| { let a = vm.errno_addr(); ret(a) },
        "abort" => |vm, _, _| { let bt = vm.backtrace(); vm.finish("fail", &format!("abort @ {}", bt)) },
        "exit" | "_exit" => |vm, a, _| { let m = format!("process exit {}", a[0].v); vm.finish("fail", &m) },
        "getenv" | "dlsym" => |_, _, _| ret(0),
        "getcwd" => |vm, a, _| { for (i, b) in b"/work\0".iter().enumerate() { vm.store(a[0].v + i as u64, 8, c(*b as u64)); } ret(a[0].v) },
        "getpid" => |_, _, _| ret(4242),
        "gettid" => |vm, _, _| ret(4242 + vm.cur as u64),
        "getauxval" => |_, _, _| ret(0),
        "sysconf" => |_, a, _| ret(match a[0].v { 30 => 4096, 84 | 83 => 2, _ => u64::MAX }),
        "sched_getaffinity" => |vm, _, _| err(vm, EINVAL),
        "signal" | "sigaction" | "sigaltstack" | "sigemptyset" | "sigaddset" | "pthread_sigmask" => |_, _, _| ret(0),
        "getrandom" => |vm, a, _| { let n = vm.creg(a[1], "n"); for i in 0..n { vm.nrand = vm.nrand.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); let b = vm.nrand >> 56; vm.store(a[0].v + i, 8, c(b)); } ret(n) },
        "clock_gettime" => |vm, a, _| { vm.clock += 1000; let t = vm.clock; vm.store(a[1].v, 64, c(1_600_000_000 + t / 1_000_000_000)); vm.store(a[1].v + 8, 64, c(t % 1_000_000_000)); ret(0) },
        "nanosleep" | "clock_nanosleep" | "sched_yield" => |vm, _, _| { let t = vm.cur; if vm.th[t].woken { vm.th[t].woken = false; return ret(0); } if vm.th.iter().filter(|t| t.st == TS::Run).count() <= 1 { for x in vm.th.iter_mut() { if x.deadline { x.deadline = false; x.st = TS::Run; break; } } vm.clock += 50_000_000; } vm.th[t].woken = true; Ext::Block(TS::Run) },
        "poll" => |_, _, _| ret(0),
        "__xpg_strerror_r" => |vm, a, _| { for (i, b) in b"oserror\0".iter().enumerate() { vm.store(a[1].v + i as u64, 8, c(*b as u64)); } ret(0) },
        "isatty" => |_, _, _| ret(0),
        // ---------------------------------------------------------- unwinding
        "_Unwind_RaiseException" => |vm, a, _| { let t = vm.cur; vm.th[t].panicking = false; let ex = a[0]; if vm.unwind(ex) { Ext::Jump } else { let lp = vm.th[t].last_panic.clone(); vm.finish("fail", &format!("uncaught panic [{}]", lp)) } },
        "_Unwind_Resume" => |vm, a, _| { let ex = a[0]; if vm.unwind(ex) { Ext::Jump } else { vm.finish("fail", "uncaught panic") } },
        "_Unwind_DeleteException" => |_, _, _| ret(0),
        "_Unwind_Backtrace" => |_, _, _| ret(5),
        "_Unwind_GetIP" | "_Unwind_GetIPInfo" | "_Unwind_FindEnclosingFunction" | "_Unwind_GetCFA" => |_, _, _| ret(0),
        "dl_iterate_phdr" => |_, _, _| ret(0),
        // ---------------------------------------------------------- threads
        "pthread_attr_init" | "pthread_attr_destroy" | "pthread_attr_setstacksize" | "pthread_attr_setguardsize" | "pthread_setname_np" | "pthread_detach" | "pthread_key_delete" | "pthread_atfork" => |_, _, _| ret(0),
        "pthread_getattr_np" | "pthread_attr_getstack" | "pthread_attr_getguardsize" | "pthread_attr_getstacksize" => |_, _, _| ret(22),
        "pthread_self" => |vm, _, _| ret(vm.cur as u64 + 1),
        "pthread_create" => |vm, a, _| { let fid = ((a[2].v - FBASE) / 16) as u32; let id = vm.fresh_thread(fid, &[a[3]], 1 << 23); vm.spawned += 1; vm.store(a[0].v, 64, c(id as u64 + 1)); ret(0) },
        "pthread_join" => |vm, a, _| { let t = a[0].v as usize - 1; if vm.th[t].st != TS::Done { return Ext::Block(TS::Join(t)); } if a[1].v != 0 { let r = vm.th[t].ret; vm.store(a[1].v, 64, c(r)); } ret(0) },
        "pthread_key_create" => |vm, a, _| { vm.keys += 1; let k = vm.keys; vm.store(a[0].v, 32, c(k)); ret(0) },
        "pthread_setspecific" => |vm, a, _| { let t = vm.cur; vm.tkeys.insert((t, a[0].v), a[1].v); ret(0) },
        "pthread_getspecific" => |vm, a, _| { let t = vm.cur; ret(vm.tkeys.get(&(t, a[0].v)).copied().unwrap_or(0)) },
        "__cxa_thread_atexit_impl" => |vm, a, _| { let t = vm.cur; if t != 0 { vm.dtors[t].push((a[0].v, a[1].v)); } ret(0) },
        "syscall" => |vm, a, i| {
            match a[0].v {
                202 => { // futex
                    let addr = a[1].v; let op = a[2].v & 127; let t = vm.cur;
                    match op {
                        0 | 9 => {
                            if vm.th[t].woken { vm.th[t].woken = false; vm.th[t].deadline = false; return ret(0); }
                            let v = vm.load(addr, 32); let v = vm.creg(v, "futex word");
                            if v != a[3].v & 0xffff_ffff { return err(vm, EAGAIN); }
                            let timed = a[4].v != 0;
                            if timed { if vm.th[t].st == TS::Run && vm.tkeys.remove(&(t, u64::MAX)).is_some() { vm.clock += 100_000_000; return err(vm, 110); } vm.th[t].deadline = true; vm.tkeys.insert((t, u64::MAX), 1); }
                            Ext::Block(TS::Futex(addr))
                        }
                        1 | 10 => { let mut n = 0; let max = a[3].v & 0x7fff_ffff; for x in 0..vm.th.len() { if n >= max { break; } if vm.th[x].st == TS::Futex(addr) { vm.th[x].st = TS::Run; vm.th[x].woken = true; vm.th[x].deadline = false; vm.tkeys.remove(&(x, u64::MAX)); n += 1; } } ret(n) }
                        _ => err(vm, ENOSYS),
                    }
                }
                318 => resolve("getrandom").unwrap()(vm, &a[1..], i),
                186 => ret(4242 + vm.cur as u64),
                _ => err(vm, ENOSYS),
            }
        },
        // ---------------------------------------------------------- files
        "open64" | "open" => |vm, a, _| { let p = vm.str_arg(a[0]); let fl = a[1].v; open(vm, &p, fl) },
        "openat64" | "openat" => |vm, a, _| { let p = path_at(vm, a[0].v, a[1]); let fl = a[2].v; open(vm, &p, fl) },
        "close" => |vm, a, _| { vm.vfs.fds.remove(&a[0].v); ret(0) },
        "read" => |vm, a, _| {
            let Some(fd) = vm.vfs.fds.get(&a[0].v) else { return err(vm, EBADF) }; let (ino, pos) = (fd.ino, fd.pos);
            if vm.vfs.inodes[ino].dir { return err(vm, EISDIR); }
            let n = vm.creg(a[2], "read length"); let n = match vm.fault_at(1) { Fault::Err(e) => return err(vm, e), Fault::Half => n - n / 2, Fault::No => n };
            let len = vm.vfs.inodes[ino].len; let k = n.min(len.saturating_sub(pos)); let s = vm.vfs.inodes[ino].addr;
            vm.mem.copy(a[1].v, s + pos, k); vm.vfs.fds.get_mut(&a[0].v).unwrap().pos += k; ret(k)
        },
        "pread64" | "pread" => |vm, a, _| {
            let Some(fd) = vm.vfs.fds.get(&a[0].v) else { return err(vm, EBADF) }; let ino = fd.ino; let pos = vm.creg(a[3], "pread offset");
            let n = vm.creg(a[2], "read length"); let len = vm.vfs.inodes[ino].len; let k = n.min(len.saturating_sub(pos)); let s = vm.vfs.inodes[ino].addr; vm.mem.copy(a[1].v, s + pos, k); ret(k)
        },
        "write" => |vm, a, _| {
            let n = vm.creg(a[2], "write length");
            if a[0].v == 1 || a[0].v == 2 { if vm.o.verbose { let s = vm.mem.bytes(a[1].v, n); eprint!("{}", String::from_utf8_lossy(&s)); } return ret(n); }
            let Some(fd) = vm.vfs.fds.get(&a[0].v) else { return err(vm, EBADF) }; let (ino, mut pos) = (fd.ino, fd.pos);
            if fd.append { pos = vm.vfs.inodes[ino].len; }
            let n = match vm.fault_at(0) { Fault::Err(e) => return err(vm, e), Fault::Half => n - n / 2, Fault::No => n };
            vm.fwrite(ino, pos, a[1].v, n); vm.vfs.fds.get_mut(&a[0].v).unwrap().pos = pos + n; ret(n)
        },
        "pwrite64" => |vm, a, _| { let n = vm.creg(a[2], "n"); let Some(fd) = vm.vfs.fds.get(&a[0].v) else { return err(vm, EBADF) }; let ino = fd.ino; let pos = vm.creg(a[3], "off"); vm.fwrite(ino, pos, a[1].v, n); ret(n) },
        "writev" => |vm, a, _| {
            let mut tot = 0;
            for k in 0..a[2].v { let b = vm.load(a[1].v + k * 16, 64).v; let n = vm.load(a[1].v + k * 16 + 8, 64); let n = vm.creg(n, "iov"); tot += n;
                if a[0].v <= 2 { if vm.o.verbose { let s = vm.mem.bytes(b, n); eprint!("{}", String::from_utf8_lossy(&s)); } continue; }
                let Some(fd) = vm.vfs.fds.get(&a[0].v) else { return err(vm, EBADF) }; let (ino, mut pos) = (fd.ino, fd.pos); if fd.append { pos = vm.vfs.inodes[ino].len; }
                vm.fwrite(ino, pos, b, n); vm.vfs.fds.get_mut(&a[0].v).unwrap().pos = pos + n; }
            ret(tot)
        },
        "lseek64" | "lseek" => |vm, a, _| {
            let Some(fd) = vm.vfs.fds.get(&a[0].v) else { return err(vm, EBADF) }; let (ino, pos) = (fd.ino, fd.pos); let o = vm.creg(a[1], "seek offset") as i64;
            let np = match a[2].v { 0 => o, 1 => pos as i64 + o, _ => vm.vfs.inodes[ino].len as i64 + o }; if np < 0 { return err(vm, EINVAL); }
            vm.vfs.fds.get_mut(&a[0].v).unwrap().pos = np as u64; ret(np as u64)
        },
        "ftruncate64" | "ftruncate" => |vm, a, _| { if let Fault::Err(e) = vm.fault_at(3) { return err(vm, e) } let Some(fd) = vm.vfs.fds.get(&a[0].v) else { return err(vm, EBADF) }; let ino = fd.ino; let n = vm.creg(a[1], "size"); let l = vm.vfs.inodes[ino].len; if n > l { vm.ino_reserve(ino, n); let ad = vm.vfs.inodes[ino].addr; if n - l < HUGE { unsafe { std::ptr::write_bytes((ad + l) as *mut u8, 0, (n - l) as usize); } vm.mem.clear(ad + l, n - l); } } vm.vfs.inodes[ino].len = n; ret(0) },
        "fsync" | "fdatasync" | "fchmod" | "chmod" | "futimens" | "flock" | "posix_fadvise" => |_, _, _| ret(0),
        "fcntl" => |_, a, _| ret(if a[1].v == 1 { 1 } else { 0 }),
        "dup" => |vm, a, _| { let Some(fd) = vm.vfs.fds.get(&a[0].v) else { return err(vm, EBADF) }; let n = Fd { ino: fd.ino, pos: fd.pos, append: fd.append, path: fd.path.clone() }; vm.vfs.next += 1; let k = vm.vfs.next; vm.vfs.fds.insert(k, n); ret(k) },
        "statx" | "copy_file_range" | "sendfile64" | "sendfile" => |vm, _, _| err(vm, ENOSYS),
        "stat64" | "lstat64" | "stat" | "lstat" => |vm, a, _| { let p = norm_work(&vm.str_arg(a[0])); stat_path(vm, &p, a[1].v) },
        "fstatat64" | "fstatat" => |vm, a, _| { let p = path_at(vm, a[0].v, a[1]); stat_path(vm, &p, a[2].v) },
        "fstat64" | "fstat" => |vm, a, _| { let Some(fd) = vm.vfs.fds.get(&a[0].v) else { return err(vm, EBADF) }; let ino = fd.ino; let (d, l) = (vm.vfs.inodes[ino].dir, vm.vfs.inodes[ino].len); vm.fill_stat(a[1].v, d, l, ino as u64 + 1); ret(0) },
        "access" => |vm, a, _| { let p = norm_work(&vm.str_arg(a[0])); if vm.is_dir(&p) || vm.vfs.names.contains_key(&p) { ret(0) } else { err(vm, ENOENT) } },
        "unlink" => |vm, a, _| { let p = norm_work(&vm.str_arg(a[0])); if vm.is_dir(&p) { return err(vm, EISDIR); } if vm.vfs.names.remove(&p).is_some() { ret(0) } else { err(vm, ENOENT) } },
        "unlinkat" => |vm, a, _| { let p = path_at(vm, a[0].v, a[1]); if a[2].v & 0x200 != 0 { return rmdir(vm, &p); } if vm.is_dir(&p) { return err(vm, EISDIR); } if vm.vfs.names.remove(&p).is_some() { ret(0) } else { err(vm, ENOENT) } },
        "rmdir" => |vm, a, _| { let p = norm_work(&vm.str_arg(a[0])); rmdir(vm, &p) },
        "mkdir" => |vm, a, _| { let p = norm_work(&vm.str_arg(a[0])); if vm.is_dir(&p) || vm.vfs.names.contains_key(&p) { return err(vm, EEXIST); } let par = p.rsplit_once('/').map(|x| if x.0.is_empty() { "/" } else { x.0 }).unwrap_or("/").to_string(); if !vm.is_dir(&par) { return err(vm, ENOENT); } let i = vm.new_inode(true); vm.vfs.names.insert(p, i); ret(0) },
        "rename" => |vm, a, _| { let p = norm_work(&vm.str_arg(a[0])); let q = norm_work(&vm.str_arg(a[1])); match vm.vfs.names.remove(&p) { Some(i) => { let pre = format!("{}/", p); let inside: Vec<(String, usize)> = vm.vfs.names.iter().filter(|(k, _)| k.starts_with(&pre)).map(|(k, v)| (k.clone(), *v)).collect(); for (k, v) in inside { vm.vfs.names.remove(&k); vm.vfs.names.insert(format!("{}/{}", q, &k[pre.len()..]), v); } vm.vfs.names.insert(q, i); ret(0) } None => err(vm, ENOENT) } },
        "realpath" => |vm, a, _| { let p = norm_work(&vm.str_arg(a[0])); if !vm.is_dir(&p) && !vm.vfs.names.contains_key(&p) { err(vm, ENOENT); return ret(0); } let d = if a[1].v == 0 { vm.mem.malloc(4096, 16) } else { a[1].v }; for (i, b) in p.bytes().chain(std::iter::once(0)).enumerate() { vm.store(d + i as u64, 8, c(b as u64)); } ret(d) },
        "readlink" => |vm, _, _| err(vm, EINVAL),
        "opendir" => |vm, a, _| { let p = norm_work(&vm.str_arg(a[0])); if !vm.is_dir(&p) { err(vm, ENOENT); return ret(0); } opendir(vm, &p, 77) },
        "fdopendir" => |vm, a, _| { let Some(fd) = vm.vfs.fds.get(&a[0].v) else { err(vm, EBADF); return ret(0) }; let p = fd.path.clone(); if !vm.is_dir(&p) { err(vm, ENOTDIR); return ret(0); } opendir(vm, &p, a[0].v) },
        "readdir64" | "readdir" => |vm, a, _| { let Some((v, i, b)) = vm.vfs.dirs.get_mut(&a[0].v) else { return ret(0) }; if *i >= v.len() { return ret(0); } let n = v[*i].clone(); *i += 1; let b = *b; vm.store(b, 64, c(7)); vm.store(b + 16, 16, c(24 + n.len() as u64)); vm.store(b + 18, 8, c(0)); for (k, x) in n.bytes().chain(std::iter::once(0)).enumerate() { vm.store(b + 19 + k as u64, 8, c(x as u64)); } ret(b) },
        "closedir" => |vm, a, _| { vm.vfs.dirs.remove(&a[0].v); ret(0) },
        "dirfd" => |vm, a, _| { let fd = vm.vfs.dirfds.get(&a[0].v).copied().unwrap_or(77); ret(fd) },
        _ => return special(name),
    };
    Some(f)
}
fn norm_work(p: &str) -> String { if p.starts_with('/') { norm(p) } else { norm(&format!("/work/{}", p)) } }
/// a path, relative to an open directory
fn path_at(vm: &mut Vm, fd: u64, p: Reg) -> String {
    let p = vm.str_arg(p); if p.starts_with('/') || fd as i32 == -100 { return norm_work(&p); }
    match vm.vfs.fds.get(&(fd & 0xffff_ffff)).map(|f| f.path.clone()) { Some(d) => norm(&format!("{}/{}", d, p)), None => norm_work(&p) }
}
fn rmdir(vm: &mut Vm, p: &str) -> Ext {
    let pre = format!("{}/", p); if vm.vfs.names.keys().any(|k| k.starts_with(&pre)) { return err(vm, ENOTEMPTY); }
    if !vm.is_dir(p) { let there = vm.vfs.names.contains_key(p); return err(vm, if there { ENOTDIR } else { ENOENT }); }
    vm.vfs.names.remove(p); ret(0)
}
fn opendir(vm: &mut Vm, p: &str, fd: u64) -> Ext {
    let pre = if p == "/" { p.to_string() } else { format!("{}/", p) };
    let mut v: Vec<String> = vec![]; for k in vm.vfs.names.keys() { if let Some(r) = k.strip_prefix(&pre) { if !r.contains('/') && !r.is_empty() { v.push(r.to_string()); } } }
    let buf = vm.mem.malloc(512, 16); vm.vfs.next += 1; vm.vfs.dirs.insert(buf, (v, 0, buf)); vm.vfs.dirfds.insert(buf, fd); ret(buf)
}
fn stat_path(vm: &mut Vm, p: &str, a: u64) -> Ext {
    if vm.is_dir(p) { vm.fill_stat(a, true, 4096, 1000); return ret(0); }
    match vm.vfs.names.get(p).copied() { Some(i) => { let l = vm.vfs.inodes[i].len; vm.fill_stat(a, false, l, i as u64 + 1); ret(0) } None => err(vm, ENOENT) }
}
fn open(vm: &mut Vm, p: &str, fl: u64) -> Ext {
    let p = norm_work(p);
    if p.starts_with("/work/") { if let Fault::Err(e) = vm.fault_at(2) { return err(vm, e); } }
    let (creat, excl, trunc, append, dir) = (fl & 0o100 != 0, fl & 0o200 != 0, fl & 0o1000 != 0, fl & 0o2000 != 0, fl & 0o200000 != 0);
    if vm.is_dir(&p) { if fl & 3 != 0 { return err(vm, EISDIR); } let ino = match vm.vfs.names.get(&p) { Some(i) => *i, None => { let i = vm.new_inode(true); vm.vfs.names.insert(p.clone(), i); i } }; vm.vfs.next += 1; let k = vm.vfs.next; vm.vfs.fds.insert(k, Fd { ino, pos: 0, append: false, path: p }); return ret(k); }
    if dir { let there = vm.vfs.names.contains_key(&p); return err(vm, if there { ENOTDIR } else { ENOENT }); }
    let ino = match vm.vfs.names.get(&p).copied() {
        Some(i) => { if creat && excl { return err(vm, EEXIST); } if trunc { vm.vfs.inodes[i].len = 0; } i }
        None => { if !creat { return err(vm, ENOENT); } let par = p.rsplit_once('/').map(|x| if x.0.is_empty() { "/" } else { x.0 }).unwrap_or("/").to_string(); if !vm.is_dir(&par) { return err(vm, ENOENT); } let i = vm.new_inode(false); vm.vfs.names.insert(p.clone(), i); i }
    };
    vm.vfs.next += 1; let k = vm.vfs.next; vm.vfs.fds.insert(k, Fd { ino, pos: 0, append, path: p }); ret(k)
}
/// defined functions whose execution is intercepted
fn special(name: &str) -> Option<ExtFn> {
    if name.starts_with("_R") && name.contains("4core9panicking9panic_fmt") {
        return Some(|vm, a, i| {
            let t = vm.cur; vm.th[t].panicking = true;
            let l = a[a.len() - 1]; let mut loc = "?".to_string();
            if l.e == 0 && vm.mem.ok(l.v, 24) { let (f, n, line) = (vm.load(l.v, 64), vm.load(l.v + 8, 64), vm.load(l.v + 16, 32)); if f.e | n.e | line.e == 0 && n.v < 500 && vm.mem.ok(f.v, n.v.max(1)) { loc = format!("{}:{}", String::from_utf8_lossy(&vm.mem.bytes(f.v, n.v)), line.v); } }
            vm.th[t].last_panic = loc;
            if vm.o.verbose { eprintln!("panic at {} : {}", vm.th[t].last_panic, vm.backtrace()); }
            let fid = match i.callee { Callee::Fn(f) => f, _ => unreachable!() };
            vm.push_call(fid, a); Ext::Jump
        });
    }
    // hash maps mean the same with every hash function: a constant one lets keys be symbolic
    if name.starts_with("_R") && name.contains("RandomState") && name.contains("11BuildHasher8hash_one") {
        return Some(|vm, a, i| { if vm.flat { return ret(0); } let fid = match i.callee { Callee::Fn(f) => f, _ => unreachable!() }; vm.push_call(fid, a); Ext::Jump });
    }
    if name.starts_with("_R") && name.ends_with("4core3fmt5write") {
        return Some(|vm, a, i| { if vm.th[vm.cur].panicking { return ret(0); } let fid = match i.callee { Callee::Fn(f) => f, _ => vm.m.funcs.iter().position(|f| f.name.starts_with("_R") && f.name.ends_with("4core3fmt5write")).unwrap() as u32 }; vm.push_call(fid, a); Ext::Jump });
    }
    None
}
