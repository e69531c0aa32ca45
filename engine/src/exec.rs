//! Symbolic interpreter: path exploration by fork(2), one process per path prefix.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use crate::sys;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use std::sync::atomic::{AtomicI32, AtomicU32, AtomicU64, AtomicU8, Ordering::SeqCst};

#[repr(C)]
pub struct Shared {
    pub tokens: AtomicI32, pub live: AtomicI32, pub stop: AtomicU32, pub nviol: AtomicU32,
    pub paths: AtomicU64, pub ok: AtomicU64, pub dead: AtomicU64, pub fails: AtomicU64, pub unsup: AtomicU64, pub unknown: AtomicU64,
    pub forks: AtomicU64, pub queries: AtomicU64, pub solver_ns: AtomicU64, pub max_ns: AtomicU64, pub instrs: AtomicU64, pub branches: AtomicU64, pub implied: AtomicU64, pub timeouts: AtomicU64, pub maxdepth: AtomicU64, pub concretised: AtomicU64, pub sampled: AtomicU64, pub clamped: AtomicU64,
    pub reach: [AtomicU64; 64],
    pub vmsg: [AtomicU64; 256],
    pub seen: [AtomicU8; 1 << 17],
}
pub struct Frame { pub code: *const Code, pub pc: u32, pub pending: u32, pub regs: *mut Reg, pub sp: u64, pub fid: u32 }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TS { Run, Futex(u64), Join(usize), Done, Gate }
pub struct Thread { pub frames: Vec<Frame>, pub regs: *mut Reg, pub stack: u64, pub tls: u64, pub st: TS, pub panicking: bool, pub last_panic: String, pub ret: u64, pub woken: bool, pub deadline: bool }
pub enum Ext { Ret(Reg), Block(TS), Jump }
pub type ExtFn = fn(&mut Vm, &[Reg], &CallInfo) -> Ext;
#[derive(Clone, Debug)]
pub struct Input { pub e: E, pub v: u64, pub w: u16, pub tag: String }

pub struct Opts { pub max_instr: u64, pub deadline: std::time::Instant, pub out: String, pub sample: u64, pub stop_on: u32, pub max_conc: u32, pub verbose: bool, pub replay: Option<Vec<u64>>, pub maxdepth: u32, pub param: u64 }
pub struct Vm {
    pub m: Module, pub p: Pool, pub s: Solver, pub mem: Mem, pub th: Vec<Thread>, pub cur: usize,
    pub path: Vec<E>, pub known: HashMap<E, bool>, pub model: Vec<u128>, pub byvar: HashMap<u32, Vec<u32>>,
    pub inputs: Vec<Input>, pub observed: Vec<Reg>, pub kc: Vec<Reg>, pub exts: Vec<Option<ExtFn>>, pub shared: &'static Shared, pub o: Opts,
    pub own_token: bool, pub icount: u64, pub kcount: usize, pub depth: u32, pub seenf: HashSet<u32>, pub vfs: crate::ext::Vfs, pub tlsimg: Vec<u8>, pub lbuf: Vec<Reg>, pub errno: u64, pub fault: [u64; 4], pub clock: u64, pub keys: u64, pub tkeys: HashMap<(usize, u64), u64>,
    pub fp: crate::fp::Fp, pub spawned: u64, pub notes: Vec<String>, pub next_yield: bool, pub iflushed: u64, pub cover_loc: HashSet<String>, pub retv: Vec<Reg>, pub dtors: Vec<Vec<(u64, u64)>>, pub nrand: u64, pub flat: bool, pub sched: bool,
}

impl Vm {
    // ------------------------------------------------------------ outcomes
    pub fn finish(&mut self, kind: &str, msg: &str) -> ! {
        let sh = self.shared;
        sh.paths.fetch_add(1, SeqCst);
        sh.maxdepth.fetch_max(self.depth as u64, SeqCst);
        let mut write = true;
        match kind {
            "ok" => { let n = sh.ok.fetch_add(1, SeqCst); write = n < 8 || (self.o.sample > 0 && n % self.o.sample == 0 && n / self.o.sample < 40); if write { sh.sampled.fetch_add(1, SeqCst); } }
            "dead" => { sh.dead.fetch_add(1, SeqCst); write = false; }
            "fail" => {
                sh.fails.fetch_add(1, SeqCst);
                let h = { let mut h = 0u64; for b in msg.bytes() { h = h.wrapping_mul(31).wrapping_add(b as u64); } (h % 256) as usize };
                let k = sh.vmsg[h].fetch_add(1, SeqCst); write = k < 12;
                let n = sh.nviol.fetch_add(1, SeqCst) + 1; if n >= self.o.stop_on { sh.stop.store(1, SeqCst); }
            }
            "unsupported" => { let n = sh.unsup.fetch_add(1, SeqCst); write = n < 20; }
            "unknown" => { let n = sh.unknown.fetch_add(1, SeqCst); write = n < 20; }
            _ => {}
        }
        if write {
            let exact = self.fp.defs.is_empty() || { let path = self.path.clone(); self.fp.used(&mut self.p, &path).is_empty() || self.fp_settle() };
            self.p.eval_begin();
            let mut ins = vec![];
            for i in 0..self.inputs.len() { let inp = self.inputs[i].clone(); let v = if inp.e != 0 { self.p.eval(inp.e, &self.model) as u64 } else { inp.v }; ins.push(v); }
            let obs: Vec<u64> = self.observed.clone().iter().map(|r| if r.e != 0 { self.p.eval(r.e, &self.model) as u64 } else { r.v }).collect();
            let tags: Vec<String> = self.inputs.iter().map(|i| format!("{:?}", i.tag)).collect();
            self.p.eval_begin();
            let line = format!("{{\"kind\":{:?},\"msg\":{:?},\"inputs\":{:?},\"tags\":[{}],\"obs\":{:?},\"exact\":{},\"notes\":{:?}}}\n", kind, msg, ins, tags.join(","), obs, exact, self.notes);
            use std::io::Write;
            let mut f = std::fs::OpenOptions::new().append(true).create(true).open(format!("{}.jsonl", self.o.out)).unwrap();
            f.write_all(line.as_bytes()).unwrap();
        }
        self.leave()
    }
    pub fn leave(&mut self) -> ! {
        let sh = self.shared;
        self.flush_stats();
        sh.live.fetch_sub(1, SeqCst);
        if self.own_token { sh.tokens.fetch_add(1, SeqCst); }
        unsafe { sys::_exit(0) }
    }
    pub fn flush_stats(&mut self) {
        let sh = self.shared;
        sh.instrs.fetch_add(self.icount - self.iflushed, SeqCst); self.iflushed = self.icount;
        sh.queries.fetch_add(self.s.nq, SeqCst); self.s.nq = 0;
        sh.solver_ns.fetch_add(self.s.ns, SeqCst); self.s.ns = 0;
        sh.max_ns.fetch_max(self.s.maxns, SeqCst);
        for f in self.seenf.drain() { if (f as usize) < sh.seen.len() { sh.seen[f as usize].store(1, SeqCst); } }
    }
    pub fn unsupported(&mut self, msg: &str) -> ! { let m = format!("{} @ {}", msg, self.backtrace()); self.finish("unsupported", &m) }
    pub fn backtrace(&self) -> String {
        let t = &self.th[self.cur]; let mut s = String::new();
        for f in t.frames.iter().rev().take(12) { s += &short(unsafe { &(*f.code).name }); s += &format!("+{} < ", f.pc); }
        s
    }

    // ------------------------------------------------------------ path condition
    pub fn push_constraint(&mut self, e: E) {
        if self.p.cval(e).is_some() { return; }
        let n = self.p.n(e);
        if n.op == Op::And { self.push_constraint(n.a); self.push_constraint(n.b); return; }
        self.p.refine(e);
        self.known.insert(e, true);
        let ne = self.p.not1(e); self.known.insert(ne, false);
        let ix = self.path.len() as u32; self.path.push(e);
        for &v in self.p.varset(e).clone().iter() { self.byvar.entry(v).or_default().push(ix); }
    }
    fn slice(&mut self, e: E) -> Vec<E> {
        let mut seen_v: HashSet<u32> = HashSet::new(); let mut seen_c: HashSet<u32> = HashSet::new();
        let mut work: Vec<u32> = self.p.varset(e).to_vec(); let mut out = vec![];
        while let Some(v) = work.pop() {
            if !seen_v.insert(v) { continue; }
            if let Some(cs) = self.byvar.get(&v) { let cs = cs.clone(); for ci in cs { if seen_c.insert(ci) { let ce = self.path[ci as usize]; out.push(ce); for &x in self.p.varset(ce).clone().iter() { if !seen_v.contains(&x) { work.push(x); } } } } }
        }
        out
    }
    pub fn query(&mut self, e: E) -> Res {
        let mut cs = self.slice(e); cs.push(e);
        self.s.check(&mut self.p, &cs)
    }
    pub fn apply_model(&mut self, m: Vec<(u32, u128)>) {
        let n = self.p.vars.len();
        while self.model.len() < n { let i = self.model.len(); let v = self.default_val(i as u32); self.model.push(v); }
        for (v, x) in m { self.model[v as usize] = x; }
    }
    pub fn default_val(&self, v: u32) -> u128 { let vi = &self.p.vars[v as usize]; (vi.lo as i128 as u128) & mask(vi.w) }
    pub fn eval(&mut self, e: E) -> u128 { self.p.eval_begin(); let m = std::mem::take(&mut self.model); let r = self.p.eval(e, &m); self.model = m; r }
    /// is cond (1 bit) possibly true under the path condition (keeps the model consistent when it returns a model)
    pub fn feasible(&mut self, e: E) -> Option<Vec<(u32, u128)>> {
        match self.query(e) { Res::Sat(m) => Some(m), Res::Unsat => None, Res::Unknown => { self.shared.timeouts.fetch_add(1, SeqCst); self.finish("unknown", "solver gave up") } }
    }
    pub fn branch(&mut self, cond: E) -> bool {
        if let Some(k) = self.p.cval(cond) { return k == 1; }
        if let Some(&k) = self.known.get(&cond) { return k; }
        self.shared.branches.fetch_add(1, SeqCst);
        let side = self.eval(cond) == 1;
        let ncond = self.p.not1(cond);
        let (mine, other) = if side { (cond, ncond) } else { (ncond, cond) };
        match self.feasible(other) {
            None => { self.shared.implied.fetch_add(1, SeqCst); self.known.insert(cond, side); self.known.insert(ncond, !side); side }
            Some(m) => {
                if self.split() { self.apply_model(m); self.push_constraint(other); !side }
                else { self.push_constraint(mine); side }
            }
        }
    }
    /// true in the child
    pub fn split(&mut self) -> bool {
        let sh = self.shared;
        self.depth += 1;
        if sh.stop.load(SeqCst) != 0 || std::time::Instant::now() > self.o.deadline { if sh.stop.swap(2, SeqCst) == 0 { } self.finish_cut() }
        if self.depth > self.o.maxdepth { self.finish("unsupported", "fork depth exceeded") }
        sh.forks.fetch_add(1, SeqCst); sh.live.fetch_add(1, SeqCst);
        self.flush_stats();
        let got = { let mut g = false; loop { let t = sh.tokens.load(SeqCst); if t <= 0 { break; } if sh.tokens.compare_exchange(t, t - 1, SeqCst, SeqCst).is_ok() { g = true; break; } } g };
        let pid = unsafe { sys::fork() };
        if pid < 0 { sh.live.fetch_sub(1, SeqCst); if got { sh.tokens.fetch_add(1, SeqCst); } self.finish("unsupported", "fork failed"); }
        if pid == 0 { self.own_token = got; return true; }
        if !got { let mut st = 0; unsafe { sys::waitpid(pid, &mut st, 0); } if st != 0 { sh.live.fetch_sub(1, SeqCst); sh.unsup.fetch_add(1, SeqCst); } }
        false
    }
    fn finish_cut(&mut self) -> ! { self.shared.clamped.fetch_add(1, SeqCst); self.leave() }
    pub fn assume(&mut self, e: E) {
        if let Some(k) = self.p.cval(e) { if k == 0 { self.finish("dead", "assume") } return; }
        if let Some(&k) = self.known.get(&e) { if k { return; } self.finish("dead", "assume") }
        if self.eval(e) != 1 { match self.feasible(e) { None => self.finish("dead", "assume"), Some(m) => self.apply_model(m) } }
        self.push_constraint(e);
    }
    pub fn concretize(&mut self, e: E, why: &str) -> u64 {
        if let Some(k) = self.p.cval(e) { return k as u64; }
        let mut n = 0;
        loop {
            let v = self.eval(e) as u64; let w = self.p.w(e);
            let k = self.p.konst(v as u128, w); let cnd = self.p.eq(e, k);
            if self.branch(cnd) { return v; }
            n += 1; self.shared.concretised.fetch_add(1, SeqCst);
            if n > self.o.max_conc { let s = self.p.show(e, 4); self.unsupported(&format!("too many values for {}: {}", why, s)) }
        }
    }
    pub fn creg(&mut self, r: Reg, why: &str) -> u64 { if r.e == 0 { r.v } else { self.concretize(r.e, why) } }
    pub fn ex(&mut self, r: Reg, w: u16) -> E { if r.e != 0 { r.e } else { self.p.konst(r.v as u128, w) } }
    pub fn rg(&self, e: E) -> Reg { reg(&self.p, e) }

    // ------------------------------------------------------------ memory access
    pub fn bad_addr(&mut self, a: u64, what: &str) -> ! { let m = format!("{} at {:#x}", what, a); let m = format!("memory fault: {}", m); let bt = self.backtrace(); self.finish("fail", &format!("{} @ {}", m, bt)) }
    #[inline(always)]
    pub fn load(&mut self, a: u64, w: u16) -> Reg {
        let n = (w as u64 + 7) / 8;
        if !self.mem.ok(a, n) { self.bad_addr(a, "load") }
        if w <= 64 && !self.mem.any_sym(a, n) { let v = self.mem.raw(a, n); return c(if w & 7 != 0 { v & mask64(w) } else { v }); }
        self.mem.load_sym(&mut self.p, a, w)
    }
    #[inline(always)]
    pub fn store(&mut self, a: u64, w: u16, r: Reg) {
        let n = (w as u64 + 7) / 8;
        if !self.mem.ok(a, n) { self.bad_addr(a, "store") }
        if r.e == 0 { self.mem.raw_put(a, n, r.v); if self.mem.any_sym(a, n) { self.mem.clear(a, n); } }
        else { self.mem.store_sym(&mut self.p, a, w, r) }
    }
    pub fn load_at(&mut self, ar: Reg, off: u32, w: u16) -> Reg {
        if ar.e == 0 { return self.load(ar.v.wrapping_add(off as u64), w); }
        let a = if off != 0 { let k = self.p.konst(off as u128, 64); self.p.add(ar.e, k) } else { ar.e };
        if let Some(k) = self.p.cval(a) { return self.load(k as u64, w); }
        let r = self.p.r(a);
        let span = r.uhi.wrapping_sub(r.ulo);
        // the address is x * step + base
        let (mut x, mut step, mut base) = self.p.affine(a);
        if step < 1 || step > span.max(1) as i128 { x = a; step = 1; base = 0; }
        if step == 1 { let kb = self.p.konst(r.ulo as u128, 64); let rel = self.p.sub(a, kb); let (kz, _) = self.p.kbits(rel, 4); let tz = (!kz).trailing_zeros().min(6); if tz > 0 { let z = self.p.konst(tz as u128, 64); x = self.p.shift(Op::LShr, rel, z); step = 1 << tz; base = r.ulo as i128; } }
        let q = self.p.r(x); let xw = self.p.w(x); let (first, cnt) = ((q.ulo as i128 * step + base) as u64, (q.uhi - q.ulo).saturating_add(1));
        let n = (w as u64 + 7) / 8;
        if cnt <= if w <= 16 { 300 } else { 80 } && self.mem.ok(first, (cnt - 1) * step as u64 + n) && w <= 64 {
            let vs: Vec<Reg> = (0..cnt).map(|i| self.load(first + i * step as u64, w)).collect();
            if cnt > 2 && w % 8 == 0 && vs.iter().all(|v| v.e == 0) {
                let tab: Vec<u64> = vs.iter().map(|v| v.v).collect();
                if let Some(e) = self.p.fit_table(&tab, x, q.ulo, w) { return self.rg(e); }
            }
            let mut acc: Option<E> = None;
            for i in 0..cnt {
                let ve = self.ex(vs[i as usize], w);
                acc = Some(match acc { None => ve, Some(p) => { let k = self.p.konst((q.ulo + i) as u128, xw); let cnd = self.p.eq(x, k); self.p.ite(cnd, ve, p) } });
            }
            return self.rg(acc.unwrap());
        }
        let v = self.concretize(a, "load address");
        self.load(v, w)
    }

    // ------------------------------------------------------------ symbolic operators
    /// the operand of an integer operation: the bit pattern, should it be a double
    fn ix(&mut self, r: Reg, w: u16) -> E {
        let x = self.ex(r, w);
        if w != 64 || r.e == 0 || !crate::fp::Fp::is_float(&self.p, x) { return x; }
        let mut fp = std::mem::take(&mut self.fp); let b = fp.bits(&mut self.p, x); self.fp = fp; self.fp_commit();
        match b { Some(b) => b, None => { let s = self.p.show(x, 6); self.unsupported(&format!("bits of {}", s)) } }
    }
    pub fn sbin(&mut self, op: B, w: u16, a: Reg, b: Reg) -> Reg {
        let (x, y) = match op { B::FAdd | B::FSub | B::FMul | B::FDiv | B::FRem => (self.ex(a, w), self.ex(b, w)), _ => (self.ix(a, w), self.ix(b, w)) };
        let p = &mut self.p;
        let e = match op {
            B::Add => p.add(x, y), B::Sub => p.sub(x, y), B::Mul => p.mul(x, y),
            B::And => p.bitop(Op::And, x, y), B::Or => p.bitop(Op::Or, x, y), B::Xor => p.bitop(Op::Xor, x, y),
            B::Shl => p.shift(Op::Shl, x, y), B::LShr => p.shift(Op::LShr, x, y), B::AShr => p.shift(Op::AShr, x, y),
            B::UDiv | B::URem | B::SDiv | B::SRem => {
                let z = p.konst(0, w); let isz = p.eq(y, z);
                if self.branch(isz) { self.finish("fail", "division by zero (UB)") }
                let p = &mut self.p;
                match op { B::UDiv => p.udiv(x, y), B::URem => p.urem(x, y), B::SDiv => p.sdiv(x, y), _ => p.srem(x, y) }
            }
            B::FAdd => p.fbin(Op::FAdd, x, y), B::FSub => p.fbin(Op::FSub, x, y), B::FMul => p.fbin(Op::FMul, x, y), B::FDiv => p.fbin(Op::FDiv, x, y), B::FRem => p.fbin(Op::FRem, x, y),
        };
        self.rg(e)
    }
    pub fn scmp(&mut self, pr: P, w: u16, a: Reg, b: Reg) -> E {
        let (x, y) = (self.ix(a, w), self.ix(b, w));
        if w == 64 && self.fp.has_bits() { let mut fp = std::mem::take(&mut self.fp); let p = &mut self.p; let r = match pr { P::Slt => fp.order(p, Op::Slt, x, y), P::Sgt => fp.order(p, Op::Slt, y, x), P::Sle => fp.order(p, Op::Slt, y, x).map(|e| p.not1(e)), P::Sge => fp.order(p, Op::Slt, x, y).map(|e| p.not1(e)), P::Eq => fp.order(p, Op::Eq, x, y), P::Ne => fp.order(p, Op::Eq, x, y).map(|e| p.not1(e)), _ => None }; self.fp = fp; self.fp_commit(); if let Some(r) = r { return r; } }
        let p = &mut self.p;
        match pr { P::Eq => p.eq(x, y), P::Ne => { let e = p.eq(x, y); p.not1(e) } P::Ult => p.ult(x, y), P::Ule => p.ule(x, y), P::Ugt => p.ult(y, x), P::Uge => p.ule(y, x), P::Slt => p.slt(x, y), P::Sle => p.sle(x, y), P::Sgt => p.slt(y, x), P::Sge => p.sle(y, x) }
    }
    pub fn sfcmp(&mut self, pr: FP, w: u16, a: Reg, b: Reg) -> E {
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let mut fp = std::mem::take(&mut self.fp);
        let p = &mut self.p;
        let r = (|| -> Option<E> { Some(match pr {
            FP::False => p.fls(), FP::True => p.tru(),
            FP::Oeq => fp.cmp(p, Op::FOeq, x, y)?, FP::Olt => fp.cmp(p, Op::FOlt, x, y)?, FP::Ole => fp.cmp(p, Op::FOle, x, y)?, FP::Ogt => fp.cmp(p, Op::FOlt, y, x)?, FP::Oge => fp.cmp(p, Op::FOle, y, x)?,
            FP::Uno => fp.cmp(p, Op::FUno, x, y)?, FP::Ord => { let e = fp.cmp(p, Op::FUno, x, y)?; p.not1(e) }
            FP::Une => { let e = fp.cmp(p, Op::FOeq, x, y)?; p.not1(e) }
            FP::Ugt => { let e = fp.cmp(p, Op::FOle, x, y)?; p.not1(e) } FP::Uge => { let e = fp.cmp(p, Op::FOlt, x, y)?; p.not1(e) }
            FP::Ult => { let e = fp.cmp(p, Op::FOle, y, x)?; p.not1(e) } FP::Ule => { let e = fp.cmp(p, Op::FOlt, y, x)?; p.not1(e) }
            FP::One => { let l = fp.cmp(p, Op::FOlt, x, y)?; let g = fp.cmp(p, Op::FOlt, y, x)?; p.or1(l, g) }
            FP::Ueq => { let l = fp.cmp(p, Op::FOlt, x, y)?; let g = fp.cmp(p, Op::FOlt, y, x)?; let o = p.or1(l, g); p.not1(o) }
        }) })();
        self.fp = fp; self.fp_commit(); match r { Some(r) => r, None => { let (a, b) = (self.p.show(x, 5), self.p.show(y, 5)); self.unsupported(&format!("float comparison {} ? {}", a, b)) } }
    }
    /// take over the constraints of variables introduced by the float encoding
    fn fp_commit(&mut self) {
        for q in std::mem::take(&mut self.fp.pending) {
            while self.model.len() < self.p.vars.len() { let i = self.model.len() as u32; let d = self.default_val(i); self.model.push(d); }
            let v = self.eval(q.def); let w = self.p.vars[q.var as usize].w; self.model[q.var as usize] = v & mask(w);
            let mut off = vec![];
            for a in q.axioms { if self.eval(a) != 1 { off.push(a) } self.push_constraint(a); }
            // the model at hand need not give earlier variables of this encoding their IEEE values
            for a in off { if self.eval(a) != 1 { match self.feasible(a) { Some(m) => self.apply_model(m), None => { let s = self.p.show(a, 8); self.unsupported(&format!("float encoding disagrees with IEEE arithmetic: {}", s)) } } } }
        }
    }
    /// look for a model of this path under which every float step has its IEEE value
    fn fp_settle(&mut self) -> bool {
        let path = self.path.clone(); let used = self.fp.used(&mut self.p, &path);
        let mut roots: Vec<u32> = vec![]; for (_, d) in &used { for v in self.p.varset(*d).iter() { if self.p.vars[*v as usize].input && !roots.contains(v) { roots.push(*v); } } }
        let mut seed = 0x1234_5678_9abcu64; let t0 = std::time::Instant::now();
        for round in 0..160 {
            if t0.elapsed().as_secs() > 15 { break; }
            for (v, d) in &used { let x = self.eval(*d); let w = self.p.vars[*v as usize].w; self.model[*v as usize] = x & mask(w); }
            if path.iter().all(|&c| self.eval(c) == 1) { return true; }
            // another model: pin a few low bits of the inputs the float values come from
            let mut cs = path.clone(); let bits: u16 = [10, 6, 3, 1][round % 4];
            for &v in &roots { seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); let w = self.p.vars[v as usize].w; let b = bits.min(w); let e = self.p.mk_var(v); let lo = self.p.extract(e, 0, b); let k = self.p.konst((seed >> 33) as u128 & mask(b), b); cs.push(self.p.eq(lo, k)); }
            if let Res::Sat(m) = self.s.check_quick(&mut self.p, &cs) { self.apply_model(m); }
        }
        false
    }
    pub fn scast(&mut self, cst: C, fw: u16, tw: u16, a: Reg, sat: bool) -> Reg {
        let _ = sat;
        let x = if matches!(cst, C::Trunc | C::ZExt | C::SExt | C::SiToFp | C::UiToFp) { self.ix(a, fw) } else { self.ex(a, fw) };
        let e = match cst {
            C::Trunc => self.p.extract(x, 0, tw), C::ZExt => self.p.zext(x, tw), C::SExt => self.p.sext(x, tw),
            C::SiToFp => self.p.si_to_fp(x, tw), C::UiToFp => self.p.ui_to_fp(x, tw), C::FpExt => self.p.fpext(x, tw), C::FpTrunc => self.p.fptrunc(x, tw),
            C::FpToSi | C::FpToUi => { let mut fp = std::mem::take(&mut self.fp); let r = fp.to_int(&mut self.p, x, tw, cst == C::FpToSi); self.fp = fp; self.fp_commit(); match r { Some(r) => r, None => { let s = self.p.show(x, 6); self.unsupported(&format!("float to integer {}", s)) } } }
        };
        self.rg(e)
    }
    pub fn select(&mut self, w: u16, cnd: Reg, a: Reg, b: Reg) -> Reg {
        if cnd.e == 0 { return if cnd.v & 1 != 0 { a } else { b }; }
        if let Some(&k) = self.known.get(&cnd.e) { return if k { a } else { b }; }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = self.p.ite(cnd.e, x, y); self.rg(e)
    }

    // ------------------------------------------------------------ frames
    pub fn fresh_thread(&mut self, fid: u32, args: &[Reg], stack: u64) -> usize {
        let regs = sys::map(0, 512 << 20, false) as *mut Reg;
        let st = self.mem.grab(stack, 4096);
        let tls = self.mem.grab(self.m.tls_size.max(16), 64);
        let img = self.tlsimg.clone(); for (i, b) in img.iter().enumerate() { self.mem.raw_put(tls + i as u64, 1, *b as u64); }
        self.th.push(Thread { frames: vec![], regs, stack: st, tls, st: TS::Run, panicking: false, last_panic: String::new(), ret: 0, woken: false, deadline: false });
        self.dtors.push(vec![]);
        let id = self.th.len() - 1;
        let code = self.code(fid);
        for (i, a) in args.iter().enumerate() { unsafe { *regs.add(i) = *a; } }
        self.th[id].frames.push(Frame { code, pc: 0, pending: u32::MAX, regs, sp: st, fid });
        id
    }
    pub fn code(&mut self, fid: u32) -> *const Code {
        self.seenf.insert(fid);
        let rc = self.m.code(fid);
        self.sync_consts();
        Rc::as_ptr(&rc)
    }
    pub fn sync_consts(&mut self) { while self.kc.len() < self.m.consts.len() { let (v, wide) = self.m.consts[self.kc.len()]; let r = if wide { Reg { v: 0, e: self.p.konst(v, 128) } } else { c(v as u64) }; self.kc.push(r); } }

    /// unwind the current thread from its top frame (the raising call's frame is on top); returns false when no handler exists
    pub fn unwind(&mut self, ex: Reg) -> bool {
        let t = self.cur;
        loop {
            let Some(f) = self.th[t].frames.last_mut() else { return false };
            let code = unsafe { &*f.code };
            if f.pending != u32::MAX {
                let ci = &code.calls[f.pending as usize];
                if ci.unwind != u32::MAX {
                    let e = ci.unwind; f.pending = u32::MAX;
                    self.take_edge(e);
                    // landing pad result
                    let f = self.th[t].frames.last_mut().unwrap();
                    let code = unsafe { &*f.code };
                    match code.ins[f.pc as usize] {
                        I::LandingPad { d, kind } => { let sel = if kind & 6 != 0 { 1 } else { 0 }; unsafe { *f.regs.add(d as usize) = ex; *f.regs.add(d as usize + 1) = c(sel); } f.pc += 1; }
                        _ => panic!("landing pad expected in {}", code.name),
                    }
                    return true;
                }
            }
            self.th[t].frames.pop();
        }
    }
    fn take_edge(&mut self, e: u32) {
        let f = self.th[self.cur].frames.last_mut().unwrap(); let code = unsafe { &*f.code };
        let ed = &code.edges[e as usize];
        let vals: Vec<Reg> = ed.moves.iter().map(|(_, s)| unsafe { if s & KBIT != 0 { self.kc[(s & !KBIT) as usize] } else { *f.regs.add(*s as usize) } }).collect();
        for ((d, _), v) in ed.moves.iter().zip(vals) { unsafe { *f.regs.add(*d as usize) = v; } }
        f.pc = ed.target;
    }
    /// deliver a return value to the pending call of the current top frame
    pub fn deliver(&mut self, vals: &[Reg]) {
        let f = self.th[self.cur].frames.last_mut().unwrap(); let code = unsafe { &*f.code };
        let ci = &code.calls[f.pending as usize]; f.pending = u32::MAX;
        for i in 0..ci.nd as usize { unsafe { *f.regs.add(ci.d as usize + i) = vals.get(i).copied().unwrap_or_default(); } }
        if ci.normal != u32::MAX { let n = ci.normal; self.take_edge(n); }
    }
    pub fn push_call(&mut self, fid: u32, args: &[Reg]) {
        let code = self.code(fid);
        let t = &mut self.th[self.cur];
        let (regs, sp) = { let f = t.frames.last().unwrap(); unsafe { (f.regs.add((*f.code).nregs as usize), f.sp + (*f.code).frame as u64) } };
        for (i, a) in args.iter().enumerate() { unsafe { *regs.add(i) = *a; } }
        t.frames.push(Frame { code, pc: 0, pending: u32::MAX, regs, sp, fid });
        if t.frames.len() > 4000 { self.unsupported("recursion too deep") }
    }

    pub fn schedule(&mut self) {
        // cooperative: pick the next runnable thread after the current one
        let n = self.th.len();
        for k in 0..n { let i = (self.cur + k) % n; if self.th[i].st == TS::Run { self.cur = i; return; } }
        // a thread with a timed wait may time out
        for k in 0..n { let i = (self.cur + k) % n; if self.th[i].deadline { self.th[i].deadline = false; self.th[i].st = TS::Run; self.th[i].woken = false; self.cur = i; return; } }
        let st: Vec<String> = self.th.iter().map(|t| format!("{:?}", t.st)).collect();
        self.finish("fail", &format!("deadlock: every thread is blocked ({})", st.len()))
    }

    // ------------------------------------------------------------ main loop
    pub fn run(&mut self) -> ! {
        'outer: loop {
            if self.th[self.cur].st != TS::Run { self.schedule(); }
            let cur = self.cur;
            let fr: *mut Frame = self.th[cur].frames.last_mut().unwrap();
            let (code, regs, fsp) = unsafe { (&*(*fr).code, (*fr).regs, (*fr).sp) };
            let mut pc = unsafe { (*fr).pc } as usize;
            let kc = self.kc.as_ptr();
            macro_rules! get { ($o:expr) => {{ let o = $o; unsafe { if o & KBIT != 0 { *kc.add((o & !KBIT) as usize) } else { *regs.add(o as usize) } } }} }
            macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; unsafe { *regs.add($d as usize) = v; } }} }
            macro_rules! goto { ($e:expr) => {{
                let ed = unsafe { code.edges.get_unchecked($e as usize) };
                if ed.par { self.lbuf.clear(); for (_, s) in &ed.moves { let v = get!(*s); self.lbuf.push(v); } for (i, (d, _)) in ed.moves.iter().enumerate() { set!(*d, self.lbuf[i]); } }
                else { for (d, s) in &ed.moves { set!(*d, get!(*s)); } }
                pc = ed.target as usize;
            }} }
            let ins = code.ins.as_ptr();
            let mut steps = 0u64;
            loop {
                steps += 1;
                if steps & 0xfffff == 0 { self.icount += 0x100000; if self.icount > self.o.max_instr { unsafe { (*fr).pc = pc as u32; } self.unsupported("instruction budget exceeded") } if std::time::Instant::now() > self.o.deadline { self.shared.stop.swap(2, SeqCst); self.finish_cut() } }
                let i = unsafe { *ins.add(pc) };
                pc += 1;
                match i {
                    I::Mov { d, a } => set!(d, get!(a)),
                    I::Add64 { d, a, b } => { let (x, y) = (get!(a), get!(b)); if x.e | y.e == 0 { set!(d, c(x.v.wrapping_add(y.v))) } else { let (p, q) = (self.ex(x, 64), self.ex(y, 64)); let e = self.p.add(p, q); set!(d, self.rg(e)) } }
                    I::Bin { op, w, d, a, b } => {
                        let (x, y) = (get!(a), get!(b));
                        if x.e | y.e == 0 {
                            let m = mask64(w);
                            let v = match op {
                                B::Add => x.v.wrapping_add(y.v) & m, B::Sub => x.v.wrapping_sub(y.v) & m, B::Mul => x.v.wrapping_mul(y.v) & m,
                                B::And => x.v & y.v, B::Or => x.v | y.v, B::Xor => x.v ^ y.v,
                                B::Shl => if y.v >= w as u64 { 0 } else { (x.v << y.v) & m }, B::LShr => if y.v >= w as u64 { 0 } else { x.v >> y.v },
                                B::AShr => (sext64(x.v, w) >> y.v.min(63)) as u64 & m,
                                B::UDiv | B::URem | B::SDiv | B::SRem if y.v == 0 => { unsafe { (*fr).pc = pc as u32; } self.finish("fail", "division by zero (UB)") }
                                B::UDiv => x.v / y.v, B::URem => x.v % y.v,
                                B::SDiv => sext64(x.v, w).wrapping_div(sext64(y.v, w)) as u64 & m, B::SRem => sext64(x.v, w).wrapping_rem(sext64(y.v, w)) as u64 & m,
                                B::FAdd => fop2(Op::FAdd, w, x.v, y.v), B::FSub => fop2(Op::FSub, w, x.v, y.v), B::FMul => fop2(Op::FMul, w, x.v, y.v), B::FDiv => fop2(Op::FDiv, w, x.v, y.v), B::FRem => fop2(Op::FRem, w, x.v, y.v),
                            };
                            set!(d, c(v));
                        } else { unsafe { (*fr).pc = pc as u32; } let r = self.sbin(op, w, x, y); set!(d, r) }
                    }
                    I::Cmp { p, w, d, a, b } => {
                        let (x, y) = (get!(a), get!(b));
                        if x.e | y.e == 0 { set!(d, c(ccmp(p, w, x.v, y.v) as u64)) } else { let e = self.scmp(p, w, x, y); set!(d, self.rg(e)) }
                    }
                    I::CmpBr { p, w, d, a, b, t, f } => {
                        let (x, y) = (get!(a), get!(b));
                        let r;
                        if x.e | y.e == 0 { r = ccmp(p, w, x.v, y.v); set!(d, c(r as u64)); }
                        else { let e = self.scmp(p, w, x, y); unsafe { (*fr).pc = pc as u32; } r = self.branch(e); set!(d, c(r as u64)); }
                        if r { goto!(t) } else { goto!(f) }
                    }
                    I::CondBr { c: cc, t, f } => {
                        let x = get!(cc);
                        let r = if x.e == 0 { x.v & 1 != 0 } else { unsafe { (*fr).pc = pc as u32; } self.branch(x.e) };
                        if r { goto!(t) } else { goto!(f) }
                    }
                    I::Br { e } => goto!(e),
                    I::GepC { d, a, k } => { let x = get!(a); if x.e == 0 { set!(d, c(x.v.wrapping_add(k as u64))) } else { let kk = self.p.konst(k as u64 as u128, 64); let e = self.p.add(x.e, kk); set!(d, self.rg(e)) } }
                    I::GepI { d, a, i, iw, scale } => {
                        let (x, y) = (get!(a), get!(i));
                        if x.e | y.e == 0 { set!(d, c(x.v.wrapping_add((sext64(y.v, iw)).wrapping_mul(scale) as u64))) }
                        else { let mut ie = self.ex(y, iw); if iw < 64 { ie = self.p.sext(ie, 64); } let k = self.p.konst(scale as u64 as u128, 64); let o = self.p.mul(ie, k); let b = self.ex(x, 64); let e = self.p.add(b, o); set!(d, self.rg(e)) }
                    }
                    I::Load { d, a, off, w } => {
                        let x = get!(a);
                        if x.e == 0 { let ad = x.v.wrapping_add(off as u64); if !self.mem.ok(ad, 16) { unsafe { (*fr).pc = pc as u32; } self.bad_addr(ad, "load") } set!(d, self.load(ad, w)) }
                        else { unsafe { (*fr).pc = pc as u32; } let r = self.load_at(x, off, w); set!(d, r) }
                    }
                    I::Store { v, a, off, w } => {
                        let (x, val) = (get!(a), get!(v));
                        let base = if x.e == 0 { x.v } else { unsafe { (*fr).pc = pc as u32; } self.concretize(x.e, "store address") };
                        let ad = base.wrapping_add(off as u64);
                        if !self.mem.ok(ad, 16) { unsafe { (*fr).pc = pc as u32; } self.bad_addr(ad, "store") }
                        self.store(ad, w, val);
                    }
                    I::Sel { w, d, c: cc, a, b } => { let x = get!(cc); if x.e == 0 { set!(d, if x.v & 1 != 0 { get!(a) } else { get!(b) }) } else { let r = self.select(w, x, get!(a), get!(b)); set!(d, r) } }
                    I::Cast { c: cst, fw, tw, d, a } => {
                        let x = get!(a);
                        if x.e == 0 && fw <= 64 && tw <= 64 {
                            let v = match cst {
                                C::Trunc => x.v & mask64(tw), C::ZExt => x.v, C::SExt => sext64(x.v, fw) as u64 & mask64(tw),
                                C::SiToFp => si_to_f(x.v as u128, fw, tw), C::UiToFp => ui_to_f(x.v as u128, tw),
                                C::FpToSi => f_to_si(fw, x.v, tw) as u64, C::FpToUi => f_to_ui(fw, x.v, tw) as u64,
                                C::FpExt => (f32::from_bits(x.v as u32) as f64).to_bits(), C::FpTrunc => (f64::from_bits(x.v) as f32).to_bits() as u64,
                            };
                            set!(d, c(v))
                        } else { unsafe { (*fr).pc = pc as u32; } let r = self.scast(cst, fw, tw, x, false); set!(d, r) }
                    }
                    I::FCmp { p, w, d, a, b } => {
                        let (x, y) = (get!(a), get!(b));
                        if x.e | y.e == 0 {
                            let (lt, eq, un) = (fcmp(Op::FOlt, w, x.v, y.v), fcmp(Op::FOeq, w, x.v, y.v), fcmp(Op::FUno, w, x.v, y.v)); let gt = !lt && !eq && !un;
                            let r = match p { FP::False => false, FP::True => true, FP::Oeq => eq, FP::Ogt => gt, FP::Oge => gt || eq, FP::Olt => lt, FP::Ole => lt || eq, FP::One => lt || gt, FP::Ord => !un, FP::Uno => un, FP::Ueq => eq || un, FP::Ugt => gt || un, FP::Uge => gt || eq || un, FP::Ult => lt || un, FP::Ule => lt || eq || un, FP::Une => !eq };
                            set!(d, c(r as u64))
                        } else { let e = self.sfcmp(p, w, x, y); set!(d, self.rg(e)) }
                    }
                    I::FNeg { w, d, a } => { let x = get!(a); if x.e == 0 { set!(d, c(fop1(Op::FNeg, w, x.v))) } else { let e = self.p.fun(Op::FNeg, x.e); set!(d, self.rg(e)) } }
                    I::Cat { d, srcs, n, w } => {
                        let total = n as u16 * w;
                        let regsv: Vec<Reg> = (0..n).map(|k| get!(code.pool[(srcs + k) as usize])).collect();
                        if total <= 64 && regsv.iter().all(|r| r.e == 0) { let mut v = 0u64; for (k, r) in regsv.iter().enumerate() { v |= (r.v & mask64(w)) << (k as u16 * w); } set!(d, c(v)) }
                        else { let mut acc = self.ex(regsv[0], w); for r in &regsv[1..] { let x = self.ex(*r, w); acc = self.p.concat(x, acc); } set!(d, self.rg(acc)) }
                    }
                    I::Split { d, a, n, w } => {
                        let x = get!(a);
                        if x.e == 0 { for k in 0..n { set!(d + k, c((x.v >> (k as u16 * w)) & mask64(w))) } } else { for k in 0..n { let e = self.p.extract(x.e, k as u16 * w, w); set!(d + k, self.rg(e)) } }
                    }
                    I::DynExt { d, src, n, i } => { let k = self.creg(get!(i), "element index") as u32; let _ = n; set!(d, get!(code.pool[(src + k) as usize])) }
                    I::DynIns { d, src, n, v, i, w: _ } => { let k = self.creg(get!(i), "element index") as u32; for j in 0..n { set!(d + j, if j == k { get!(v) } else { get!(code.pool[(src + j) as usize]) }) } }
                    I::Alloca { d, off } => set!(d, c(fsp + off as u64)),
                    I::AllocaDyn { d, n, size } => { let k = self.creg(get!(n), "alloca size"); let a = self.mem.malloc(k * size, 16); set!(d, c(a)) }
                    I::Switch { s } => {
                        let si = &code.switches[s as usize]; let x = get!(si.v);
                        if x.e == 0 { let e = match si.cases.binary_search_by_key(&x.v, |k| k.0) { Ok(k) => si.cases[k].1, Err(_) => si.default }; goto!(e) }
                        else {
                            unsafe { (*fr).pc = pc as u32; }
                            let mut r = si.default;
                            let rr = self.p.r(x.e);
                            // group cases by target
                            let mut groups: Vec<(u32, Vec<u64>)> = vec![];
                            for (k, e) in &si.cases { if *k < rr.ulo || *k > rr.uhi { continue; } let tgt = code.edges[*e as usize].target; match groups.iter_mut().find(|g| code.edges[g.0 as usize].target == tgt && code.edges[g.0 as usize].moves == code.edges[*e as usize].moves) { Some(g) => g.1.push(*k), None => groups.push((*e, vec![*k])) } }
                            // try the group the current model selects first
                            for (e, ks) in groups { let mut acc = self.p.fls(); for k in ks { let ke = self.p.konst(k as u128, si.w); let q = self.p.eq(x.e, ke); acc = self.p.or1(acc, q); } if self.branch(acc) { r = e; break; } }
                            goto!(r)
                        }
                    }
                    I::Ret { srcs, n } => {
                        self.icount += steps;
                        self.retv.clear();
                        for k in 0..n { let v = get!(code.pool[(srcs + k) as usize]); self.retv.push(v); }
                        let t = &mut self.th[cur];
                        t.frames.pop();
                        if t.frames.is_empty() { let v = self.retv.first().copied().unwrap_or_default(); self.thread_end(v); continue 'outer; }
                        let vals = std::mem::take(&mut self.retv); self.deliver(&vals); self.retv = vals;
                        continue 'outer;
                    }
                    I::Call { c: ci } => {
                        let info = unsafe { &*(code.calls.as_ptr().add(ci as usize)) };
                        let fid = match info.callee {
                            Callee::Intr(k) => {
                                unsafe { (*fr).pc = pc as u32; }
                                self.lbuf.clear(); for a in &info.args { let v = get!(*a); self.lbuf.push(v); }
                                let args = std::mem::take(&mut self.lbuf);
                                let (r0, r1) = self.intr(k, info, &args, regs);
                                self.lbuf = args;
                                if info.nd > 0 && !matches!(k, In::Psadbw | In::Pmaddwd) { set!(info.d, r0); if info.nd > 1 { set!(info.d + 1, r1); } }
                                continue;
                            }
                            Callee::Fn(f) => f,
                            Callee::Ind(o) => {
                                let x = get!(o); let a = if x.e == 0 { x.v } else { unsafe { (*fr).pc = pc as u32; } self.concretize(x.e, "call target") };
                                let k = a.wrapping_sub(FBASE);
                                if k & 15 != 0 || k / 16 >= self.m.funcs.len() as u64 { unsafe { (*fr).pc = pc as u32; } self.bad_addr(a, "indirect call") }
                                (k / 16) as u32
                            }
                        };
                        self.icount += steps;
                        unsafe { (*fr).pc = pc as u32; (*fr).pending = ci; }
                        if let Some(h) = self.exts[fid as usize] {
                            let args: Vec<Reg> = info.args.iter().map(|a| get!(*a)).collect();
                            match h(self, &args, info) {
                                Ext::Ret(r) => { let r = if r.e == 0 && info.rw < 64 && info.nd == 1 { c(r.v & mask64(info.rw)) } else { r }; self.deliver(&[r]); }
                                Ext::Block(s) => { let f = self.th[cur].frames.last_mut().unwrap(); f.pc = pc as u32 - 1; f.pending = u32::MAX; if s == TS::Run { let n = self.th.len(); self.th[cur].st = TS::Run; for k in 1..=n { let i = (cur + k) % n; if self.th[i].st == TS::Run { self.cur = i; break; } } } else { self.th[cur].st = s; self.schedule(); } }
                                Ext::Jump => {}
                            }
                            continue 'outer;
                        }
                        if self.m.funcs[fid as usize].decl { let n = self.m.funcs[fid as usize].name.clone(); self.unsupported(&format!("external function {}", n)) }
                        let ccode = self.code(fid);
                        let cregs = unsafe { regs.add(code.nregs as usize) };
                        let kc = self.kc.as_ptr();
                        for (k, a) in info.args.iter().enumerate() { unsafe { let o = *a; *cregs.add(k) = if o & KBIT != 0 { *kc.add((o & !KBIT) as usize) } else { *regs.add(o as usize) }; } }
                        let csp = fsp + code.frame as u64;
                        unsafe { for (r, sz) in &(*ccode).byval { let src = (*cregs.add(*r as usize)).v; let a = self.mem.malloc(*sz, 16); self.mem.copy(a, src, *sz); *cregs.add(*r as usize) = c(a); } }
                        let t = &mut self.th[cur];
                        t.frames.push(Frame { code: ccode, pc: 0, pending: u32::MAX, regs: cregs, sp: csp, fid });
                        if t.frames.len() > 4000 { self.unsupported("recursion too deep") }
                        continue 'outer;
                    }
                    I::Rmw { op, d, a, v, w } => {
                        let x = get!(a); let ad = self.creg(x, "rmw address"); let old = self.load(ad, w); let val = get!(v);
                        let new = match op {
                            0 => val,
                            1..=5 if old.e | val.e == 0 => c(match op { 1 => old.v.wrapping_add(val.v), 2 => old.v.wrapping_sub(val.v), 3 => old.v & val.v, 4 => old.v | val.v, _ => old.v ^ val.v } & mask64(w)),
                            1..=5 => self.sbin(match op { 1 => B::Add, 2 => B::Sub, 3 => B::And, 4 => B::Or, _ => B::Xor }, w, old, val),
                            10 => { let x = self.sbin(B::And, w, old, val); let m = c(mask64(w)); self.sbin(B::Xor, w, x, m) }
                            _ => { let p = match op { 6 => P::Sgt, 7 => P::Slt, 8 => P::Ugt, _ => P::Ult }; let e = self.scmp(p, w, old, val); let r = self.rg(e); self.select(w, r, old, val) }
                        };
                        self.store(ad, w, new); set!(d, old);
                    }
                    I::CmpXchg { d, a, o, n, w } => {
                        unsafe { (*fr).pc = pc as u32; }
                        let ad = self.creg(get!(a), "cmpxchg address"); let old = self.load(ad, w); let e = self.scmp(P::Eq, w, old, get!(o)); let eq = self.branch(e);
                        if eq { self.store(ad, w, get!(n)); }
                        set!(d, old); set!(d + 1, c(eq as u64));
                    }
                    I::LandingPad { .. } => panic!("fell into a landing pad"),
                    I::Resume { a } => { let ex = get!(a); self.icount += steps; self.th[cur].frames.pop(); if !self.unwind(ex) { self.finish("fail", "uncaught panic") } continue 'outer; }
                    I::Unreachable => { unsafe { (*fr).pc = pc as u32; } let bt = self.backtrace(); self.finish("fail", &format!("unreachable executed @ {}", bt)) }
                }
            }
        }
    }
    fn thread_end(&mut self, v: Reg) {
        let cur = self.cur;
        if cur == 0 { self.finish("ok", "") }
        // run registered thread-local destructors (most recent first), then retire the thread
        if let Some((f, arg)) = self.dtors[cur].pop() {
            let fid = ((f - FBASE) / 16) as u32; let code = self.code(fid);
            let (regs, sp) = { let t = &self.th[cur]; (t.regs, t.stack) };
            unsafe { *regs = c(arg); }
            self.th[cur].frames.push(Frame { code, pc: 0, pending: u32::MAX, regs, sp, fid });
            return;
        }
        self.th[cur].st = TS::Done; self.th[cur].ret = v.v;
        for t in self.th.iter_mut() { if t.st == TS::Join(cur) { t.st = TS::Run; } }
    }

    // ------------------------------------------------------------ intrinsics
    fn intr(&mut self, k: In, info: &CallInfo, a: &[Reg], regs: *mut Reg) -> (Reg, Reg) {
        let w = info.widths.first().copied().unwrap_or(0);
        let z = c(0);
        let conc = a.iter().all(|r| r.e == 0);
        macro_rules! two { ($e:expr) => {{ let e = $e; (self.rg(e), z) }} }
        match k {
            In::Memcpy => { let d = self.creg(a[0], "memcpy dst"); let s = self.creg(a[1], "memcpy src"); let n = self.creg(a[2], "memcpy length"); if n > 0 { if !self.mem.ok(d, n) { self.bad_addr(d, "memcpy dst") } if !self.mem.ok(s, n) { self.bad_addr(s, "memcpy src") } self.mem.copy(d, s, n); } (z, z) }
            In::Memset => {
                let d = self.creg(a[0], "memset dst"); let n = self.creg(a[2], "memset length"); if n > 0 && !self.mem.ok(d, n) { self.bad_addr(d, "memset") }
                if a[1].e == 0 { unsafe { std::ptr::write_bytes(d as *mut u8, a[1].v as u8, n as usize); } self.mem.clear(d, n); } else { for i in 0..n { self.store(d + i, 8, a[1]); } }
                (z, z)
            }
            In::UMin | In::UMax | In::SMin | In::SMax => {
                let p = match k { In::UMin => P::Ult, In::UMax => P::Ugt, In::SMin => P::Slt, _ => P::Sgt };
                if conc { return (if ccmp(p, w, a[0].v, a[1].v) { a[0] } else { a[1] }, z); }
                let e = self.scmp(p, w, a[0], a[1]); let r = self.rg(e); (self.select(w, r, a[0], a[1]), z)
            }
            In::Abs => { if conc { return (c((sext64(a[0].v, w).wrapping_abs()) as u64 & mask64(w)), z); } let x = a[0].e; let zero = self.p.konst(0, w); let n = self.p.sub(zero, x); let s = self.p.slt(x, zero); two!(self.p.ite(s, n, x)) }
            In::Ctlz => { if conc { return (c(if a[0].v == 0 { w as u64 } else { a[0].v.leading_zeros() as u64 - (64 - w as u64) }), z); }
                let x = a[0].e; let mut acc = self.p.konst(w as u128, w); let (kz, _) = self.p.kbits(x, 3); for i in 0..w { if w <= 64 && kz >> i & 1 == 1 { continue; } let b = self.p.extract(x, i, 1); let kk = self.p.konst((w - 1 - i) as u128, w); acc = self.p.ite(b, kk, acc); } two!(acc) }
            In::Cttz => { if conc { return (c(if a[0].v == 0 { w as u64 } else { a[0].v.trailing_zeros() as u64 }), z); }
                let x = a[0].e; let mut acc = self.p.konst(w as u128, w); for i in (0..w).rev() { let b = self.p.extract(x, i, 1); let kk = self.p.konst(i as u128, w); acc = self.p.ite(b, kk, acc); } two!(acc) }
            In::Ctpop => { if conc { return (c(a[0].v.count_ones() as u64), z); } let mut acc = self.p.konst(0, w); for i in 0..w { let b = self.p.extract(a[0].e, i, 1); let b = self.p.zext(b, w); acc = self.p.add(acc, b); } two!(acc) }
            In::Bswap => { if conc { return (c(a[0].v.swap_bytes() >> (64 - w)), z); } let mut acc = self.p.extract(a[0].e, 0, 8); for i in 1..w / 8 { let b = self.p.extract(a[0].e, i * 8, 8); acc = self.p.concat(acc, b); } two!(acc) }
            In::Bitrev => { if conc { return (c(a[0].v.reverse_bits() >> (64 - w)), z); } let mut acc = self.p.extract(a[0].e, 0, 1); for i in 1..w { let b = self.p.extract(a[0].e, i, 1); acc = self.p.concat(acc, b); } two!(acc) }
            In::Fshl | In::Fshr => {
                let s = self.creg(a[2], "funnel shift amount") % w as u64;
                let left = k == In::Fshl;
                if s == 0 { return (if left { a[0] } else { a[1] }, z); }
                let sh = if left { w as u64 - s } else { s }; // take bits [sh, sh+w) of (a0:a1)
                if a[0].e | a[1].e == 0 { let v = ((a[0].v as u128) << w | a[1].v as u128) >> sh; return (c(v as u64 & mask64(w)), z); }
                let (x, y) = (self.ex(a[0], w), self.ex(a[1], w));
                let hi = self.p.extract(x, 0, sh as u16); let lo = self.p.extract(y, sh as u16, w - sh as u16); two!(self.p.concat(hi, lo))
            }
            In::SAddO | In::UAddO | In::SSubO | In::USubO | In::SMulO | In::UMulO => {
                if conc && w <= 64 {
                    let m = mask64(w);
                    let (v, o) = match k {
                        In::UAddO => { let s = a[0].v as u128 + a[1].v as u128; (s as u64 & m, s > m as u128) }
                        In::USubO => (a[0].v.wrapping_sub(a[1].v) & m, a[0].v < a[1].v),
                        In::UMulO => { let s = a[0].v as u128 * a[1].v as u128; (s as u64 & m, s > m as u128) }
                        _ => { let (x, y) = (sext64(a[0].v, w) as i128, sext64(a[1].v, w) as i128); let s = match k { In::SAddO => x + y, In::SSubO => x - y, _ => x * y }; let v = s as u64 & m; (v, sext64(v, w) as i128 != s) }
                    };
                    return (c(v), c(o as u64));
                }
                let (x, y) = (self.ex(a[0], w), self.ex(a[1], w));
                let p = &mut self.p;
                let (v, o) = match k {
                    In::UAddO => { let v = p.add(x, y); let o = p.ult(v, x); let o = if over_u(p, Op::Add, x, y, w) { o } else { p.fls() }; (v, o) }
                    In::USubO => { let v = p.sub(x, y); let o = p.ult(x, y); (v, o) }
                    In::SAddO | In::SSubO => {
                        let op = if k == In::SAddO { Op::Add } else { Op::Sub };
                        let v = if op == Op::Add { p.add(x, y) } else { p.sub(x, y) };
                        if !over_s(p, op, x, y, w) { (v, p.fls()) }
                        else {
                            let (xs, ys, vs) = (p.extract(x, w - 1, 1), p.extract(y, w - 1, 1), p.extract(v, w - 1, 1));
                            // add: signs equal and result differs; sub: signs differ and result differs from x
                            let d1 = p.bitop(Op::Xor, xs, vs); let d2 = p.bitop(Op::Xor, xs, ys); let d2 = if op == Op::Add { p.not1(d2) } else { d2 };
                            (v, p.and1(d1, d2))
                        }
                    }
                    In::UMulO => { let v = p.mul(x, y); if !over_u(p, Op::Mul, x, y, w) { (v, p.fls()) } else { let (xe, ye) = (p.zext(x, w * 2), p.zext(y, w * 2)); let f = p.mul(xe, ye); let h = p.extract(f, w, w); let zz = p.konst(0, w); let e = p.eq(h, zz); (v, p.not1(e)) } }
                    _ => { let v = p.mul(x, y); if !over_s(p, Op::Mul, x, y, w) { (v, p.fls()) } else {
                        // multiplication by a positive constant: range check on the other factor
                        let kc = p.cval(y).map(|k| (x, sext128(k, w))).or_else(|| p.cval(x).map(|k| (y, sext128(k, w))));
                        match kc { Some((t, k)) if k > 0 => { let (mx, mn) = ((mask(w) >> 1) as i128 / k, -(((mask(w) >> 1) as i128 + 1) / k)); let hi = p.konst(mx as u128, w); let lo = p.konst(mn as u128, w); let o1 = p.slt(hi, t); let o2 = p.slt(t, lo); (v, p.or1(o1, o2)) }
                            _ => { let (xe, ye) = (p.sext(x, w * 2), p.sext(y, w * 2)); let f = p.mul(xe, ye); let ve = p.sext(v, w * 2); let e = p.eq(f, ve); (v, p.not1(e)) } } } }
                };
                (self.rg(v), self.rg(o))
            }
            In::UAddS | In::USubS | In::SAddS | In::SSubS => {
                if conc { let m = mask64(w); return (c(match k { In::UAddS => (a[0].v as u128 + a[1].v as u128).min(m as u128) as u64, In::USubS => a[0].v.saturating_sub(a[1].v), _ => { let (x, y) = (sext64(a[0].v, w) as i128, sext64(a[1].v, w) as i128); let s = if k == In::SAddS { x + y } else { x - y }; let h = (m >> 1) as i128; s.clamp(-h - 1, h) as u64 & m } }), z); }
                let (x, y) = (self.ex(a[0], w), self.ex(a[1], w)); let p = &mut self.p;
                let e = match k {
                    In::UAddS => { let v = p.add(x, y); let o = p.ult(v, x); let m = p.konst(mask(w), w); p.ite(o, m, v) }
                    In::USubS => { let v = p.sub(x, y); let o = p.ult(x, y); let m = p.konst(0, w); p.ite(o, m, v) }
                    _ => { let (xe, ye) = (p.sext(x, w + 1), p.sext(y, w + 1)); let s = if k == In::SAddS { p.add(xe, ye) } else { p.sub(xe, ye) }; let t = p.extract(s, 0, w); let te = p.sext(t, w + 1); let fits = p.eq(te, s); let neg = p.extract(s, w, 1); let mn = p.konst(1u128 << (w - 1), w); let mx = p.konst(mask(w) >> 1, w); let sat = p.ite(neg, mn, mx); p.ite(fits, t, sat) }
                };
                two!(e)
            }
            In::FpToSiSat | In::FpToUiSat => { let si = k == In::FpToSiSat; let tw = info.rw; if conc { return (c(if si { f_to_si(w, a[0].v, tw) as u64 } else { f_to_ui(w, a[0].v, tw) as u64 }), z); } (self.scast(if si { C::FpToSi } else { C::FpToUi }, w, tw, a[0], true), z) }
            In::FRound | In::FTrunc | In::FFloor | In::FCeil | In::FRint | In::FSqrt | In::FAbs => {
                let op = match k { In::FRound => Op::FRound, In::FTrunc => Op::FTrunc, In::FFloor => Op::FFloor, In::FCeil => Op::FCeil, In::FRint => Op::FRint, In::FSqrt => Op::FSqrt, _ => Op::FAbs };
                if conc { return (c(fop1(op, w, a[0].v)), z); } two!(self.p.fun(op, a[0].e))
            }
            In::FMin | In::FMax => {
                if conc { let (x, y) = (f64::from_bits(a[0].v), f64::from_bits(a[1].v)); if w == 64 { return (c(if k == In::FMin { x.min(y) } else { x.max(y) }.to_bits()), z); } }
                // NaN never reaches here in the encoded domain unless uno holds
                let u = self.sfcmp(FP::Uno, w, a[1], a[1]); let lt = self.sfcmp(if k == In::FMin { FP::Olt } else { FP::Ogt }, w, a[0], a[1]);
                let cnd = self.p.or1(u, lt); let r = self.rg(cnd); (self.select(w, r, a[0], a[1]), z)
            }
            In::FMulAdd => { let m = self.sbin(B::FMul, w, a[0], a[1]); (self.sbin(B::FAdd, w, m, a[2]), z) }
            In::FCopysign => { if conc && w == 64 { return (c(f64::from_bits(a[0].v).copysign(f64::from_bits(a[1].v)).to_bits()), z); } if w != 64 { self.unsupported("copysign") }
                let (x, sgn) = (self.ex(a[0], 64), self.ix(a[1], 64)); let m = self.p.fun(Op::FAbs, x); let n = self.p.fun(Op::FNeg, m); let z0 = self.p.konst(0, 64); let c = self.p.slt(sgn, z0); let e = self.p.ite(c, n, m); (self.rg(e), z) }
            In::UCmp | In::SCmp => {
                let (lt, gt) = if k == In::UCmp { (P::Ult, P::Ugt) } else { (P::Slt, P::Sgt) };
                if conc { return (c(if ccmp(lt, w, a[0].v, a[1].v) { mask64(info.rw) } else if ccmp(gt, w, a[0].v, a[1].v) { 1 } else { 0 }), z); }
                let l = self.scmp(lt, w, a[0], a[1]); let g = self.scmp(gt, w, a[0], a[1]); let (m1, one, zero) = (self.p.konst(mask(info.rw), info.rw), self.p.konst(1, info.rw), self.p.konst(0, info.rw)); let t = self.p.ite(g, one, zero); two!(self.p.ite(l, m1, t))
            }
            In::IsConst => (c(0), z),
            In::Tls => { let g = a[0].v; (c(self.th[self.cur].tls + g), z) }
            In::Pause => (z, z),
            In::Trap => { let bt = self.backtrace(); self.finish("fail", &format!("abort @ {}", bt)) }
            In::Psadbw => {
                for h in 0..2 { let mut acc = c(0); for i in 0..8 { let (x, y) = (a[h * 8 + i], a[16 + h * 8 + i]); let d = if x.e | y.e == 0 { c(x.v.abs_diff(y.v)) } else { let l = self.scmp(P::Ult, 8, x, y); let r = self.rg(l); let s1 = self.sbin(B::Sub, 8, y, x); let s2 = self.sbin(B::Sub, 8, x, y); let s = self.select(8, r, s1, s2); let e = self.ex(s, 8); let e = self.p.zext(e, 64); self.rg(e) }; acc = if acc.e | d.e == 0 { c(acc.v + d.v) } else { self.sbin(B::Add, 64, acc, d) }; } unsafe { *regs.add(info.d as usize + h) = acc; } }
                (z, z)
            }
            In::Pmaddwd => {
                for h in 0..4 { let mut acc = c(0); for i in 0..2 { let (x, y) = (a[h * 2 + i], a[8 + h * 2 + i]); let m = if x.e | y.e == 0 { c((sext64(x.v, 16) * sext64(y.v, 16)) as u64 & mask64(32)) } else { let (xe, ye) = (self.ex(x, 16), self.ex(y, 16)); let xe = self.p.sext(xe, 32); let ye = self.p.sext(ye, 32); let e = self.p.mul(xe, ye); self.rg(e) }; acc = if acc.e | m.e == 0 { c((acc.v + m.v) & mask64(32)) } else { self.sbin(B::Add, 32, acc, m) }; } unsafe { *regs.add(info.d as usize + h) = acc; } }
                (z, z)
            }
            In::VRed(op) => { let mut acc = a[0]; for x in &a[1..] { acc = self.vbin(op, w, acc, *x); } (acc, z) }
            In::VRedU(kk) => { let mut acc = a[0]; for x in &a[1..] { let p = match kk { 0 => P::Ugt, 1 => P::Ult, 2 => P::Sgt, _ => P::Slt }; let e = self.scmp(p, w, acc, *x); let r = self.rg(e); acc = self.select(w, r, acc, *x); } (acc, z) }
            In::TypeId => (c(1), z),
            _ => self.unsupported(&format!("intrinsic {:?}", k)),
        }
    }
    fn vbin(&mut self, op: B, w: u16, a: Reg, b: Reg) -> Reg { self.sbin(op, w, a, b) }
}
fn over_u(p: &Pool, op: Op, x: E, y: E, w: u16) -> bool {
    if w > 64 { return true; }
    let (a, b) = (p.r(x), p.r(y)); let h = match op { Op::Add => a.uhi as u128 + b.uhi as u128, _ => a.uhi as u128 * b.uhi as u128 }; h > mask64(w) as u128
}
fn over_s(p: &Pool, op: Op, x: E, y: E, w: u16) -> bool {
    if w > 64 { return true; }
    let (a, b) = (p.r(x), p.r(y)); let (al, ah, bl, bh) = (a.slo as i128, a.shi as i128, b.slo as i128, b.shi as i128);
    let cs = match op { Op::Add => vec![al + bl, ah + bh], Op::Sub => vec![al - bh, ah - bl], _ => vec![al * bl, al * bh, ah * bl, ah * bh] };
    let m = (mask64(w) >> 1) as i128; *cs.iter().min().unwrap() < -m - 1 || *cs.iter().max().unwrap() > m
}
pub fn ccmp(p: P, w: u16, a: u64, b: u64) -> bool {
    match p { P::Eq => a == b, P::Ne => a != b, P::Ult => a < b, P::Ule => a <= b, P::Ugt => a > b, P::Uge => a >= b, P::Slt => sext64(a, w) < sext64(b, w), P::Sle => sext64(a, w) <= sext64(b, w), P::Sgt => sext64(a, w) > sext64(b, w), P::Sge => sext64(a, w) >= sext64(b, w) }
}
/// crude readable form of a v0-mangled name: the identifier parts
pub fn short(n: &str) -> String {
    let b = n.as_bytes(); let mut out: Vec<String> = vec![]; let mut i = 0;
    if !n.starts_with("_R") { return n.to_string(); }
    while i < b.len() && out.len() < 7 {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let st = i; while i < b.len() && b[i].is_ascii_digit() { i += 1; }
            let l: usize = n[st..i].parse().unwrap_or(0); let mut k = i; if k < b.len() && b[k] == b'_' { k += 1; }
            if l > 0 && k + l <= b.len() && n[k..k + l].chars().all(|c| c.is_alphanumeric() || c == '_') && l > 1 { out.push(n[k..k + l].to_string()); i = k + l; } 
        } else if b[i] == b's' && i + 1 < b.len() { // disambiguator s..._
            if b[i-1] == b'C' || (b[i-1] == b't') { let mut k = i + 1; while k < b.len() && b[k].is_ascii_alphanumeric() { k += 1; } if k < b.len() && b[k] == b'_' { i = k + 1; continue; } } i += 1;
        } else { i += 1; }
    }
    out.join("::")
}
