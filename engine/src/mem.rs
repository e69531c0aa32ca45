//! Guest memory with a per-byte symbolic shadow.
use crate::expr::*;
use crate::sys;

pub const GB: u64 = 0x10_0000_0000;
pub const GSIZE: u64 = 24 << 30;
#[derive(Clone, Copy, Debug, Default)]
pub struct Reg { pub v: u64, pub e: E }
pub fn c(v: u64) -> Reg { Reg { v, e: 0 } }

pub struct Mem { sh: *mut u32, pg: *mut u8, pub brk: u64, free: Vec<Vec<u64>>, big: std::collections::BTreeMap<u64, Vec<u64>>, pub live_bytes: u64 }
impl Mem {
    pub fn new() -> Mem {
        sys::map(GB, GSIZE as usize, false);
        let sh = sys::map(0, GSIZE as usize * 4, false) as *mut u32;
        let pg = sys::map(0, (GSIZE >> 12) as usize + 1, false);
        Mem { sh, pg, brk: GB, free: (0..130).map(|_| vec![]).collect(), big: Default::default(), live_bytes: 0 }
    }
    #[inline(always)] pub fn ok(&self, a: u64, n: u64) -> bool { a.wrapping_sub(GB) < GSIZE - 64 && n < GSIZE - a.wrapping_sub(GB) }
    #[inline(always)] fn page(&self, a: u64) -> u8 { unsafe { *self.pg.add(((a - GB) >> 12) as usize) } }
    #[inline(always)] pub fn any_sym(&self, a: u64, n: u64) -> bool {
        if n <= 4096 { (self.page(a) | self.page(a + n - 1)) != 0 } else { (((a - GB) >> 12)..=((a + n - 1 - GB) >> 12)).any(|p| unsafe { *self.pg.add(p as usize) != 0 }) }
    }
    #[inline(always)] pub fn shadow(&self, a: u64) -> u32 { unsafe { *self.sh.add((a - GB) as usize) } }
    #[inline(always)] pub fn set_shadow(&mut self, a: u64, s: u32) { unsafe { *self.sh.add((a - GB) as usize) = s; if s != 0 { *self.pg.add(((a - GB) >> 12) as usize) = 1; } } }
    pub fn clear(&mut self, a: u64, n: u64) { if n > 0 && self.any_sym(a, n) { unsafe { std::ptr::write_bytes(self.sh.add((a - GB) as usize), 0, n as usize); } } }
    #[inline(always)] pub fn raw(&self, a: u64, n: u64) -> u64 {
        unsafe { match n { 8 => (a as *const u64).read_unaligned(), 4 => (a as *const u32).read_unaligned() as u64, 1 => *(a as *const u8) as u64, 2 => (a as *const u16).read_unaligned() as u64, _ => { let mut v = 0u64; for i in (0..n.min(8)).rev() { v = v << 8 | *((a + i) as *const u8) as u64; } v } } }
    }
    #[inline(always)] pub fn raw_put(&mut self, a: u64, n: u64, v: u64) {
        unsafe { match n { 8 => (a as *mut u64).write_unaligned(v), 4 => (a as *mut u32).write_unaligned(v as u32), 1 => *(a as *mut u8) = v as u8, 2 => (a as *mut u16).write_unaligned(v as u16), _ => for i in 0..n.min(8) { *((a + i) as *mut u8) = (v >> (8 * i)) as u8; } } }
    }
    pub fn load_sym(&self, p: &mut Pool, a: u64, w: u16) -> Reg {
        let n = (w as u64 + 7) / 8;
        let mut any = false;
        for i in 0..n { if self.shadow(a + i) != 0 { any = true; break; } }
        if !any {
            if w <= 64 { return c(self.raw(a, n) & mask64(w)); }
            let lo = self.raw(a, 8); let hi = self.raw(a + 8, n - 8);
            return Reg { v: 0, e: p.konst(lo as u128 | (hi as u128) << 64, w) };
        }
        // gather runs
        let s0 = self.shadow(a);
        let mut acc: E = 0;
        if s0 & 15 == 0 && s0 != 0 && p.w(s0 >> 4) == n as u16 * 8 && (0..n).all(|i| self.shadow(a + i) == s0 + i as u32) { acc = s0 >> 4; }
        if acc == 0 {
            let mut i = 0;
            while i < n {
                let s = self.shadow(a + i);
                let piece;
                if s == 0 { let st = i; while i < n && self.shadow(a + i) == 0 { i += 1; } let mut v = 0u128; for k in (st..i).rev() { v = v << 8 | self.raw(a + k, 1) as u128; } piece = p.konst(v, (i - st) as u16 * 8); }
                else { let st = i; while i < n && self.shadow(a + i) == s + (i - st) as u32 { i += 1; if ((s & 15) as u64 + (i - st)) * 8 >= p.w(s >> 4) as u64 { break; } } piece = p.extract(s >> 4, (s & 15) as u16 * 8, (i - st) as u16 * 8); }
                acc = if acc == 0 { piece } else { p.concat(piece, acc) };
            }
        }
        if w < n as u16 * 8 { acc = p.extract(acc, 0, w); }
        reg(p, acc)
    }
    pub fn store_sym(&mut self, p: &mut Pool, a: u64, w: u16, r: Reg) {
        let n = (w as u64 + 7) / 8;
        let e = if w < n as u16 * 8 { p.zext(r.e, n as u16 * 8) } else { r.e };
        if let Some(k) = p.cval(e) { self.raw_put(a, n.min(8), k as u64); if n > 8 { self.raw_put(a + 8, n - 8, (k >> 64) as u64); } self.clear(a, n); return; }
        // canonical per-byte constants stay concrete
        for i in 0..n {
            let b = p.n(e);
            if matches!(b.op, Op::Concat | Op::ZExt) { let x = p.extract(e, i as u16 * 8, 8); if let Some(k) = p.cval(x) { self.raw_put(a + i, 1, k as u64); self.set_shadow(a + i, 0); continue; } }
            self.set_shadow(a + i, (e << 4) | i as u32);
            self.raw_put(a + i, 1, 0);
        }
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) {
        if n == 0 || d == s { return; }
        let ss = self.any_sym(s, n); let ds = self.any_sym(d, n);
        unsafe {
            std::ptr::copy(s as *const u8, d as *mut u8, n as usize);
            if ss { std::ptr::copy(self.sh.add((s - GB) as usize), self.sh.add((d - GB) as usize), n as usize); for pgi in ((d - GB) >> 12)..=((d + n - 1 - GB) >> 12) { *self.pg.add(pgi as usize) = 1; } }
            else if ds { std::ptr::write_bytes(self.sh.add((d - GB) as usize), 0, n as usize); }
        }
    }
    pub fn grab(&mut self, n: u64, align: u64) -> u64 { self.brk = (self.brk + align - 1) & !(align - 1); let a = self.brk; self.brk += n; if self.brk > GB + GSIZE - (1 << 20) { panic!("guest memory exhausted"); } a }
    pub fn malloc(&mut self, n: u64, align: u64) -> u64 {
        let sz = (n.max(1) + 15) & !15;
        self.live_bytes += sz;
        if align <= 16 {
            if sz <= 2048 { if let Some(a) = self.free[(sz / 16) as usize].pop() { return a; } }
            else if let Some(v) = self.big.get_mut(&sz) { if let Some(a) = v.pop() { return a; } }
        }
        let al = align.max(16);
        let a0 = (self.brk + 16 + al - 1) & !(al - 1);
        self.brk = a0; self.grab(sz, 16);
        self.raw_put(a0 - 16, 8, sz);
        a0
    }
    pub fn size_of(&self, a: u64) -> u64 { self.raw(a - 16, 8) }
    pub fn free(&mut self, a: u64) {
        if a == 0 { return; }
        let sz = self.size_of(a);
        self.live_bytes -= sz;
        if sz <= 2048 { self.free[(sz / 16) as usize].push(a); } else { self.big.entry(sz).or_default().push(a); }
    }
    pub fn bytes(&self, a: u64, n: u64) -> Vec<u8> { (0..n).map(|i| self.raw(a + i, 1) as u8).collect() }
    pub fn cstr(&self, a: u64) -> String { let mut v = vec![]; let mut i = a; loop { let b = self.raw(i, 1) as u8; if b == 0 { break; } v.push(b); i += 1; } String::from_utf8_lossy(&v).to_string() }
}
#[inline] pub fn reg(p: &Pool, e: E) -> Reg { let n = p.nodes[e as usize]; if n.op == Op::Const && n.w <= 64 { c(n.k as u64) } else { Reg { v: 0, e } } }
