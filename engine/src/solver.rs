//! z3 back end: one fresh solver per query over the independent slice of the path condition.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P; fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P; fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P; fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P; fn Z3_mk_xor(c: P, a: P, b: P) -> P; fn Z3_mk_iff(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P; fn Z3_mk_ite(c: P, i: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P; fn Z3_mk_bvsub(c: P, a: P, b: P) -> P; fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P; fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P; fn Z3_mk_bvurem(c: P, a: P, b: P) -> P; fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P; fn Z3_mk_bvor(c: P, a: P, b: P) -> P; fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P; fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P; fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P; fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P; fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P; fn Z3_mk_bvule(c: P, a: P, b: P) -> P; fn Z3_mk_bvslt(c: P, a: P, b: P) -> P; fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P); fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_mk_params(c: P) -> P; fn Z3_params_inc_ref(c: P, p: P); fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint); fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_assert(c: P, s: P, a: P); fn Z3_solver_check(c: P, s: P) -> c_int; fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P); fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_error_msg(c: P, e: c_uint) -> *const c_char;
    fn Z3_mk_int_sort(c: P) -> P; fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P; fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P; fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P; fn Z3_mk_unary_minus(c: P, a: P) -> P;
    fn Z3_mk_div(c: P, a: P, b: P) -> P; fn Z3_mk_mod(c: P, a: P, b: P) -> P; fn Z3_mk_le(c: P, a: P, b: P) -> P; fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
}
extern "C" fn on_err(c: P, e: c_uint) { unsafe { eprintln!("z3 error: {:?}", CStr::from_ptr(Z3_get_error_msg(c, e))); libc_abort(); } }
extern "C" { #[link_name = "abort"] fn libc_abort() -> !; }

pub enum Res { Unsat, Sat(Vec<(u32, u128)>), Unknown }
pub struct Solver {
    iv: HashMap<E, Option<(usize, i128, i128)>>, ib: HashMap<E, Option<usize>>, lia: P, pub nlia: u64,
    c: P, bv: HashMap<E, usize>, bl: HashMap<E, usize>, pub nq: u64, pub ns: u64, pub unk: u64, pub rlimit: u32, logic: P, params: P,
    pub dump: bool, pub maxns: u64,
}
impl Solver {
    pub fn new() -> Solver {
        unsafe {
            let cfg = Z3_mk_config(); let c = Z3_mk_context(cfg); Z3_set_error_handler(c, Some(on_err));
            let l = CString::new("QF_BV").unwrap(); let logic = Z3_mk_string_symbol(c, l.as_ptr());
            let params = Z3_mk_params(c); Z3_params_inc_ref(c, params);
            let rl = CString::new("rlimit").unwrap();
            let rlimit: u32 = std::env::var("SYM_RLIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(150_000_000);
            Z3_params_set_uint(c, params, Z3_mk_string_symbol(c, rl.as_ptr()), rlimit);
            let l = CString::new("QF_LIA").unwrap(); let lia = Z3_mk_string_symbol(c, l.as_ptr());
            Solver { iv: HashMap::new(), ib: HashMap::new(), lia, nlia: 0, c, bv: HashMap::new(), bl: HashMap::new(), nq: 0, ns: 0, unk: 0, rlimit, logic, params, dump: std::env::var("SYM_DUMP").is_ok(), maxns: 0 }
        }
    }
    fn sort(&self, w: u16) -> P { unsafe { Z3_mk_bv_sort(self.c, w as c_uint) } }
    fn num(&self, k: u128, w: u16) -> P {
        unsafe {
            if w <= 64 { Z3_mk_unsigned_int64(self.c, k as u64, self.sort(w)) }
            else { let lo = Z3_mk_unsigned_int64(self.c, k as u64, self.sort(64)); let hi = Z3_mk_unsigned_int64(self.c, (k >> 64) as u64, self.sort(w - 64)); Z3_mk_concat(self.c, hi, lo) }
        }
    }
    fn bv(&mut self, p: &Pool, e: E) -> P {
        if let Some(&a) = self.bv.get(&e) { return a as P; }
        let n = p.n(e); let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => self.num(n.k, n.w),
                Op::Var => { let s = Z3_mk_int_symbol(c, n.k as c_int); Z3_mk_const(c, s, self.sort(n.w)) }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => { let b = self.bl(p, e); let o = self.num(1, 1); let z = self.num(0, 1); Z3_mk_ite(c, b, o, z) }
                Op::Ite => { let b = self.bl(p, n.a); let x = self.bv(p, n.b); let y = self.bv(p, n.c); Z3_mk_ite(c, b, x, y) }
                Op::Extract => { let a = self.bv(p, n.a); Z3_mk_extract(c, n.k as c_uint + n.w as c_uint - 1, n.k as c_uint, a) }
                Op::ZExt => { let a = self.bv(p, n.a); Z3_mk_zero_ext(c, (n.w - p.w(n.a)) as c_uint, a) }
                Op::SExt => { let a = self.bv(p, n.a); Z3_mk_sign_ext(c, (n.w - p.w(n.a)) as c_uint, a) }
                Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::And | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr | Op::Concat => {
                    let a = self.bv(p, n.a); let b = self.bv(p, n.b);
                    match n.op { Op::Add => Z3_mk_bvadd(c, a, b), Op::Sub => Z3_mk_bvsub(c, a, b), Op::Mul => Z3_mk_bvmul(c, a, b), Op::UDiv => Z3_mk_bvudiv(c, a, b), Op::SDiv => Z3_mk_bvsdiv(c, a, b), Op::URem => Z3_mk_bvurem(c, a, b), Op::SRem => Z3_mk_bvsrem(c, a, b), Op::And => Z3_mk_bvand(c, a, b), Op::Or => Z3_mk_bvor(c, a, b), Op::Xor => Z3_mk_bvxor(c, a, b), Op::Shl => Z3_mk_bvshl(c, a, b), Op::LShr => Z3_mk_bvlshr(c, a, b), Op::AShr => Z3_mk_bvashr(c, a, b), _ => Z3_mk_concat(c, a, b) }
                }
                _ => panic!("float node reached the solver: {}", p.show(e, 4)),
            }
        };
        self.bv.insert(e, r as usize); r
    }
    fn bl(&mut self, p: &Pool, e: E) -> P {
        if let Some(&a) = self.bl.get(&e) { return a as P; }
        let n = p.n(e); let c = self.c; assert!(n.w == 1);
        let r = unsafe {
            match n.op {
                Op::Const => if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::Eq => { if p.w(n.a) == 1 { let a = self.bl(p, n.a); let b = self.bl(p, n.b); Z3_mk_iff(c, a, b) } else { let a = self.bv(p, n.a); let b = self.bv(p, n.b); Z3_mk_eq(c, a, b) } }
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => { let a = self.bv(p, n.a); let b = self.bv(p, n.b); match n.op { Op::Ult => Z3_mk_bvult(c, a, b), Op::Ule => Z3_mk_bvule(c, a, b), Op::Slt => Z3_mk_bvslt(c, a, b), _ => Z3_mk_bvsle(c, a, b) } }
                Op::And => { let v = [self.bl(p, n.a), self.bl(p, n.b)]; Z3_mk_and(c, 2, v.as_ptr()) }
                Op::Or => { let v = [self.bl(p, n.a), self.bl(p, n.b)]; Z3_mk_or(c, 2, v.as_ptr()) }
                Op::Xor => { if p.is_c(n.b, 1) { let a = self.bl(p, n.a); Z3_mk_not(c, a) } else { let a = self.bl(p, n.a); let b = self.bl(p, n.b); Z3_mk_xor(c, a, b) } }
                Op::Ite => { let b = self.bl(p, n.a); let x = self.bl(p, n.b); let y = self.bl(p, n.c); Z3_mk_ite(c, b, x, y) }
                _ => { let a = self.bv(p, e); let o = self.num(1, 1); Z3_mk_eq(c, a, o) }
            }
        };
        self.bl.insert(e, r as usize); r
    }
    // ---- integers: expressions that provably do not wrap, as linear integer arithmetic over their signed value
    fn inum(&self, v: i128) -> P { unsafe { let t = CString::new(v.to_string()).unwrap(); Z3_mk_numeral(self.c, t.as_ptr(), Z3_mk_int_sort(self.c)) } }
    fn ivar(&self, v: u32) -> P { unsafe { Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, v as c_int), Z3_mk_int_sort(self.c)) } }
    fn ia(&mut self, p: &Pool, e: E) -> Option<(P, i128, i128)> {
        if let Some(r) = self.iv.get(&e) { return r.map(|(a, l, h)| (a as P, l, h)); }
        let n = p.n(e); let c = self.c; let w = n.w;
        let (wl, wh) = (-(1i128 << (w.min(127) - 1)), (1i128 << (w.min(127) - 1)) - 1);
        let r: Option<(P, i128, i128)> = (|| unsafe {
            if w == 1 || w > 128 { return None; }
            Some(match n.op {
                Op::Const => { let v = sext128(n.k, w); (self.inum(v), v, v) }
                Op::Var => { let vi = &p.vars[n.k as usize]; if w > 64 { return None; } if vi.signed { (self.ivar(n.k as u32), vi.lo as i128, vi.hi as i128) } else { let h = vi.hi as u64 as i128; if h > wh { return None; } (self.ivar(n.k as u32), vi.lo as u64 as i128, h) } }
                Op::Add => { let (a, b) = (self.ia(p, n.a)?, self.ia(p, n.b)?); let v = [a.0, b.0]; (Z3_mk_add(c, 2, v.as_ptr()), a.1 + b.1, a.2 + b.2) }
                Op::Sub => { let (a, b) = (self.ia(p, n.a)?, self.ia(p, n.b)?); let v = [a.0, b.0]; (Z3_mk_sub(c, 2, v.as_ptr()), a.1 - b.2, a.2 - b.1) }
                Op::Mul => {
                    let (a, b) = (self.ia(p, n.a)?, self.ia(p, n.b)?); if a.1 != a.2 && b.1 != b.2 { return None; }
                    let q = [a.1.checked_mul(b.1)?, a.1.checked_mul(b.2)?, a.2.checked_mul(b.1)?, a.2.checked_mul(b.2)?]; let v = [a.0, b.0];
                    (Z3_mk_mul(c, 2, v.as_ptr()), *q.iter().min().unwrap(), *q.iter().max().unwrap())
                }
                Op::Shl => { let k = p.cval(n.b)?; if k >= 62 { return None; } let a = self.ia(p, n.a)?; let m = 1i128 << k; let v = [a.0, self.inum(m)]; (Z3_mk_mul(c, 2, v.as_ptr()), a.1.checked_mul(m)?, a.2.checked_mul(m)?) }
                Op::SExt => { if p.w(n.a) == 1 { let b = self.ibool(p, n.a)?; (Z3_mk_ite(c, b, self.inum(-1), self.inum(0)), -1, 0) } else { self.ia(p, n.a)? } }
                Op::ZExt => { if p.w(n.a) == 1 { let b = self.ibool(p, n.a)?; (Z3_mk_ite(c, b, self.inum(1), self.inum(0)), 0, 1) } else { let a = self.ia(p, n.a)?; if a.1 < 0 { return None; } a } }
                Op::Extract => { if n.k != 0 { return None; } let a = self.ia(p, n.a)?; if a.1 < wl || a.2 > wh { return None; } a }
                Op::Ite => { let b = self.ibool(p, n.a)?; let (x, y) = (self.ia(p, n.b)?, self.ia(p, n.c)?); (Z3_mk_ite(c, b, x.0, y.0), x.1.min(y.1), x.2.max(y.2)) }
                Op::SDiv | Op::UDiv | Op::SRem | Op::URem | Op::AShr | Op::LShr => {
                    let a = self.ia(p, n.a)?; let mut k = sext128(p.cval(n.b)?, w);
                    if matches!(n.op, Op::AShr | Op::LShr) { if k >= 62 { return None; } k = 1 << k; }
                    if k <= 0 || (a.1 < 0 && matches!(n.op, Op::UDiv | Op::URem | Op::LShr)) { return None; }
                    let kk = self.inum(k);
                    let fl = |x: i128| x.div_euclid(k);
                    let q = if a.1 >= 0 || n.op == Op::AShr { (Z3_mk_div(c, a.0, kk), fl(a.1), fl(a.2)) }
                    else { let neg = Z3_mk_unary_minus(c, Z3_mk_div(c, Z3_mk_unary_minus(c, a.0), kk)); (Z3_mk_ite(c, Z3_mk_le(c, self.inum(0), a.0), Z3_mk_div(c, a.0, kk), neg), a.1 / k, a.2 / k) };
                    if matches!(n.op, Op::SRem | Op::URem) { let m = [q.0, kk]; let v = [a.0, Z3_mk_mul(c, 2, m.as_ptr())]; (Z3_mk_sub(c, 2, v.as_ptr()), if a.1 < 0 { -(k - 1) } else { 0 }, if a.2 > 0 { k - 1 } else { 0 }) } else { q }
                }
                Op::And => { let m = p.cval(n.b)? as i128; if m <= 0 || m & (m + 1) != 0 || m > wh { return None; } let a = self.ia(p, n.a)?; (Z3_mk_mod(c, a.0, self.inum(m + 1)), 0, m) }
                _ => return None,
            })
        })();
        let r = r.and_then(|(a, mut l, mut h)| { if w <= 64 { let g = p.r(e); if l < wl || h > wh { return None; } l = l.max(g.slo as i128); h = h.min(g.shi as i128); } if l < wl || h > wh || l > h { None } else { Some((a, l, h)) } });
        self.iv.insert(e, r.map(|(a, l, h)| (a as usize, l, h))); r
    }
    fn ibool(&mut self, p: &Pool, e: E) -> Option<P> {
        if let Some(r) = self.ib.get(&e) { return r.map(|a| a as P); }
        let n = p.n(e); let c = self.c;
        let r: Option<P> = (|| unsafe {
            Some(match n.op {
                Op::Const => if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::Eq if p.w(n.a) == 1 => { let (a, b) = (self.ibool(p, n.a)?, self.ibool(p, n.b)?); Z3_mk_iff(c, a, b) }
                Op::Eq => { let (a, b) = (self.ia(p, n.a)?, self.ia(p, n.b)?); Z3_mk_eq(c, a.0, b.0) }
                Op::Slt => { let (a, b) = (self.ia(p, n.a)?, self.ia(p, n.b)?); Z3_mk_lt(c, a.0, b.0) }
                Op::Sle => { let (a, b) = (self.ia(p, n.a)?, self.ia(p, n.b)?); Z3_mk_le(c, a.0, b.0) }
                Op::Ult | Op::Ule => {
                    let (a, b) = (self.ia(p, n.a)?, self.ia(p, n.b)?); let z = self.inum(0);
                    let lt = if n.op == Op::Ult { Z3_mk_lt(c, a.0, b.0) } else { Z3_mk_le(c, a.0, b.0) };
                    if a.1 >= 0 && b.1 >= 0 { lt } else { let (na, nb) = (Z3_mk_lt(c, a.0, z), Z3_mk_lt(c, b.0, z)); let s = Z3_mk_iff(c, na, nb); Z3_mk_ite(c, s, lt, nb) }
                }
                Op::And => { let v = [self.ibool(p, n.a)?, self.ibool(p, n.b)?]; Z3_mk_and(c, 2, v.as_ptr()) }
                Op::Or => { let v = [self.ibool(p, n.a)?, self.ibool(p, n.b)?]; Z3_mk_or(c, 2, v.as_ptr()) }
                Op::Xor => { let (a, b) = (self.ibool(p, n.a)?, self.ibool(p, n.b)?); Z3_mk_xor(c, a, b) }
                Op::Ite => { let (b, x, y) = (self.ibool(p, n.a)?, self.ibool(p, n.b)?, self.ibool(p, n.c)?); Z3_mk_ite(c, b, x, y) }
                Op::Extract if n.k as u16 + 1 == p.w(n.a) => { let a = self.ia(p, n.a)?; Z3_mk_lt(c, a.0, self.inum(0)) }
                _ => return None,
            })
        })();
        self.ib.insert(e, r.map(|a| a as usize)); r
    }
    /// integer attempt: Unsat is sound even when conjuncts had to be left out; Sat counts only when none was
    fn check_lia(&mut self, p: &mut Pool, cs: &[E], rl: u32) -> Res {
        let c = self.c; self.nlia += 1;
        unsafe {
            let s = Z3_mk_solver_for_logic(c, self.lia); Z3_solver_inc_ref(c, s); self.limit(rl); Z3_solver_set_params(c, s, self.params);
            let mut vars: Vec<u32> = vec![]; let mut all = true;
            for &e in cs { match self.ibool(p, e) { Some(a) => { Z3_solver_assert(c, s, a); vars.extend(p.varset(e).iter()); } None => all = false } }
            vars.sort(); vars.dedup();
            for &v in &vars { let vi = &p.vars[v as usize]; let (l, h) = if vi.signed { (vi.lo as i128, vi.hi as i128) } else { (vi.lo as u64 as i128, vi.hi as u64 as i128) }; let a = self.ivar(v); Z3_solver_assert(c, s, Z3_mk_le(c, self.inum(l), a)); Z3_solver_assert(c, s, Z3_mk_le(c, a, self.inum(h))); }
            let r = Z3_solver_check(c, s);
            let out = if r == 1 && all {
                let m = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, m); let mut o = vec![];
                for &v in &vars { let mut val: P = std::ptr::null_mut(); if !Z3_model_eval(c, m, self.ivar(v), true, &mut val) { panic!("model eval"); } let k = CStr::from_ptr(Z3_get_numeral_string(c, val)).to_str().unwrap().parse::<i128>().unwrap(); o.push((v, k as u128 & mask(p.vars[v as usize].w))); }
                Z3_model_dec_ref(c, m); Res::Sat(o)
            } else if r == -1 { Res::Unsat } else { Res::Unknown };
            Z3_solver_dec_ref(c, s); out
        }
    }
    fn limit(&self, rl: u32) { unsafe { let t = CString::new("rlimit").unwrap(); Z3_params_set_uint(self.c, self.params, Z3_mk_string_symbol(self.c, t.as_ptr()), rl); } }
    pub fn check_quick(&mut self, p: &mut Pool, cs: &[E]) -> Res { self.nq += 1; let t0 = std::time::Instant::now(); let f = self.rlimit; let lin = cs.iter().all(|&e| self.ibool(p, e).is_some()); let mut r = if lin { self.check_lia(p, cs, f / 100) } else { Res::Unknown }; if let Res::Unknown = r { r = self.check_bv(p, cs, f / 100); } self.ns += t0.elapsed().as_nanos() as u64; r }
    /// conjunction of cs: bit vectors with a small budget, then integers, then bit vectors with the full budget
    pub fn check(&mut self, p: &mut Pool, cs: &[E]) -> Res {
        self.nq += 1; let full = self.rlimit;
        let t0 = std::time::Instant::now();
        // comparisons and sums of whole numbers: integers first
        let lin = cs.iter().all(|&e| self.ibool(p, e).is_some());
        let mut r = if lin { self.check_lia(p, cs, full / 100) } else { Res::Unknown };
        if let Res::Unknown = r { r = self.check_bv(p, cs, full / 100); }
        if let Res::Unknown = r { r = self.check_lia(p, cs, full / 10); if let Res::Unknown = r { r = self.check_bv(p, cs, full); } }
        if let Res::Unknown = r { self.unk += 1; }
        let el = t0.elapsed().as_nanos() as u64;
        self.ns += el; self.maxns = self.maxns.max(el);
        r
    }
    /// conjunction of cs (1-bit expressions); on sat returns values of all variables mentioned
    fn check_bv(&mut self, p: &mut Pool, cs: &[E], rl: u32) -> Res {
        let t0 = std::time::Instant::now();
        let c = self.c; self.limit(rl);
        let r = unsafe {
            let s = Z3_mk_solver_for_logic(c, self.logic); Z3_solver_inc_ref(c, s); Z3_solver_set_params(c, s, self.params);
            let mut vars: Vec<u32> = vec![];
            for &e in cs { vars.extend(p.varset(e).iter()); }
            vars.sort(); vars.dedup();
            let mut asts: Vec<P> = vec![];
            for &v in &vars {
                let w = p.vars[v as usize].w; let (lo, hi, sg) = { let vi = &p.vars[v as usize]; (vi.lo, vi.hi, vi.signed) };
                let a = { let sy = Z3_mk_int_symbol(c, v as c_int); Z3_mk_const(c, sy, self.sort(w)) };
                asts.push(a);
                if w <= 64 {
                    if sg {
                        if w == 64 && lo == i64::MIN && hi == i64::MAX { continue; }
                        let l = self.num(lo as i128 as u128 & mask(w), w); let h = self.num(hi as i128 as u128 & mask(w), w);
                        Z3_solver_assert(c, s, Z3_mk_bvsle(c, l, a)); Z3_solver_assert(c, s, Z3_mk_bvsle(c, a, h));
                    } else {
                        let l = self.num(lo as u64 as u128, w); let h = self.num(hi as u64 as u128, w);
                        if lo != 0 { Z3_solver_assert(c, s, Z3_mk_bvule(c, l, a)); }
                        if (hi as u64) != mask64(w) { Z3_solver_assert(c, s, Z3_mk_bvule(c, a, h)); }
                    }
                }
            }
            for &e in cs { let a = self.bl(p, e); Z3_solver_assert(c, s, a); }
            let r = Z3_solver_check(c, s);
            let out = if r == 1 {
                let m = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, m);
                let mut o = vec![];
                for (i, &v) in vars.iter().enumerate() {
                    let mut val: P = std::ptr::null_mut(); let mut x = 0u64;
                    if !Z3_model_eval(c, m, asts[i], true, &mut val) { panic!("model eval"); }
                    let v128 = if Z3_get_numeral_uint64(c, val, &mut x) { x as u128 } else { CStr::from_ptr(Z3_get_numeral_string(c, val)).to_str().unwrap().parse::<u128>().unwrap() };
                    o.push((v, v128));
                }
                Z3_model_dec_ref(c, m);
                Res::Sat(o)
            } else if r == -1 { Res::Unsat } else { Res::Unknown };
            let el = t0.elapsed().as_nanos() as u64;
            if self.dump && el > 200_000_000 { eprintln!("SLOW {}ms\n{}", el / 1_000_000, CStr::from_ptr(Z3_solver_to_string(c, s)).to_str().unwrap_or("")); }
            Z3_solver_dec_ref(c, s);
            out
        };
        r
    }
}
