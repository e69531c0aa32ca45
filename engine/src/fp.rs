//! Floating point by exact rational reasoning with rounding-error bounds.
//!
//! A symbolic double is kept as the expression that computes it. Where it meets an integer or a comparison it is
//! analysed as `(num*X + off)/den ± err` with X a bounded integer expression; `canon` records that the double is the
//! correctly rounded value of exactly that rational. Conversions and comparisons whose outcome the error cannot change
//! become integer formulas (exact); the others become a fresh variable constrained to the possible outcomes, whose
//! definition is kept so that a model can be checked with real IEEE arithmetic.
use crate::expr::*;
use std::collections::HashMap;

#[derive(Clone, Debug)]
struct Aff { x: E, lo: i128, hi: i128, num: i128, den: i128, off: i128, err: f64, canon: bool } // x: 64 bit signed, 0 when constant

pub struct Pending { pub var: u32, pub def: E, pub axioms: Vec<E> }
#[derive(Default)]
pub struct Fp { cache: HashMap<(Op, u16, E, E), E>, pub pending: Vec<Pending>, pub defs: Vec<(u32, E)>, n: u32, bitsof: Vec<(E, E)> }

fn gcd(a: i128, b: i128) -> i128 { let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs()); while b != 0 { let t = a % b; a = b; b = t; } a.max(1) as i128 }
fn rational(f: f64) -> Option<(i128, i128)> {
    if !f.is_finite() { return None; }
    if f == 0.0 { return Some((0, 1)); }
    let b = f.to_bits(); let e = ((b >> 52) & 0x7ff) as i32; let m = b & ((1 << 52) - 1);
    if e == 0 { return None; }
    let m = (m | (1 << 52)) as i128 * if f < 0.0 { -1 } else { 1 };
    let s = e - 1075; let z = m.trailing_zeros() as i32; let (m, s) = (m >> z, s + z);
    if s >= 0 { if s > 60 { return None; } Some((m << s, 1)) } else { if -s > 60 { return None; } Some((m, 1i128 << -s)) }
}
fn half_ulp(m: f64) -> f64 { if m == 0.0 { return 0.0; } let e = m.log2().floor() as i32 + 1; 2f64.powi(e - 53) }
impl Aff {
    fn red(mut self) -> Aff { let g = gcd(gcd(self.num, self.off), self.den); self.num /= g; self.off /= g; self.den /= g; self }
    fn bounds(&self) -> Option<(i128, i128)> { let a = self.num.checked_mul(self.lo)?.checked_add(self.off)?; let b = self.num.checked_mul(self.hi)?.checked_add(self.off)?; Some((a.min(b), a.max(b))) }
    fn mag(&self) -> Option<f64> { let (a, b) = self.bounds()?; Some((a.unsigned_abs().max(b.unsigned_abs())) as f64 / self.den as f64 * 1.000001 + self.err) }
    fn exact(&self) -> bool { self.err == 0.0 }
    fn scale(&self, n: i128, d: i128) -> Option<Aff> {
        let (n, d) = if d < 0 { (-n, -d) } else { (n, d) };
        let (g1, g2) = (gcd(gcd(self.num, self.off), d), gcd(n, self.den));
        let (n, d) = (n / g2, d / g1);
        Some(Aff { num: (self.num / g1).checked_mul(n)?, off: (self.off / g1).checked_mul(n)?, den: (self.den / g2).checked_mul(d)?, ..self.clone() }.red())
    }
    /// account for one rounding of a result whose operands were `exact`
    fn rounded(mut self, exact: bool, err: f64) -> Option<Aff> {
        let (a, b) = self.bounds()?;
        // an integer below 2^53 in magnitude is a double
        if exact && self.den == 1 && a > -(1 << 53) && b < 1 << 53 { self.err = 0.0; self.canon = true; return Some(self); }
        self.err = err; let m = self.mag()?; self.err = (err + half_ulp(m)) * 1.0000001; self.canon = exact; Some(self)
    }
}
impl Fp {
    fn aff(&mut self, p: &mut Pool, e: E) -> Option<Aff> {
        let n = p.n(e); if n.w != 64 { return None; }
        match n.op {
            Op::Const => { let (a, d) = rational(f64::from_bits(n.k as u64))?; Some(Aff { x: 0, lo: 0, hi: 0, num: 0, den: d, off: a, err: 0.0, canon: true }) }
            Op::SiToFp | Op::UiToFp => {
                let w = p.w(n.a); if w > 64 { return None; }
                let r = p.r(n.a); let (lo, hi, x) = if n.op == Op::SiToFp { (r.slo as i128, r.shi as i128, p.sext(n.a, 64)) } else { if r.uhi > i64::MAX as u64 { return None; } (r.ulo as i128, r.uhi as i128, p.zext(n.a, 64)) };
                Aff { x, lo, hi, num: 1, den: 1, off: 0, err: 0.0, canon: true }.rounded(true, 0.0)
            }
            Op::FMul | Op::FDiv => {
                let a = self.aff(p, n.a)?; let b = self.aff(p, n.b)?;
                let (a, c) = if b.num == 0 { (a, b) } else if a.num == 0 && n.op == Op::FMul { (b, a) } else { return None };
                if c.off == 0 { return None; }
                let (cn, cd) = if n.op == Op::FMul { (c.off, c.den) } else { (c.den, c.off) };
                let r = a.scale(cn, cd)?; let f = cn as f64 / cd as f64;
                r.rounded(a.exact(), a.err * f.abs() * 1.0000001)
            }
            Op::FAdd | Op::FSub => {
                let a = self.aff(p, n.a)?; let mut b = self.aff(p, n.b)?;
                if n.op == Op::FSub { b.num = -b.num; b.off = -b.off; }
                let l = a.den / gcd(a.den, b.den) * b.den; let (fa, fb) = (l / a.den, l / b.den);
                let off = a.off.checked_mul(fa)?.checked_add(b.off.checked_mul(fb)?)?;
                let (na, nb) = (a.num.checked_mul(fa)?, b.num.checked_mul(fb)?);
                let ex = a.exact() && b.exact(); let err = a.err + b.err;
                let r = if nb == 0 || na == 0 { let s = if nb == 0 { &a } else { &b }; Aff { x: s.x, lo: s.lo, hi: s.hi, num: na + nb, den: l, off, err: 0.0, canon: false } }
                else {
                    let (xlo, xhi) = { let t = Aff { num: na, off: 0, ..a.clone() }.bounds()?; let u = Aff { num: nb, off: 0, ..b.clone() }.bounds()?; (t.0 + u.0, t.1 + u.1) };
                    if xlo < i64::MIN as i128 || xhi > i64::MAX as i128 { return None; }
                    let ka = p.konst(na as u128, 64); let kb = p.konst(nb as u128, 64); let ma = p.mul(a.x, ka); let mb = p.mul(b.x, kb); let x = p.add(ma, mb);
                    Aff { x, lo: xlo, hi: xhi, num: 1, den: l, off, err: 0.0, canon: false }
                };
                r.red().rounded(ex, err)
            }
            Op::FNeg => { let mut a = self.aff(p, n.a)?; a.num = -a.num; a.off = -a.off; Some(a) }
            Op::FAbs => { let a = self.aff(p, n.a)?; let (l, h) = a.bounds()?; if l >= 0 { Some(a) } else if h <= 0 { Some(Aff { num: -a.num, off: -a.off, ..a }) } else {
                let v = self.numer(p, &a, 1, 64)?; let z = p.konst(0, 64); let neg = p.slt(v, z); let m = p.sub(z, v); let x = p.ite(neg, m, v);
                Some(Aff { x, lo: 0, hi: h.max(-l), num: 1, den: a.den, off: 0, err: a.err, canon: a.canon })
            } }
            Op::FRound | Op::FTrunc | Op::FFloor | Op::FCeil | Op::FRint => {
                let x = self.int_of(p, n.op, n.a)?; let r = p.r(x);
                Aff { x, lo: r.slo as i128, hi: r.shi as i128, num: 1, den: 1, off: 0, err: 0.0, canon: true }.rounded(true, 0.0)
            }
            Op::Ite => {
                let a = self.aff(p, n.b)?; let b = self.aff(p, n.c)?;
                let l = a.den / gcd(a.den, b.den) * b.den; let (fa, fb) = (l / a.den, l / b.den);
                // both as integers over the common denominator
                let ia = self.numer(p, &a, fa, 64)?; let ib = self.numer(p, &b, fb, 64)?; let x = p.ite(n.a, ia, ib);
                let (ba, bb) = (a.bounds()?, b.bounds()?);
                Some(Aff { x, lo: (ba.0 * fa).min(bb.0 * fb), hi: (ba.1 * fa).max(bb.1 * fb), num: 1, den: l, off: 0, err: a.err.max(b.err), canon: a.canon && b.canon })
            }
            _ => None,
        }
    }
    /// (num*X + off)*f as a signed integer of width w
    fn numer(&mut self, p: &mut Pool, a: &Aff, f: i128, w: u16) -> Option<E> {
        let (l, h) = a.bounds()?; let (l, h) = (l.checked_mul(f)?, h.checked_mul(f)?);
        if w == 64 && (l < i64::MIN as i128 || h > i64::MAX as i128) { return None; }
        if w == 128 && (l < i128::MIN / 8 || h > i128::MAX / 8) { return None; }
        let off = p.konst((a.off * f) as u128, w); if a.num == 0 { return Some(off); }
        let x = if w > 64 { p.sext(a.x, w) } else { a.x };
        let k = p.konst((a.num * f) as u128, w); let m = p.mul(x, k); Some(p.add(m, off))
    }
    fn fresh(&mut self, p: &mut Pool, w: u16, lo: i64, hi: i64, def: E, mk: impl FnOnce(&mut Pool, E) -> Vec<E>) -> E {
        if std::env::var("SYM_FP").is_ok() { eprintln!("fresh for {}", p.show(def, 9)); }
        self.n += 1; let name = format!("fp#{}", self.n);
        let v = p.var_s(&name, w, lo, hi, false, true); let id = p.n(v).k as u32;
        let axioms = mk(p, v);
        self.pending.push(Pending { var: id, def, axioms }); self.defs.push((id, def)); v
    }
    /// the double x rounded to an integer in the given way, as a 64 bit signed integer (None: outside the encoding)
    fn int_of(&mut self, p: &mut Pool, how: Op, x: E) -> Option<E> {
        if let Some(&r) = self.cache.get(&(how, 64, x, 0)) { return Some(r); }
        let a = self.aff(p, x)?; let (bl, bh) = a.bounds()?; let d = a.den;
        let w: u16 = if bl.checked_mul(8)? > i64::MIN as i128 && bh.checked_mul(8)? < i64::MAX as i128 && d < 1 << 60 { 64 } else { 128 };
        if bl.checked_mul(16).is_none() || bh.checked_mul(16).is_none() || d > i128::MAX / 16 { return None; }
        if bl / d < i64::MIN as i128 / 2 || bh / d > i64::MAX as i128 / 2 { return None; }
        let nn = self.numer(p, &a, 1, w)?;
        let fl = |p: &mut Pool, n: E, d: i128| -> E { // floor(n/d)
            if d == 1 { return n; }
            let k = p.konst(d as u128, w); let q = p.sdiv(n, k); let back = p.mul(q, k); let r = p.sub(n, back);
            let z = p.konst(0, w); let neg = p.slt(r, z); let one = p.konst(1, w); let q1 = p.sub(q, one); p.ite(neg, q1, q)
        };
        let clear = match how { Op::FRound | Op::FRint => a.exact() || (d % 2 == 1 && a.err < 0.5 / d as f64), _ => a.exact() };
        let r = if clear {
            let e = match how {
                Op::FFloor => fl(p, nn, d),
                Op::FCeil => { let z = p.konst(0, w); let m = p.sub(z, nn); let f = fl(p, m, d); p.sub(z, f) }
                Op::FTrunc => { if d == 1 { nn } else { let k = p.konst(d as u128, w); p.sdiv(nn, k) } }
                Op::FRound | Op::FRint => {
                    if d == 1 { nn } else {
                        let two = p.konst(2, w); let n2 = p.mul(nn, two); let kd = p.konst(d as u128, w); let up = p.add(n2, kd);
                        if d % 2 == 1 { fl(p, up, 2 * d) }
                        else if how == Op::FRound { // ties away from zero
                            let z = p.konst(0, w); let pos = fl(p, up, 2 * d); let m = p.sub(z, n2); let m = p.add(m, kd); let f = fl(p, m, 2 * d); let negv = p.sub(z, f); let isneg = p.slt(nn, z); p.ite(isneg, negv, pos)
                        } else { return None; }
                    }
                }
                _ => return None,
            };
            if w == 128 { p.extract(e, 0, 64) } else { e }
        } else {
            // possible results: those whose interval, widened by the error, contains the value
            let e2 = (a.err * 2.0 * d as f64 * 1.000001).floor() as i128; // both sides are integers
            let (below, above) = match how { Op::FRound | Op::FRint => (d, d), Op::FFloor => (0, 2 * d), Op::FCeil => (2 * d, 0), _ => (2 * d, 2 * d) };
            let lo = (2 * bl - above - e2 + 2 * d - 1).div_euclid(2 * d).max(i64::MIN as i128) as i64; let hi = (2 * bh + below + e2).div_euclid(2 * d).min(i64::MAX as i128) as i64;
            if lo == hi { let r = p.konst(lo as u128, 64); self.cache.insert((how, 64, x, 0), r); return Some(r); }
            let def = { let t = p.raw_f(how, 64, x, 0); p.raw_f(Op::FToSi, 64, t, 0) };
            let two = p.konst(2, w); let n2 = p.mul(nn, two);
            self.fresh(p, 64, lo, hi, def, |p, v| {
                let r = if w == 128 { p.sext(v, 128) } else { v };
                let k2 = p.konst(2 * d as u128, w); let r2 = p.mul(r, k2); // 2 d r
                // 2dr - below - e2 <= 2n <= 2dr + above + e2
                let kb = p.konst((below + e2) as u128, w); let ka = p.konst((above + e2) as u128, w);
                let l = p.sub(r2, kb); let h = p.add(r2, ka); let mut ax = vec![p.sle(l, n2), p.sle(n2, h)];
                if how == Op::FTrunc { // towards zero
                    let z = p.konst(0, w); let ke = p.konst(e2 as u128, w); let pos = p.slt(ke, n2); let le = p.add(n2, ke); let c1 = p.sle(r2, le); let np = p.not1(pos); ax.push(p.or1(np, c1));
                    let mke = p.konst((-e2) as u128, w); let neg = p.slt(n2, mke); let ge = p.sub(n2, ke); let c2 = p.sle(ge, r2); let nn_ = p.not1(neg); ax.push(p.or1(nn_, c2)); let _ = z;
                }
                ax
            })
        };
        self.cache.insert((how, 64, x, 0), r);
        Some(r)
    }
    pub fn to_int(&mut self, p: &mut Pool, x: E, w: u16, signed: bool) -> Option<E> {
        let n = p.n(x);
        let r = match n.op { Op::FRound | Op::FTrunc | Op::FFloor | Op::FCeil | Op::FRint => self.int_of(p, n.op, n.a)?, Op::SiToFp if p.w(n.a) <= 64 && p.r(n.a).slo > -(1 << 53) && p.r(n.a).shi < 1 << 53 => p.sext(n.a, 64), _ => self.int_of(p, Op::FTrunc, x)? };
        // saturation
        let rg = p.r(r);
        let (lo, hi): (i64, i64) = if signed { if w >= 64 { (i64::MIN, i64::MAX) } else { (-(1i64 << (w - 1)), (1i64 << (w - 1)) - 1) } } else { (0, if w >= 63 { i64::MAX } else { (1i64 << w) - 1 }) };
        let mut r = r;
        if rg.slo < lo { let k = p.konst(lo as u128, 64); let c = p.slt(r, k); r = p.ite(c, k, r); }
        if rg.shi > hi { let k = p.konst(hi as u128, 64); let c = p.slt(k, r); r = p.ite(c, k, r); }
        Some(if w < 64 { p.extract(r, 0, w) } else if w > 64 { p.sext(r, w) } else { r })
    }
    pub fn cmp(&mut self, p: &mut Pool, op: Op, x: E, y: E) -> Option<E> {
        if let (Some(a), Some(b)) = (p.cval(x), p.cval(y)) { let r = fcmp(op, p.w(x), a as u64, b as u64); return Some(p.konst(r as u128, 1)); }
        if let Some(&r) = self.cache.get(&(op, 1, x, y)) { return Some(r); }
        let r = match self.cmp0(p, op, x, y) { Some(r) => r, None => Self::cmp_bits(p, op, x, y)? };
        self.cache.insert((op, 1, x, y), r); Some(r)
    }
    /// which zero this double is, if it is one: true for the negative one
    fn minus_zero(p: &mut Pool, x: E) -> Option<E> {
        if Self::plus_zero(p, x) { return Some(p.fls()); }
        let n = p.n(x); let negative = |p: &Pool, e: E| p.cval(e).and_then(|k| { let f = f64::from_bits(k as u64); if f.is_nan() || f == 0.0 { None } else { Some(f < 0.0) } });
        match n.op {
            Op::Const => Some(p.tru()), Op::FNeg => { let t = Self::minus_zero(p, n.a)?; Some(p.not1(t)) }
            Op::FMul | Op::FDiv => { let (o, s) = if let Some(s) = negative(p, n.b) { (n.a, s) } else if n.op == Op::FMul { (n.b, negative(p, n.a)?) } else { return None }; let t = Self::minus_zero(p, o)?; Some(if s { p.not1(t) } else { t }) }
            Op::Ite => { let (a, b) = (Self::minus_zero(p, n.b)?, Self::minus_zero(p, n.c)?); Some(p.ite(n.a, a, b)) } _ => None,
        }
    }
    /// the bit pattern of a double that no arithmetic has gone into
    fn raw(p: &mut Pool, x: E) -> Option<E> {
        let n = p.n(x); let w = p.w(x);
        match n.op {
            Op::FNeg => { let a = Self::raw(p, n.a)?; let k = p.konst(1u128 << (w - 1), w); Some(p.bitop(Op::Xor, a, k)) }
            Op::FAbs => { let a = Self::raw(p, n.a)?; let k = p.konst(mask(w) >> 1, w); Some(p.bitop(Op::And, a, k)) }
            Op::Ite => { let (a, b) = (Self::raw(p, n.b)?, Self::raw(p, n.c)?); Some(p.ite(n.a, a, b)) }
            Op::SiToFp | Op::UiToFp | Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FRound | Op::FTrunc | Op::FFloor | Op::FCeil | Op::FRint | Op::FSqrt | Op::FpExt | Op::FpTruncTo => None,
            _ => Some(x),
        }
    }
    pub fn is_float(p: &Pool, x: E) -> bool {
        let n = p.n(x);
        match n.op { Op::SiToFp | Op::UiToFp | Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FRound | Op::FTrunc | Op::FFloor | Op::FCeil | Op::FRint | Op::FSqrt | Op::FNeg | Op::FAbs | Op::FpExt | Op::FpTruncTo => true, Op::Ite if n.w == 64 => Self::is_float(p, n.b) || Self::is_float(p, n.c), _ => false }
    }
    /// whether this double, if it is zero, is the positive one
    fn plus_zero(p: &Pool, x: E) -> bool {
        let n = p.n(x); let positive = |e: E| p.cval(e).map(|k| f64::from_bits(k as u64) > 0.0).unwrap_or(false);
        match n.op {
            Op::Const => n.k as u64 != 1 << 63, Op::SiToFp | Op::UiToFp | Op::FAbs => true,
            Op::FMul => positive(n.b) && Self::plus_zero(p, n.a) || positive(n.a) && Self::plus_zero(p, n.b), Op::FDiv => positive(n.b) && Self::plus_zero(p, n.a),
            Op::FAdd => Self::plus_zero(p, n.a) || Self::plus_zero(p, n.b), Op::FSub => Self::plus_zero(p, n.a),
            Op::Ite => Self::plus_zero(p, n.b) && Self::plus_zero(p, n.c), _ => false,
        }
    }
    /// the bit pattern of any double: for computed ones a variable whose sign and order are those of the value
    pub fn bits(&mut self, p: &mut Pool, x: E) -> Option<E> {
        if !Self::is_float(p, x) { return Some(x); }
        let k = self.key(p, x)?; Some(Self::flip(p, k))
    }
    /// the place of a double in the order of all doubles, as a signed number
    fn key(&mut self, p: &mut Pool, x: E) -> Option<E> {
        let n = p.n(x); if n.w != 64 { return None; }
        if !Self::is_float(p, x) { return Some(Self::flip(p, x)); }
        if let Some(&(_, k)) = self.bitsof.iter().find(|q| q.0 == x) { return Some(k); }
        let m1 = p.konst(mask(64), 64);
        let derived = match n.op {
            Op::FNeg => { let a = self.key(p, n.a)?; Some(p.bitop(Op::Xor, a, m1)) }
            Op::FAbs => { let a = self.key(p, n.a)?; let z = p.konst(0, 64); let c = p.slt(a, z); let f = p.bitop(Op::Xor, a, m1); Some(p.ite(c, f, a)) }
            Op::Ite => { let (a, b) = (self.key(p, n.b)?, self.key(p, n.c)?); Some(p.ite(n.a, a, b)) }
            _ => None,
        };
        if let Some(k) = derived { self.bitsof.push((x, k)); return Some(k); }
        if self.bitsof.is_empty() { for f in [0.0f64, 90.0, -90.0, 180.0, -180.0, 1.0] { let b = f.to_bits() as i64; let (e, k) = (p.konst(b as u64 as u128, 64), p.konst((b ^ ((b >> 63) as u64 >> 1) as i64) as u64 as u128, 64)); self.bitsof.push((e, k)); } }
        self.aff(p, x)?; // finite
        let pairs = self.bitsof.clone(); let mut rel = vec![];
        for (y, k) in pairs { if !matches!(p.n(k).op, Op::Var | Op::Const) { continue; } rel.push((y, k, self.cmp(p, Op::FOlt, x, y)?, self.cmp(p, Op::FOeq, x, y)?)) }
        self.n += 1; let name = format!("fp#{}", self.n); let inf = f64::INFINITY.to_bits() as i64;
        let v = p.var_s(&name, 64, -inf, inf - 1, false, true); let id = p.n(v).k as u32;
        let z = p.konst(0, 64); let plus = Self::plus_zero(p, x); let mut axioms = vec![];
        if plus { let q = p.eq(v, m1); axioms.push(p.not1(q)); } else if let Some(t) = Self::minus_zero(p, x) { let (q, r) = (p.eq(v, m1), p.eq(v, z)); let (nq, nr, nt) = (p.not1(q), p.not1(r), p.not1(t)); axioms.push(p.or1(nq, t)); axioms.push(p.or1(nr, nt)); }
        for (y, k, lt, eq) in rel {
            let (l, e) = (p.slt(v, k), p.eq(v, k));
            if plus && Self::plus_zero(p, y) { axioms.push(p.eq(l, lt)); axioms.push(p.eq(e, eq)); continue; }
            // the zeros differ in their places only
            let (a, b, c, d) = (p.eq(v, m1), p.eq(k, z), p.eq(v, z), p.eq(k, m1)); let (mz, zm) = (p.and1(a, b), p.and1(c, d));
            let n = p.not1(mz); let l = p.and1(l, n); let e1 = p.or1(e, mz); let e = p.or1(e1, zm); axioms.push(p.eq(l, lt)); axioms.push(p.eq(e, eq));
        }
        let d = Self::flip(p, x); self.pending.push(Pending { var: id, def: d, axioms }); self.defs.push((id, d)); self.bitsof.push((x, v)); Some(v)
    }
    pub fn has_bits(&self) -> bool { !self.bitsof.is_empty() }
    /// between the bits of a double and its place in the order of all doubles
    fn flip(p: &mut Pool, b: E) -> E { let c63 = p.konst(63, 64); let c1 = p.konst(1, 64); let s = p.shift(Op::AShr, b, c63); let t = p.shift(Op::LShr, s, c1); p.bitop(Op::Xor, b, t) }
    /// (double, place) where `e` is the place of a known double in the order of all doubles
    fn place(&self, p: &mut Pool, e: E) -> Option<(E, E)> {
        if let Some(k) = p.cval(e) { let k = k as u64 as i64; let b = (k ^ ((k >> 63) as u64 >> 1) as i64) as u64; if !f64::from_bits(b).is_finite() { return None; } return Some((p.konst(b as u128, 64), e)); }
        for &(x, k) in &self.bitsof { if p.cval(k).is_some() { continue; } if k == e { return Some((x, k)); } let b = Self::flip(p, k); if b != k && Self::flip(p, b) == e { return Some((x, k)); } }
        None
    }
    /// integer comparisons of such places, or of bits with zero, as comparisons of the doubles
    pub fn order(&mut self, p: &mut Pool, op: Op, a: E, b: E) -> Option<E> {
        if self.bitsof.is_empty() { return None; }
        for (s, t, below) in [(a, b, true), (b, a, false)] { // the sign: bits < 0, bits > -1
            if op == Op::Slt && p.cval(t) == Some(if below { 0 } else { mask(64) }) {
                let v = self.bitsof.clone(); for (_, k) in v { if p.cval(k).is_none() && (Self::flip(p, k) == s || k == s) { let z = p.konst(0, 64); let c = p.slt(k, z); return Some(if below { c } else { p.not1(c) }); } }
            }
        }
        if op == Op::Slt { // k < c is k <= c - 1: the rounder of the two numbers
            let round = |k: i64| (k ^ ((k >> 63) as u64 >> 1) as i64).trailing_zeros();
            if let Some(c) = p.cval(b) { let c = c as u64 as i64; if c > i64::MIN && round(c - 1) > round(c) && self.place(p, a).is_some() { let d = p.konst((c - 1) as u64 as u128, 64); let r = self.order0(p, Op::Slt, d, a)?; return Some(p.not1(r)); } }
            if let Some(c) = p.cval(a) { let c = c as u64 as i64; if c < i64::MAX && round(c + 1) > round(c) && self.place(p, b).is_some() { let d = p.konst((c + 1) as u64 as u128, 64); let r = self.order0(p, Op::Slt, b, d)?; return Some(p.not1(r)); } }
        }
        self.order0(p, op, a, b)
    }
    fn order0(&mut self, p: &mut Pool, op: Op, a: E, b: E) -> Option<E> {
        let ((x, k), (y, l)) = (self.place(p, a)?, self.place(p, b)?); if !Self::is_float(p, x) && !Self::is_float(p, y) { return None; }
        let (m1, z) = (p.konst(mask(64), 64), p.konst(0, 64)); let zeros = !(Self::plus_zero(p, x) && Self::plus_zero(p, y));
        match op {
            Op::Slt => { let lt = self.cmp(p, Op::FOlt, x, y)?; if !zeros { return Some(lt); } let (e, f) = (p.eq(k, m1), p.eq(l, z)); let q = p.and1(e, f); Some(p.or1(lt, q)) }
            Op::Eq => { let eq = self.cmp(p, Op::FOeq, x, y)?; if !zeros { return Some(eq); } let (e, f, g, h) = (p.eq(k, m1), p.eq(l, z), p.eq(k, z), p.eq(l, m1)); let (q, r) = (p.and1(e, f), p.and1(g, h)); let o = p.or1(q, r); let n = p.not1(o); Some(p.and1(eq, n)) }
            _ => None,
        }
    }
    fn cmp_bits(p: &mut Pool, op: Op, x: E, y: E) -> Option<E> {
        let w = p.w(x); if w != 64 { return None; }
        let (a, b) = (Self::raw(p, x)?, Self::raw(p, y)?); let m = p.konst(mask(w) >> 1, w); let inf = p.konst(f64::INFINITY.to_bits() as u128, w); let z = p.konst(0, w);
        let (ma, mb) = (p.bitop(Op::And, a, m), p.bitop(Op::And, b, m)); let (na, nb) = (p.ult(inf, ma), p.ult(inf, mb)); let nan = p.or1(na, nb);
        if op == Op::FUno { return Some(nan); }
        // sign and magnitude as a signed number; both zeros are 0
        let mut key = |p: &mut Pool, v: E, mag: E| { let neg = p.slt(v, z); let n = p.sub(z, mag); p.ite(neg, n, mag) };
        let (ka, kb) = (key(p, a, ma), key(p, b, mb)); let c = match op { Op::FOeq => p.eq(ka, kb), Op::FOlt => p.slt(ka, kb), Op::FOle => p.sle(ka, kb), _ => return None };
        let ok = p.not1(nan); Some(p.and1(ok, c))
    }
    fn cmp0(&mut self, p: &mut Pool, op: Op, x: E, y: E) -> Option<E> {
        // constants outside the rational range (infinities, f64::MAX, NaN): decided by the other side's bounds
        for (s, t, swap) in [(x, y, false), (y, x, true)] {
            if let Some(k) = p.cval(s) {
                let f = f64::from_bits(k as u64);
                if rational(f).is_none() {
                    if f.is_nan() { return Some(p.konst((op == Op::FUno) as u128, 1)); }
                    let a = self.aff(p, t)?; let m = a.mag()?;
                    let small = f.abs() < 1e-6; if small { return None; }
                    if f.abs() <= m * 1.01 { return None; }
                    let s_lt_t = f < 0.0; let lt = if swap { !s_lt_t } else { s_lt_t };
                    return Some(p.konst(match op { Op::FOlt | Op::FOle => lt, _ => false } as u128, 1));
                }
            }
        }
        let a = self.aff(p, x)?; let b = self.aff(p, y)?;
        if op == Op::FUno { return Some(p.fls()); }
        if x == y { return Some(p.konst((op != Op::FOlt) as u128, 1)); }
        let l = a.den.checked_mul(b.den / gcd(a.den, b.den))?; let (fa, fb) = (l / a.den, l / b.den);
        let fits = |q: &Aff, f: i128| q.bounds().and_then(|(u, v)| Some((u.checked_mul(f)?, v.checked_mul(f)?))).map(|(u, v)| u > i64::MIN as i128 / 4 && v < i64::MAX as i128 / 4).unwrap_or(false);
        let w = if fits(&a, fa) && fits(&b, fb) { 64 } else { 128 };
        let na = self.numer(p, &a, fa, w)?; let nb = self.numer(p, &b, fb, w)?;
        // smallest non-zero difference of the exact values
        let g = gcd(gcd(a.num * fa, b.num * fb), a.off * fa - b.off * fb);
        let step = g as f64 / l as f64; let e = a.err + b.err;
        let ic = |p: &mut Pool, op: Op| match op { Op::FOlt => p.slt(na, nb), Op::FOle => p.sle(na, nb), _ => p.eq(na, nb) };
        if a.exact() && b.exact() || (a.canon && b.canon && step > 2.0 * e) { return Some(ic(p, op)); }
        // outcome certain unless the exact values are within e of each other
        let ke = (e * l as f64 * 1.000001).floor() as i128; if ke > i128::MAX / 16 { return None; }
        let k = p.konst(ke as u128, w); let hi = p.add(nb, k); let lo = p.sub(nb, k);
        let gt = p.slt(hi, na); let lt = p.slt(na, lo);
        let def = p.raw_f(op, 1, x, y);
        let both = a.canon && b.canon; let (le0, ge0, eq0) = (p.sle(na, nb), p.sle(nb, na), p.eq(na, nb));
        let v = self.fresh(p, 8, 0, 1, def, |p, v| {
            let one = p.konst(1, 8); let t = p.eq(v, one); let f = p.not1(t);
            let mut ax = vec![];
            match op {
                Op::FOeq => { let d = p.or1(gt, lt); let nd = p.not1(d); ax.push(p.or1(nd, f)); if both { let ne = p.not1(eq0); ax.push(p.or1(ne, t)); } }
                Op::FOlt => { let ngt = p.not1(gt); let nlt = p.not1(lt); ax.push(p.or1(ngt, f)); ax.push(p.or1(nlt, t)); if both { let n = p.not1(ge0); ax.push(p.or1(n, f)); } }
                _ => { let ngt = p.not1(gt); let nlt = p.not1(lt); ax.push(p.or1(ngt, f)); ax.push(p.or1(nlt, t)); if both { let n = p.not1(le0); ax.push(p.or1(n, t)); } }
            }
            ax
        });
        let one = p.konst(1, 8); Some(p.eq(v, one))
    }
    /// fresh variables a path depends on, in creation order
    pub fn used(&self, p: &mut Pool, path: &[E]) -> Vec<(u32, E)> {
        let mut s = std::collections::HashSet::new(); for &e in path { for v in p.varset(e).iter() { s.insert(*v); } }
        self.defs.iter().filter(|(v, _)| s.contains(v)).cloned().collect()
    }
}
