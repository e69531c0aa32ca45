//! Hash-consed bit-vector / floating-point expression DAG with aggressive normalisation.
use std::collections::HashMap;

pub type E = u32; // 0 = "no expression" (concrete)

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem,
    And, Or, Xor, Shl, LShr, AShr,
    Concat,  // a = high, b = low
    Extract, // a, k = lo bit, width = w
    ZExt, SExt,
    Ite, // a = cond
    Eq, Ult, Ule, Slt, Sle,
    // floating point; values are IEEE bit patterns of the node's width
    SiToFp, UiToFp, FAdd, FSub, FMul, FDiv, FRem, FNeg, FAbs, FRound, FTrunc, FFloor, FCeil, FRint, FSqrt, FpExt, FpTruncTo,
    FToSi, FToUi, // saturating conversions
    FOlt, FOle, FOeq, FUno,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: E, pub b: E, pub c: E, pub k: u128 }

#[derive(Clone, Copy, Debug)]
pub struct Rng { pub ulo: u64, pub uhi: u64, pub slo: i64, pub shi: i64 }

pub struct VarInfo { pub name: String, pub w: u16, pub lo: i64, pub hi: i64, pub input: bool, pub signed: bool }

pub struct Pool {
    pub nodes: Vec<Node>,
    pub rng: Vec<Rng>,
    map: HashMap<Node, E, std::hash::BuildHasherDefault<Fx>>,
    pub vars: Vec<VarInfo>,
    varsets: Vec<Option<std::rc::Rc<Vec<u32>>>>,
    // evaluation memo
    ev_val: Vec<u128>,
    ev_stamp: Vec<u32>,
    ev_cur: u32,
    pub lin_depth: u32,
}

#[derive(Default)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
    fn write_isize(&mut self, x: isize) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
}

pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn mask64(w: u16) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }
pub fn sext64(v: u64, w: u16) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }
pub fn sext128(v: u128, w: u16) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

fn full(w: u16) -> Rng {
    if w >= 64 { Rng { ulo: 0, uhi: u64::MAX, slo: i64::MIN, shi: i64::MAX } }
    else { Rng { ulo: 0, uhi: mask64(w), slo: -(1i64 << (w - 1)), shi: (1i64 << (w - 1)) - 1 } }
}
fn from_u(ulo: u64, uhi: u64, w: u16) -> Rng {
    let mut r = full(w);
    r.ulo = ulo; r.uhi = uhi;
    let sb = if w >= 64 { 1u64 << 63 } else { 1u64 << (w - 1) };
    if uhi < sb || ulo >= sb { r.slo = sext64(ulo, w); r.shi = sext64(uhi, w); }
    r
}
fn from_s(slo: i64, shi: i64, w: u16) -> Rng {
    let mut r = full(w);
    r.slo = slo; r.shi = shi;
    if slo >= 0 || shi < 0 { r.ulo = slo as u64 & mask64(w); r.uhi = shi as u64 & mask64(w); }
    r
}

pub fn fop1(op: Op, w: u16, a: u64) -> u64 {
    if w == 32 {
        let x = f32::from_bits(a as u32);
        return (match op { Op::FNeg => -x, Op::FAbs => x.abs(), Op::FRound => x.round(), Op::FTrunc => x.trunc(), Op::FFloor => x.floor(), Op::FCeil => x.ceil(), Op::FRint => x.round_ties_even(), Op::FSqrt => x.sqrt(), _ => unreachable!() }).to_bits() as u64;
    }
    let x = f64::from_bits(a);
    (match op { Op::FNeg => -x, Op::FAbs => x.abs(), Op::FRound => x.round(), Op::FTrunc => x.trunc(), Op::FFloor => x.floor(), Op::FCeil => x.ceil(), Op::FRint => x.round_ties_even(), Op::FSqrt => x.sqrt(), _ => unreachable!() }).to_bits()
}
pub fn fop2(op: Op, w: u16, a: u64, b: u64) -> u64 {
    if w == 32 {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        return (match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, Op::FDiv => x / y, Op::FRem => x % y, _ => unreachable!() }).to_bits() as u64;
    }
    let (x, y) = (f64::from_bits(a), f64::from_bits(b));
    (match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, Op::FDiv => x / y, Op::FRem => x % y, _ => unreachable!() }).to_bits()
}
pub fn fcmp(op: Op, w: u16, a: u64, b: u64) -> bool {
    let (x, y) = if w == 32 { (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64) } else { (f64::from_bits(a), f64::from_bits(b)) };
    match op { Op::FOlt => x < y, Op::FOle => x <= y, Op::FOeq => x == y, Op::FUno => x.is_nan() || y.is_nan(), _ => unreachable!() }
}
pub fn f_to_si(fw: u16, a: u64, w: u16) -> u128 {
    let x = if fw == 32 { f32::from_bits(a as u32) as f64 } else { f64::from_bits(a) };
    let v = x as i128;
    let (lo, hi) = if w >= 128 { (i128::MIN, i128::MAX) } else { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) };
    (v.clamp(lo, hi) as u128) & mask(w)
}
pub fn f_to_ui(fw: u16, a: u64, w: u16) -> u128 {
    let x = if fw == 32 { f32::from_bits(a as u32) as f64 } else { f64::from_bits(a) };
    let v = x as u128;
    if w >= 128 { v } else { v.min(mask(w)) }
}
pub fn si_to_f(v: u128, iw: u16, fw: u16) -> u64 {
    let s = sext128(v, iw);
    if fw == 32 { (s as f32).to_bits() as u64 } else { (s as f64).to_bits() }
}
pub fn ui_to_f(v: u128, fw: u16) -> u64 { if fw == 32 { (v as f32).to_bits() as u64 } else { (v as f64).to_bits() } }

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool { nodes: vec![], rng: vec![], map: HashMap::default(), vars: vec![], varsets: vec![], ev_val: vec![], ev_stamp: vec![], ev_cur: 0, lin_depth: 0 };
        p.nodes.push(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: u128::MAX });
        p.rng.push(full(1));
        p.varsets.push(None);
        p
    }
    #[inline] pub fn n(&self, e: E) -> Node { self.nodes[e as usize] }
    #[inline] pub fn w(&self, e: E) -> u16 { self.nodes[e as usize].w }
    #[inline] pub fn r(&self, e: E) -> Rng { self.rng[e as usize] }
    pub fn cval(&self, e: E) -> Option<u128> { let n = self.nodes[e as usize]; if n.op == Op::Const { Some(n.k) } else { None } }
    pub fn is_c(&self, e: E, v: u128) -> bool { self.cval(e) == Some(v) }

    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) { return e; }
        let e = self.nodes.len() as E;
        assert!(e < (1 << 28), "expression pool exhausted");
        let r = self.range_of(&n);
        self.nodes.push(n);
        self.rng.push(r);
        self.varsets.push(None);
        self.map.insert(n, e);
        e
    }
    fn mk(&mut self, op: Op, w: u16, a: E, b: E, c: E, k: u128) -> E {
        let e = self.intern(Node { op, w, a, b, c, k });
        if w <= 64 && op != Op::Const && op != Op::Var { let r = self.rng[e as usize]; if r.ulo == r.uhi { return self.konst(r.ulo as u128, w); } if r.slo == r.shi { return self.konst(r.slo as u128, w); } }
        e
    }

    pub fn konst(&mut self, v: u128, w: u16) -> E { let k = v & mask(w); self.mk(Op::Const, w, 0, 0, 0, k) }
    pub fn tru(&mut self) -> E { self.konst(1, 1) }
    pub fn fls(&mut self) -> E { self.konst(0, 1) }

    pub fn var(&mut self, name: &str, w: u16, lo: i64, hi: i64, input: bool) -> E {
        self.var_s(name, w, lo, hi, input, true)
    }
    pub fn var_s(&mut self, name: &str, w: u16, lo: i64, hi: i64, input: bool, signed: bool) -> E {
        let id = self.vars.len();
        self.vars.push(VarInfo { name: name.to_string(), w, lo, hi, input, signed });
        self.mk(Op::Var, w, 0, 0, 0, id as u128)
    }

    fn range_of(&self, n: &Node) -> Rng {
        let w = n.w;
        if w > 64 { return full(64); }
        match n.op {
            Op::Const => { let v = n.k as u64; let s = sext64(v, w); Rng { ulo: v, uhi: v, slo: s, shi: s } }
            Op::Var => { let vi = &self.vars[n.k as usize]; if vi.signed { from_s(vi.lo, vi.hi, w) } else { from_u(vi.lo as u64, vi.hi as u64, w) } }
            Op::Add => {
                let (a, b) = (self.r(n.a), self.r(n.b));
                let mut r = full(w); let f = full(w);
                let (l, h) = (a.slo as i128 + b.slo as i128, a.shi as i128 + b.shi as i128);
                if l >= f.slo as i128 && h <= f.shi as i128 { r = from_s(l as i64, h as i64, w); }
                let (l, h) = (a.ulo as u128 + b.ulo as u128, a.uhi as u128 + b.uhi as u128);
                if h <= f.uhi as u128 { let q = from_u(l as u64, h as u64, w); r = meet(r, q); }
                r
            }
            Op::Sub => {
                let (a, b) = (self.r(n.a), self.r(n.b));
                let f = full(w); let mut r = f;
                let (l, h) = (a.slo as i128 - b.shi as i128, a.shi as i128 - b.slo as i128);
                if l >= f.slo as i128 && h <= f.shi as i128 { r = from_s(l as i64, h as i64, w); }
                if a.ulo >= b.uhi { r = meet(r, from_u(a.ulo - b.uhi, a.uhi - b.ulo, w)); }
                r
            }
            Op::Mul => {
                let (a, b) = (self.r(n.a), self.r(n.b));
                let f = full(w); let mut r = f;
                let c = [a.slo as i128 * b.slo as i128, a.slo as i128 * b.shi as i128, a.shi as i128 * b.slo as i128, a.shi as i128 * b.shi as i128];
                let (l, h) = (*c.iter().min().unwrap(), *c.iter().max().unwrap());
                if l >= f.slo as i128 && h <= f.shi as i128 { r = from_s(l as i64, h as i64, w); }
                let h = a.uhi as u128 * b.uhi as u128;
                if h <= f.uhi as u128 { r = meet(r, from_u((a.ulo as u128 * b.ulo as u128) as u64, h as u64, w)); }
                r
            }
            Op::UDiv => {
                let (a, b) = (self.r(n.a), self.r(n.b));
                if b.ulo > 0 { from_u(a.ulo / b.uhi, a.uhi / b.ulo, w) } else { full(w) }
            }
            Op::URem => {
                let (a, b) = (self.r(n.a), self.r(n.b));
                if b.ulo > 0 { if a.uhi < b.ulo { a } else { from_u(0, a.uhi.min(b.uhi - 1), w) } } else { full(w) }
            }
            Op::SDiv => {
                let (a, b) = (self.r(n.a), self.r(n.b));
                if b.slo > 0 {
                    let c = [a.slo / b.slo, a.slo / b.shi, a.shi / b.slo, a.shi / b.shi];
                    from_s(*c.iter().min().unwrap(), *c.iter().max().unwrap(), w)
                } else { full(w) }
            }
            Op::SRem => {
                let (a, b) = (self.r(n.a), self.r(n.b));
                if b.slo > 0 {
                    let m = b.shi - 1;
                    let lo = if a.slo >= 0 { 0 } else { (-m).max(a.slo) };
                    let hi = if a.shi <= 0 { 0 } else { m.min(a.shi) };
                    from_s(lo, hi, w)
                } else { full(w) }
            }
            Op::And => { let (a, b) = (self.r(n.a), self.r(n.b)); from_u(0, a.uhi.min(b.uhi), w) }
            Op::Or => {
                let (a, b) = (self.r(n.a), self.r(n.b));
                let m = a.uhi | b.uhi; let top = if m == 0 { 0 } else { u64::MAX >> m.leading_zeros() };
                from_u(a.ulo.max(b.ulo), top, w)
            }
            Op::Xor => { let (a, b) = (self.r(n.a), self.r(n.b)); let m = a.uhi | b.uhi; let top = if m == 0 { 0 } else { u64::MAX >> m.leading_zeros() }; from_u(0, top, w) }
            Op::Concat => {
                let (a, b) = (self.r(n.a), self.r(n.b)); let lw = self.w(n.b);
                from_u((a.ulo << lw) | b.ulo, (a.uhi << lw) | b.uhi, w)
            }
            Op::Extract => {
                let a = self.r(n.a); let aw = self.w(n.a);
                if n.k == 0 && aw <= 64 {
                    let f = full(w);
                    let mut r = f;
                    if a.uhi <= f.uhi { r = from_u(a.ulo, a.uhi, w); }
                    if a.slo >= f.slo && a.shi <= f.shi { r = meet(r, from_s(a.slo, a.shi, w)); }
                    r
                } else if aw <= 64 && n.k as u16 + w == aw {
                    meet(from_u(a.ulo >> n.k, a.uhi >> n.k, w), from_s(sext64(a.slo as u64, aw) >> n.k, sext64(a.shi as u64, aw) >> n.k, w))
                } else if aw <= 64 && (n.k as u16 + w < 64) && a.ulo >> (n.k as u16 + w) == a.uhi >> (n.k as u16 + w) {
                    from_u((a.ulo >> n.k) & mask64(w), (a.uhi >> n.k) & mask64(w), w)
                } else { full(w) }
            }
            Op::ZExt => { let a = self.r(n.a); if self.w(n.a) <= 64 { from_u(a.ulo, a.uhi, w) } else { full(w) } }
            Op::SExt => { let a = self.r(n.a); from_s(a.slo, a.shi, w) }
            Op::Ite => {
                let (a, b) = (self.r(n.b), self.r(n.c));
                // absolute value
                if let Some((x, neg_then)) = self.sign_test(n.a) {
                    let (pos, neg) = if neg_then { (n.c, n.b) } else { (n.b, n.c) };
                    let nn = self.n(neg);
                    if pos == x && nn.op == Op::Sub && self.is_c(nn.a, 0) && nn.b == x { let q = self.r(x); let h = (q.slo as i128).abs().max(q.shi as i128); let f = full(w); if h <= f.shi as i128 { return from_s(0, h as i64, w); } return from_u(0, h as u64, w); }
                }
                Rng { ulo: a.ulo.min(b.ulo), uhi: a.uhi.max(b.uhi), slo: a.slo.min(b.slo), shi: a.shi.max(b.shi) }
            }
            _ => full(w),
        }
    }

    /// (x, true) for x < 0, (x, false) for x >= 0
    fn sign_test(&self, e: E) -> Option<(E, bool)> {
        let n = self.n(e);
        match n.op {
            Op::Slt if self.is_c(n.b, 0) => Some((n.a, true)),
            Op::Slt if self.cval(n.a) == Some(mask(self.w(n.a))) => Some((n.b, false)),
            Op::Xor if self.is_c(n.b, 1) => self.sign_test(n.a).map(|(x, s)| (x, !s)),
            Op::Extract if n.w == 1 && n.k as u16 + 1 == self.w(n.a) => Some((n.a, true)),
            _ => None,
        }
    }
    /// (x, m, c): the unsigned value is exactly x * m + c
    pub fn affine(&self, e: E) -> (E, i128, i128) {
        let e = self.peel(e); let n = self.n(e); if n.w > 64 { return (e, 1, 0); }
        let top = mask(n.w) as i128;
        let ok = |s: &Self, x: E, m: i128, c: i128| { let q = s.r(x); q.ulo as i128 * m + c >= 0 && q.uhi as i128 * m + c <= top };
        match n.op {
            Op::Mul => if let Some(k) = self.cval(n.b) { let (x, m, c) = self.affine(n.a); let k = k as i128; if k < 1 << 32 && m < 1 << 32 && ok(self, x, m * k, c * k) { return (x, m * k, c * k); } },
            Op::Add => if let Some(k) = self.cval(n.b) { let (x, m, c) = self.affine(n.a); for k in [k as i128, sext128(k, n.w)] { if ok(self, x, m, c + k) { return (x, m, c + k); } } },
            Op::Concat => { let lw = self.w(n.b); if let Some(k) = self.cval(n.b) { let (x, m, c) = self.affine(n.a); if m < 1 << 32 { return (x, m << lw, (c << lw) + k as i128); } } else if let Some(k) = self.cval(n.a) { let (x, m, c) = self.affine(n.b); return (x, m, c + ((k as i128) << lw)); } }
            _ => {}
        }
        (e, 1, 0)
    }
    /// t[x - lo] for a table with a simple law
    pub fn fit_table(&mut self, t: &[u64], x: E, lo: u64, w: u16) -> Option<E> {
        let m = mask64(w);
        let d = t[1].wrapping_sub(t[0]) & m;
        if t.iter().enumerate().all(|(i, v)| *v == t[0].wrapping_add((i as u64).wrapping_mul(d)) & m) {
            let y = self.resize(x, w);
            let de = self.konst(d as u128, w); let c0 = self.konst((t[0].wrapping_sub(lo.wrapping_mul(d)) & m) as u128, w); let y = self.mul(y, de); return Some(self.add(y, c0));
        }
        if w > 8 {
            let l: Vec<u64> = t.iter().map(|v| v & 255).collect(); let h: Vec<u64> = t.iter().map(|v| v >> 8).collect();
            let l = self.fit_table(&l, x, lo, 8)?; let h = self.fit_table(&h, x, lo, w - 8)?; return Some(self.concat(h, l));
        }
        let mut x = x; if self.w(x) < 4 { x = self.zext(x, 4); } let xw = self.w(x);
        for div in [true, false] {
            let f = |i: u64| if div { i / 10 } else { i % 10 };
            let c = t[0].wrapping_sub(f(lo)) & m;
            if t.iter().enumerate().all(|(i, v)| *v == c.wrapping_add(f(lo + i as u64)) & m) {
                let ten = self.konst(10, xw);
                let y = if div { self.udiv(x, ten) } else { self.urem(x, ten) }; let y = self.resize(y, 8); let ce = self.konst(c as u128, 8); return Some(self.add(y, ce));
            }
        }
        None
    }

    /// known zero / one bits (only for widths <= 64)
    pub fn kbits(&self, e: E, d: u32) -> (u64, u64) {
        let n = self.n(e);
        if n.w > 64 { return (0, 0); }
        let m = mask64(n.w);
        let r = match n.op {
            Op::Const => (!(n.k as u64) & m, n.k as u64),
            Op::ZExt if self.w(n.a) <= 64 => { let (z, o) = self.kbits(n.a, d); ((z | !mask64(self.w(n.a))) & m, o) }
            Op::Concat => { let lw = self.w(n.b); let (z1, o1) = self.kbits(n.a, d); let (z0, o0) = self.kbits(n.b, d); ((z1 << lw) | z0, (o1 << lw) | o0) }
            Op::And if d > 0 => { let (z1, o1) = self.kbits(n.a, d - 1); let (z0, o0) = self.kbits(n.b, d - 1); (z1 | z0, o1 & o0) }
            Op::Or if d > 0 => { let (z1, o1) = self.kbits(n.a, d - 1); let (z0, o0) = self.kbits(n.b, d - 1); (z1 & z0, o1 | o0) }
            Op::Ite if d > 0 => { let (z1, o1) = self.kbits(n.b, d - 1); let (z0, o0) = self.kbits(n.c, d - 1); (z1 & z0, o1 & o0) }
            _ => (0, 0),
        };
        let u = self.r(e).uhi;
        let hz = if u == 0 { m } else { !(u64::MAX >> u.leading_zeros()) & m };
        (r.0 | hz, r.1)
    }

    // ---------------------------------------------------------------- extract / concat
    pub fn extract(&mut self, e: E, lo: u16, w: u16) -> E {
        let n = self.n(e);
        if lo == 0 && w == n.w { return e; }
        match n.op {
            Op::Const => self.konst(n.k >> lo, w),
            Op::Extract => self.extract(n.a, lo + n.k as u16, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw { self.extract(n.a, lo - lw, w) }
                else if lo + w <= lw { self.extract(n.b, lo, w) }
                else { let l = self.extract(n.b, lo, lw - lo); let h = self.extract(n.a, 0, w - (lw - lo)); self.concat(h, l) }
            }
            Op::ZExt => {
                let lw = self.w(n.a);
                if lo >= lw { self.konst(0, w) }
                else if lo + w <= lw { self.extract(n.a, lo, w) }
                else { let l = self.extract(n.a, lo, lw - lo); self.zext(l, w) }
            }
            Op::SExt => {
                let lw = self.w(n.a);
                if lo + w <= lw { self.extract(n.a, lo, w) }
                else if lo >= lw { let s = self.extract(n.a, lw - 1, 1); self.sext(s, w) }
                else { let l = self.extract(n.a, lo, lw - lo); self.sext(l, w) }
            }
            Op::And | Op::Or | Op::Xor if self.n(n.b).op == Op::Const => {
                let a = self.extract(n.a, lo, w); let b = self.extract(n.b, lo, w); self.bitop(n.op, a, b)
            }
            Op::Ite if self.cheap(n.b) || self.cheap(n.c) => {
                let b = self.extract(n.b, lo, w); let c = self.extract(n.c, lo, w); self.ite(n.a, b, c)
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 && (self.shrinks(n.a, w) && self.shrinks(n.b, w)) => {
                let a = self.extract(n.a, 0, w); let b = self.extract(n.b, 0, w);
                match n.op { Op::Add => self.add(a, b), Op::Sub => self.sub(a, b), _ => self.mul(a, b) }
            }
            _ => {
                // value known to fit in the low bits -> high part zero
                if n.w <= 64 && lo > 0 { let r = self.r(e); if lo < 64 && (r.uhi >> lo) == 0 { return self.konst(0, w); } }
                self.mk(Op::Extract, w, e, 0, 0, lo as u128)
            }
        }
    }
    fn cheap(&self, e: E) -> bool { matches!(self.n(e).op, Op::Const | Op::Concat | Op::ZExt) }
    fn shrinks(&self, e: E, w: u16) -> bool {
        let n = self.n(e);
        match n.op { Op::Const => true, Op::ZExt | Op::SExt => self.w(n.a) <= w, _ => false }
    }

    fn merge_adj(&mut self, a: E, b: E) -> Option<E> {
        let (na, nb) = (self.n(a), self.n(b));
        match (na.op, nb.op) {
            (Op::Const, Op::Const) => Some(self.konst((na.k << nb.w) | nb.k, na.w + nb.w)),
            (Op::Extract, Op::Extract) if na.a == nb.a && na.k == nb.k + nb.w as u128 => Some(self.extract(na.a, nb.k as u16, na.w + nb.w)),
            (Op::SExt, Op::SExt) if na.a == nb.a && self.w(na.a) == 1 => Some(self.sext(na.a, na.w + nb.w)),
            (Op::SExt, _) if na.a == b && nb.w == 1 => Some(self.sext(b, na.w + 1)),
            (_, Op::SExt) if nb.a == a && na.w == 1 => Some(self.sext(a, nb.w + 1)),
            (Op::Extract, _) if na.k as u16 == nb.w && na.a != b && self.is_low_of(b, na.a) => Some(self.extract(na.a, 0, na.w + nb.w)),
            (Op::Ite, Op::Ite) if na.a == nb.a => {
                let x = self.merge_adj(na.b, nb.b); let y = self.merge_adj(na.c, nb.c);
                match (x, y) { (Some(x), Some(y)) => Some(self.ite(na.a, x, y)), _ => None }
            }
            _ => None,
        }
    }
    // is b == low w(b) bits of x ? (when extract(x,0,w) normalises to b)
    fn is_low_of(&mut self, b: E, x: E) -> bool { let wb = self.w(b); if wb >= self.w(x) { return false; } self.extract(x, 0, wb) == b }

    pub fn concat(&mut self, a: E, b: E) -> E {
        if let Some(m) = self.merge_adj(a, b) { return m; }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Const && na.k == 0 { return self.zext(b, na.w + nb.w); }
        if na.op == Op::ZExt { let t = self.concat(na.a, b); return self.zext(t, na.w + nb.w); }
        if na.op == Op::Concat { let t = self.concat(na.b, b); return self.concat(na.a, t); }
        // copies of the sign bit in front of a sign-extended value
        {
            let x = if nb.op == Op::SExt { nb.a } else { b }; let wx = self.w(x);
            let top = |p: &Pool, q: E| { let n = p.n(q); n.op == Op::Extract && n.w == 1 && n.a == x && n.k == (wx - 1) as u128 };
            if top(self, a) || (na.op == Op::SExt && top(self, na.a)) { return self.sext(x, na.w + nb.w); }
        }
        if nb.op == Op::Concat {
            if let Some(m) = self.merge_adj(a, nb.a) { return self.concat(m, nb.b); }
        }
        if nb.op == Op::ZExt {
            let zw = nb.w - self.w(nb.a);
            let z = self.konst(0, zw);
            if let Some(m) = self.merge_adj(a, z) { return self.concat(m, nb.a); }
            let t = self.mk(Op::Concat, nb.w, z, nb.a, 0, 0);
            let w = na.w + nb.w;
            return self.mk(Op::Concat, w, a, t, 0, 0);
        }
        let w = na.w + nb.w;
        assert!(w <= 128);
        self.mk(Op::Concat, w, a, b, 0, 0)
    }
    pub fn zext(&mut self, e: E, w: u16) -> E {
        let n = self.n(e);
        if n.w == w { return e; }
        match n.op {
            Op::Const => self.konst(n.k, w),
            Op::ZExt => self.zext(n.a, w),
            Op::Concat if self.is_c(n.a, 0) => self.zext(n.b, w),
            _ => self.mk(Op::ZExt, w, e, 0, 0, 0),
        }
    }
    pub fn sext(&mut self, e: E, w: u16) -> E {
        let n = self.n(e);
        if n.w == w { return e; }
        match n.op {
            Op::Const => self.konst(sext128(n.k, n.w) as u128, w),
            Op::SExt => self.sext(n.a, w),
            Op::ZExt => self.zext(n.a, w),
            _ => {
                if n.w <= 64 && self.r(e).slo >= 0 { return self.zext(e, w); }
                self.mk(Op::SExt, w, e, 0, 0, 0)
            }
        }
    }

    // pieces of a value, low first: (expr, width)
    fn pieces(&mut self, e: E, out: &mut Vec<E>) {
        let n = self.n(e);
        match n.op {
            Op::Concat => { self.pieces(n.b, out); self.pieces(n.a, out); }
            Op::ZExt => { self.pieces(n.a, out); let z = self.konst(0, n.w - self.w(n.a)); out.push(z); }
            _ => out.push(e),
        }
    }
    fn const_runs(k: u128, w: u16) -> usize { let k = k & mask(w); ((k ^ (k << 1)) & mask(w)).count_ones() as usize }

    pub fn bitop(&mut self, op: Op, a: E, b: E) -> E {
        let (mut a, mut b) = (a, b);
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.konst(match op { Op::And => x & y, Op::Or => x | y, _ => x ^ y }, w);
        }
        if self.cval(a).is_some() || (self.cval(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
        if a == b { return if op == Op::Xor { self.konst(0, w) } else { a }; }
        if let Some(k) = self.cval(b) {
            match op {
                Op::And => { if k == 0 { return b; } if k == mask(w) { return a; } }
                Op::Or => { if k == 0 { return a; } if k == mask(w) { return b; } }
                _ => { if k == 0 { return a; } }
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        // SExt(1-bit) splits too
        let splitty = |n: &Node| matches!(n.op, Op::Concat | Op::ZExt);
        let sa = splitty(&na); let sb = splitty(&nb);
        let const_split = nb.op == Op::Const && op != Op::Xor && Self::const_runs(nb.k, w) <= 6 ;
        if sa || sb || const_split {
            let mut pa = vec![]; let mut pb = vec![];
            self.pieces(a, &mut pa); self.pieces(b, &mut pb);
            // split constants in pb at run boundaries
            let mut cuts: Vec<u16> = vec![];
            let mut pos = 0; for p in &pa { pos += self.w(*p); cuts.push(pos); }
            pos = 0; for p in &pb { pos += self.w(*p); cuts.push(pos); }
            if op != Op::Xor {
                for ps in [&pa, &pb] { let mut pos = 0; for p in ps.iter() { let pw = self.w(*p); if let Some(k) = self.cval(*p) { if Self::const_runs(k, pw) <= 6 { for i in 1..pw { if (k >> i) & 1 != (k >> (i - 1)) & 1 { cuts.push(pos + i); } } } } pos += pw; } }
            }
            cuts.sort(); cuts.dedup();
            if cuts.len() > 1 {
                let mut lo = 0; let mut res: Option<E> = None;
                for c in cuts {
                    let x = self.extract(a, lo, c - lo); let y = self.extract(b, lo, c - lo);
                    let z = self.bitop_leaf(op, x, y);
                    res = Some(match res { None => z, Some(r) => self.concat(z, r) });
                    lo = c;
                }
                return res.unwrap();
            }
        }
        self.bitop_leaf(op, a, b)
    }
    fn bitop_leaf(&mut self, op: Op, a: E, b: E) -> E {
        let (mut a, mut b) = (a, b);
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { return self.konst(match op { Op::And => x & y, Op::Or => x | y, _ => x ^ y }, w); }
        if self.cval(a).is_some() || (self.cval(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
        if a == b { return if op == Op::Xor { self.konst(0, w) } else { a }; }
        if let Some(k) = self.cval(b) {
            match op {
                Op::And => { if k == 0 { return b; } if k == mask(w) { return a; } }
                Op::Or => { if k == 0 { return a; } if k == mask(w) { return b; } }
                _ => { if k == 0 { return a; } }
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if op == Op::Xor {
            if na.op == Op::Xor {
                if na.a == b { return na.b; } if na.b == b { return na.a; }
                if nb.op == Op::Const && self.n(na.b).op == Op::Const { let k = self.konst(nb.k ^ self.n(na.b).k, w); return self.bitop_leaf(Op::Xor, na.a, k); }
            }
            if nb.op == Op::Xor { if nb.a == a { return nb.b; } if nb.b == a { return nb.a; } }
            if w == 1 && nb.op == Op::Const {
                // negation of comparisons
                match na.op {
                    Op::Ult => return self.ule(na.b, na.a), Op::Ule => return self.ult(na.b, na.a),
                    Op::Slt => return self.sle(na.b, na.a), Op::Sle => return self.slt(na.b, na.a), _ => {}
                }
            }
        }
        if w == 1 {
            // absorption a & (a|b), contradictions a & !a
            let tb = self.is_not_of(a, b);
            if tb { return if op == Op::And { self.konst(0, 1) } else { self.konst(1, 1) }; }
        }
        if (op == Op::And || op == Op::Or) && na.op == op {
            if na.a == b || na.b == b { return a; }
            if nb.op == Op::Const && self.n(na.b).op == Op::Const { let k = self.bitop(op, na.b, b); return self.bitop_leaf(op, na.a, k); }
        }
        self.mk(op, w, a, b, 0, 0)
    }
    fn is_not_of(&mut self, a: E, b: E) -> bool { let (na, nb) = (self.n(a), self.n(b)); (na.op == Op::Xor && na.a == b && self.is_c(na.b, 1)) || (nb.op == Op::Xor && nb.a == a && self.is_c(nb.b, 1)) || {
        // comparison negations
        match (na.op, nb.op) { (Op::Ult, Op::Ule) | (Op::Ule, Op::Ult) | (Op::Slt, Op::Sle) | (Op::Sle, Op::Slt) => na.a == nb.b && na.b == nb.a, _ => false } } }
    pub fn not1(&mut self, e: E) -> E { let t = self.konst(1, 1); self.bitop(Op::Xor, e, t) }
    pub fn and1(&mut self, a: E, b: E) -> E { self.bitop(Op::And, a, b) }
    pub fn or1(&mut self, a: E, b: E) -> E { self.bitop(Op::Or, a, b) }

    // ---------------------------------------------------------------- linear arithmetic
    fn lin_collect(&mut self, e: E, coef: u128, w: u16, terms: &mut Vec<(E, u128)>, k: &mut u128, budget: &mut i32) {
        *budget -= 1;
        let n = self.n(e);
        if *budget > 0 {
            match n.op {
                Op::Const => { *k = k.wrapping_add(coef.wrapping_mul(n.k)) & mask(w); return; }
                Op::Add => { self.lin_collect(n.a, coef, w, terms, k, budget); self.lin_collect(n.b, coef, w, terms, k, budget); return; }
                Op::Sub => { self.lin_collect(n.a, coef, w, terms, k, budget); self.lin_collect(n.b, coef.wrapping_neg() & mask(w), w, terms, k, budget); return; }
                Op::Mul => if let Some(c) = self.cval(n.b) { self.lin_collect(n.a, coef.wrapping_mul(c) & mask(w), w, terms, k, budget); return; },
                _ => {}
            }
        } else if n.op == Op::Const { *k = k.wrapping_add(coef.wrapping_mul(n.k)) & mask(w); return; }
        if let Some(t) = terms.iter_mut().find(|t| t.0 == e) { t.1 = t.1.wrapping_add(coef) & mask(w); }
        else { terms.push((e, coef & mask(w))); }
    }
    /// tighten the ranges of the terms a path constraint compares with a constant
    pub fn refine(&mut self, e: E) {
        let n = self.n(e);
        let (eq, neg) = match n.op { Op::Eq => (Some(n), false), Op::Xor if self.is_c(n.b, 1) => { let m = self.n(n.a); (if m.op == Op::Eq { Some(m) } else { None }, true) } _ => (None, false) };
        if let Some(m) = eq {
            let Some(k) = self.cval(m.b) else { return }; let w = self.w(m.a); if w > 64 || w == 1 { return; } let k = k as u64;
            if !neg { self.tighten(m.a, from_u(k, k, w)); return; }
            let q = self.r(m.a); if q.ulo == k && k < q.uhi { self.tighten(m.a, from_u(k + 1, q.uhi, w)); } else if q.uhi == k && k > q.ulo { self.tighten(m.a, from_u(q.ulo, k - 1, w)); }
            return;
        }
        let (a, b, signed, strict) = match n.op {
            Op::Ult => (n.a, n.b, false, true), Op::Ule => (n.a, n.b, false, false), Op::Slt => (n.a, n.b, true, true), Op::Sle => (n.a, n.b, true, false),
            Op::Xor if self.is_c(n.b, 1) => { let m = self.n(n.a); match m.op { Op::Ult => (m.b, m.a, false, false), Op::Ule => (m.b, m.a, false, true), Op::Slt => (m.b, m.a, true, false), Op::Sle => (m.b, m.a, true, true), _ => return } }
            _ => return,
        };
        let w = self.w(a); if w > 64 { return; } let d = strict as i128; let f = full(w);
        let (x, q) = match (self.cval(a), self.cval(b)) {
            (None, Some(k)) => (a, if signed { let h = sext64(k as u64, w) as i128 - d; if h < f.slo as i128 { return; } from_s(f.slo, h as i64, w) } else { let h = k as i128 - d; if h < 0 { return; } from_u(0, h as u64, w) }),
            (Some(k), None) => (b, if signed { let l = sext64(k as u64, w) as i128 + d; if l > f.shi as i128 { return; } from_s(l as i64, f.shi, w) } else { let l = k as i128 + d; if l > f.uhi as i128 { return; } from_u(l as u64, f.uhi, w) }),
            _ => return,
        };
        self.tighten(x, q);
    }
    fn tighten(&mut self, x: E, q: Rng) {
        let m = meet(self.r(x), q); if m.ulo > m.uhi || m.slo > m.shi { return; }
        self.rng[x as usize] = m;
        let p = self.peel(x);
        if p != x { let pw = self.w(p); if pw <= 64 && m.uhi <= mask64(pw) { self.tighten(p, from_u(m.ulo, m.uhi, pw)); } return; }
        let n = self.n(x);
        if n.op == Op::UDiv { if let Some(k) = self.cval(n.b) { if k > 0 {
            let h = ((m.uhi as u128 + 1) * k - 1).min(mask(n.w)); let l = m.ulo as u128 * k; if l <= h { self.tighten(n.a, from_u(l as u64, h as u64, n.w)); }
        } } }
    }
    /// strip extensions and truncations that keep the (unsigned) value
    fn peel(&self, e: E) -> E {
        let n = self.n(e);
        match n.op {
            Op::ZExt => self.peel(n.a),
            Op::Extract if n.k == 0 && self.w(n.a) <= 64 && self.r(n.a).uhi <= mask64(n.w) => self.peel(n.a),
            _ => e,
        }
    }
    /// value = (base / d) % m, m = 0: no remainder taken
    fn divform(&self, e: E, depth: u32) -> (E, u128, u128) {
        let e = self.peel(e); let n = self.n(e);
        if depth == 0 || n.w > 64 || !matches!(n.op, Op::UDiv | Op::URem) { return (e, 1, 0); }
        let Some(k) = self.cval(n.b) else { return (e, 1, 0) }; if k == 0 { return (e, 1, 0); }
        let (b, d, m) = self.divform(n.a, depth - 1);
        let r = if n.op == Op::UDiv { if m == 0 { (b, d * k, 0) } else if m % k == 0 { (b, d * k, m / k) } else { (self.peel(n.a), k, 0) } }
        else if m == 0 || m % k == 0 { (b, d, k) } else { (self.peel(n.a), 1, k) };
        if r.1 > 1 << 62 { return (e, 1, 0); }
        let top = self.r(r.0).uhi as u128 / r.1; if r.2 != 0 && top < r.2 { (r.0, r.1, 0) } else { r }
    }
    fn resize(&mut self, e: E, w: u16) -> E { let ew = self.w(e); if ew <= 64 { let need = (64 - self.r(e).uhi.leading_zeros()).max(1) as u16; if need < ew && need < w { let x = self.extract(e, 0, need); return self.zext(x, w); } } if ew > w { self.extract(e, 0, w) } else { self.zext(e, w) } }
    fn divbuild(&mut self, f: (E, u128, u128), w: u16) -> E {
        let bw = self.w(f.0); let mut x = f.0;
        if f.1 > 1 { let k = self.konst(f.1, bw); x = self.udiv_raw(x, k); }
        if f.2 != 0 { let k = self.konst(f.2, bw); x = self.urem_raw(x, k); }
        let xw = self.w(x); let need = (64 - self.r(x).uhi.leading_zeros()).max(1) as u16;
        if need < xw && need < w { x = self.extract(x, 0, need); }
        self.resize(x, w)
    }
    /// join (x / k) * k * c + (x % k) * c
    fn telescope(&mut self, terms: &mut Vec<(E, u128)>, w: u16) {
        if w > 64 { return; }
        let mut fs: Vec<(usize, (E, u128, u128))> = vec![];
        for (i, t) in terms.iter().enumerate() { let p = self.peel(t.0); if matches!(self.n(p).op, Op::UDiv | Op::URem) { fs.push((i, self.divform(t.0, 8))); } }
        if fs.len() < 2 { return; }
        let mut changed = false;
        'again: loop {
            for x in 0..fs.len() { for y in 0..fs.len() {
                let ((i, f), (j, g)) = (fs[x], fs[y]);
                if x != y && f.0 == g.0 && f.2 != 0 && g.1 == f.1 * f.2 && terms[j].1 == terms[i].1.wrapping_mul(f.2) & mask(w) {
                    fs[x].1 = (f.0, f.1, if g.2 == 0 { 0 } else { f.2 * g.2 }); terms[j].1 = 0; fs.remove(y); changed = true; continue 'again;
                }
            } }
            break;
        }
        if !changed { return; }
        for (i, f) in fs { let e = self.divbuild(f, w); terms[i].0 = e; }
    }
    fn lin_build(&mut self, mut terms: Vec<(E, u128)>, k: u128, w: u16) -> E {
        let mut k = k;
        terms.retain(|t| t.1 != 0);
        // x / k - (x % k < 0) is the division rounding down
        if w <= 64 && terms.len() > 1 { loop {
            let mut hit = None;
            'f: for i in 0..terms.len() { if self.n(terms[i].0).op == Op::SDiv { for j in 0..terms.len() { if i != j && terms[i].1 == terms[j].1 { if let Some(d) = self.floor_div(terms[i].0, terms[j].0) { hit = Some((i, j, d)); break 'f; } } } } }
            let Some((i, j, (d, c))) = hit else { break };
            k = k.wrapping_add(c.wrapping_mul(terms[i].1)) & mask(w);
            let f = terms[i].1; terms[i].0 = d; terms[i].1 = f; terms[j].1 = 0; terms.retain(|t| t.1 != 0);
        } }
        if terms.len() > 1 && terms.iter().any(|t| { let p = self.peel(t.0); self.n(p).op == Op::URem }) {
            self.telescope(&mut terms, w); terms.retain(|t| t.1 != 0);
            if terms.len() == 1 && terms[0].1 == 1 && k == 0 { return terms[0].0; }
        }
        terms.sort();
        let m = mask(w);
        let mut pos: Option<E> = None; let mut negs: Vec<(E, u128)> = vec![];
        for (e, c) in terms {
            let negc = c.wrapping_neg() & m;
            if c != 1 && negc < c && negc < (1 << 62) { negs.push((e, negc)); continue; }
            let t = if c == 1 { e } else { let ke = self.konst(c, w); self.mul_raw(e, ke) };
            pos = Some(match pos { None => t, Some(p) => self.mk(Op::Add, w, p, t, 0, 0) });
        }
        let kneg = k.wrapping_neg() & m;
        let mut use_k = k;
        let mut acc = match pos { Some(p) => p, None => { let z = self.konst(use_k, w); use_k = 0; z } };
        for (e, c) in negs {
            let t = if c == 1 { e } else { let ke = self.konst(c, w); self.mul_raw(e, ke) };
            if let Some(kc) = self.cval(acc) { if kc == 0 && false { } }
            acc = self.mk(Op::Sub, w, acc, t, 0, 0);
        }
        if use_k != 0 {
            let _ = kneg;
            let ke = self.konst(use_k, w);
            acc = self.mk(Op::Add, w, acc, ke, 0, 0);
        }
        acc
    }
    fn mul_raw(&mut self, a: E, b: E) -> E {
        // b const
        let w = self.w(a); let k = self.cval(b).unwrap();
        if k == 0 { return self.konst(0, w); }
        if k == 1 { return a; }
        self.mk(Op::Mul, w, a, b, 0, 0)
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { return self.konst(x.wrapping_add(y), w); }
        if self.is_c(a, 0) { return b; }
        if self.is_c(b, 0) { return a; }
        if w == 1 { return self.bitop(Op::Xor, a, b); }
        if w <= 64 {
            let (na, nb) = (self.n(a).op, self.n(b).op);
            if matches!(na, Op::Concat | Op::ZExt) || matches!(nb, Op::Concat | Op::ZExt) {
                let (za, _) = self.kbits(a, 3); let (zb, _) = self.kbits(b, 3);
                if (!za & !zb) & mask64(w) == 0 { return self.bitop(Op::Or, a, b); }
            }
        }
        if let Some(x) = self.floor_rem_sum(a, b) { return x; }
        if let Some(x) = self.floor_rem_sum(b, a) { return x; }
        // (c . x) - (c . 0) = x
        if let Some(kb) = self.cval(b) { if w <= 64 {
            let p = self.peel(a); let n = self.n(p);
            if n.op == Op::Concat { if let Some(h) = self.cval(n.a) { let lw = self.w(n.b); if h << lw == kb.wrapping_neg() & mask(w) { return self.zext(n.b, w); } } }
        } }
        let mut t = vec![]; let mut k = 0; let mut budget = 24;
        self.lin_collect(a, 1, w, &mut t, &mut k, &mut budget);
        self.lin_collect(b, 1, w, &mut t, &mut k, &mut budget);
        self.lin_build(t, k, w)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { return self.konst(x.wrapping_sub(y), w); }
        if self.is_c(b, 0) { return a; }
        if a == b { return self.konst(0, w); }
        if w == 1 { return self.bitop(Op::Xor, a, b); }
        // -zext(bit) = sext(bit)
        let nb = self.n(b);
        if self.is_c(a, 0) && nb.op == Op::ZExt && self.w(nb.a) == 1 { return self.sext(nb.a, w); }
        if self.is_c(a, 0) && nb.op == Op::SExt && self.w(nb.a) == 1 { return self.zext(nb.a, w); }
        if w <= 64 {
            if let Some(k) = self.cval(b) { let (_, o) = self.kbits(a, 3); if (k as u64) & !o == 0 { return self.bitop(Op::Xor, a, b); } }
            // all-ones minus x  = not x
            if self.is_c(a, mask(w)) { return self.bitop(Op::Xor, b, a); }
        }
        let mut t = vec![]; let mut k = 0; let mut budget = 24;
        let m1 = mask(w);
        self.lin_collect(a, 1, w, &mut t, &mut k, &mut budget);
        self.lin_collect(b, m1, w, &mut t, &mut k, &mut budget);
        self.lin_build(t, k, w)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let (mut a, mut b) = (a, b);
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { return self.konst(x.wrapping_mul(y), w); }
        if self.cval(a).is_some() { std::mem::swap(&mut a, &mut b); }
        if let Some(k) = self.cval(b) {
            if k == 0 { return b; } if k == 1 { return a; }
            if w <= 64 && k.is_power_of_two() && matches!(self.n(a).op, Op::Extract | Op::Concat | Op::ZExt) && self.r(a).uhi.checked_mul(k as u64).is_none() { return self.shl_c(a, k.trailing_zeros() as u16); }
            let mut t = vec![]; let mut kk = 0; let mut budget = 16;
            self.lin_collect(a, k, w, &mut t, &mut kk, &mut budget);
            return self.lin_build(t, kk, w);
        }
        if a > b { std::mem::swap(&mut a, &mut b); }
        self.mk(Op::Mul, w, a, b, 0, 0)
    }
    fn shl_c(&mut self, a: E, s: u16) -> E {
        let w = self.w(a);
        if s == 0 { return a; }
        if s >= w { return self.konst(0, w); }
        let h = self.extract(a, 0, w - s); let z = self.konst(0, s); self.concat(h, z)
    }
    pub fn shift(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.cval(b) {
            if s == 0 { return a; }
            if s >= w as u128 { return if op == Op::AShr { let s = self.extract(a, w - 1, 1); self.sext(s, w) } else { self.konst(0, w) }; }
            let s = s as u16;
            return match op {
                Op::Shl => {
                    // keep small linear values linear: x << s with no overflow = x * 2^s
                    let lin = w <= 64 && !matches!(self.n(a).op, Op::Extract | Op::Concat | Op::ZExt | Op::Var | Op::Xor | Op::And | Op::Or | Op::SExt | Op::Ite);
                    if lin && s < 32 && (self.r(a).uhi as u128) << s <= mask(w) { let k = self.konst(1u128 << s, w); self.mul(a, k) } else { self.shl_c(a, s) }
                }
                Op::LShr => { let h = self.extract(a, s, w - s); self.zext(h, w) }
                _ => { let h = self.extract(a, s, w - s); self.sext(h, w) }
            };
        }
        if self.is_c(a, 0) { return a; }
        self.mk(op, w, a, b, 0, 0)
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        // nested divisions of one value
        if let Some(k) = self.cval(b) { if w <= 64 && k > 1 {
            let pa = self.peel(a);
            if matches!(self.n(pa).op, Op::UDiv | Op::URem) {
                let (x, d, m) = self.divform(pa, 8);
                if self.w(x) <= 64 && k <= mask(self.w(x)) && d.checked_mul(k).is_some_and(|q| q <= mask(self.w(x))) {
                    if m == 0 { return self.divbuild((x, d * k, 0), w); } if m % k == 0 { return self.divbuild((x, d * k, m / k), w); }
                }
            }
        } }
        self.udiv_raw(a, b)
    }
    fn udiv_raw(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { if y != 0 { return self.konst(x / y, w); } }
        if let Some(k) = self.cval(b) {
            if k == 1 { return a; }
            if k.is_power_of_two() { return self.shift_c(Op::LShr, a, k.trailing_zeros() as u16); }
            if w <= 64 && (self.r(a).uhi as u128) < k { return self.konst(0, w); }
            // (x + q*k + r) / k = q + (x + r) / k
            if let Some((x, q, r)) = self.add_split(a, k, w) { let re = self.konst(r, w); let y = self.add(x, re); let ke = self.konst(k, w); let d = self.udiv(y, ke); let qe = self.konst(q, w); return self.add(d, qe); }
            // (x / c1) / c2 = x / (c1*c2)
            let na = self.n(a);
            if na.op == Op::UDiv { if let Some(c1) = self.cval(na.b) { if let Some(c) = c1.checked_mul(k) { if c <= mask(w) { let ce = self.konst(c, w); return self.udiv_raw(na.a, ce); } } } }
            if let Some(x) = self.narrow_div(Op::UDiv, a, k, w) { return x; }
        }
        self.mk(Op::UDiv, w, a, b, 0, 0)
    }
    // a = x + q * k + r without overflow and x + r smaller than the sum
    fn add_split(&self, a: E, k: u128, w: u16) -> Option<(E, u128, u128)> {
        if w > 64 { return None; }
        let n = self.n(a); if n.op != Op::Add { return None; }
        let c = self.cval(n.b)?; if c < k { return None; }
        if self.r(n.a).uhi as u128 + c > mask(w) { return None; }
        Some((n.a, c / k, c % k))
    }
    // divide in the smallest width that holds the value
    fn narrow_div(&mut self, op: Op, a: E, k: u128, w: u16) -> Option<E> {
        if w > 64 { return None; }
        let uhi = self.r(a).uhi;
        let need = (128 - (uhi as u128).max(k).leading_zeros()) as u16;
        let need = need.max(4);
        if need + 8 <= w {
            let x = self.extract(a, 0, need); let ke = self.konst(k, need);
            let d = self.mk(op, need, x, ke, 0, 0);
            return Some(self.zext(d, w));
        }
        None
    }
    fn shift_c(&mut self, op: Op, a: E, s: u16) -> E { let w = self.w(a); let k = self.konst(s as u128, w); self.shift(op, a, k) }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        // nested divisions of one value
        if let Some(k) = self.cval(b) { if w <= 64 && k > 1 {
            let pa = self.peel(a);
            if matches!(self.n(pa).op, Op::UDiv | Op::URem) {
                let (x, d, m) = self.divform(pa, 8);
                if self.w(x) <= 64 && k <= mask(self.w(x)) && d.checked_mul(k).is_some_and(|q| q <= mask(self.w(x))) {
                    if m == 0 || m % k == 0 { let top = self.r(x).uhi as u128 / d; return self.divbuild((x, d, if top < k { 0 } else { k }), w); }
                }
            }
        } }
        self.urem_raw(a, b)
    }
    fn urem_raw(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { if y != 0 { return self.konst(x % y, w); } }
        if let Some(k) = self.cval(b) {
            if k == 1 { return self.konst(0, w); }
            if k.is_power_of_two() { let s = k.trailing_zeros() as u16; let l = self.extract(a, 0, s); return self.zext(l, w); }
            if w <= 64 && (self.r(a).uhi as u128) < k { return a; }
            if let Some((x, _, r)) = self.add_split(a, k, w) { let re = self.konst(r, w); let y = self.add(x, re); let ke = self.konst(k, w); return self.urem(y, ke); }
            if let Some(x) = self.narrow_div(Op::URem, a, k, w) { return x; }
        }
        self.mk(Op::URem, w, a, b, 0, 0)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { if y != 0 { let (x, y) = (sext128(x, w), sext128(y, w)); return self.konst(x.wrapping_div(y) as u128, w); } }
        if self.is_c(b, 1) { return a; }
        if w <= 64 && self.r(a).slo >= 0 && self.r(b).slo > 0 { return self.udiv(a, b); }
        // (x * c) / c where no overflow
        let na = self.n(a);
        if na.op == Op::Mul && w <= 64 && na.b == b && self.cval(b).is_some() && self.mul_fits(na.a, b, w) { return na.a; }
        self.mk(Op::SDiv, w, a, b, 0, 0)
    }
    /// (x, k, m) with m a multiple of k and x + m never negative
    fn lifted(&mut self, x: E, k: E) -> Option<(E, u128)> {
        let w = self.w(x); let kc = self.cval(k)?; if w > 64 || kc < 2 || kc > (1 << 40) { return None; }
        let q = self.r(x); if q.slo >= 0 { return None; }
        let m = (-(q.slo as i128) as u128).div_ceil(kc) * kc; if q.shi as i128 + m as i128 > (mask(w) >> 1) as i128 { return None; }
        let me = self.konst(m, w); Some((self.add(x, me), m))
    }
    /// x / k - (x % k < 0) is the division rounding down
    fn floor_div(&mut self, a: E, b: E) -> Option<(E, u128)> {
        let (na, nb) = (self.n(a), self.n(b));
        if na.op != Op::SDiv || nb.op != Op::SExt || self.w(nb.a) != 1 { return None; }
        let (r, neg) = self.sign_test(nb.a)?; let nr = self.n(r); if !neg || nr.op != Op::SRem || nr.a != na.a || nr.b != na.b { return None; }
        let w = na.w; let (y, m) = self.lifted(na.a, na.b)?; let k = self.cval(na.b)?;
        let d = self.udiv(y, na.b); Some((d, (m / k).wrapping_neg() & mask(w)))
    }
    /// c * (x % k) + (x % k < 0 ? c * k : 0), possibly truncated
    fn floor_rem_sum(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a); if w > 64 { return None; } let nb = self.n(b);
        let (cond, add) = match nb.op { Op::Ite => if self.is_c(nb.c, 0) { (nb.a, self.cval(nb.b)?) } else if self.is_c(nb.b, 0) { let nn = self.not1(nb.a); (nn, self.cval(nb.c)?) } else { return None }, Op::And => { let s = self.n(nb.a); if s.op != Op::SExt || self.w(s.a) != 1 { return None; } (s.a, self.cval(nb.b)?) } _ => return None };
        let (r, neg) = self.sign_test(cond)?; let nr = self.n(r); if !neg || nr.op != Op::SRem { return None; }
        let na = self.n(a); let (t, m) = if na.op == Op::Mul { (na.a, self.cval(na.b)?) } else { (a, 1) };
        let nt = self.n(t); if t != r && !(nt.op == Op::Extract && nt.k == 0 && nt.a == r) { return None; }
        let k = self.cval(nr.b)?; if k.wrapping_mul(m) & mask(w) != add { return None; }
        let (y, _) = self.lifted(nr.a, nr.b)?; let u = self.urem(y, nr.b); let u = self.resize(u, w); let me = self.konst(m, w); Some(self.mul(u, me))
    }
    /// (x % k < 0) ? x % k + k : x % k
    fn floor_rem(&mut self, c: E, a: E, b: E) -> Option<E> {
        let (x, neg) = self.sign_test(c)?; let (plus, plain) = if neg { (a, b) } else { (b, a) };
        let n = self.n(x); if n.op != Op::SRem || plain != x { return None; }
        let p = self.n(plus); if p.op != Op::Add || !((p.a == x && p.b == n.b) || (p.b == x && p.a == n.b)) { return None; }
        let (y, _) = self.lifted(n.a, n.b)?; Some(self.urem(y, n.b))
    }
    fn mul_fits(&self, a: E, b: E, w: u16) -> bool {
        let (ra, rb) = (self.r(a), self.r(b)); let f = full(w);
        for x in [ra.slo as i128, ra.shi as i128] { for y in [rb.slo as i128, rb.shi as i128] { let p = x * y; if p < f.slo as i128 || p > f.shi as i128 { return false; } } }
        true
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { if y != 0 { let (x, y) = (sext128(x, w), sext128(y, w)); return self.konst(x.wrapping_rem(y) as u128, w); } }
        if w <= 64 && self.r(a).slo >= 0 && self.r(b).slo > 0 { return self.urem(a, b); }
        self.mk(Op::SRem, w, a, b, 0, 0)
    }

    // ---------------------------------------------------------------- ite and comparisons
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.cval(c) { return if k == 1 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        let nc = self.n(c);
        if nc.op == Op::Xor && self.is_c(nc.b, 1) { return self.ite(nc.a, b, a); }
        if let Some(x) = self.floor_rem(c, a, b) { return x; }
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.or1(c, b),
                (Some(0), None) => { let nn = self.not1(c); return self.and1(nn, b); }
                (None, Some(0)) => return self.and1(c, a),
                (None, Some(1)) => { let nn = self.not1(c); return self.or1(nn, a); }
                _ => {}
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        // push identical unary structure outwards
        if na.op == nb.op && na.w == nb.w {
            match na.op {
                Op::ZExt | Op::SExt if self.w(na.a) == self.w(nb.a) => { let t = self.ite(c, na.a, nb.a); return if na.op == Op::ZExt { self.zext(t, w) } else { self.sext(t, w) }; }
                Op::SiToFp if self.w(na.a) == self.w(nb.a) => { let t = self.ite(c, na.a, nb.a); return self.si_to_fp(t, w); }
                Op::FMul | Op::FDiv | Op::FAdd | Op::FSub if na.b == nb.b => { let t = self.ite(c, na.a, nb.a); return self.fbin(na.op, t, na.b); }
                Op::FNeg | Op::FRound | Op::FTrunc | Op::FFloor | Op::FCeil => { let t = self.ite(c, na.a, nb.a); return self.fun(na.op, t); }
                _ => {}
            }
        }
        // one side the constant 0.0 / other sitofp: leave
        if w > 1 && na.op == Op::ZExt && nb.op == Op::Const && w <= 64 { let iw = self.w(na.a); if nb.k <= mask(iw) { let k = self.konst(nb.k, iw); let t = self.ite(c, na.a, k); return self.zext(t, w); } }
        if w > 1 && nb.op == Op::ZExt && na.op == Op::Const && w <= 64 { let iw = self.w(nb.a); if na.k <= mask(iw) { let k = self.konst(na.k, iw); let t = self.ite(c, k, nb.a); return self.zext(t, w); } }
        if na.op == Op::Const && nb.op == Op::Const && w > 1 && w <= 64 {
            if na.k == 1 && nb.k == 0 { return self.zext(c, w); }
            if na.k == 0 && nb.k == 1 { let nn = self.not1(c); return self.zext(nn, w); }
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }

    pub fn eq(&mut self, a: E, b: E) -> E {
        let (mut a, mut b) = (a, b);
        if a == b { return self.tru(); }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { return self.konst((x == y) as u128, 1); }
        if self.cval(a).is_some() { std::mem::swap(&mut a, &mut b); }
        if w <= 64 {
            let (ra, rb) = (self.r(a), self.r(b));
            if ra.uhi < rb.ulo || rb.uhi < ra.ulo || ra.shi < rb.slo || rb.shi < ra.slo { return self.fls(); }
            let (za, oa) = self.kbits(a, 3); let (zb, ob) = self.kbits(b, 3);
            if (za & ob) | (oa & zb) != 0 { return self.fls(); }
            let (pa, pb) = (self.peel(a), self.peel(b)); if pa == pb { return self.tru(); }
            if matches!(self.n(pa).op, Op::UDiv | Op::URem) && matches!(self.n(pb).op, Op::UDiv | Op::URem) && self.divform(pa, 8) == self.divform(pb, 8) { return self.tru(); }
        }
        if w == 1 {
            if self.is_c(b, 1) { return a; }
            if self.is_c(b, 0) { return self.not1(a); }
            let x = self.bitop(Op::Xor, a, b); return self.not1(x);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if nb.op == Op::Const {
            match na.op {
                Op::ZExt => { let iw = self.w(na.a); if nb.k > mask(iw) { return self.fls(); } let k = self.konst(nb.k, iw); return self.eq(na.a, k); }
                Op::SExt => { let iw = self.w(na.a); let k = nb.k & mask(iw); if (sext128(k, iw) as u128) & mask(w) != nb.k { return self.fls(); } let k = self.konst(k, iw); return self.eq(na.a, k); }
                Op::Concat => {
                    let lw = self.w(na.b); let hw = w - lw;
                    let hk = self.konst(nb.k >> lw, hw); let lk = self.konst(nb.k, lw);
                    let h = self.eq(na.a, hk); if self.is_c(h, 0) { return h; }
                    let l = self.eq(na.b, lk); if self.is_c(l, 0) { return l; }
                    return self.and1(h, l);
                }
                Op::Ite => {
                    if self.cval(na.b).is_some() || self.cval(na.c).is_some() { let x = self.eq(na.b, b); let y = self.eq(na.c, b); return self.ite(na.a, x, y); }
                    let x = self.eq(na.b, b); let y = self.eq(na.c, b);
                    if self.cval(x).is_some() || self.cval(y).is_some() { return self.ite(na.a, x, y); }
                }
                Op::Add if self.n(na.b).op == Op::Const => { let k = self.konst(nb.k.wrapping_sub(self.n(na.b).k), w); return self.eq(na.a, k); }
                Op::Xor if self.n(na.b).op == Op::Const => { let k = self.konst(nb.k ^ self.n(na.b).k, w); return self.eq(na.a, k); }
                Op::Sub if nb.k == 0 => return self.eq(na.a, na.b),
                Op::Sub if self.n(na.a).op == Op::Const => { let k = self.konst(self.n(na.a).k.wrapping_sub(nb.k), w); return self.eq(na.b, k); }
                Op::Xor if nb.k == 0 => return self.eq(na.a, na.b),
                _ => {}
            }
        } else {
            match (na.op, nb.op) {
                (Op::ZExt, Op::ZExt) => {
                    let (wa, wb) = (self.w(na.a), self.w(nb.a)); let m = wa.max(wb);
                    let x = self.zext(na.a, m); let y = self.zext(nb.a, m); return self.eq(x, y);
                }
                (Op::SExt, Op::SExt) if self.w(na.a) == self.w(nb.a) => return self.eq(na.a, nb.a),
                (Op::Concat, Op::Concat) if self.w(na.b) == self.w(nb.b) => {
                    let h = self.eq(na.a, nb.a); if self.is_c(h, 0) { return h; }
                    let l = self.eq(na.b, nb.b); return self.and1(h, l);
                }
                (Op::Add, _) | (Op::Sub, _) | (_, Op::Add) | (_, Op::Sub) => {
                    // a == b  <=>  a - b == 0 when that simplifies
                    let d = self.sub(a, b);
                    if let Some(k) = self.cval(d) { return self.konst((k == 0) as u128, 1); }
                    let nd = self.n(d);
                    if matches!(nd.op, Op::Var | Op::Extract | Op::ZExt | Op::SExt) || (nd.op == Op::Add && self.n(nd.b).op == Op::Const && !matches!(self.n(nd.a).op, Op::Add | Op::Sub)) || (nd.op == Op::Sub && !matches!(self.n(nd.a).op, Op::Add | Op::Sub) && !matches!(self.n(nd.b).op, Op::Add | Op::Sub)) {
                        if nd.op == Op::Sub { if !(nd.a == a && nd.b == b) && !(nd.a == b && nd.b == a) { return self.eq(nd.a, nd.b); } }
                        else { let z = self.konst(0, w); return self.eq(d, z); }
                    }
                }
                _ => {}
            }
        }
        if a > b && self.cval(b).is_none() { std::mem::swap(&mut a, &mut b); }
        self.mk(Op::Eq, 1, a, b, 0, 0)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b { return self.fls(); }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { return self.konst((x < y) as u128, 1); }
        if w <= 64 {
            let (ra, rb) = (self.r(a), self.r(b));
            if ra.uhi < rb.ulo { return self.tru(); }
            if ra.ulo >= rb.uhi { return self.fls(); }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if nb.op == Op::Const && nb.k == 1 { let z = self.konst(0, w); return self.eq(a, z); }
        if na.op == Op::Const && na.k == mask(w) - 1 { let z = self.konst(mask(w), w); return self.eq(b, z); }
        if na.op == Op::Const && na.k == 0 { let z = self.konst(0, w); let e = self.eq(b, z); return self.not1(e); }
        if na.op == Op::ZExt && nb.op == Op::Const { let iw = self.w(na.a); if nb.k <= mask(iw) { let k = self.konst(nb.k, iw); return self.ult(na.a, k); } return self.tru(); }
        if nb.op == Op::ZExt && na.op == Op::Const { let iw = self.w(nb.a); if na.k <= mask(iw) { let k = self.konst(na.k, iw); return self.ult(k, nb.a); } return self.fls(); }
        if na.op == Op::ZExt && nb.op == Op::ZExt { let m = self.w(na.a).max(self.w(nb.a)); let x = self.zext(na.a, m); let y = self.zext(nb.a, m); if m < w { return self.ult(x, y); } }
        if na.op == Op::Ite && nb.op == Op::Const && (self.cval(na.b).is_some() || self.cval(na.c).is_some()) { let x = self.ult(na.b, b); let y = self.ult(na.c, b); return self.ite(na.a, x, y); }
        if nb.op == Op::Ite && na.op == Op::Const && (self.cval(nb.b).is_some() || self.cval(nb.c).is_some()) { let x = self.ult(a, nb.b); let y = self.ult(a, nb.c); return self.ite(nb.a, x, y); }
        self.mk(Op::Ult, 1, a, b, 0, 0)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        if a == b { return self.tru(); }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { return self.konst((x <= y) as u128, 1); }
        if w <= 64 {
            let (ra, rb) = (self.r(a), self.r(b));
            if ra.uhi <= rb.ulo { return self.tru(); }
            if ra.ulo > rb.uhi { return self.fls(); }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if nb.op == Op::Const && nb.k < mask(w) { let k = self.konst(nb.k + 1, w); return self.ult(a, k); }
        if na.op == Op::Const && na.k > 0 { let k = self.konst(na.k - 1, w); return self.ult(k, b); }
        if na.op == Op::ZExt && nb.op == Op::ZExt { let m = self.w(na.a).max(self.w(nb.a)); let x = self.zext(na.a, m); let y = self.zext(nb.a, m); if m < w { return self.ule(x, y); } }
        self.mk(Op::Ule, 1, a, b, 0, 0)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b { return self.fls(); }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { return self.konst((sext128(x, w) < sext128(y, w)) as u128, 1); }
        if w <= 64 {
            let (ra, rb) = (self.r(a), self.r(b));
            if ra.shi < rb.slo { return self.tru(); }
            if ra.slo >= rb.shi { return self.fls(); }
            if ra.slo >= 0 && rb.slo >= 0 { return self.ult(a, b); }
            if ra.shi < 0 && rb.shi < 0 { return self.ult(a, b); }
        }
        if self.is_c(b, 0) { return self.extract(a, w - 1, 1); }
        if self.is_c(a, mask(w)) { let s = self.extract(b, w - 1, 1); return self.not1(s); }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::SExt && nb.op == Op::SExt { let m = self.w(na.a).max(self.w(nb.a)); let x = self.sext(na.a, m); let y = self.sext(nb.a, m); if m < w { return self.slt(x, y); } }
        if na.op == Op::SExt && nb.op == Op::Const { let iw = self.w(na.a); let k = self.konst(nb.k, iw); if sext128(nb.k & mask(iw), iw) == sext128(nb.k, w) { return self.slt(na.a, k); } }
        if nb.op == Op::SExt && na.op == Op::Const { let iw = self.w(nb.a); let k = self.konst(na.k, iw); if sext128(na.k & mask(iw), iw) == sext128(na.k, w) { return self.slt(k, nb.a); } }
        if na.op == Op::Ite && nb.op == Op::Const && (self.cval(na.b).is_some() || self.cval(na.c).is_some()) { let x = self.slt(na.b, b); let y = self.slt(na.c, b); return self.ite(na.a, x, y); }
        if nb.op == Op::Ite && na.op == Op::Const && (self.cval(nb.b).is_some() || self.cval(nb.c).is_some()) { let x = self.slt(a, nb.b); let y = self.slt(a, nb.c); return self.ite(nb.a, x, y); }
        self.mk(Op::Slt, 1, a, b, 0, 0)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        if a == b { return self.tru(); }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { return self.konst((sext128(x, w) <= sext128(y, w)) as u128, 1); }
        if w <= 64 {
            let (ra, rb) = (self.r(a), self.r(b));
            if ra.shi <= rb.slo { return self.tru(); }
            if ra.slo > rb.shi { return self.fls(); }
            if (ra.slo >= 0 && rb.slo >= 0) || (ra.shi < 0 && rb.shi < 0) { return self.ule(a, b); }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if nb.op == Op::Const && sext128(nb.k, w) != sext128(mask(w) >> 1, w) { let k = self.konst(nb.k.wrapping_add(1), w); return self.slt(a, k); }
        if na.op == Op::Const && na.k != (1u128 << (w - 1)) { let k = self.konst(na.k.wrapping_sub(1), w); return self.slt(k, b); }
        self.mk(Op::Sle, 1, a, b, 0, 0)
    }

    // ---------------------------------------------------------------- floating point constructors
    pub fn si_to_fp(&mut self, a: E, w: u16) -> E {
        if let Some(k) = self.cval(a) { let v = si_to_f(k, self.w(a), w); return self.konst(v as u128, w); }
        let na = self.n(a);
        if na.op == Op::SExt { return self.si_to_fp(na.a, w); }
        if na.op == Op::ZExt { return self.ui_to_fp(na.a, w); }
        self.mk(Op::SiToFp, w, a, 0, 0, 0)
    }
    pub fn ui_to_fp(&mut self, a: E, w: u16) -> E {
        if let Some(k) = self.cval(a) { let v = ui_to_f(k, w); return self.konst(v as u128, w); }
        let na = self.n(a);
        if na.op == Op::ZExt { return self.ui_to_fp(na.a, w); }
        if self.w(a) <= 64 && self.r(a).slo >= 0 { return self.mk(Op::SiToFp, w, a, 0, 0, 0); }
        self.mk(Op::UiToFp, w, a, 0, 0, 0)
    }
    pub fn fbin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { let v = fop2(op, w, x as u64, y as u64); return self.konst(v as u128, w); }
        let (mut a, mut b) = (a, b);
        if matches!(op, Op::FMul | Op::FAdd) && self.cval(a).is_some() { std::mem::swap(&mut a, &mut b); }
        if w == 64 { if let Some(k) = self.cval(b) { let f = f64::from_bits(k as u64);
            if f == 1.0 && matches!(op, Op::FMul | Op::FDiv) { return a; }
            if k == 0 && op == Op::FSub { return a; } // x - (+0) = x
        } }
        self.mk(op, w, a, b, 0, 0)
    }
    pub fn fun(&mut self, op: Op, a: E) -> E {
        let w = self.w(a);
        if let Some(x) = self.cval(a) { let v = fop1(op, w, x as u64); return self.konst(v as u128, w); }
        let na = self.n(a);
        if op == Op::FNeg && na.op == Op::FNeg { return na.a; }
        if matches!(op, Op::FRound | Op::FTrunc | Op::FFloor | Op::FCeil | Op::FRint) && matches!(na.op, Op::FRound | Op::FTrunc | Op::FFloor | Op::FCeil | Op::FRint | Op::SiToFp | Op::UiToFp) { return a; }
        self.mk(op, w, a, 0, 0, 0)
    }
    pub fn fpext(&mut self, a: E, w: u16) -> E {
        if let Some(x) = self.cval(a) { let v = (f32::from_bits(x as u32) as f64).to_bits(); return self.konst(v as u128, w); }
        self.mk(Op::FpExt, w, a, 0, 0, 0)
    }
    pub fn fptrunc(&mut self, a: E, w: u16) -> E {
        if let Some(x) = self.cval(a) { let v = (f64::from_bits(x as u64) as f32).to_bits(); return self.konst(v as u128, w); }
        self.mk(Op::FpTruncTo, w, a, 0, 0, 0)
    }
    pub fn mk_var(&mut self, id: u32) -> E { let w = self.vars[id as usize].w; self.mk(Op::Var, w, 0, 0, 0, id as u128) }
    pub fn raw_f(&mut self, op: Op, w: u16, a: E, b: E) -> E { self.mk(op, w, a, b, 0, 0) }

    // ---------------------------------------------------------------- variables, evaluation
    pub fn varset(&mut self, e: E) -> std::rc::Rc<Vec<u32>> {
        if let Some(v) = &self.varsets[e as usize] { return v.clone(); }
        let n = self.n(e);
        let r: std::rc::Rc<Vec<u32>> = match n.op {
            Op::Const => std::rc::Rc::new(vec![]),
            Op::Var => std::rc::Rc::new(vec![n.k as u32]),
            _ => {
                let mut v: Vec<u32> = vec![];
                let mut first: Option<std::rc::Rc<Vec<u32>>> = None;
                let mut single = true;
                for x in [n.a, n.b, n.c] { if x != 0 { let s = self.varset(x); if s.is_empty() { continue; } if first.is_none() { first = Some(s.clone()); } else if !std::rc::Rc::ptr_eq(first.as_ref().unwrap(), &s) { single = false; } v.extend(s.iter()); } }
                if single { first.unwrap_or_else(|| std::rc::Rc::new(vec![])) } else { v.sort(); v.dedup(); std::rc::Rc::new(v) }
            }
        };
        self.varsets[e as usize] = Some(r.clone());
        r
    }

    pub fn eval_begin(&mut self) { self.ev_cur += 1; let n = self.nodes.len(); if self.ev_val.len() < n { self.ev_val.resize(n + n / 2, 0); self.ev_stamp.resize(n + n / 2, 0); } }
    /// evaluate under a model (value of every variable by id); call eval_begin after changing the model
    pub fn eval(&mut self, e: E, model: &[u128]) -> u128 {
        if self.ev_val.len() < self.nodes.len() { let n = self.nodes.len(); self.ev_val.resize(n + n / 2, 0); self.ev_stamp.resize(n + n / 2, 0); }
        if self.ev_stamp[e as usize] == self.ev_cur { return self.ev_val[e as usize]; }
        let n = self.n(e);
        let w = n.w;
        let m = mask(w);
        let v = match n.op {
            Op::Const => n.k,
            Op::Var => model.get(n.k as usize).copied().unwrap_or_else(|| { let vi = &self.vars[n.k as usize]; (vi.lo as i128 as u128) & mask(vi.w) }),
            Op::Ite => { if self.eval(n.a, model) == 1 { self.eval(n.b, model) } else { self.eval(n.c, model) } }
            _ => {
                let aw = self.w(n.a);
                let a = self.eval(n.a, model);
                let b = if n.b != 0 { self.eval(n.b, model) } else { 0 };
                match n.op {
                    Op::Add => a.wrapping_add(b) & m,
                    Op::Sub => a.wrapping_sub(b) & m,
                    Op::Mul => a.wrapping_mul(b) & m,
                    Op::UDiv => if b == 0 { m } else { a / b },
                    Op::URem => if b == 0 { a } else { a % b },
                    Op::SDiv => { let (x, y) = (sext128(a, w), sext128(b, w)); if y == 0 { if x >= 0 { m } else { 1 } } else { (x.wrapping_div(y) as u128) & m } }
                    Op::SRem => { let (x, y) = (sext128(a, w), sext128(b, w)); if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m } }
                    Op::And => a & b, Op::Or => a | b, Op::Xor => a ^ b,
                    Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
                    Op::LShr => if b >= w as u128 { 0 } else { a >> b },
                    Op::AShr => { let s = sext128(a, w); ((if b >= w as u128 { if s < 0 { -1 } else { 0 } } else { s >> b }) as u128) & m }
                    Op::Concat => (a << self.w(n.b)) | b,
                    Op::Extract => (a >> n.k) & m,
                    Op::ZExt => a,
                    Op::SExt => (sext128(a, aw) as u128) & m,
                    Op::Eq => (a == b) as u128, Op::Ult => (a < b) as u128, Op::Ule => (a <= b) as u128,
                    Op::Slt => (sext128(a, aw) < sext128(b, aw)) as u128, Op::Sle => (sext128(a, aw) <= sext128(b, aw)) as u128,
                    Op::SiToFp => si_to_f(a, aw, w) as u128,
                    Op::UiToFp => ui_to_f(a, w) as u128,
                    Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem => fop2(n.op, w, a as u64, b as u64) as u128,
                    Op::FNeg | Op::FAbs | Op::FRound | Op::FTrunc | Op::FFloor | Op::FCeil | Op::FRint | Op::FSqrt => fop1(n.op, w, a as u64) as u128,
                    Op::FpExt => (f32::from_bits(a as u32) as f64).to_bits() as u128,
                    Op::FpTruncTo => (f64::from_bits(a as u64) as f32).to_bits() as u128,
                    Op::FToSi => f_to_si(aw, a as u64, w),
                    Op::FToUi => f_to_ui(aw, a as u64, w),
                    Op::FOlt | Op::FOle | Op::FOeq | Op::FUno => fcmp(n.op, aw, a as u64, b as u64) as u128,
                    _ => unreachable!(),
                }
            }
        };
        self.ev_val[e as usize] = v;
        self.ev_stamp[e as usize] = self.ev_cur;
        v
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Var => self.vars[n.k as usize].name.clone(),
            _ => {
                if depth == 0 { return format!("..{}", e); }
                let mut s = format!("({:?}:{}", n.op, n.w);
                if n.op == Op::Extract { s += &format!("@{}", n.k); }
                for x in [n.a, n.b, n.c] { if x != 0 { s += " "; s += &self.show(x, depth - 1); } }
                s + ")"
            }
        }
    }
}

pub fn meet(a: Rng, b: Rng) -> Rng { Rng { ulo: a.ulo.max(b.ulo), uhi: a.uhi.min(b.uhi), slo: a.slo.max(b.slo), shi: a.shi.min(b.shi) } }
