//! Lazy parser / compiler from textual LLVM IR to a register machine over scalar lanes.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Debug, PartialEq, Eq, Hash)]
pub enum Ty { Void, Int(u16), Ptr, F32, F64, Arr(u64, Rc<Ty>), Struct(Vec<Rc<Ty>>, bool), Vector(u64, Rc<Ty>), Meta }

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = ((*w as u64 + 7) / 8).next_power_of_two(); b.min(16) }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vector(_, _) => self.size().next_power_of_two().max(1),
            Ty::Struct(ts, packed) => if *packed { 1 } else { ts.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 { match self { Ty::Int(w) => (*w as u64 + 7) / 8, _ => self.size() } }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = b.next_power_of_two().min(16); (b + a - 1) / a * a }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vector(n, t) => (n * t.bits() as u64 + 7) / 8,
            Ty::Struct(ts, packed) => {
                let mut o = 0u64;
                for t in ts { if !*packed { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); }
                if !*packed { let a = self.align(); o = (o + a - 1) / a * a; }
                o
            }
            _ => 0,
        }
    }
    pub fn bits(&self) -> u16 { match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => panic!("bits of {:?}", self) } }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(ts, packed) => {
                let mut o = 0u64;
                for (k, t) in ts.iter().enumerate() { if !*packed { let a = t.align(); o = (o + a - 1) / a * a; } if k == i { return o; } o += t.size(); }
                panic!()
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vector(_, t) => t.size() * i as u64,
            _ => panic!("field_off {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> Rc<Ty> { match self { Ty::Struct(ts, _) => ts[i].clone(), Ty::Arr(_, t) | Ty::Vector(_, t) => t.clone(), _ => panic!("elem {:?}", self) } }
    /// flatten into (width, byte offset) scalar lanes
    pub fn lanes(&self, off: u64, out: &mut Vec<(u16, u64)>) {
        match self {
            Ty::Void | Ty::Meta => {}
            Ty::Struct(ts, _) => for (i, t) in ts.iter().enumerate() { t.lanes(off + self.field_off(i), out) },
            Ty::Arr(n, t) => for i in 0..*n { t.lanes(off + i * t.size(), out) },
            Ty::Vector(n, t) => for i in 0..*n { t.lanes(off + i * t.size(), out) },
            _ => out.push((self.bits(), off)),
        }
    }
    pub fn lv(&self) -> Vec<(u16, u64)> { let mut v = vec![]; self.lanes(0, &mut v); v }
    pub fn nl(&self) -> usize { match self { Ty::Void | Ty::Meta => 0, Ty::Struct(ts, _) => ts.iter().map(|t| t.nl()).sum(), Ty::Arr(n, t) | Ty::Vector(n, t) => *n as usize * t.nl(), _ => 1 } }
    pub fn is_float(&self) -> bool { match self { Ty::F32 | Ty::F64 => true, Ty::Vector(_, t) => t.is_float(), _ => false } }
    pub fn scalar_w(&self) -> u16 { match self { Ty::Vector(_, t) => t.bits(), _ => self.bits() } }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tok<'a> { Loc(&'a str), Glob(&'a str), Meta, Attr(&'a str), Int(&'a str), Flt(&'a str), Str(&'a str), Word(&'a str), P(u8), Dots, Nl, Eof }

pub struct Lexer<'a> { pub s: &'a str, pub i: usize }
fn idc(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }
impl<'a> Lexer<'a> {
    fn quoted(&mut self) -> &'a str { // at opening quote
        let b = self.s.as_bytes(); let st = self.i + 1; let mut j = st; while b[j] != b'"' { j += 1; } self.i = j + 1; &self.s[st..j]
    }
    fn name(&mut self) -> &'a str {
        let b = self.s.as_bytes();
        if b[self.i] == b'"' { return self.quoted(); }
        let st = self.i; while self.i < b.len() && idc(b[self.i]) { self.i += 1; } &self.s[st..self.i]
    }
    pub fn next(&mut self) -> Tok<'a> {
        let b = self.s.as_bytes();
        loop {
            if self.i >= b.len() { return Tok::Eof; }
            let c = b[self.i];
            match c {
                b' ' | b'\t' | b'\r' => { self.i += 1; }
                b'\n' => { self.i += 1; return Tok::Nl; }
                b';' => { while self.i < b.len() && b[self.i] != b'\n' { self.i += 1; } }
                b'%' => { self.i += 1; return Tok::Loc(self.name()); }
                b'@' => { self.i += 1; return Tok::Glob(self.name()); }
                b'!' => { self.i += 1; if self.i < b.len() && (idc(b[self.i])) { self.name(); } return Tok::Meta; }
                b'#' => { self.i += 1; return Tok::Attr(self.name()); }
                b'"' => { return Tok::Str(self.quoted()); }
                b'c' if self.i + 1 < b.len() && b[self.i + 1] == b'"' => { self.i += 1; return Tok::Str(self.quoted()); }
                b'.' if b[self.i..].starts_with(b"...") => { self.i += 3; return Tok::Dots; }
                b'0'..=b'9' | b'-' => {
                    let st = self.i; self.i += 1;
                    if b[st] == b'0' && self.i < b.len() && b[self.i] == b'x' { while self.i < b.len() && b[self.i].is_ascii_alphanumeric() { self.i += 1; } return Tok::Flt(&self.s[st..self.i]); }
                    let mut fl = false;
                    while self.i < b.len() && (b[self.i].is_ascii_digit() || b[self.i] == b'.' || (fl && matches!(b[self.i], b'e' | b'E' | b'+' | b'-'))) { if b[self.i] == b'.' { fl = true; } self.i += 1; }
                    let t = &self.s[st..self.i];
                    return if fl { Tok::Flt(t) } else { Tok::Int(t) };
                }
                c if c.is_ascii_alphabetic() || c == b'_' || c == b'$' || (c == b'.' && self.s.as_bytes().get(self.i+1).map_or(false, |x| x.is_ascii_alphabetic())) => { return Tok::Word(self.name()); }
                _ => { self.i += 1; return Tok::P(c); }
            }
        }
    }
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes(); let mut o = vec![]; let mut i = 0;
    while i < b.len() { if b[i] == b'\\' { if b[i + 1] == b'\\' { o.push(b'\\'); i += 2; } else { o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap()); i += 3; } } else { o.push(b[i]); i += 1; } }
    o
}

// ---------------------------------------------------------------------------------------------- code
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum B { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum P { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FP { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum C { Trunc, ZExt, SExt, SiToFp, UiToFp, FpToSi, FpToUi, FpExt, FpTrunc }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum In {
    Nop, Memcpy, Memset, UMin, UMax, SMin, SMax, Abs, Ctlz, Cttz, Ctpop, Bswap, Bitrev, Fshl, Fshr,
    SAddO, UAddO, SSubO, USubO, SMulO, UMulO, UAddS, USubS, SAddS, SSubS, FpToSiSat, FpToUiSat,
    FRound, FTrunc, FFloor, FCeil, FRint, FSqrt, FAbs, FMulAdd, FMin, FMax, FCopysign, UCmp, SCmp, IsConst, Tls, Psadbw, Pmaddwd, Trap, Pause, VRed(B), VRedU(u8), Expect,
    TypeId, MaskedLoad,
}
#[derive(Clone, Copy, Debug)]
pub enum Callee { Fn(u32), Ind(u32), Intr(In) }
#[derive(Debug)]
pub struct CallInfo { pub callee: Callee, pub args: Vec<u32>, pub widths: Vec<u16>, pub d: u32, pub nd: u32, pub rw: u16, pub normal: u32, pub unwind: u32 }
#[derive(Debug)]
pub struct SwitchInfo { pub v: u32, pub w: u16, pub default: u32, pub cases: Vec<(u64, u32)> }
#[derive(Debug, Clone)]
pub struct Edge { pub target: u32, pub moves: Vec<(u32, u32)>, pub par: bool }

#[derive(Clone, Copy, Debug)]
pub enum I {
    Bin { op: B, w: u16, d: u32, a: u32, b: u32 },
    Add64 { d: u32, a: u32, b: u32 },
    Cmp { p: P, w: u16, d: u32, a: u32, b: u32 },
    CmpBr { p: P, w: u16, d: u32, a: u32, b: u32, t: u32, f: u32 },
    FCmp { p: FP, w: u16, d: u32, a: u32, b: u32 },
    FNeg { w: u16, d: u32, a: u32 },
    Cast { c: C, fw: u16, tw: u16, d: u32, a: u32 },
    GepC { d: u32, a: u32, k: i64 },
    GepI { d: u32, a: u32, i: u32, iw: u16, scale: i64 },
    Load { d: u32, a: u32, off: u32, w: u16 },
    Store { v: u32, a: u32, off: u32, w: u16 },
    Sel { w: u16, d: u32, c: u32, a: u32, b: u32 },
    Mov { d: u32, a: u32 },
    Cat { d: u32, srcs: u32, n: u32, w: u16 },   // srcs index into pool, lowest lane first
    Split { d: u32, a: u32, n: u32, w: u16 },    // lane i = extract(a, i*w, w)
    DynExt { d: u32, src: u32, n: u32, i: u32 },
    DynIns { d: u32, src: u32, n: u32, v: u32, i: u32, w: u16 },
    Alloca { d: u32, off: u32 },
    AllocaDyn { d: u32, n: u32, size: u64 },
    Br { e: u32 },
    CondBr { c: u32, t: u32, f: u32 },
    Switch { s: u32 },
    Call { c: u32 },
    Ret { srcs: u32, n: u32 },
    Rmw { op: u8, d: u32, a: u32, v: u32, w: u16 },
    CmpXchg { d: u32, a: u32, o: u32, n: u32, w: u16 },
    LandingPad { d: u32, kind: u8 },
    Resume { a: u32 },
    Unreachable,
}

pub struct Code {
    pub name: String, pub nregs: u32, pub frame: u32, pub ins: Vec<I>, pub edges: Vec<Edge>, pub calls: Vec<CallInfo>, pub switches: Vec<SwitchInfo>, pub pool: Vec<u32>,
    pub nparams: u32, pub byval: Vec<(u32, u64)>,
}
pub struct Func { pub name: String, pub span: (usize, usize), pub decl: bool, pub code: Option<Rc<Code>>, pub ext: u32, pub seen: bool }
pub struct Global { pub name: String, pub addr: u64, pub size: u64, pub tls: bool }

pub const KBIT: u32 = 1 << 31;
pub const FBASE: u64 = 0x7d00_0000_0000;

pub struct Module {
    pub src: &'static str,
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    pub types: HashMap<String, Rc<Ty>>,
    pub consts: Vec<(u128, bool)>, // value, wide
    pub cmap: HashMap<(u128, bool), u32>,
    pub tls_size: u64,
    pub inits: Vec<(u32, usize, usize)>, // global index, initializer span
    pub aliases: HashMap<String, String>,
}

#[derive(Clone, Debug)]
pub enum Cv { Int(u128), Wide(u128), Addr(u64), Zero, Undef, Agg(Vec<(Rc<Ty>, Cv)>), Bytes(Vec<u8>), Splat(Box<Cv>) }

pub struct Parser<'m> { pub m: &'m mut Module, pub t: Vec<Tok<'static>>, pub p: usize, f: FnState }
#[derive(Default)]
struct FnState { names: HashMap<&'static str, (u32, Rc2)>, nregs: u32, frame: u32, ins: Vec<I>, edges: Vec<Edge>, calls: Vec<CallInfo>, switches: Vec<SwitchInfo>, pool: Vec<u32>,
    labels: HashMap<String, u32>, cur: String, phis: HashMap<String, Vec<(u32, u32, Vec<(String, Vec<u32>)>)>>, eds: Vec<(String, String)> }
type Rc2 = u32;

impl Module {
    pub fn konst(&mut self, v: u128, w: u16) -> u32 {
        let v = v & crate::expr::mask(w); let key = (v, w > 64);
        if let Some(&i) = self.cmap.get(&key) { return i | KBIT; }
        let i = self.consts.len() as u32; self.consts.push(key); self.cmap.insert(key, i); i | KBIT
    }
    pub fn load(src: &'static str, gbase: u64) -> Module {
        let mut m = Module { src, funcs: vec![], fmap: HashMap::new(), globals: vec![], gmap: HashMap::new(), types: HashMap::new(), consts: vec![], cmap: HashMap::new(), tls_size: 0, inits: vec![], aliases: HashMap::new() };
        let b = src.as_bytes();
        let mut i = 0; let mut glines = vec![];
        while i < b.len() {
            let e = src[i..].find('\n').map(|x| i + x).unwrap_or(b.len());
            let line = &src[i..e];
            if line.starts_with("define ") {
                let end = i + src[i..].find("\n}\n").expect("function end") + 3;
                let name = fname(line);
                let id = m.funcs.len() as u32; m.fmap.insert(name.clone(), id);
                m.funcs.push(Func { name, span: (i, end), decl: false, code: None, ext: 0, seen: false });
                i = end; continue;
            } else if line.starts_with("declare ") {
                let name = fname(line); let id = m.funcs.len() as u32; m.fmap.insert(name.clone(), id);
                m.funcs.push(Func { name, span: (i, e), decl: true, code: None, ext: 0, seen: false });
            } else if line.starts_with('@') { glines.push((i, e)); }
            else if line.starts_with('%') {
                let mut lx = Lexer { s: line, i: 0 }; let n = match lx.next() { Tok::Loc(n) => n.to_string(), _ => panic!() };
                if let Some(x) = line.find("= type ") { let mut p = Parser::new(&mut m, &line[x + 7..]); if p.peek() != Tok::Word("opaque") { let t = p.ty(); m.types.insert(n, t); } }
            }
            i = e + 1;
        }
        // pass 1: layout
        let mut addr = gbase;
        for (s, e) in glines {
            let line = &src[s..e];
            let mut p = Parser::new(&mut m, line);
            let name = match p.bump() { Tok::Glob(n) => n.to_string(), t => panic!("{:?}", t) };
            p.expect(b'=');
            let mut tls = false; let mut external = false;
            loop {
                match p.peek() {
                    Tok::Word("global") | Tok::Word("constant") => { p.p += 1; break; }
                    Tok::Word("alias") => { // alias ty, ptr @x
                        let g = p.t[p.p..].iter().rev().find_map(|t| if let Tok::Glob(g) = t { Some(g.to_string()) } else { None }).unwrap();
                        p.m.aliases.insert(name.clone(), g); external = true; break;
                    }
                    Tok::Word("thread_local") => { tls = true; p.p += 1; if p.peek() == Tok::P(b'(') { p.skip_balanced(); } }
                    Tok::Word("external") | Tok::Word("extern_weak") => { external = true; p.p += 1; }
                    Tok::P(b'(') => p.skip_balanced(),
                    _ => { p.p += 1; }
                }
            }
            if m.aliases.contains_key(&name) { continue; }
            if name.starts_with("llvm.") { continue; }
            let mut p2 = Parser::new(&mut m, line);
            while !matches!(p2.peek(), Tok::Word("global") | Tok::Word("constant")) { p2.p += 1; }
            p2.p += 1;
            let ty = p2.ty();
            let rest_tok = p2.p;
            let mut align = ty.align().max(8);
            for k in rest_tok..p2.t.len() { if p2.t[k] == Tok::Word("align") { if let Tok::Int(a) = p2.t[k + 1] { align = align.max(a.parse().unwrap()); } } }
            let size = ty.size();
            let gi = m.globals.len() as u32;
            let a = if tls { let a = (m.tls_size + align - 1) / align * align; m.tls_size = a + size; a } else { addr = (addr + align - 1) / align * align; let a = addr; addr += size.max(1); a };
            m.globals.push(Global { name: name.clone(), addr: a, size, tls });
            m.gmap.insert(name, gi);
            if !external { m.inits.push((gi, s, e)); }
        }
        m.globals.push(Global { name: "$end".into(), addr, size: 0, tls: false });
        m
    }
    pub fn fn_addr(&self, id: u32) -> u64 { FBASE + id as u64 * 16 }
    pub fn addr_of(&self, name: &str) -> Option<u64> {
        if let Some(&f) = self.fmap.get(name) { return Some(self.fn_addr(f)); }
        if let Some(&g) = self.gmap.get(name) { return Some(self.globals[g as usize].addr); }
        if let Some(a) = self.aliases.get(name) { return self.addr_of(a); }
        None
    }
    /// byte image of every initialised global: calls f(global index, bytes)
    pub fn images(&mut self, mut f: impl FnMut(&Global, Vec<u8>)) {
        let inits = std::mem::take(&mut self.inits);
        for (gi, s, e) in inits {
            let src = self.src;
            let mut p = Parser::new(self, &src[s..e]);
            while !matches!(p.peek(), Tok::Word("global") | Tok::Word("constant")) { p.p += 1; }
            p.p += 1;
            let ty = p.ty(); let c = p.cval(&ty);
            let mut bytes = vec![0u8; ty.size() as usize];
            put(&mut bytes, 0, &ty, &c);
            f(&self.globals[gi as usize], bytes);
        }
    }
    pub fn code(&mut self, id: u32) -> Rc<Code> {
        if let Some(c) = &self.funcs[id as usize].code { return c.clone(); }
        let (s, e) = self.funcs[id as usize].span; let src = self.src;
        let name = self.funcs[id as usize].name.clone();
        let mut p = Parser::new(self, &src[s..e]);
        let c = Rc::new(p.function(name));
        self.funcs[id as usize].code = Some(c.clone());
        self.funcs[id as usize].seen = true;
        c
    }
}
fn put(b: &mut [u8], off: usize, ty: &Ty, c: &Cv) {
    match c {
        Cv::Zero | Cv::Undef => {}
        Cv::Int(v) | Cv::Wide(v) => { let n = ty.store_size() as usize; let bs = v.to_le_bytes(); b[off..off + n].copy_from_slice(&bs[..n]); }
        Cv::Addr(v) => b[off..off + 8].copy_from_slice(&v.to_le_bytes()),
        Cv::Bytes(v) => b[off..off + v.len()].copy_from_slice(v),
        Cv::Agg(v) => for (i, (t, x)) in v.iter().enumerate() { put(b, off + ty.field_off(i) as usize, t, x) },
        Cv::Splat(x) => { if let Ty::Vector(n, t) | Ty::Arr(n, t) = ty { for i in 0..*n as usize { put(b, off + i * t.size() as usize, t, x) } } }
    }
}
fn fname(line: &str) -> String {
    // first @name followed by '('
    let mut lx = Lexer { s: line, i: 0 };
    loop { match lx.next() { Tok::Glob(n) => return n.to_string(), Tok::Eof => panic!("no name: {}", line), _ => {} } }
}

const OPERAND_WORDS: &[&str] = &["true", "false", "null", "undef", "poison", "zeroinitializer", "getelementptr", "inttoptr", "ptrtoint", "bitcast", "trunc", "sub", "add", "xor", "splat", "none", "asm", "blockaddress", "ptrtoaddr", "addrspacecast"];

impl<'m> Parser<'m> {
    pub fn new(m: &'m mut Module, s: &str) -> Parser<'m> {
        let s: &'static str = unsafe { std::mem::transmute(s) };
        let mut lx = Lexer { s, i: 0 }; let mut t = vec![];
        loop { let k = lx.next(); t.push(k); if k == Tok::Eof { break; } }
        Parser { m, t, p: 0, f: FnState::default() }
    }
    #[inline] pub fn peek(&self) -> Tok<'static> { self.t[self.p] }
    fn peekn(&self, n: usize) -> Tok<'static> { self.t.get(self.p + n).copied().unwrap_or(Tok::Eof) }
    pub fn bump(&mut self) -> Tok<'static> { let t = self.t[self.p]; self.p += 1; t }
    pub fn expect(&mut self, c: u8) { let t = self.bump(); if t != Tok::P(c) { panic!("expected {:?} got {:?} near {:?}", c as char, t, &self.t[self.p.saturating_sub(12)..(self.p + 4).min(self.t.len())]); } }
    fn eat(&mut self, c: u8) -> bool { if self.peek() == Tok::P(c) { self.p += 1; true } else { false } }
    fn eatw(&mut self, w: &str) -> bool { if self.peek() == Tok::Word(unsafe { std::mem::transmute::<&str, &'static str>(w) }) { self.p += 1; true } else { false } }
    fn nls(&mut self) { while self.peek() == Tok::Nl { self.p += 1; } }
    fn skip_balanced(&mut self) { let mut d = 0; loop { match self.bump() { Tok::P(b'(') | Tok::P(b'[') | Tok::P(b'{') => d += 1, Tok::P(b')') | Tok::P(b']') | Tok::P(b'}') => { d -= 1; if d == 0 { return; } } Tok::Eof => panic!("unbalanced"), _ => {} } } }
    fn int(&mut self) -> i128 { match self.bump() { Tok::Int(s) => s.parse::<i128>().unwrap_or_else(|_| s.parse::<u128>().unwrap() as i128), t => panic!("int expected {:?}", t) } }

    pub fn is_ty(&self) -> bool {
        match self.peek() {
            Tok::Word(w) => w == "ptr" || w == "void" || w == "float" || w == "double" || w == "metadata" || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())),
            Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') => true,
            Tok::Loc(n) => self.m.types.contains_key(n),
            _ => false,
        }
    }
    pub fn ty(&mut self) -> Rc<Ty> {
        let t = match self.bump() {
            Tok::Word("ptr") => Ty::Ptr, Tok::Word("void") => Ty::Void, Tok::Word("float") => Ty::F32, Tok::Word("double") => Ty::F64, Tok::Word("metadata") => Ty::Meta,
            Tok::Word("label") | Tok::Word("token") => Ty::Meta,
            Tok::Word(w) if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {}", w))),
            Tok::Loc(n) => return self.m.types[n].clone(),
            Tok::P(b'[') => { let n = self.int() as u64; assert!(self.eatw("x")); let t = self.ty(); self.expect(b']'); Ty::Arr(n, t) }
            Tok::P(b'{') => { let v = self.tys(b'}'); Ty::Struct(v, false) }
            Tok::P(b'<') => {
                if self.eat(b'{') { let v = self.tys(b'}'); self.expect(b'>'); Ty::Struct(v, true) }
                else { let n = self.int() as u64; assert!(self.eatw("x")); let t = self.ty(); self.expect(b'>'); Ty::Vector(n, t) }
            }
            t => panic!("type expected, got {:?} near {:?}", t, &self.t[self.p.saturating_sub(10)..(self.p + 4).min(self.t.len())]),
        };
        Rc::new(t)
    }
    fn tys(&mut self, close: u8) -> Vec<Rc<Ty>> { let mut v = vec![]; if self.eat(close) { return v; } loop { v.push(self.ty()); if self.eat(close) { return v; } self.expect(b','); } }

    /// constant of a given type
    pub fn cval(&mut self, ty: &Rc<Ty>) -> Cv {
        match self.bump() {
            Tok::Int(s) => { let v = s.parse::<i128>().unwrap_or_else(|_| s.parse::<u128>().unwrap() as i128); let w = ty.bits(); Cv::Int(v as u128 & crate::expr::mask(w)) }
            Tok::Flt(s) => {
                let f = if let Some(h) = s.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { s.parse::<f64>().unwrap() };
                Cv::Int(if **ty == Ty::F32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 })
            }
            Tok::P(sg @ (b'+' | b'-')) => {
                let Tok::Word(w) = self.peek() else { panic!("const expected behind a sign") }; let w = w.to_string(); self.p += 1; if self.peek() == Tok::P(b'(') { self.skip_balanced(); }
                let f = match w.as_str() { "inf" => f64::INFINITY, "qnan" | "nan" => f64::NAN, _ => panic!("const expected: {}", w) }; let f = if sg == b'-' { -f } else { f };
                Cv::Int(if **ty == Ty::F32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 })
            }
            Tok::Word("true") => Cv::Int(1), Tok::Word("false") => Cv::Int(0), Tok::Word("null") => Cv::Zero, Tok::Word("none") => Cv::Zero,
            Tok::Word("zeroinitializer") => Cv::Zero, Tok::Word("undef") | Tok::Word("poison") => Cv::Undef,
            Tok::Glob(g) => { match self.m.addr_of(g) { Some(a) => Cv::Addr(a), None => panic!("unknown global {}", g) } }
            Tok::Str(s) => Cv::Bytes(unescape(s)),
            Tok::P(b'[') => { let mut v = vec![]; if self.eat(b']') { return Cv::Agg(v); } loop { let t = self.ty(); let c = self.cval(&t); v.push((t, c)); if self.eat(b']') { break; } self.expect(b','); } Cv::Agg(v) }
            Tok::P(b'{') => { let mut v = vec![]; if self.eat(b'}') { return Cv::Agg(v); } loop { let t = self.ty(); let c = self.cval(&t); v.push((t, c)); if self.eat(b'}') { break; } self.expect(b','); } Cv::Agg(v) }
            Tok::P(b'<') => {
                if self.peek() == Tok::P(b'{') { self.p += 1; let mut v = vec![]; if !self.eat(b'}') { loop { let t = self.ty(); let c = self.cval(&t); v.push((t, c)); if self.eat(b'}') { break; } self.expect(b','); } } self.expect(b'>'); Cv::Agg(v) }
                else { let mut v = vec![]; loop { let t = self.ty(); let c = self.cval(&t); v.push((t, c)); if self.eat(b'>') { break; } self.expect(b','); } Cv::Agg(v) }
            }
            Tok::Word("splat") => { self.expect(b'('); let t = self.ty(); let c = self.cval(&t); self.expect(b')'); Cv::Splat(Box::new(c)) }
            Tok::Word("inttoptr") | Tok::Word("ptrtoint") | Tok::Word("bitcast") | Tok::Word("ptrtoaddr") | Tok::Word("addrspacecast") => { self.expect(b'('); let t = self.ty(); let c = self.cval(&t); assert!(self.eatw("to")); self.ty(); self.expect(b')'); c }
            Tok::Word("trunc") => { self.expect(b'('); let t = self.ty(); let c = self.cval(&t); assert!(self.eatw("to")); let t2 = self.ty(); self.expect(b')'); Cv::Int(cvnum(&c) & crate::expr::mask(t2.bits())) }
            Tok::Word(op @ ("add" | "sub" | "xor")) => {
                while matches!(self.peek(), Tok::Word(_)) { self.p += 1; }
                self.expect(b'('); let t = self.ty(); let a = cvnum(&self.cval(&t)); self.expect(b','); let t2 = self.ty(); let b = cvnum(&self.cval(&t2)); self.expect(b')');
                let r = match op { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), _ => a ^ b };
                Cv::Int(r & crate::expr::mask(t.bits()))
            }
            Tok::Word("getelementptr") => {
                loop { match self.peek() { Tok::Word("inrange") => { self.p += 1; self.skip_balanced(); } Tok::Word(_) => { self.p += 1; } _ => break } }
                self.expect(b'('); let t = self.ty(); self.expect(b','); let bt = self.ty(); let base = cvnum(&self.cval(&bt)) as u64;
                let mut idx = vec![];
                while self.eat(b',') { let it = self.ty(); let c = cvnum(&self.cval(&it)); idx.push(crate::expr::sext128(c, it.bits()) as i64); }
                self.expect(b')');
                let mut off = 0i64; let mut cur = t.clone();
                for (k, i) in idx.iter().enumerate() { if k == 0 { off += i * t.size() as i64; } else { off += match &*cur { Ty::Struct(..) => cur.field_off(*i as usize) as i64, _ => cur.elem(0).size() as i64 * i }; cur = cur.elem(if matches!(&*cur, Ty::Struct(..)) { *i as usize } else { 0 }); } }
                Cv::Addr(base.wrapping_add(off as u64))
            }
            t => panic!("const expected, got {:?} near {:?}", t, &self.t[self.p.saturating_sub(10)..(self.p + 4).min(self.t.len())]),
        }
    }
    fn flat(&mut self, ty: &Rc<Ty>, c: &Cv, out: &mut Vec<u32>) {
        match c {
            Cv::Zero | Cv::Undef => { for (w, _) in ty.lv() { let k = self.m.konst(0, w); out.push(k); } }
            Cv::Int(v) | Cv::Wide(v) => { let k = self.m.konst(*v, ty.bits()); out.push(k) }
            Cv::Addr(v) => { let k = self.m.konst(*v as u128, 64); out.push(k) }
            Cv::Agg(v) => for (t, x) in v { self.flat(t, x, out) },
            Cv::Splat(x) => if let Ty::Vector(n, t) | Ty::Arr(n, t) = &**ty { for _ in 0..*n { self.flat(t, x, out) } },
            Cv::Bytes(v) => for b in v { let k = self.m.konst(*b as u128, 8); out.push(k) },
        }
    }

    // ------------------------------------------------------------------ function bodies
    fn def(&mut self, name: &'static str, nl: usize) -> u32 {
        if let Some(&(r, n)) = self.f.names.get(name) { assert!(n as usize == nl, "lane mismatch for %{}: {} vs {}", name, n, nl); return r; }
        let r = self.f.nregs; self.f.nregs += nl as u32; self.f.names.insert(name, (r, nl as u32)); r
    }
    /// parse an operand of a type, returning its lanes
    fn opnd(&mut self, ty: &Rc<Ty>) -> Vec<u32> {
        if let Tok::Loc(n) = self.peek() { self.p += 1; let nl = ty.nl(); let r = self.def(n, nl); return (0..nl as u32).map(|i| r + i).collect(); }
        if **ty == Ty::Meta { while !matches!(self.peek(), Tok::P(b',') | Tok::P(b')') | Tok::Nl) { if self.peek() == Tok::P(b'(') { self.skip_balanced(); } else { self.p += 1; } } return vec![]; }
        let c = self.cval(ty); let mut v = vec![]; self.flat(ty, &c, &mut v); v
    }
    fn tyop(&mut self) -> (Rc<Ty>, Vec<u32>) { let t = self.ty(); let o = self.opnd(&t); (t, o) }
    fn emit(&mut self, i: I) { self.f.ins.push(i) }
    fn skip_attrs(&mut self) {
        loop { match self.peek() {
            Tok::Word(w) if !OPERAND_WORDS.contains(&w) => { self.p += 1; if self.peek() == Tok::P(b'(') { self.skip_balanced(); } else if w == "align" { if let Tok::Int(_) = self.peek() { self.p += 1; } } }
            Tok::Attr(_) => { self.p += 1; }
            Tok::Str(_) => { self.p += 1; if self.eat(b'=') { self.p += 1; } }
            _ => break } }
    }
    fn label_name(&mut self) -> String { assert!(self.eatw("label")); match self.bump() { Tok::Loc(n) => n.to_string(), t => panic!("label {:?}", t) } }
    fn edge(&mut self, to: String) -> u32 { let e = self.f.edges.len() as u32; self.f.edges.push(Edge { target: 0, moves: vec![], par: false }); let from = self.f.cur.clone(); self.f.eds.push((from, to)); e }
    fn eol(&mut self) { while !matches!(self.peek(), Tok::Nl | Tok::Eof) { self.p += 1; } }

    pub fn function(&mut self, name: String) -> Code {
        // header
        while !matches!(self.peek(), Tok::Glob(_)) { self.p += 1; }
        self.p += 1; self.expect(b'(');
        let mut unnamed = 0; let mut byval = vec![]; let mut nparams = 0;
        if !self.eat(b')') {
            loop {
                if self.peek() == Tok::Dots { self.p += 1; self.expect(b')'); break; }
                let t = self.ty();
                let st = self.p; self.skip_attrs();
                let mut bv = None;
                for k in st..self.p { if self.t[k] == Tok::Word("byval") { let save = self.p; self.p = k + 2; let bt = self.ty(); bv = Some(bt.size()); self.p = save; } }
                let nm: &'static str = match self.peek() { Tok::Loc(n) => { self.p += 1; n } _ => { unnamed += 1; Box::leak(format!("{}", unnamed - 1).into_boxed_str()) } };
                let r = self.def(nm, t.nl()); nparams = r + t.nl() as u32;
                if let Some(s) = bv { byval.push((r, s)); }
                if self.eat(b')') { break; }
                self.expect(b',');
            }
        }
        while self.peek() != Tok::P(b'{') { if self.peek() == Tok::P(b'(') { self.skip_balanced() } else { self.p += 1; } }
        self.p += 1;
        self.f.cur = "$entry".into();
        let mut first = true;
        loop {
            self.nls();
            match self.peek() {
                Tok::P(b'}') | Tok::Eof => break,
                Tok::Word(l) | Tok::Int(l) | Tok::Str(l) if self.peekn(1) == Tok::P(b':') => {
                    self.p += 2; let pc = self.f.ins.len() as u32; self.f.labels.insert(l.to_string(), pc); self.f.cur = l.to_string(); first = false; continue;
                }
                Tok::Attr(_) => { self.eol(); continue; }
                _ => {}
            }
            if first { // unnamed entry block: numbered after the parameters
                first = false; let n = self.f.names.iter().filter(|(k, _)| k.bytes().all(|c| c.is_ascii_digit())).count();
                self.f.cur = format!("{}", n); self.f.labels.insert(self.f.cur.clone(), 0);
            }
            self.instr();
            self.eol();
        }
        // resolve edges and phis
        let eds = std::mem::take(&mut self.f.eds);
        for (k, (from, to)) in eds.iter().enumerate() {
            self.f.edges[k].target = *self.f.labels.get(to).unwrap_or_else(|| panic!("label {} in {}", to, name));
            let mut mv = vec![];
            if let Some(ph) = self.f.phis.get(to) {
                for (d, nl, inc) in ph {
                    let src = &inc.iter().find(|(l, _)| l == from).unwrap_or_else(|| panic!("phi edge {} -> {} in {}", from, to, name)).1;
                    for i in 0..*nl as usize { if src[i] != d + i as u32 { mv.push((d + i as u32, src[i])); } }
                }
            }
            let mut par = false;
            for i in 0..mv.len() { for j in i + 1..mv.len() { if mv[j].1 == mv[i].0 { par = true; } } }
            self.f.edges[k].moves = mv; self.f.edges[k].par = par;
        }
        // fuse cmp + condbr
        let f = std::mem::take(&mut self.f);
        let mut ins = f.ins;
        for k in 1..ins.len() {
            if let (I::Cmp { p, w, d, a, b }, I::CondBr { c, t, f }) = (ins[k - 1], ins[k]) { if c == d && w <= 64 { ins[k - 1] = I::CmpBr { p, w, d, a, b, t, f }; } }
        }
        Code { name, nregs: f.nregs, frame: (f.frame + 15) & !15, ins, edges: f.edges, calls: f.calls, switches: f.switches, pool: f.pool, nparams, byval }
    }

    fn instr(&mut self) {
        let mut res: Option<&'static str> = None;
        if let (Tok::Loc(n), Tok::P(b'=')) = (self.peek(), self.peekn(1)) { res = Some(n); self.p += 2; }
        let op = match self.bump() { Tok::Word(w) => w, t => panic!("instr {:?} near {:?}", t, &self.t[self.p.saturating_sub(6)..(self.p + 6).min(self.t.len())]) };
        macro_rules! dst { ($n:expr) => {{ let r = res.expect("result"); self.def(r, $n) }} }
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                let b = match op { "add" => B::Add, "sub" => B::Sub, "mul" => B::Mul, "udiv" => B::UDiv, "sdiv" => B::SDiv, "urem" => B::URem, "srem" => B::SRem, "and" => B::And, "or" => B::Or, "xor" => B::Xor, "shl" => B::Shl, "lshr" => B::LShr, "ashr" => B::AShr, "fadd" => B::FAdd, "fsub" => B::FSub, "fmul" => B::FMul, "fdiv" => B::FDiv, _ => B::FRem };
                while !self.is_ty() { self.p += 1; }
                let t = self.ty(); let a = self.opnd(&t); self.expect(b','); let c = self.opnd(&t);
                let d = dst!(t.nl()); let w = t.scalar_w();
                for i in 0..t.nl() {
                    let dd = d + i as u32;
                    if b == B::Add && w == 64 { self.emit(I::Add64 { d: dd, a: a[i], b: c[i] }) } else { self.emit(I::Bin { op: b, w, d: dd, a: a[i], b: c[i] }) }
                }
            }
            "fneg" => { while !self.is_ty() { self.p += 1; } let t = self.ty(); let a = self.opnd(&t); let d = dst!(t.nl()); for i in 0..t.nl() { self.emit(I::FNeg { w: t.scalar_w(), d: d + i as u32, a: a[i] }) } }
            "icmp" => {
                if self.eatw("samesign") {}
                let p = match self.bump() { Tok::Word(w) => match w { "eq" => P::Eq, "ne" => P::Ne, "ult" => P::Ult, "ule" => P::Ule, "ugt" => P::Ugt, "uge" => P::Uge, "slt" => P::Slt, "sle" => P::Sle, "sgt" => P::Sgt, "sge" => P::Sge, _ => panic!("{}", w) }, _ => panic!() };
                let t = self.ty(); let a = self.opnd(&t); self.expect(b','); let c = self.opnd(&t); let d = dst!(t.nl());
                for i in 0..t.nl() { self.emit(I::Cmp { p, w: t.scalar_w(), d: d + i as u32, a: a[i], b: c[i] }) }
            }
            "fcmp" => {
                let p = loop { match self.bump() { Tok::Word(w) => { let p = match w { "false" => FP::False, "oeq" => FP::Oeq, "ogt" => FP::Ogt, "oge" => FP::Oge, "olt" => FP::Olt, "ole" => FP::Ole, "one" => FP::One, "ord" => FP::Ord, "ueq" => FP::Ueq, "ugt" => FP::Ugt, "uge" => FP::Uge, "ult" => FP::Ult, "ule" => FP::Ule, "une" => FP::Une, "uno" => FP::Uno, "true" => FP::True, _ => continue }; break p; } _ => panic!() } };
                let t = self.ty(); let a = self.opnd(&t); self.expect(b','); let c = self.opnd(&t); let d = dst!(t.nl());
                for i in 0..t.nl() { self.emit(I::FCmp { p, w: t.scalar_w(), d: d + i as u32, a: a[i], b: c[i] }) }
            }
            "trunc" | "zext" | "sext" | "sitofp" | "uitofp" | "fptosi" | "fptoui" | "fpext" | "fptrunc" => {
                while !self.is_ty() { self.p += 1; }
                let c = match op { "trunc" => C::Trunc, "zext" => C::ZExt, "sext" => C::SExt, "sitofp" => C::SiToFp, "uitofp" => C::UiToFp, "fptosi" => C::FpToSi, "fptoui" => C::FpToUi, "fpext" => C::FpExt, _ => C::FpTrunc };
                let (t, a) = self.tyop(); assert!(self.eatw("to")); let t2 = self.ty(); let d = dst!(t2.nl());
                for i in 0..t.nl() { self.emit(I::Cast { c, fw: t.scalar_w(), tw: t2.scalar_w(), d: d + i as u32, a: a[i] }) }
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                let (t, a) = self.tyop(); assert!(self.eatw("to")); let t2 = self.ty(); let d = dst!(t2.nl());
                let (n1, n2) = (t.nl(), t2.nl());
                if op == "ptrtoint" || op == "ptrtoaddr" { if t2.bits() == 64 { self.emit(I::Mov { d, a: a[0] }) } else { let c = if t2.bits() < 64 { C::Trunc } else { C::ZExt }; self.emit(I::Cast { c, fw: 64, tw: t2.bits(), d, a: a[0] }) } }
                else if op == "inttoptr" { if t.bits() == 64 { self.emit(I::Mov { d, a: a[0] }) } else { let c = if t.bits() > 64 { C::Trunc } else { C::ZExt }; self.emit(I::Cast { c, fw: t.bits(), tw: 64, d, a: a[0] }) } }
                else if n1 == n2 { for i in 0..n1 { self.emit(I::Mov { d: d + i as u32, a: a[i] }) } }
                else if n2 == 1 { let s = self.f.pool.len() as u32; self.f.pool.extend(&a); self.emit(I::Cat { d, srcs: s, n: n1 as u32, w: t.scalar_w() }) }
                else if n1 == 1 { self.emit(I::Split { d, a: a[0], n: n2 as u32, w: t2.scalar_w() }) }
                else { // vector to vector reshape
                    let (w1, w2) = (t.scalar_w(), t2.scalar_w());
                    if w1 < w2 { let k = (w2 / w1) as usize; for i in 0..n2 { let s = self.f.pool.len() as u32; let sl: Vec<u32> = a[i * k..(i + 1) * k].to_vec(); self.f.pool.extend(&sl); self.emit(I::Cat { d: d + i as u32, srcs: s, n: k as u32, w: w1 }) } }
                    else { let k = (w1 / w2) as u32; for i in 0..n1 { self.emit(I::Split { d: d + i as u32 * k, a: a[i], n: k, w: w2 }) } }
                }
            }
            "getelementptr" => {
                while !self.is_ty() { if self.peekn(1) == Tok::P(b'(') { self.p += 1; self.skip_balanced(); } else { self.p += 1; } }
                let t = self.ty(); self.expect(b','); let (bt, base) = self.tyop(); assert!(bt.nl() == 1, "vector gep");
                let d = dst!(1);
                let mut off = 0i64; let mut cur = t.clone(); let mut first = true; let mut dynv: Vec<(u32, u16, i64)> = vec![];
                while self.peek() == Tok::P(b',') && !matches!(self.peekn(1), Tok::Meta) {
                    self.p += 1; let (it, ix) = self.tyop(); let ix = ix[0];
                    let (size, next) = if first { (t.size() as i64, t.clone()) } else { match &*cur { Ty::Struct(..) => { let k = self.m.consts[(ix & !KBIT) as usize].0 as usize; off += cur.field_off(k) as i64; (0, cur.elem(k)) } _ => { let e = cur.elem(0); (e.size() as i64, e) } } };
                    let was_struct = !first && matches!(&*cur, Ty::Struct(..));
                    cur = next; first = false;
                    if was_struct { continue; }
                    if ix & KBIT != 0 { let v = self.m.consts[(ix & !KBIT) as usize].0; off = off.wrapping_add(size.wrapping_mul(crate::expr::sext128(v, it.bits()) as i64)); }
                    else if size != 0 { dynv.push((ix, it.bits(), size)); }
                }
                let mut b = base[0];
                if dynv.is_empty() || off != 0 { self.emit(I::GepC { d, a: b, k: off }); b = d; }
                for (i, iw, s) in dynv { self.emit(I::GepI { d, a: b, i, iw, scale: s }); b = d; }
            }
            "load" => {
                while matches!(self.peek(), Tok::Word("atomic") | Tok::Word("volatile")) { self.p += 1; }
                let t = self.ty(); self.expect(b','); let (_, a) = self.tyop(); let d = dst!(t.nl());
                if let Ty::Vector(n, e) = &*t { if e.bits() < 8 { let tw = *n as u16 * e.bits(); let r = self.f.nregs; self.f.nregs += 1; self.emit(I::Load { d: r, a: a[0], off: 0, w: tw }); self.emit(I::Split { d, a: r, n: *n as u32, w: e.bits() }); return; } }
                let lv = t.lv();
                for (i, (w, o)) in lv.iter().enumerate() { self.emit(I::Load { d: d + i as u32, a: a[0], off: *o as u32, w: *w }) }
            }
            "store" => {
                while matches!(self.peek(), Tok::Word("atomic") | Tok::Word("volatile")) { self.p += 1; }
                let (t, v) = self.tyop(); self.expect(b','); let (_, a) = self.tyop();
                if let Ty::Vector(n, e) = &*t { if e.bits() < 8 { let r = self.f.nregs; self.f.nregs += 1; let q = self.f.pool.len() as u32; self.f.pool.extend(&v); self.emit(I::Cat { d: r, srcs: q, n: *n as u32, w: e.bits() }); self.emit(I::Store { v: r, a: a[0], off: 0, w: *n as u16 * e.bits() }); return; } }
                for (i, (w, o)) in t.lv().iter().enumerate() { self.emit(I::Store { v: v[i], a: a[0], off: *o as u32, w: *w }) }
            }
            "alloca" => {
                if self.eatw("inalloca") {}
                let t = self.ty(); let mut align = t.align().max(8); let mut n: Option<(u16, u32)> = None;
                while self.eat(b',') { if self.eatw("align") { align = align.max(self.int() as u64); } else if self.is_ty() { let (tt, o) = self.tyop(); n = Some((tt.bits(), o[0])); } else { break; } }
                let d = dst!(1);
                match n {
                    Some((_, o)) if o & KBIT == 0 => { self.emit(I::AllocaDyn { d, n: o, size: t.size() }) }
                    _ => {
                        let cnt = n.map(|(_, o)| self.m.consts[(o & !KBIT) as usize].0 as u64).unwrap_or(1);
                        let align = align.max(16) as u32; let off = (self.f.frame + align - 1) / align * align; self.f.frame = off + (t.size() * cnt) as u32; self.emit(I::Alloca { d, off });
                    }
                }
            }
            "select" => {
                while !self.is_ty() { self.p += 1; }
                let (ct, c) = self.tyop(); self.expect(b','); let (t, a) = self.tyop(); self.expect(b','); let (_, b) = self.tyop(); let d = dst!(t.nl());
                let lv = t.lv();
                for i in 0..t.nl() { let cc = if ct.nl() > 1 { c[i] } else { c[0] }; self.emit(I::Sel { w: lv[i].0, d: d + i as u32, c: cc, a: a[i], b: b[i] }) }
            }
            "freeze" => { let (t, a) = self.tyop(); let d = dst!(t.nl()); for i in 0..t.nl() { self.emit(I::Mov { d: d + i as u32, a: a[i] }) } }
            "phi" => {
                while !self.is_ty() { self.p += 1; }
                let t = self.ty(); let nl = t.nl(); let d = dst!(nl); let mut inc = vec![];
                loop {
                    self.expect(b'['); let o = self.opnd(&t); self.expect(b','); let l = match self.bump() { Tok::Loc(n) => n.to_string(), t => panic!("{:?}", t) }; self.expect(b']');
                    inc.push((l, o));
                    if !(self.peek() == Tok::P(b',') && self.peekn(1) == Tok::P(b'[')) { break; }
                    self.p += 1;
                }
                let cur = self.f.cur.clone(); self.f.phis.entry(cur).or_default().push((d, nl as u32, inc));
            }
            "br" => {
                if self.peek() == Tok::Word("label") { let l = self.label_name(); let e = self.edge(l); self.emit(I::Br { e }); }
                else { let (_, c) = self.tyop(); self.expect(b','); let t = self.label_name(); self.expect(b','); let f = self.label_name(); let t = self.edge(t); let f = self.edge(f); self.emit(I::CondBr { c: c[0], t, f }); }
            }
            "switch" => {
                let (t, v) = self.tyop(); self.expect(b','); let d = self.label_name(); let default = self.edge(d); self.expect(b'[');
                let mut cases = vec![];
                loop { self.nls(); if self.eat(b']') { break; } let ct = self.ty(); let c = cvnum(&self.cval(&ct)) as u64; self.expect(b','); let l = self.label_name(); let e = self.edge(l); cases.push((c, e)); }
                cases.sort();
                let s = self.f.switches.len() as u32; self.f.switches.push(SwitchInfo { v: v[0], w: t.bits(), default, cases }); self.emit(I::Switch { s });
            }
            "ret" => { let t = self.ty(); let v = if *t == Ty::Void { vec![] } else { self.opnd(&t) }; let s = self.f.pool.len() as u32; self.f.pool.extend(&v); self.emit(I::Ret { srcs: s, n: v.len() as u32 }); }
            "unreachable" => self.emit(I::Unreachable),
            "fence" => {}
            "extractvalue" => {
                let (t, a) = self.tyop(); let mut cur = t; let mut lane = 0;
                while self.peek() == Tok::P(b',') && matches!(self.peekn(1), Tok::Int(_)) { self.p += 1; let k = self.int() as usize; for j in 0..k { lane += cur.elem(j).nl(); } cur = cur.elem(k); }
                let d = dst!(cur.nl()); for i in 0..cur.nl() { self.emit(I::Mov { d: d + i as u32, a: a[lane + i] }) }
            }
            "insertvalue" => {
                let (t, a) = self.tyop(); self.expect(b','); let (et, v) = self.tyop(); let mut cur = t.clone(); let mut lane = 0;
                while self.peek() == Tok::P(b',') && matches!(self.peekn(1), Tok::Int(_)) { self.p += 1; let k = self.int() as usize; for j in 0..k { lane += cur.elem(j).nl(); } cur = cur.elem(k); }
                let d = dst!(t.nl());
                for i in 0..t.nl() { let s = if i >= lane && i < lane + et.nl() { v[i - lane] } else { a[i] }; self.emit(I::Mov { d: d + i as u32, a: s }) }
            }
            "extractelement" => {
                let (t, a) = self.tyop(); self.expect(b','); let (_, i) = self.tyop(); let d = dst!(1);
                if i[0] & KBIT != 0 { let k = self.m.consts[(i[0] & !KBIT) as usize].0 as usize; self.emit(I::Mov { d, a: a[k] }) }
                else { let s = self.f.pool.len() as u32; self.f.pool.extend(&a); self.emit(I::DynExt { d, src: s, n: t.nl() as u32, i: i[0] }) }
            }
            "insertelement" => {
                let (t, a) = self.tyop(); self.expect(b','); let (_, v) = self.tyop(); self.expect(b','); let (_, i) = self.tyop(); let d = dst!(t.nl());
                if i[0] & KBIT != 0 { let k = self.m.consts[(i[0] & !KBIT) as usize].0 as usize; for j in 0..t.nl() { self.emit(I::Mov { d: d + j as u32, a: if j == k { v[0] } else { a[j] } }) } }
                else { let s = self.f.pool.len() as u32; self.f.pool.extend(&a); self.emit(I::DynIns { d, src: s, n: t.nl() as u32, v: v[0], i: i[0], w: t.scalar_w() }) }
            }
            "shufflevector" => {
                let (t, a) = self.tyop(); self.expect(b','); let (_, b) = self.tyop(); self.expect(b','); let mt = self.ty(); let m = self.opnd(&mt);
                let n = t.nl(); let d = dst!(m.len());
                for (i, k) in m.iter().enumerate() { let k = self.m.consts[(*k & !KBIT) as usize].0 as usize; let s = if k < n { a[k] } else { b[k - n] }; self.emit(I::Mov { d: d + i as u32, a: s }) }
            }
            "atomicrmw" => {
                self.eatw("volatile");
                let o = match self.bump() { Tok::Word(w) => w, _ => panic!() };
                let (_, a) = self.tyop(); self.expect(b','); let (t, v) = self.tyop(); let d = match res { Some(r) => self.def(r, 1), None => { let r = self.f.nregs; self.f.nregs += 1; r } };
                let op = match o { "xchg" => 0, "add" => 1, "sub" => 2, "and" => 3, "or" => 4, "xor" => 5, "max" => 6, "min" => 7, "umax" => 8, "umin" => 9, "nand" => 10, _ => panic!("rmw {}", o) };
                self.emit(I::Rmw { op, d, a: a[0], v: v[0], w: t.bits() })
            }
            "cmpxchg" => {
                while matches!(self.peek(), Tok::Word("weak") | Tok::Word("volatile")) { self.p += 1; }
                let (_, a) = self.tyop(); self.expect(b','); let (t, o) = self.tyop(); self.expect(b','); let (_, n) = self.tyop(); let d = dst!(2);
                self.emit(I::CmpXchg { d, a: a[0], o: o[0], n: n[0], w: t.bits() })
            }
            "landingpad" => {
                let t = self.ty(); let d = dst!(t.nl()); let mut kind = 0;
                loop {
                    let save = self.p; self.nls();
                    match self.peek() { Tok::Word("cleanup") => { kind |= 1; self.p += 1; } Tok::Word("catch") => { kind |= 2; self.eol(); } Tok::Word("filter") => { kind |= 4; self.eol(); } _ => { self.p = save; break; } }
                    self.eol();
                }
                self.emit(I::LandingPad { d, kind });
            }
            "resume" => { let (_, a) = self.tyop(); self.emit(I::Resume { a: a[0] }) }
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                if op != "call" && op != "invoke" { assert!(self.eatw("call")); }
                let inv = op == "invoke";
                while !self.is_ty() { if matches!(self.peek(), Tok::Word("cc")) { self.p += 1; } self.p += 1; if self.peek() == Tok::P(b'(') { self.skip_balanced(); } }
                let rt = self.ty();
                if self.peek() == Tok::P(b'(') { self.skip_balanced(); }
                enum Cal { G(&'static str), L(u32), Asm, A(u64) }
                let callee = match self.bump() {
                    Tok::Glob(g) => Cal::G(g),
                    Tok::Loc(n) => Cal::L(self.def(n, 1)),
                    Tok::Word("asm") => { while self.peek() != Tok::P(b'(') { self.p += 1; } Cal::Asm }
                    Tok::Word("inttoptr") => { self.skip_balanced(); Cal::A(0) }
                    t => panic!("callee {:?}", t),
                };
                self.expect(b'(');
                let mut args = vec![]; let mut widths = vec![]; 
                let meta_ok = matches!(callee, Cal::G(g) if g.starts_with("llvm."));
                let mut arg_tys: Vec<Rc<Ty>> = vec![];
                if !self.eat(b')') {
                    loop {
                        let t = self.ty(); self.skip_attrs();
                        let o = if *t == Ty::Meta { assert!(meta_ok); while !matches!(self.peek(), Tok::P(b',') | Tok::P(b')')) { if self.peek() == Tok::P(b'(') { self.skip_balanced() } else { self.p += 1; } } vec![] } else { self.opnd(&t) };
                        for (k, (w, _)) in t.lv().iter().enumerate() { widths.push(*w); args.push(o[k]); }
                        arg_tys.push(t);
                        if self.eat(b')') { break; }
                        self.expect(b',');
                    }
                }
                let nd = rt.nl() as u32;
                let d = match res { Some(r) => self.def(r, nd as usize), None => { let r = self.f.nregs; self.f.nregs += nd; r } };
                let (mut normal, mut unwind) = (u32::MAX, u32::MAX);
                if inv {
                    loop { if self.eatw("to") { break; } self.p += 1; }
                    let l = self.label_name(); normal = self.edge(l); self.nls(); assert!(self.eatw("unwind")); let l = self.label_name(); unwind = self.edge(l);
                }
                let rw = if nd > 0 { rt.lv()[0].0 } else { 0 };
                match callee {
                    Cal::Asm => { if inv { self.emit(I::Br { e: normal }) } }
                    Cal::G(g) if g.starts_with("llvm.") => {
                        match intrinsic(g, &arg_tys, &args) {
                            None => {}
                            Some(In::Expect) => { self.emit(I::Mov { d, a: args[0] }) }
                            Some(k) => {
                                // lane-wise intrinsics over vectors
                                let vecn = match &*rt { Ty::Vector(n, _) => *n as usize, _ => 1 };
                                let whole = matches!(k, In::Psadbw | In::Pmaddwd | In::VRed(_) | In::VRedU(_));
                                if vecn > 1 && !whole {
                                    for i in 0..vecn {
                                        let mut aa = vec![]; let mut pos = 0; let mut ww = vec![];
                                        for t in &arg_tys { let n = t.nl(); aa.push(if n > 1 { args[pos + i] } else { args[pos] }); ww.push(widths[pos]); pos += n; }
                                        let c = self.f.calls.len() as u32;
                                        self.f.calls.push(CallInfo { callee: Callee::Intr(k), args: aa, widths: ww, d: d + i as u32, nd: 1, rw, normal: u32::MAX, unwind: u32::MAX });
                                        self.emit(I::Call { c });
                                    }
                                } else {
                                    let c = self.f.calls.len() as u32;
                                    self.f.calls.push(CallInfo { callee: Callee::Intr(k), args, widths, d, nd, rw, normal: u32::MAX, unwind: u32::MAX });
                                    self.emit(I::Call { c });
                                }
                            }
                        }
                        if inv { self.emit(I::Br { e: normal }) }
                    }
                    c => {
                        let cal = match c { Cal::G(g) => { let mut n = g.to_string(); while let Some(a) = self.m.aliases.get(&n) { n = a.clone(); } Callee::Fn(*self.m.fmap.get(&n).unwrap_or_else(|| panic!("unknown function {}", n))) } Cal::L(r) => Callee::Ind(r), Cal::A(v) => { let k = self.m.konst(v as u128, 64); Callee::Ind(k) } _ => unreachable!() };
                        let c = self.f.calls.len() as u32;
                        self.f.calls.push(CallInfo { callee: cal, args, widths, d, nd, rw, normal, unwind });
                        self.emit(I::Call { c });
                    }
                }
            }
            _ => panic!("unsupported instruction {}", op),
        }
    }
}
pub fn cvnum(c: &Cv) -> u128 { match c { Cv::Int(v) | Cv::Wide(v) => *v, Cv::Addr(v) => *v as u128, Cv::Zero | Cv::Undef => 0, _ => panic!("cvnum {:?}", c) } }

fn intrinsic(g: &str, tys: &[Rc<Ty>], _args: &[u32]) -> Option<In> {
    let s = &g[5..];
    let fl = tys.first().map(|t| t.is_float()).unwrap_or(false);
    Some(if s.starts_with("lifetime") || s.starts_with("experimental.noalias") || s.starts_with("assume") || s.starts_with("dbg.") || s.starts_with("donothing") || s.starts_with("invariant") || s.starts_with("prefetch") || s.starts_with("fake.use") || s.starts_with("stackrestore") || s.starts_with("va_") { return None }
    else if s.starts_with("memcpy") || s.starts_with("memmove") { In::Memcpy }
    else if s.starts_with("memset") { In::Memset }
    else if s.starts_with("umin.") { In::UMin } else if s.starts_with("umax.") { In::UMax } else if s.starts_with("smin.") { In::SMin } else if s.starts_with("smax.") { In::SMax }
    else if s.starts_with("abs.") { In::Abs } else if s.starts_with("ctlz") { In::Ctlz } else if s.starts_with("cttz") { In::Cttz } else if s.starts_with("ctpop") { In::Ctpop }
    else if s.starts_with("bswap") { In::Bswap } else if s.starts_with("bitreverse") { In::Bitrev } else if s.starts_with("fshl") { In::Fshl } else if s.starts_with("fshr") { In::Fshr }
    else if s.starts_with("sadd.with") { In::SAddO } else if s.starts_with("uadd.with") { In::UAddO } else if s.starts_with("ssub.with") { In::SSubO } else if s.starts_with("usub.with") { In::USubO }
    else if s.starts_with("smul.with") { In::SMulO } else if s.starts_with("umul.with") { In::UMulO }
    else if s.starts_with("uadd.sat") { In::UAddS } else if s.starts_with("usub.sat") { In::USubS } else if s.starts_with("sadd.sat") { In::SAddS } else if s.starts_with("ssub.sat") { In::SSubS }
    else if s.starts_with("fptosi.sat") { In::FpToSiSat } else if s.starts_with("fptoui.sat") { In::FpToUiSat }
    else if s.starts_with("round.") { In::FRound } else if s.starts_with("trunc.") { In::FTrunc } else if s.starts_with("floor") { In::FFloor } else if s.starts_with("ceil") { In::FCeil } else if s.starts_with("rint") || s.starts_with("roundeven") || s.starts_with("nearbyint") { In::FRint } else if s.starts_with("sqrt") { In::FSqrt } else if s.starts_with("fabs") { In::FAbs }
    else if s.starts_with("copysign") { In::FCopysign }
    else if s.starts_with("fmuladd") || s.starts_with("fma.") { In::FMulAdd }
    else if s.starts_with("minnum") || s.starts_with("minimumnum") { In::FMin } else if s.starts_with("maxnum") || s.starts_with("maximumnum") { In::FMax }
    else if s.starts_with("ucmp") { In::UCmp } else if s.starts_with("scmp") { In::SCmp }
    else if s.starts_with("is.constant") { In::IsConst } else if s.starts_with("threadlocal.address") { In::Tls }
    else if s.starts_with("x86.sse2.psad") { In::Psadbw } else if s.starts_with("x86.sse2.pmadd") { In::Pmaddwd } else if s.starts_with("x86.sse2.pause") { In::Pause }
    else if s.starts_with("trap") || s.starts_with("ubsantrap") || s.starts_with("debugtrap") { In::Trap }
    else if s.starts_with("expect") || s.starts_with("ssa.copy") || s.starts_with("ptrmask.none") { In::Expect }
    else if s.starts_with("vector.reduce.") {
        let k = &s[14..]; let _ = fl;
        if k.starts_with("add") { In::VRed(B::Add) } else if k.starts_with("or") { In::VRed(B::Or) } else if k.starts_with("and") { In::VRed(B::And) } else if k.starts_with("xor") { In::VRed(B::Xor) } else if k.starts_with("mul") { In::VRed(B::Mul) }
        else if k.starts_with("umax") { In::VRedU(0) } else if k.starts_with("umin") { In::VRedU(1) } else if k.starts_with("smax") { In::VRedU(2) } else if k.starts_with("smin") { In::VRedU(3) } else { panic!("intrinsic {}", g) }
    }
    else if s.starts_with("eh.typeid") { In::TypeId }
    else { panic!("intrinsic {}", g) })
}
