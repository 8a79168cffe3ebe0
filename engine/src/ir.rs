//! LLVM textual IR: data model and parser.
use crate::expr::*;
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    S(Ex),
    Big(Arc<u128>),
    A(Arc<Vec<V>>),
}
impl V {
    pub fn big(v: u128) -> V {
        V::Big(Arc::new(v))
    }
    pub fn s(e: Ex) -> V {
        if e.w <= 64 {
            if let Some(c) = e.c64() {
                return V::C(c);
            }
        } else if let Some(c) = e.as_const() {
            return V::big(c);
        }
        V::S(e)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Vec(u64, Box<Ty>),
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Label,
    Meta,
    Other,
}
impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two()
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Vec(n, t) => ((n * t.bits() as u64 + 7) / 8).next_power_of_two(),
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !packed {
                        o = align(o, t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    align(o, self.align())
                }
            }
            _ => 0,
        }
    }
    /// Bytes an access touches: fewer than `size` for i24, i40, i48, i56, i72.
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            Ty::Vec(n, t) => *n as u32 * t.bits(),
            _ => (self.size() * 8) as u32,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Void | Ty::Label | Ty::Meta | Ty::Other => 1,
            Ty::Vec(..) => self.size().min(16),
            _ => self.size(),
        }
    }
    pub fn field(&self, i: u64) -> (u64, &Ty) {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i * t.size(), t),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        o = align(o, t.align());
                    }
                    if k as u64 == i {
                        return (o, t);
                    }
                    o += t.size();
                }
                panic!("field out of range")
            }
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn elems(&self) -> u64 {
        match self {
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n,
            Ty::Struct(f, _) => f.len() as u64,
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..))
    }
    pub fn zero(&self) -> V {
        match self {
            Ty::Arr(n, t) | Ty::Vec(n, t) => V::A(Arc::new((0..*n).map(|_| t.zero()).collect())),
            Ty::Struct(f, _) => V::A(Arc::new(f.iter().map(|t| t.zero()).collect())),
            Ty::Int(w) if *w > 64 => V::big(0),
            _ => V::C(0),
        }
    }
}
pub fn align(o: u64, a: u64) -> u64 {
    (o + a - 1) / a * a
}

/// >= 0: register; < 0: constant -(x+1)
#[derive(Clone, Copy, Debug)]
pub struct O(pub i32);

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    Zext,
    Sext,
    FpTrunc,
    FpExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    Nop,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ip {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fp {
    False,
    Oeq,
    Ogt,
    Oge,
    Olt,
    Ole,
    One,
    Ord,
    Uno,
    Ueq,
    Ugt,
    Uge,
    Ult,
    Ule,
    Une,
    True,
}
#[derive(Clone, Debug)]
pub struct Edge {
    pub pc: u32,
    pub block: u32,
    pub moves: Box<[(u32, O)]>,
}
#[derive(Clone, Debug)]
pub enum Callee {
    F(u32),
    Ind(O),
    Asm(String),
}
#[derive(Debug)]
pub struct CallI {
    pub d: i32,
    pub callee: Callee,
    pub args: Vec<(O, Ty)>,
    pub ret: Ty,
}
#[derive(Debug)]
pub enum I {
    Bin { op: B, w: u8, n: u16, d: u32, a: O, b: O },
    FBin { op: FOp, dbl: bool, n: u16, d: u32, a: O, b: O },
    FNeg { dbl: bool, n: u16, d: u32, a: O },
    Icmp { p: Ip, w: u8, n: u16, d: u32, a: O, b: O },
    Fcmp { p: Fp, dbl: bool, n: u16, d: u32, a: O, b: O },
    Cast { c: Cast, fw: u8, tw: u8, n: u16, d: u32, a: O },
    Bitcast { d: u32, a: O, from: Box<Ty>, to: Box<Ty> },
    Select { d: u32, c: O, a: O, b: O, ty: Box<Ty>, vc: bool },
    Load { d: u32, w: u8, n: u8, p: O },
    LoadA { d: u32, ty: Box<Ty>, p: O },
    Store { w: u8, n: u8, v: O, p: O },
    StoreA { ty: Box<Ty>, v: O, p: O },
    Alloca { d: u32, size: u64, al: u64, cnt: O },
    Gep { d: u32, p: O, off: u64, idx: Box<[(O, u8, u64)]> },
    Extract { d: u32, a: O, path: Box<[u32]> },
    Insert { d: u32, a: O, v: O, path: Box<[u32]> },
    ExtElem { d: u32, a: O, i: O },
    InsElem { d: u32, a: O, v: O, i: O },
    Shuffle { d: u32, a: O, b: O, mask: Box<[i32]> },
    Call(Box<CallI>),
    Rmw { d: u32, op: Rmw, w: u8, p: O, v: O },
    CmpXchg { d: u32, w: u8, p: O, c: O, n: O },
    Br(u32),
    CondBr { c: O, t: u32, f: u32 },
    Switch { v: O, w: u8, def: u32, cases: Box<[(u64, u32)]>, map: Box<FxMap<u64, u32>> },
    Ret(O, bool),
    Unreachable,
    Copy { d: u32, a: O },
    Nop,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw {
    Xchg,
    Add,
    Sub,
    And,
    Nand,
    Or,
    Xor,
    Max,
    Min,
    UMax,
    UMin,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub nparams: u32,
    pub nregs: u32,
    pub code: Vec<I>,
    pub edges: Vec<Edge>,
    pub consts: Vec<V>,
    pub nblocks: u32,
}
pub struct FuncDecl {
    pub name: String,
    pub addr: u64,
    /// text range of the definition, or None for declarations
    pub body: Option<(usize, usize)>,
    pub func: OnceLock<Arc<Func>>,
    pub ext: crate::ext::Ext,
}
pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub is_const: bool,
}
pub struct Module {
    pub text: Vec<u8>,
    pub types: HashMap<String, Ty>,
    pub funcs: Vec<FuncDecl>,
    pub fmap: HashMap<String, u32>,
    pub by_addr: FxMap<u64, u32>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u64>,
    /// initial contents: (addr, bytes)
    pub image: Vec<(u64, Vec<u8>)>,
    pub globals_end: u64,
}

pub const CODE_BASE: u64 = 0x1_0000;
pub const GLOB_BASE: u64 = 0x100_0000;

struct P<'a> {
    s: &'a [u8],
    i: usize,
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() {
            match self.s[self.i] {
                b' ' | b'\t' | b'\n' | b'\r' => self.i += 1,
                b';' => {
                    while self.i < self.s.len() && self.s[self.i] != b'\n' {
                        self.i += 1
                    }
                }
                b'/' if self.s.get(self.i + 1) == Some(&b'*') => {
                    self.i += 2;
                    while self.i < self.s.len() && !self.s[self.i..].starts_with(b"*/") {
                        self.i += 1
                    }
                    self.i = (self.i + 2).min(self.s.len());
                }
                _ => break,
            }
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        let b = t.as_bytes();
        if self.s[self.i..].starts_with(b) {
            let e = self.i + b.len();
            let last = b[b.len() - 1];
            if (last.is_ascii_alphanumeric() || last == b'_') && e < self.s.len() && (self.s[e].is_ascii_alphanumeric() || self.s[e] == b'_' || self.s[e] == b'.') {
                return false;
            }
            self.i = e;
            return true;
        }
        false
    }
    fn expect(&mut self, t: &str) {
        if !self.eat(t) {
            self.fail(&format!("expected {:?}", t));
        }
    }
    fn fail(&self, m: &str) -> ! {
        let a = self.i.saturating_sub(120);
        let b = (self.i + 160).min(self.s.len());
        panic!("parse: {} at ...{} >>> {}", m, String::from_utf8_lossy(&self.s[a..self.i]), String::from_utf8_lossy(&self.s[self.i..b]));
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'+' || c == b'$' {
                self.i += 1
            } else {
                break;
            }
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        self.ws();
        let s = self.i;
        let w = self.word();
        self.i = s;
        w
    }
    fn string(&mut self) -> String {
        self.expect("\"");
        let st = self.i;
        while self.s[self.i] != b'"' {
            self.i += 1
        }
        let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
        self.i += 1;
        r
    }
    /// name after % or @
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            return self.string();
        }
        self.word().to_string()
    }
    fn skip_line(&mut self) {
        while self.i < self.s.len() && self.s[self.i] != b'\n' {
            self.i += 1
        }
    }
    fn skip_parens(&mut self) {
        self.ws();
        if self.s.get(self.i) != Some(&b'(') {
            return;
        }
        let mut d = 0;
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn is_type_start(&mut self) -> bool {
        let c = self.peek();
        if matches!(c, b'[' | b'<' | b'{' | b'%') {
            return true;
        }
        let w = self.peek_word();
        matches!(w, "ptr" | "void" | "double" | "float" | "label" | "metadata" | "half" | "token" | "fp128" | "bfloat" | "x86_fp80") || (w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit()))
    }
    /// skip attributes until something that is a type
    fn attrs_before_type(&mut self) {
        loop {
            if self.is_type_start() {
                return;
            }
            let c = self.peek();
            if c == b'"' {
                self.string();
                if self.eat("=") {
                    self.string();
                }
                continue;
            }
            if c == b'#' {
                self.i += 1;
                self.word();
                continue;
            }
            let w = self.word();
            if w.is_empty() {
                self.fail("attribute or type expected");
            }
            if w == "align" && self.peek() != b'(' {
                self.word();
            }
            if w == "cc" {
                self.word();
            }
            if self.s[self.i] == b'(' {
                self.skip_parens();
            }
        }
    }
    /// skip parameter attributes before a value
    fn attrs_before_value(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' {
                self.string();
                if self.eat("=") {
                    self.string();
                }
                continue;
            }
            if !c.is_ascii_alphabetic() {
                return;
            }
            let w = self.peek_word();
            if matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "splat" | "blockaddress" | "asm" | "trunc" | "sub" | "add" | "c" | "ptrtoaddr" | "none" | "xor" | "dso_local_equivalent" | "no_cfi" | "addrspacecast") || w.starts_with("f0x") {
                return;
            }
            if w.starts_with("0x") {
                return;
            }
            self.word();
            if w == "align" && self.peek() != b'(' {
                self.word();
            }
            if self.s[self.i] == b'(' {
                self.skip_parens();
            }
        }
    }
    fn ty(&mut self, m: &HashMap<String, Ty>) -> Ty {
        let c = self.peek();
        match c {
            b'[' => {
                self.i += 1;
                let n: u64 = self.word().parse().unwrap();
                self.expect("x");
                let t = self.ty(m);
                self.expect("]");
                Ty::Arr(n, Box::new(t))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let f = self.tylist(m, b'}');
                    self.expect(">");
                    return Ty::Struct(f, true);
                }
                let n: u64 = self.word().parse().unwrap();
                self.expect("x");
                let t = self.ty(m);
                self.expect(">");
                Ty::Vec(n, Box::new(t))
            }
            b'{' => {
                self.i += 1;
                let f = self.tylist(m, b'}');
                Ty::Struct(f, false)
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                m.get(&n).cloned().unwrap_or_else(|| self.fail("unknown named type"))
            }
            _ => {
                let w = self.word();
                match w {
                    "ptr" => {
                        if self.peek_word() == "addrspace" {
                            self.word();
                            self.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "void" => Ty::Void,
                    "double" => Ty::F64,
                    "float" => Ty::F32,
                    "label" => Ty::Label,
                    "metadata" => Ty::Meta,
                    "half" | "token" | "fp128" | "bfloat" | "x86_fp80" => Ty::Other,
                    _ if w.starts_with('i') => match w[1..].parse() {
                        Ok(n) => Ty::Int(n),
                        Err(_) => self.fail("type"),
                    },
                    _ => self.fail("type"),
                }
            }
        }
    }
    fn tylist(&mut self, m: &HashMap<String, Ty>, end: u8) -> Vec<Ty> {
        let mut f = vec![];
        loop {
            if self.peek() == end {
                self.i += 1;
                return f;
            }
            if !f.is_empty() {
                self.expect(",");
            }
            f.push(self.ty(m));
        }
    }
}

/// constant as raw value
fn fconst(w: &str, dbl: bool) -> u64 {
    let (v, bits) = if let Some(h) = w.strip_prefix("f0x") {
        let b = u64::from_str_radix(h, 16).unwrap();
        if h.len() <= 8 && !dbl {
            return b;
        }
        (f64::from_bits(b), b)
    } else if let Some(h) = w.strip_prefix("0x") {
        let b = u64::from_str_radix(h, 16).unwrap();
        (f64::from_bits(b), b)
    } else {
        let v = match w {
            "+inf" | "inf" => f64::INFINITY,
            "-inf" => f64::NEG_INFINITY,
            "nan" | "+qnan" | "+nan" => f64::NAN,
            "-nan" | "-qnan" => -f64::NAN,
            _ => w.parse().unwrap_or_else(|_| panic!("float constant {}", w)),
        };
        (v, v.to_bits())
    };
    if dbl {
        bits
    } else {
        (v as f32).to_bits() as u64
    }
}
fn iconst(w: &str, bits: u32) -> V {
    let v: u128 = if let Some(n) = w.strip_prefix('-') {
        0u128.wrapping_sub(n.parse::<u128>().unwrap())
    } else if let Some(h) = w.strip_prefix("u0x").or(w.strip_prefix("s0x")) {
        u128::from_str_radix(h, 16).unwrap()
    } else {
        w.parse::<u128>().unwrap()
    };
    if bits > 64 {
        V::big(v & mask128(bits))
    } else {
        V::C(v as u64 & mask(bits))
    }
}

impl Module {
    fn sym_addr(&self, n: &str) -> Option<u64> {
        self.gmap.get(n).copied().or_else(|| self.fmap.get(n).map(|i| self.funcs[*i as usize].addr))
    }
    /// parse a constant of type `ty` into a value
    fn cval(&self, p: &mut P, ty: &Ty) -> V {
        let c = p.peek();
        match c {
            b'@' => {
                p.i += 1;
                let n = p.name();
                return V::C(self.sym_addr(&n).unwrap_or_else(|| p.fail(&format!("unknown symbol {}", n))));
            }
            b'{' | b'[' => {
                p.i += 1;
                let end = if c == b'{' { b'}' } else { b']' };
                return self.clist(p, end);
            }
            b'<' => {
                p.i += 1;
                if p.peek() == b'{' {
                    p.i += 1;
                    let v = self.clist(p, b'}');
                    p.expect(">");
                    return v;
                }
                return self.clist(p, b'>');
            }
            b'c' if p.s[p.i + 1] == b'"' => {
                p.i += 1;
                let b = cbytes(p);
                return V::A(Arc::new(b.into_iter().map(|x| V::C(x as u64)).collect()));
            }
            _ => {}
        }
        let w = p.peek_word();
        match w {
            "null" | "undef" | "poison" | "zeroinitializer" | "none" => {
                p.word();
                return ty.zero();
            }
            "true" => {
                p.word();
                return V::C(1);
            }
            "false" => {
                p.word();
                return V::C(0);
            }
            "splat" => {
                p.word();
                p.expect("(");
                let t = p.ty(&self.types);
                let v = self.cval(p, &t);
                p.expect(")");
                return V::A(Arc::new((0..ty.elems()).map(|_| v.clone()).collect()));
            }
            "dso_local_equivalent" | "no_cfi" => {
                p.word();
                return self.cval(p, ty);
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "trunc" | "addrspacecast" => {
                p.word();
                p.expect("(");
                let t = p.ty(&self.types);
                let v = self.cval(p, &t);
                p.expect("to");
                let t2 = p.ty(&self.types);
                p.expect(")");
                return match v {
                    V::C(x) => V::C(x & mask(t2.bits())),
                    v => v,
                };
            }
            "getelementptr" => {
                p.word();
                while p.peek() != b'(' {
                    let w = p.word();
                    if w == "inrange" {
                        p.skip_parens();
                    }
                }
                p.expect("(");
                let t = p.ty(&self.types);
                p.expect(",");
                let pt = p.ty(&self.types);
                let base = match self.cval(p, &pt) {
                    V::C(x) => x,
                    _ => p.fail("gep base"),
                };
                let mut off = 0u64;
                let mut cur = t.clone();
                let mut first = true;
                while p.eat(",") {
                    p.eat("inrange");
                    let it = p.ty(&self.types);
                    let i = match self.cval(p, &it) {
                        V::C(x) => sx(x, it.bits()) as u64,
                        _ => p.fail("gep idx"),
                    };
                    if first {
                        off = off.wrapping_add(i.wrapping_mul(cur.size()));
                        first = false;
                    } else if let Ty::Arr(_, e) | Ty::Vec(_, e) = &cur {
                        off = off.wrapping_add(i.wrapping_mul(e.size()));
                        cur = (**e).clone();
                    } else {
                        let (o, t) = cur.field(i);
                        off = off.wrapping_add(o);
                        cur = t.clone();
                    }
                }
                p.expect(")");
                return V::C(base.wrapping_add(off));
            }
            "add" | "sub" | "xor" => {
                let op = p.word();
                while p.peek() != b'(' {
                    p.word();
                }
                p.expect("(");
                let t = p.ty(&self.types);
                let a = self.cval(p, &t);
                p.expect(",");
                let t2 = p.ty(&self.types);
                let b = self.cval(p, &t2);
                p.expect(")");
                return match (a, b) {
                    (V::C(a), V::C(b)) => V::C(
                        match op {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            _ => a ^ b,
                        } & mask(t.bits()),
                    ),
                    _ => p.fail("constant expression"),
                };
            }
            _ => {}
        }
        let w = p.word();
        match ty {
            Ty::F64 => V::C(fconst(w, true)),
            Ty::F32 => V::C(fconst(w, false)),
            Ty::Int(b) => iconst(w, *b),
            _ => p.fail(&format!("constant {:?} of {:?}", w, ty)),
        }
    }
    fn clist(&self, p: &mut P, end: u8) -> V {
        let mut v = vec![];
        loop {
            if p.peek() == end {
                p.i += 1;
                return V::A(Arc::new(v));
            }
            if !v.is_empty() {
                p.expect(",");
            }
            let t = p.ty(&self.types);
            v.push(self.cval(p, &t));
        }
    }

    pub fn load(text: Vec<u8>) -> Module {
        let mut m = Module { text: vec![], types: HashMap::new(), funcs: vec![], fmap: HashMap::new(), by_addr: Default::default(), globals: vec![], gmap: HashMap::new(), image: vec![], globals_end: 0 };
        // pass 1: functions and named types
        let mut glob_lines = vec![];
        let mut aliases = vec![];
        let mut i = 0;
        while i < text.len() {
            let e = text[i..].iter().position(|&c| c == b'\n').map(|k| i + k).unwrap_or(text.len());
            let line = &text[i..e];
            if line.starts_with(b"define") || line.starts_with(b"declare") {
                let at = line.iter().position(|&c| c == b'@').unwrap();
                let mut p = P { s: line, i: at + 1 };
                let name = p.name();
                let mut end = e;
                let body = if line.starts_with(b"define") {
                    let mut k = e;
                    loop {
                        let n = text[k + 1..].iter().position(|&c| c == b'\n').map(|x| k + 1 + x).unwrap();
                        if text[k + 1] == b'}' {
                            end = n;
                            break;
                        }
                        k = n;
                    }
                    Some((i, end))
                } else {
                    None
                };
                let id = m.funcs.len() as u32;
                let addr = CODE_BASE + 16 * (id as u64 + 1);
                m.fmap.insert(name.clone(), id);
                m.by_addr.insert(addr, id);
                let ext = crate::ext::classify(&name, body.is_some());
                m.funcs.push(FuncDecl { name, addr, body, func: OnceLock::new(), ext });
                i = end + 1;
                continue;
            }
            if line.starts_with(b"%") {
                let mut p = P { s: line, i: 1 };
                let n = p.name();
                p.expect("=");
                p.expect("type");
                if p.peek_word() != "opaque" {
                    let t = p.ty(&m.types);
                    m.types.insert(n, t);
                }
            } else if line.starts_with(b"@") {
                let mut p = P { s: line, i: 1 };
                let n = p.name();
                p.expect("=");
                let mut is_const = false;
                let mut external = false;
                let mut alias = false;
                loop {
                    let w = p.peek_word();
                    match w {
                        "global" => {
                            p.word();
                            break;
                        }
                        "constant" => {
                            is_const = true;
                            p.word();
                            break;
                        }
                        "alias" => {
                            alias = true;
                            p.word();
                            break;
                        }
                        "" => p.fail("global"),
                        _ => {
                            if w == "external" || w == "extern_weak" {
                                external = true;
                            }
                            p.word();
                            p.skip_parens_if();
                        }
                    }
                }
                let ty = p.ty(&m.types);
                if alias {
                    aliases.push((n, i + p.i));
                } else {
                    glob_lines.push((n, is_const, external, ty, i + p.i, e));
                }
            }
            i = e + 1;
        }
        // pass 2: addresses
        let mut a = GLOB_BASE;
        for (n, is_const, _, ty, s, e) in &glob_lines {
            let line = &text[*s..*e];
            let mut al = ty.align().max(8);
            if let Some(k) = find(line, b", align ") {
                let mut p = P { s: line, i: k + 8 };
                if let Ok(v) = p.word().parse::<u64>() {
                    al = al.max(v)
                }
            }
            a = align(a, al.max(16));
            m.gmap.insert(n.clone(), a);
            m.globals.push(Global { name: n.clone(), addr: a, size: ty.size(), is_const: *is_const });
            a += ty.size().max(1);
        }
        m.globals_end = a;
        for (n, pos) in aliases {
            let mut p = P { s: &text, i: pos };
            p.expect(",");
            let t = p.ty(&m.types);
            if let V::C(x) = m.cval(&mut p, &t) {
                m.gmap.insert(n, x);
            }
        }
        // pass 3: initialisers
        for (k, (n, _, external, ty, s, e)) in glob_lines.iter().enumerate() {
            let addr = m.globals[k].addr;
            if *external {
                let _ = n;
                continue;
            }
            let mut p = P { s: &text[..*e], i: *s };
            let mut out = vec![];
            m.cinit(&mut p, ty, &mut out);
            m.image.push((addr, out));
        }
        m.text = text;
        m
    }
    /// initialiser -> bytes
    fn cinit(&self, p: &mut P, ty: &Ty, out: &mut Vec<u8>) {
        let c = p.peek();
        let start = out.len();
        if c == b'c' && p.s[p.i + 1] == b'"' {
            p.i += 1;
            out.extend(cbytes(p));
            return;
        }
        if ty.is_agg() && matches!(c, b'{' | b'[' | b'<') {
            p.i += 1;
            let packed = c == b'<' && p.peek() == b'{';
            if packed {
                p.i += 1;
            }
            let end = match c {
                b'{' => b'}',
                b'[' => b']',
                _ if packed => b'}',
                _ => b'>',
            };
            let mut k = 0;
            loop {
                if p.peek() == end {
                    p.i += 1;
                    break;
                }
                if k > 0 {
                    p.expect(",");
                }
                let t = p.ty(&self.types);
                let (o, _) = ty.field(k);
                out.resize(start + o as usize, 0);
                self.cinit(p, &t, out);
                k += 1;
            }
            if packed {
                p.expect(">");
            }
            out.resize(start + ty.size() as usize, 0);
            return;
        }
        let v = self.cval(p, ty);
        fn put(v: &V, ty: &Ty, out: &mut Vec<u8>) {
            let start = out.len();
            match v {
                V::C(x) => out.extend(&x.to_le_bytes()[..ty.size().min(8) as usize]),
                V::Big(b) => out.extend(b.to_le_bytes()),
                V::A(l) => {
                    for (k, x) in l.iter().enumerate() {
                        let (o, t) = ty.field(k as u64);
                        out.resize(start + o as usize, 0);
                        put(x, t, out);
                    }
                }
                V::S(_) => unreachable!(),
            }
            out.resize(start + ty.size() as usize, 0);
        }
        if let (V::A(_), true) = (&v, ty.size() > 4096) {
            // large zeroinitializer
            out.resize(start + ty.size() as usize, 0);
            return;
        }
        put(&v, ty, out);
    }
    pub fn func(&self, id: u32) -> &Arc<Func> {
        let d = &self.funcs[id as usize];
        d.func.get_or_init(|| Arc::new(self.parse_func(id)))
    }
    fn parse_func(&self, id: u32) -> Func {
        let d = &self.funcs[id as usize];
        let (s, e) = d.body.unwrap();
        FnP { m: self, p: P { s: &self.text[s..e], i: 0 }, regs: HashMap::new(), consts: vec![], code: vec![], edges: vec![] }.run(d.name.clone())
    }
}
impl<'a> P<'a> {
    fn skip_parens_if(&mut self) {
        if self.s.get(self.i) == Some(&b'(') {
            self.skip_parens();
        }
    }
}
fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    // last occurrence
    if h.len() < n.len() {
        return None;
    }
    (0..=h.len() - n.len()).rev().find(|&i| &h[i..i + n.len()] == n)
}
fn cbytes(p: &mut P) -> Vec<u8> {
    // at the opening quote
    p.i += 1;
    let mut out = vec![];
    loop {
        let c = p.s[p.i];
        p.i += 1;
        match c {
            b'"' => return out,
            b'\\' => {
                if p.s[p.i] == b'\\' {
                    out.push(b'\\');
                    p.i += 1;
                    continue;
                }
                let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
                out.push(h(p.s[p.i]) << 4 | h(p.s[p.i + 1]));
                p.i += 2;
            }
            c => out.push(c),
        }
    }
}

struct FnP<'a> {
    m: &'a Module,
    p: P<'a>,
    regs: HashMap<String, u32>,
    consts: Vec<V>,
    code: Vec<I>,
    edges: Vec<Edge>,
}
struct Phi {
    d: u32,
    ins: Vec<(O, String)>,
}
impl<'a> FnP<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn k(&mut self, v: V) -> O {
        self.consts.push(v);
        O(-(self.consts.len() as i32))
    }
    fn ty(&mut self) -> Ty {
        self.p.ty(&self.m.types)
    }
    fn val(&mut self, t: &Ty) -> O {
        self.p.attrs_before_value();
        if self.p.peek() == b'%' {
            self.p.i += 1;
            let n = self.p.name();
            return O(self.reg(&n) as i32);
        }
        let v = self.m.cval(&mut self.p, t);
        self.k(v)
    }
    fn tval(&mut self) -> (Ty, O) {
        let t = self.ty();
        let v = self.val(&t);
        (t, v)
    }
    fn flags(&mut self, names: &[&str]) {
        loop {
            let w = self.p.peek_word();
            if names.contains(&w) {
                self.p.word();
            } else {
                return;
            }
        }
    }
    fn edge(&mut self, label: String) -> u32 {
        // block number resolved later; keep the label in a side table
        self.labels_push(label)
    }
    fn labels_push(&mut self, l: String) -> u32 {
        self.edges.push(Edge { pc: 0, block: 0, moves: Box::new([]) });
        EDGE_LABELS.with(|x| x.borrow_mut().push(l));
        self.edges.len() as u32 - 1
    }
    fn label(&mut self) -> String {
        self.p.expect("label");
        self.p.ws();
        self.p.expect("%");
        self.p.name()
    }
    fn run(mut self, name: String) -> Func {
        EDGE_LABELS.with(|x| x.borrow_mut().clear());
        // header: parameters
        let at = self.p.s.iter().position(|&c| c == b'@').unwrap();
        self.p.i = at + 1;
        self.p.name();
        self.p.expect("(");
        let mut np = 0;
        loop {
            if self.p.peek() == b')' {
                self.p.i += 1;
                break;
            }
            if np > 0 {
                self.p.expect(",");
            }
            if self.p.eat("...") {
                continue;
            }
            let _t = self.ty();
            // attributes up to the name
            loop {
                let c = self.p.peek();
                if c == b'%' {
                    self.p.i += 1;
                    let n = self.p.name();
                    self.reg(&n);
                    break;
                }
                if c == b',' || c == b')' {
                    self.reg(&format!("{}", np));
                    break;
                }
                if c == b'"' {
                    self.p.string();
                    if self.p.eat("=") {
                        self.p.string();
                    }
                    continue;
                }
                let w = self.p.word();
                if w.is_empty() {
                    self.p.fail("param");
                }
                if w == "align" && self.p.peek() != b'(' {
                    self.p.word();
                }
                self.p.skip_parens_if();
            }
            np += 1;
        }
        self.p.skip_line();
        let mut blocks: Vec<(String, u32, Vec<Phi>)> = vec![];
        let mut bmap: HashMap<String, u32> = HashMap::new();
        let mut edge_src: Vec<(u32, u32)> = vec![]; // edge -> block
        let mut first = true;
        loop {
            self.p.ws();
            if self.p.i >= self.p.s.len() || self.p.s[self.p.i] == b'}' {
                break;
            }
            // label?
            let save = self.p.i;
            let is_label = {
                let n = if self.p.s[self.p.i] == b'"' { self.p.string() } else { self.p.word().to_string() };
                if !n.is_empty() && self.p.s.get(self.p.i) == Some(&b':') {
                    self.p.i += 1;
                    Some(n)
                } else {
                    self.p.i = save;
                    None
                }
            };
            if let Some(n) = is_label {
                bmap.insert(n.clone(), blocks.len() as u32);
                blocks.push((n, self.code.len() as u32, vec![]));
                first = false;
                continue;
            }
            if first {
                let n = format!("{}", np);
                bmap.insert(n.clone(), 0);
                blocks.push((n, 0, vec![]));
                first = false;
            }
            let bi = blocks.len() as u32 - 1;
            let e0 = self.edges.len();
            // every instruction but `switch` is one line
            let multi = self.p.s[self.p.i..].starts_with(b"switch ");
            let eol = self.p.s[self.p.i..].iter().position(|&c| c == b'\n').map(|k| self.p.i + k).unwrap_or(self.p.s.len());
            if let Some(phi) = self.inst() {
                blocks.last_mut().unwrap().2.push(phi);
            }
            for e in e0..self.edges.len() {
                edge_src.push((e as u32, bi));
            }
            if !multi {
                self.p.i = eol;
            }
            self.p.skip_line();
        }
        let labels: Vec<String> = EDGE_LABELS.with(|x| std::mem::take(&mut *x.borrow_mut()));
        for (e, src) in edge_src {
            let l = &labels[e as usize];
            let t = *bmap.get(l).unwrap_or_else(|| panic!("label {} in {}", l, name));
            let srcname = &blocks[src as usize].0;
            let moves: Vec<(u32, O)> = blocks[t as usize]
                .2
                .iter()
                .map(|phi| {
                    let v = phi.ins.iter().find(|x| &x.1 == srcname).unwrap_or_else(|| panic!("phi in {} from {}", name, srcname));
                    (phi.d, v.0)
                })
                .collect();
            let ed = &mut self.edges[e as usize];
            ed.pc = blocks[t as usize].1;
            ed.block = t;
            ed.moves = moves.into_boxed_slice();
        }
        Func { name, nparams: np, nregs: self.regs.len() as u32, code: self.code, edges: self.edges, consts: self.consts, nblocks: blocks.len() as u32 }
    }
    fn lanes(t: &Ty) -> (u16, Ty) {
        match t {
            Ty::Vec(n, e) => (*n as u16, (**e).clone()),
            t => (0, t.clone()),
        }
    }
    fn mem(t: &Ty) -> Option<(u8, u8)> {
        match t {
            Ty::Int(w) if *w <= 128 => Some((*w as u8, t.store_size() as u8)),
            Ty::F32 => Some((32, 4)),
            Ty::F64 | Ty::Ptr => Some((64, 8)),
            _ => None,
        }
    }
    fn inst(&mut self) -> Option<Phi> {
        let mut d: i32 = -1;
        if self.p.peek() == b'%' {
            self.p.i += 1;
            let n = self.p.name();
            d = self.reg(&n) as i32;
            self.p.expect("=");
        }
        let du = d as u32;
        let op = self.p.word();
        const FM: &[&str] = &["nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"];
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                self.flags(&["nuw", "nsw", "exact", "disjoint"]);
                let t = self.ty();
                let a = self.val(&t);
                self.p.expect(",");
                let b = self.val(&t);
                let (n, e) = Self::lanes(&t);
                let o = match op {
                    "add" => B::Add,
                    "sub" => B::Sub,
                    "mul" => B::Mul,
                    "udiv" => B::UDiv,
                    "sdiv" => B::SDiv,
                    "urem" => B::URem,
                    "srem" => B::SRem,
                    "and" => B::And,
                    "or" => B::Or,
                    "xor" => B::Xor,
                    "shl" => B::Shl,
                    "lshr" => B::LShr,
                    _ => B::AShr,
                };
                self.code.push(I::Bin { op: o, w: e.bits() as u8, n, d: du, a, b });
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.flags(FM);
                let t = self.ty();
                let a = self.val(&t);
                self.p.expect(",");
                let b = self.val(&t);
                let (n, e) = Self::lanes(&t);
                let o = match op {
                    "fadd" => FOp::Add,
                    "fsub" => FOp::Sub,
                    "fmul" => FOp::Mul,
                    "fdiv" => FOp::Div,
                    _ => FOp::Rem,
                };
                self.code.push(I::FBin { op: o, dbl: e == Ty::F64, n, d: du, a, b });
            }
            "fneg" => {
                self.flags(FM);
                let (t, a) = self.tval();
                let (n, e) = Self::lanes(&t);
                self.code.push(I::FNeg { dbl: e == Ty::F64, n, d: du, a });
            }
            "icmp" => {
                self.flags(&["samesign"]);
                let p = match self.p.word() {
                    "eq" => Ip::Eq,
                    "ne" => Ip::Ne,
                    "ugt" => Ip::Ugt,
                    "uge" => Ip::Uge,
                    "ult" => Ip::Ult,
                    "ule" => Ip::Ule,
                    "sgt" => Ip::Sgt,
                    "sge" => Ip::Sge,
                    "slt" => Ip::Slt,
                    "sle" => Ip::Sle,
                    _ => self.p.fail("icmp"),
                };
                let t = self.ty();
                let a = self.val(&t);
                self.p.expect(",");
                let b = self.val(&t);
                let (n, e) = Self::lanes(&t);
                self.code.push(I::Icmp { p, w: e.bits() as u8, n, d: du, a, b });
            }
            "fcmp" => {
                self.flags(FM);
                let p = match self.p.word() {
                    "false" => Fp::False,
                    "oeq" => Fp::Oeq,
                    "ogt" => Fp::Ogt,
                    "oge" => Fp::Oge,
                    "olt" => Fp::Olt,
                    "ole" => Fp::Ole,
                    "one" => Fp::One,
                    "ord" => Fp::Ord,
                    "uno" => Fp::Uno,
                    "ueq" => Fp::Ueq,
                    "ugt" => Fp::Ugt,
                    "uge" => Fp::Uge,
                    "ult" => Fp::Ult,
                    "ule" => Fp::Ule,
                    "une" => Fp::Une,
                    _ => Fp::True,
                };
                let t = self.ty();
                let a = self.val(&t);
                self.p.expect(",");
                let b = self.val(&t);
                let (n, e) = Self::lanes(&t);
                self.code.push(I::Fcmp { p, dbl: e == Ty::F64, n, d: du, a, b });
            }
            "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                self.flags(&["nuw", "nsw", "nneg"]);
                self.flags(FM);
                let (t, a) = self.tval();
                self.p.expect("to");
                let t2 = self.ty();
                if op == "bitcast" && (t.is_agg() || t2.is_agg()) {
                    self.code.push(I::Bitcast { d: du, a, from: Box::new(t), to: Box::new(t2) });
                    return None;
                }
                let (n, e) = Self::lanes(&t);
                let (_, e2) = Self::lanes(&t2);
                let (fw, tw) = (e.bits(), e2.bits());
                let c = match op {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::Zext,
                    "sext" => Cast::Sext,
                    "fptrunc" => Cast::FpTrunc,
                    "fpext" => Cast::FpExt,
                    "fptoui" => Cast::FpToUi,
                    "fptosi" => Cast::FpToSi,
                    "uitofp" => Cast::UiToFp,
                    "sitofp" => Cast::SiToFp,
                    _ => {
                        if fw == tw {
                            Cast::Nop
                        } else if fw > tw {
                            Cast::Trunc
                        } else {
                            Cast::Zext
                        }
                    }
                };
                self.code.push(I::Cast { c, fw: fw as u8, tw: tw as u8, n, d: du, a });
            }
            "select" => {
                self.flags(FM);
                let (ct, c) = self.tval();
                self.p.expect(",");
                let (t, a) = self.tval();
                self.p.expect(",");
                let (_, b) = self.tval();
                self.code.push(I::Select { d: du, c, a, b, ty: Box::new(t), vc: ct.is_agg() });
            }
            "load" => {
                self.flags(&["atomic", "volatile"]);
                let t = self.ty();
                self.p.expect(",");
                let (_, p) = self.tval();
                self.code.push(match Self::mem(&t) {
                    Some((w, n)) => I::Load { d: du, w, n, p },
                    None => I::LoadA { d: du, ty: Box::new(t), p },
                });
            }
            "store" => {
                self.flags(&["atomic", "volatile"]);
                let (t, v) = self.tval();
                self.p.expect(",");
                let (_, p) = self.tval();
                self.code.push(match Self::mem(&t) {
                    Some((w, n)) => I::Store { w, n, v, p },
                    None => I::StoreA { ty: Box::new(t), v, p },
                });
            }
            "alloca" => {
                self.flags(&["inalloca"]);
                let t = self.ty();
                let mut al = t.align();
                let mut cnt = self.k(V::C(1));
                while self.p.peek() == b',' {
                    self.p.i += 1;
                    if self.p.eat("align") {
                        al = self.p.word().parse().unwrap();
                    } else if self.p.is_type_start() {
                        cnt = self.tval().1;
                    } else {
                        break;
                    }
                }
                self.code.push(I::Alloca { d: du, size: t.size(), al, cnt });
            }
            "getelementptr" => {
                self.flags(&["inbounds", "nuw", "nusw", "nsw"]);
                let t = self.ty();
                self.p.expect(",");
                let (_, base) = self.tval();
                let mut off = 0u64;
                let mut idx = vec![];
                let mut cur = t;
                let mut first = true;
                while self.p.peek() == b',' {
                    self.p.i += 1;
                    if self.p.peek() == b'!' {
                        break;
                    }
                    let (it, i) = self.tval();
                    let cst = if i.0 < 0 {
                        match &self.consts[(-i.0 - 1) as usize] {
                            V::C(x) => Some(sx(*x, it.bits())),
                            _ => None,
                        }
                    } else {
                        None
                    };
                    let (scale, next) = if first {
                        first = false;
                        (cur.size(), None)
                    } else {
                        match &cur {
                            Ty::Arr(_, e) | Ty::Vec(_, e) => (e.size(), Some((**e).clone())),
                            Ty::Struct(..) => {
                                let (o, t) = cur.field(cst.expect("struct index") as u64);
                                off = off.wrapping_add(o);
                                let t = t.clone();
                                cur = t;
                                continue;
                            }
                            _ => self.p.fail("gep"),
                        }
                    };
                    match cst {
                        Some(c) => off = off.wrapping_add((c as u64).wrapping_mul(scale)),
                        None => idx.push((i, it.bits() as u8, scale)),
                    }
                    if let Some(n) = next {
                        cur = n;
                    }
                }
                self.code.push(I::Gep { d: du, p: base, off, idx: idx.into_boxed_slice() });
            }
            "extractvalue" => {
                let (_, a) = self.tval();
                let mut path = vec![];
                while self.p.peek() == b',' {
                    self.p.i += 1;
                    if self.p.peek() == b'!' {
                        break;
                    }
                    path.push(self.p.word().parse().unwrap());
                }
                self.code.push(I::Extract { d: du, a, path: path.into() });
            }
            "insertvalue" => {
                let (_, a) = self.tval();
                self.p.expect(",");
                let (_, v) = self.tval();
                let mut path = vec![];
                while self.p.peek() == b',' {
                    self.p.i += 1;
                    if self.p.peek() == b'!' {
                        break;
                    }
                    path.push(self.p.word().parse().unwrap());
                }
                self.code.push(I::Insert { d: du, a, v, path: path.into() });
            }
            "extractelement" => {
                let (_, a) = self.tval();
                self.p.expect(",");
                let (_, i) = self.tval();
                self.code.push(I::ExtElem { d: du, a, i });
            }
            "insertelement" => {
                let (_, a) = self.tval();
                self.p.expect(",");
                let (_, v) = self.tval();
                self.p.expect(",");
                let (_, i) = self.tval();
                self.code.push(I::InsElem { d: du, a, v, i });
            }
            "shufflevector" => {
                let (_, a) = self.tval();
                self.p.expect(",");
                let (_, b) = self.tval();
                self.p.expect(",");
                let t = self.ty();
                // undef lanes read as 0
                let m = match self.m.cval(&mut self.p, &t) {
                    V::A(l) => l
                        .iter()
                        .map(|x| match x {
                            V::C(c) => *c as i32,
                            _ => 0,
                        })
                        .collect::<Vec<_>>(),
                    _ => vec![],
                };
                self.code.push(I::Shuffle { d: du, a, b, mask: m.into() });
            }
            "freeze" => {
                let (_, a) = self.tval();
                self.code.push(I::Copy { d: du, a });
            }
            "fence" => self.code.push(I::Nop),
            "phi" => {
                self.flags(FM);
                let t = self.ty();
                let mut ins = vec![];
                loop {
                    self.p.expect("[");
                    let v = self.val(&t);
                    self.p.expect(",");
                    self.p.expect("%");
                    let l = self.p.name();
                    self.p.expect("]");
                    ins.push((v, l));
                    let save = self.p.i;
                    if self.p.peek() == b',' {
                        self.p.i += 1;
                        if self.p.peek() == b'[' {
                            continue;
                        }
                        self.p.i = save;
                    }
                    break;
                }
                return Some(Phi { d: du, ins });
            }
            "br" => {
                if self.p.peek_word() == "label" {
                    let l = self.label();
                    let e = self.edge(l);
                    self.code.push(I::Br(e));
                } else {
                    let (_, c) = self.tval();
                    self.p.expect(",");
                    let l = self.label();
                    let t = self.edge(l);
                    self.p.expect(",");
                    let l = self.label();
                    let f = self.edge(l);
                    self.code.push(I::CondBr { c, t, f });
                }
            }
            "switch" => {
                let (t, v) = self.tval();
                self.p.expect(",");
                let l = self.label();
                let def = self.edge(l);
                self.p.expect("[");
                let mut cases = vec![];
                while self.p.peek() != b']' {
                    let ct = self.ty();
                    let c = match self.m.cval(&mut self.p, &ct) {
                        V::C(c) => c,
                        V::Big(b) => *b as u64,
                        _ => self.p.fail("case"),
                    };
                    self.p.expect(",");
                    let l = self.label();
                    cases.push((c, self.edge(l)));
                }
                self.p.i += 1;
                let map = cases.iter().copied().collect();
                self.code.push(I::Switch { v, w: t.bits() as u8, def, cases: cases.into(), map: Box::new(map) });
            }
            "ret" => {
                let t = self.ty();
                if t == Ty::Void {
                    self.code.push(I::Ret(O(0), false));
                } else {
                    let v = self.val(&t);
                    self.code.push(I::Ret(v, true));
                }
            }
            "unreachable" => self.code.push(I::Unreachable),
            "tail" | "musttail" | "notail" | "call" => {
                if op != "call" {
                    self.p.expect("call");
                }
                self.flags(FM);
                self.p.attrs_before_type();
                let ret = self.ty();
                // function type for varargs
                if self.p.peek() == b'(' {
                    self.p.skip_parens();
                }
                self.p.ws();
                let callee = if self.p.s[self.p.i] == b'@' {
                    self.p.i += 1;
                    let n = self.p.name();
                    match self.m.fmap.get(&n) {
                        Some(f) => Callee::F(*f),
                        None => match self.m.gmap.get(&n) {
                            Some(a) => {
                                let o = self.k(V::C(*a));
                                Callee::Ind(o)
                            }
                            None => self.p.fail("callee"),
                        },
                    }
                } else if self.p.eat("asm") {
                    let mut s = String::new();
                    while self.p.peek() != b'(' {
                        if self.p.peek() == b'"' {
                            s.push_str(&self.p.string());
                            s.push('|');
                        } else if self.p.peek() == b',' {
                            self.p.i += 1;
                        } else {
                            self.p.word();
                        }
                    }
                    Callee::Asm(s)
                } else {
                    Callee::Ind(self.val(&Ty::Ptr))
                };
                self.p.expect("(");
                let mut args = vec![];
                loop {
                    if self.p.peek() == b')' {
                        self.p.i += 1;
                        break;
                    }
                    if !args.is_empty() {
                        self.p.expect(",");
                    }
                    let t = self.ty();
                    if t == Ty::Meta {
                        // skip the metadata operand
                        let mut depth = 0;
                        loop {
                            let c = self.p.s[self.p.i];
                            if depth == 0 && (c == b',' || c == b')') {
                                break;
                            }
                            if c == b'(' {
                                depth += 1;
                            }
                            if c == b')' {
                                depth -= 1;
                            }
                            self.p.i += 1;
                        }
                        let o = self.k(V::C(0));
                        args.push((o, t));
                        continue;
                    }
                    let v = self.val(&t);
                    args.push((v, t));
                }
                if let Callee::F(f) = &callee {
                    if self.m.funcs[*f as usize].ext == crate::ext::Ext::Nop {
                        self.code.push(I::Nop);
                        return None;
                    }
                }
                self.code.push(I::Call(Box::new(CallI { d, callee, args, ret })));
            }
            "atomicrmw" => {
                self.flags(&["volatile"]);
                let o = match self.p.word() {
                    "xchg" => Rmw::Xchg,
                    "add" => Rmw::Add,
                    "sub" => Rmw::Sub,
                    "and" => Rmw::And,
                    "nand" => Rmw::Nand,
                    "or" => Rmw::Or,
                    "xor" => Rmw::Xor,
                    "max" => Rmw::Max,
                    "min" => Rmw::Min,
                    "umax" => Rmw::UMax,
                    "umin" => Rmw::UMin,
                    _ => self.p.fail("atomicrmw"),
                };
                let (_, p) = self.tval();
                self.p.expect(",");
                let (t, v) = self.tval();
                self.code.push(I::Rmw { d: du, op: o, w: t.bits() as u8, p, v });
            }
            "cmpxchg" => {
                self.flags(&["weak", "volatile"]);
                let (_, p) = self.tval();
                self.p.expect(",");
                let (t, c) = self.tval();
                self.p.expect(",");
                let (_, n) = self.tval();
                self.code.push(I::CmpXchg { d: du, w: t.bits() as u8, p, c, n });
            }
            _ => self.p.fail(&format!("unknown instruction {:?}", op)),
        }
        None
    }
}
thread_local! {
    static EDGE_LABELS: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) };
}
