//! Flat 64-bit memory: copy-on-write pages with an optional symbolic overlay.
use crate::expr::*;
use std::collections::BTreeMap;
use std::sync::Arc;

pub const PG: usize = 4096;
const CH: usize = 128; // pages per chunk

#[derive(Clone)]
struct Sym {
    cover: [u64; 64],
    ent: BTreeMap<u16, (Ex, u8)>,
}
#[derive(Clone)]
struct Page {
    data: [u8; PG],
    sym: Option<Box<Sym>>,
}
impl Page {
    fn new() -> Page {
        Page { data: [0; PG], sym: None }
    }
}
#[derive(Clone)]
struct Chunk {
    p: Vec<Option<Arc<Page>>>,
}
#[derive(Clone, Default)]
pub struct Mem {
    top: Arc<Vec<Option<Arc<Chunk>>>>,
    pub pages: usize,
}
pub enum Rd {
    C(u128),
    S(Ex),
}
/// bytes plus symbolic pieces (offset, value, size)
pub struct Blob {
    pub bytes: Vec<u8>,
    pub ents: Vec<(u64, Ex, u8)>,
}
impl Blob {
    pub fn byte(&self, i: usize) -> Ex {
        match self.sym_at(i) {
            Some(e) => e,
            None => cst(self.bytes[i] as u64, 8),
        }
    }
    pub fn sym_byte(&self, i: usize) -> Option<Ex> {
        self.sym_at(i)
    }
    fn sym_at(&self, i: usize) -> Option<Ex> {
        let k = self.ents.partition_point(|e| e.0 <= i as u64);
        if k == 0 {
            return None;
        }
        let (o, e, n) = &self.ents[k - 1];
        if o + *n as u64 > i as u64 {
            return Some(extract(&ibits(e), 8 * (i as u64 - o) as u32, 8));
        }
        None
    }
    pub fn concrete(&self) -> bool {
        self.ents.is_empty()
    }
}

/// bit-vector view of a value (scaled floats become IEEE bits)
pub fn ibits(e: &Ex) -> Ex {
    match e.k {
        K::FInt { .. } => fint_bits(e),
        K::Real(..) => {
            REAL_LEAK.with(|x| x.set(true));
            cst(0, 64)
        }
        _ => e.clone(),
    }
}
thread_local! {
    /// set when a real-algebra term was about to be read as bits
    pub static REAL_LEAK: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

#[inline]
fn covered(s: &Sym, off: usize, n: usize) -> bool {
    let (a, b) = (off / 64, (off + n - 1) / 64);
    let lo = off % 64;
    if a == b {
        let m = if n >= 64 { !0 } else { ((1u64 << n) - 1) << lo };
        return s.cover[a] & m != 0;
    }
    if s.cover[a] >> lo != 0 {
        return true;
    }
    for k in a + 1..b {
        if s.cover[k] != 0 {
            return true;
        }
    }
    let e = (off + n - 1) % 64;
    let m = if e == 63 { !0 } else { (1u64 << (e + 1)) - 1 };
    s.cover[b] & m != 0
}
fn setcov(s: &mut Sym, off: usize, n: usize, v: bool) {
    for i in off..off + n {
        if v {
            s.cover[i / 64] |= 1 << (i % 64)
        } else {
            s.cover[i / 64] &= !(1 << (i % 64))
        }
    }
}
impl Sym {
    /// remove everything overlapping [off, off+n), keeping the leftovers
    fn punch(&mut self, off: usize, n: usize) {
        if !covered(self, off, n) {
            return;
        }
        let start = off.saturating_sub(15);
        let hit: Vec<(u16, (Ex, u8))> = self.ent.range(start as u16..(off + n) as u16).filter(|(o, e)| **o as usize + e.1 as usize > off).map(|(o, e)| (*o, e.clone())).collect();
        for (o, (e, sz)) in hit {
            self.ent.remove(&o);
            let (o, sz) = (o as usize, sz as usize);
            if o < off {
                let k = off - o;
                self.ent.insert(o as u16, (extract(&ibits(&e), 0, 8 * k as u32), k as u8));
            }
            if o + sz > off + n {
                let k = o + sz - off - n;
                self.ent.insert((off + n) as u16, (extract(&ibits(&e), 8 * (sz - k) as u32, 8 * k as u32), k as u8));
            }
        }
        setcov(self, off, n, false);
    }
}

impl Mem {
    #[inline]
    fn page(&self, a: u64) -> Option<&Page> {
        let pn = a as usize / PG;
        match self.top.get(pn / CH) {
            Some(Some(c)) => c.p[pn % CH].as_deref(),
            _ => None,
        }
    }
    #[inline]
    fn page_mut(&mut self, a: u64) -> &mut Page {
        let pn = a as usize / PG;
        let top = Arc::make_mut(&mut self.top);
        if pn / CH >= top.len() {
            top.resize(pn / CH + 1, None);
        }
        let c = top[pn / CH].get_or_insert_with(|| Arc::new(Chunk { p: vec![None; CH] }));
        let c = Arc::make_mut(c);
        let p = &mut c.p[pn % CH];
        if p.is_none() {
            self.pages += 1;
            *p = Some(Arc::new(Page::new()));
        }
        Arc::make_mut(p.as_mut().unwrap())
    }
    #[inline]
    pub fn read(&self, a: u64, n: usize) -> Rd {
        let off = a as usize % PG;
        if off + n <= PG {
            let p = match self.page(a) {
                None => return Rd::C(0),
                Some(p) => p,
            };
            if let Some(s) = &p.sym {
                if covered(s, off, n) {
                    if let Some((e, sz)) = s.ent.get(&(off as u16)) {
                        if *sz as usize == n {
                            return Rd::S(e.clone());
                        }
                    }
                    return self.assemble(a, n);
                }
            }
            let d = &p.data[off..off + n];
            return Rd::C(match n {
                1 => d[0] as u128,
                2 => u16::from_le_bytes([d[0], d[1]]) as u128,
                4 => u32::from_le_bytes(d.try_into().unwrap()) as u128,
                8 => u64::from_le_bytes(d.try_into().unwrap()) as u128,
                _ => {
                    let mut b = [0u8; 16];
                    b[..n].copy_from_slice(d);
                    u128::from_le_bytes(b)
                }
            });
        }
        self.assemble(a, n)
    }
    fn assemble(&self, a: u64, n: usize) -> Rd {
        let b = self.get(a, n as u64);
        if b.concrete() {
            let mut x = [0u8; 16];
            x[..n].copy_from_slice(&b.bytes);
            return Rd::C(u128::from_le_bytes(x));
        }
        // pieces, low to high
        let mut r: Option<Ex> = None;
        let mut put = |e: Ex| {
            r = Some(match r.take() {
                None => e,
                Some(l) => concat(&e, &l),
            })
        };
        let mut i = 0u64;
        let mut k = 0;
        while i < n as u64 {
            if k < b.ents.len() && b.ents[k].0 == i {
                put(ibits(&b.ents[k].1));
                i += b.ents[k].2 as u64;
                k += 1;
            } else {
                put(cst(b.bytes[i as usize] as u64, 8));
                i += 1;
            }
        }
        Rd::S(r.unwrap())
    }
    #[inline]
    pub fn write(&mut self, a: u64, n: usize, v: u128) {
        let off = a as usize % PG;
        if off + n <= PG {
            let p = self.page_mut(a);
            if let Some(s) = &mut p.sym {
                s.punch(off, n);
            }
            match n {
                1 => p.data[off] = v as u8,
                4 => p.data[off..off + 4].copy_from_slice(&(v as u32).to_le_bytes()),
                8 => p.data[off..off + 8].copy_from_slice(&(v as u64).to_le_bytes()),
                _ => p.data[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]),
            }
            return;
        }
        let b = v.to_le_bytes();
        for i in 0..n {
            self.write(a + i as u64, 1, b[i] as u128)
        }
    }
    /// e has width 8*n
    pub fn write_sym(&mut self, a: u64, n: usize, e: &Ex) {
        if let Some(c) = e.as_const() {
            return self.write(a, n, c);
        }
        let off = a as usize % PG;
        if off + n > PG {
            let k = PG - off;
            let b = ibits(e);
            let lo = extract(&b, 0, 8 * k as u32);
            let hi = extract(&b, 8 * k as u32, 8 * (n - k) as u32);
            self.write_sym(a, k, &lo);
            self.write_sym(a + k as u64, n - k, &hi);
            return;
        }
        let p = self.page_mut(a);
        let s = p.sym.get_or_insert_with(|| Box::new(Sym { cover: [0; 64], ent: BTreeMap::new() }));
        s.punch(off, n);
        s.ent.insert(off as u16, (e.clone(), n as u8));
        setcov(s, off, n, true);
    }
    pub fn get(&self, a: u64, n: u64) -> Blob {
        let mut b = Blob { bytes: Vec::with_capacity(n as usize), ents: vec![] };
        let mut i = 0u64;
        while i < n {
            let x = a + i;
            let off = x as usize % PG;
            let k = (PG - off).min((n - i) as usize);
            match self.page(x) {
                None => b.bytes.resize(b.bytes.len() + k, 0),
                Some(p) => {
                    b.bytes.extend_from_slice(&p.data[off..off + k]);
                    if let Some(s) = &p.sym {
                        if covered(s, off, k) {
                            let start = off.saturating_sub(15);
                            for (o, (e, sz)) in s.ent.range(start as u16..) {
                                let (o, sz) = (*o as usize, *sz as usize);
                                if o >= off + k {
                                    break;
                                }
                                if o + sz <= off {
                                    continue;
                                }
                                let lo = o.max(off);
                                let hi = (o + sz).min(off + k);
                                let pos = i + (lo - off) as u64;
                                if lo == o && hi == o + sz {
                                    b.ents.push((pos, e.clone(), sz as u8));
                                } else {
                                    let v = extract(&ibits(e), 8 * (lo - o) as u32, 8 * (hi - lo) as u32);
                                    b.ents.push((pos, v, (hi - lo) as u8));
                                }
                            }
                        }
                    }
                }
            }
            i += k as u64;
        }
        b
    }
    pub fn put_bytes(&mut self, a: u64, d: &[u8]) {
        let mut i = 0usize;
        while i < d.len() {
            let x = a + i as u64;
            let off = x as usize % PG;
            let k = (PG - off).min(d.len() - i);
            let p = self.page_mut(x);
            if let Some(s) = &mut p.sym {
                s.punch(off, k);
            }
            p.data[off..off + k].copy_from_slice(&d[i..i + k]);
            i += k;
        }
    }
    pub fn put(&mut self, a: u64, b: &Blob) {
        self.put_bytes(a, &b.bytes);
        for (o, e, n) in &b.ents {
            self.write_sym(a + o, *n as usize, e);
        }
    }
    pub fn fill(&mut self, a: u64, v: u8, n: u64) {
        let mut i = 0;
        while i < n {
            let x = a + i;
            let off = x as usize % PG;
            let k = (PG - off).min((n - i) as usize);
            if v == 0 && self.page(x).is_none() {
                i += k as u64;
                continue;
            }
            let p = self.page_mut(x);
            if let Some(s) = &mut p.sym {
                s.punch(off, k);
            }
            p.data[off..off + k].fill(v);
            i += k as u64;
        }
    }
}
