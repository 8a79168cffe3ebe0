//! Path conditions and the decision layers: finite domains, then Z3.
use crate::expr::*;
use crate::z3::{Res, VarDecl, Z3};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct VarI {
    pub w: u32,
    pub lo: u64,
    pub hi: u64,
    pub dom: Option<[u64; 4]>,
    pub known: Option<u64>,
}
#[derive(Clone, Default)]
pub struct Path {
    pub vars: Arc<Vec<VarI>>,
    pub conds: Vec<Ex>,
    pub ent: VarSet,
    pub known: VarSet,
    pub model: Arc<Vec<u64>>,
}
#[derive(Default)]
pub struct Stats {
    pub z3_queries: AtomicU64,
    pub z3_sat: AtomicU64,
    pub z3_unsat: AtomicU64,
    pub z3_us: AtomicU64,
    pub cache_hits: AtomicU64,
    pub dom_decisions: AtomicU64,
    pub cross: AtomicU64,
    pub assert_queries: AtomicU64,
    pub assert_concrete: AtomicU64,
}
pub struct Shared {
    pub cache: Vec<Mutex<FxMap<u64, Res>>>,
    pub stats: Stats,
}
impl Shared {
    pub fn new() -> Shared {
        Shared { cache: (0..64).map(|_| Mutex::new(Default::default())).collect(), stats: Stats::default() }
    }
}
pub struct Solver {
    pub z3: Z3,
    pub sh: Arc<Shared>,
    tt: FxMap<(u64, u32), [u64; 4]>,
}
#[derive(Clone, Debug)]
pub enum Side {
    No,
    Yes(Arc<Vec<u64>>),
    Unknown,
}
impl Side {
    pub fn is_no(&self) -> bool {
        matches!(self, Side::No)
    }
}

fn andn(a: [u64; 4], b: [u64; 4], neg: bool) -> [u64; 4] {
    let f = |i: usize| a[i] & if neg { !b[i] } else { b[i] };
    [f(0), f(1), f(2), f(3)]
}
fn first(a: [u64; 4]) -> Option<u64> {
    (0..4).find(|&i| a[i] != 0).map(|i| i as u64 * 64 + a[i].trailing_zeros() as u64)
}
fn popc(a: [u64; 4]) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}

impl Path {
    pub fn new_var(&mut self, lo: u64, hi: u64) -> Ex {
        let w = if hi == 0 { 1 } else { 64 - hi.leading_zeros() };
        let id = self.vars.len() as u32;
        let dom = if hi - lo < 256 {
            let mut d = [0u64; 4];
            for i in 0..=(hi - lo) as usize {
                d[i / 64] |= 1 << (i % 64);
            }
            Some(d)
        } else {
            None
        };
        Arc::make_mut(&mut self.vars).push(VarI { w, lo, hi, dom, known: if lo == hi { Some(lo) } else { None } });
        Arc::make_mut(&mut self.model).push(lo);
        if lo == hi {
            self.known = self.known.or(VarSet::one(id));
            return cst(lo, w);
        }
        var(id, w, lo, hi)
    }
    pub fn simp(&self, e: &Ex) -> Ex {
        if !e.vars.meets(self.known) {
            return e.clone();
        }
        let vars = &self.vars;
        subst(e, self.known, &|id| vars[id as usize].known, &mut Default::default())
    }
    pub fn eval(&self, e: &Ex) -> u128 {
        let m = &self.model;
        eval(e, &|id| m[id as usize], &mut Default::default())
    }
    fn set_known(&mut self, id: u32, v: u64) {
        let x = &mut Arc::make_mut(&mut self.vars)[id as usize];
        x.known = Some(v);
        self.known = self.known.or(VarSet::one(id));
    }
}

impl Solver {
    pub fn new(sh: Arc<Shared>, timeout_ms: u32) -> Solver {
        Solver { z3: Z3::new(timeout_ms), sh, tt: Default::default() }
    }
    /// the only free variable of e with a small domain
    fn single(&self, p: &Path, e: &Ex) -> Option<u32> {
        let id = e.vars.single()?;
        if p.vars[id as usize].dom.is_some() {
            Some(id)
        } else {
            None
        }
    }
    fn table(&mut self, p: &Path, e: &Ex, id: u32) -> [u64; 4] {
        let v = &p.vars[id as usize];
        let key = (e.h ^ v.lo.wrapping_mul(0x9e3779b97f4a7c15) ^ v.hi.rotate_left(17), id);
        if let Some(t) = self.tt.get(&key) {
            return *t;
        }
        let mut t = [0u64; 4];
        for i in 0..=(v.hi - v.lo) {
            let x = v.lo + i;
            if eval(e, &|_| x, &mut Default::default()) == 1 {
                t[i as usize / 64] |= 1 << (i % 64);
            }
        }
        if self.tt.len() > 2_000_000 {
            self.tt.clear();
        }
        self.tt.insert(key, t);
        t
    }
    fn slice(&self, p: &Path, c: &Ex) -> Vec<Ex> {
        let mut vars = c.vars;
        let mut out = vec![];
        let mut left: Vec<&Ex> = p.conds.iter().rev().collect();
        loop {
            let n = left.len();
            left.retain(|e| {
                if e.vars.meets(vars) {
                    vars = vars.or(e.vars);
                    out.push((*e).clone());
                    false
                } else {
                    true
                }
            });
            if left.len() == n {
                return out;
            }
        }
    }
    pub fn decls(&self, p: &Path, conds: &[Ex]) -> Vec<VarDecl> {
        let mut vs = FxMap::default();
        let mut seen = FxSet::default();
        for e in conds {
            collect_vars(e, &mut vs, &mut seen);
        }
        let mut ids: Vec<u32> = vs.keys().copied().collect();
        ids.sort();
        ids.into_iter()
            .map(|id| {
                let v = &p.vars[id as usize];
                VarDecl { id, w: v.w, lo: v.lo, hi: v.hi, dom: v.dom.map(|d| (v.lo, d)) }
            })
            .collect()
    }
    /// satisfiability of conds under the variable domains
    pub fn query(&mut self, p: &Path, mut conds: Vec<Ex>) -> Res {
        let decls = self.decls(p, &conds);
        conds.sort_by_key(|e| e.h);
        conds.dedup_by_key(|e| e.h);
        let mut key = 0x1234567u64;
        let mut mix = |v: u64| {
            key = (key.rotate_left(7) ^ v).wrapping_mul(0x9e3779b97f4a7c15);
            key ^= key >> 31;
        };
        for e in &conds {
            mix(e.h)
        }
        for d in &decls {
            mix(d.id as u64 ^ (d.w as u64) << 32);
            mix(d.lo);
            mix(d.hi);
            if let Some((_, b)) = d.dom {
                b.iter().for_each(|x| mix(*x))
            }
        }
        let shard = (key >> 58) as usize;
        if let Some(r) = self.sh.cache[shard].lock().unwrap().get(&key) {
            self.sh.stats.cache_hits.fetch_add(1, Relaxed);
            return r.clone();
        }
        let t = Instant::now();
        let r = self.z3.check(&conds, &decls);
        let st = &self.sh.stats;
        st.z3_us.fetch_add(t.elapsed().as_micros() as u64, Relaxed);
        st.z3_queries.fetch_add(1, Relaxed);
        match &r {
            Res::Sat(_) => st.z3_sat.fetch_add(1, Relaxed),
            Res::Unsat => st.z3_unsat.fetch_add(1, Relaxed),
            _ => 0,
        };
        if let Ok(f) = std::env::var("SYMX_DUMP") {
            let s = self.z3.smt2(&conds, &decls);
            let slow = if t.elapsed().as_millis() > 1000 || matches!(r, Res::Unknown) { "slow" } else { "q" };
            let _ = std::fs::write(format!("{}/{}{:x}.smt2", f, slow, key), s);
        }
        // check the model against our own evaluator
        if let Res::Sat(m) = &r {
            let map: FxMap<u32, u64> = m.iter().copied().collect();
            let mut memo = Default::default();
            for e in &conds {
                if eval(e, &|id| map.get(&id).copied().unwrap_or(0), &mut memo) != 1 {
                    eprintln!("z3 model does not satisfy {:?}", e);
                    return Res::Unknown;
                }
            }
        }
        self.sh.cache[shard].lock().unwrap().insert(key, r.clone());
        r
    }
    fn with_model(p: &Path, m: &[(u32, u64)]) -> Arc<Vec<u64>> {
        let mut v = (*p.model).clone();
        for (id, x) in m {
            v[*id as usize] = *x;
        }
        Arc::new(v)
    }
    fn by_z3(&mut self, p: &Path, c: &Ex) -> Side {
        let mut q = self.slice(p, c);
        q.push(c.clone());
        match self.query(p, q) {
            Res::Sat(m) => Side::Yes(Self::with_model(p, &m)),
            Res::Unsat => Side::No,
            Res::Unknown => Side::Unknown,
        }
    }
    /// (can be true, can be false) for an already simplified condition
    pub fn decide(&mut self, p: &Path, c: &Ex) -> (Side, Side) {
        if let Some(b) = c.as_const() {
            return if b == 1 { (Side::Yes(p.model.clone()), Side::No) } else { (Side::No, Side::Yes(p.model.clone())) };
        }
        let cur = p.eval(c) == 1;
        let here = Side::Yes(p.model.clone());
        let other;
        if let Some(id) = self.single(p, c) {
            let t = self.table(p, c, id);
            let v = &p.vars[id as usize];
            let d = v.dom.unwrap();
            let o = andn(d, t, cur);
            self.sh.stats.dom_decisions.fetch_add(1, Relaxed);
            match first(o) {
                None => {
                    other = Side::No;
                    if c.h % 37 == 0 {
                        self.cross(p, c, cur, false);
                    }
                }
                Some(k) if !p.ent.has(id) => {
                    let lo = v.lo;
                    other = Side::Yes(Self::with_model(p, &[(id, lo + k)]));
                    if c.h % 37 == 0 {
                        self.cross(p, c, cur, true);
                    }
                }
                Some(_) => {
                    let n = if cur { not(c) } else { c.clone() };
                    other = self.by_z3(p, &n);
                }
            }
        } else {
            let n = if cur { not(c) } else { c.clone() };
            other = self.by_z3(p, &n);
        }
        if cur {
            (here, other)
        } else {
            (other, here)
        }
    }
    /// re-decide a finite-domain decision with Z3
    fn cross(&mut self, p: &Path, c: &Ex, cur: bool, sat: bool) {
        let n = if cur { not(c) } else { c.clone() };
        self.sh.stats.cross.fetch_add(1, Relaxed);
        match self.by_z3(p, &n) {
            Side::No if sat => panic!("domain layer and Z3 disagree on {:?}", c),
            Side::Yes(_) if !sat => panic!("domain layer and Z3 disagree on {:?}", c),
            _ => {}
        }
    }
    /// add a condition known to be satisfied by `model`
    pub fn assume(&mut self, p: &mut Path, c: &Ex, model: Arc<Vec<u64>>) {
        p.model = model;
        let mut work = vec![c.clone()];
        while let Some(c) = work.pop() {
            let c = p.simp(&c);
            if c.as_const().is_some() {
                continue;
            }
            if let K::Bin(B::And, a, b) = &c.k {
                if c.w == 1 {
                    work.push(a.clone());
                    work.push(b.clone());
                    continue;
                }
            }
            let mut newly: Option<(u32, u64)> = None;
            if let Some(id) = self.single(p, &c) {
                let t = self.table(p, &c, id);
                let v = &mut Arc::make_mut(&mut p.vars)[id as usize];
                let d = andn(v.dom.unwrap(), t, false);
                v.dom = Some(d);
                if popc(d) == 1 {
                    newly = Some((id, v.lo + first(d).unwrap()));
                }
            } else {
                if let K::Bin(B::Eq, a, b) = &c.k {
                    if let (K::Var { id, .. }, Some(k)) = (&a.k, b.c64()) {
                        newly = Some((*id, k));
                    }
                }
                if newly.is_none() {
                    p.ent = p.ent.or(c.vars);
                    p.conds.push(c);
                }
            }
            if let Some((id, k)) = newly {
                p.set_known(id, k);
                let vs = VarSet::one(id);
                if p.ent.meets(vs) {
                    let mut keep = vec![];
                    let mut ent = VarSet::default();
                    for e in std::mem::take(&mut p.conds) {
                        if e.vars.meets(vs) {
                            work.push(e);
                        } else {
                            ent = ent.or(e.vars);
                            keep.push(e);
                        }
                    }
                    p.conds = keep;
                    p.ent = ent;
                }
            }
        }
    }
    /// Decide an assertion with Z3: can `c` be false on this path?
    pub fn refute(&mut self, p: &Path, c: &Ex) -> Side {
        self.sh.stats.assert_queries.fetch_add(1, Relaxed);
        let n = not(c);
        if n.as_const() == Some(1) {
            return Side::Yes(p.model.clone());
        }
        self.by_z3(p, &n)
    }
}
