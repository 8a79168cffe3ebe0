//! Rational functions with integer coefficients over positive atoms.
use std::collections::{BTreeMap, BTreeSet};

pub type Mono = Vec<(u32, u32)>;
pub type Poly = BTreeMap<Mono, i128>;

#[derive(Clone, Debug, PartialEq)]
pub struct Rf {
    pub num: Poly,
    pub den: Poly,
}
pub fn pconst(c: i128) -> Poly {
    let mut p = Poly::new();
    if c != 0 {
        p.insert(vec![], c);
    }
    p
}
fn padd(a: &Poly, b: &Poly, s: i128) -> Poly {
    let mut r = a.clone();
    for (m, c) in b {
        let e = r.entry(m.clone()).or_insert(0);
        *e = c.checked_mul(s).and_then(|x| e.checked_add(x)).expect("real coefficient overflow");
        if *e == 0 {
            r.remove(m);
        }
    }
    r
}
fn mmul(a: &Mono, b: &Mono) -> Mono {
    let mut m: BTreeMap<u32, u32> = a.iter().copied().collect();
    for (v, e) in b {
        *m.entry(*v).or_insert(0) += e;
    }
    m.into_iter().collect()
}
fn pmul(a: &Poly, b: &Poly) -> Poly {
    let mut r = Poly::new();
    for (m, c) in a {
        for (n, d) in b {
            let k = mmul(m, n);
            let e = r.entry(k.clone()).or_insert(0);
            *e = c.checked_mul(*d).and_then(|x| e.checked_add(x)).expect("real coefficient overflow");
            if *e == 0 {
                r.remove(&k);
            }
        }
    }
    r
}
fn lex(a: &Mono, b: &Mono) -> std::cmp::Ordering {
    use std::cmp::Ordering::*;
    let mut i = 0;
    loop {
        match (a.get(i), b.get(i)) {
            (None, None) => return Equal,
            (Some(_), None) => return Greater,
            (None, Some(_)) => return Less,
            (Some(x), Some(y)) => {
                if x.0 != y.0 {
                    return if x.0 < y.0 { Greater } else { Less };
                }
                if x.1 != y.1 {
                    return x.1.cmp(&y.1);
                }
            }
        }
        i += 1;
    }
}
fn mdiv(a: &Mono, b: &Mono) -> Option<Mono> {
    let mut m: BTreeMap<u32, u32> = a.iter().copied().collect();
    for (v, e) in b {
        let x = m.get_mut(v)?;
        if *x < *e {
            return None;
        }
        *x -= *e;
    }
    Some(m.into_iter().filter(|x| x.1 > 0).collect())
}
/// the quotient, when the division leaves no remainder
fn pdiv(a: &Poly, b: &Poly) -> Option<Poly> {
    if a.len() * b.len() > 20_000 {
        return None;
    }
    let (lb, cb) = b.iter().max_by(|x, y| lex(x.0, y.0))?;
    let mut rest = a.clone();
    let mut q = Poly::new();
    while !rest.is_empty() {
        let (la, ca) = rest.iter().max_by(|x, y| lex(x.0, y.0))?;
        if ca % cb != 0 {
            return None;
        }
        let m = mdiv(la, lb)?;
        let mut t = Poly::new();
        t.insert(m.clone(), ca / cb);
        rest = padd(&rest, &pmul(&t, b), -1);
        q.insert(m, t.values().next().copied()?);
        if q.len() > 200 {
            return None;
        }
    }
    Some(q)
}
/// a/b = c/d as two polynomials a*d and c*b without common terms
pub fn cross(x: &Rf, y: &Rf) -> (Poly, Poly) {
    let d = padd(&pmul(&x.num, &y.den), &pmul(&y.num, &x.den), -1);
    let (mut l, mut r) = (Poly::new(), Poly::new());
    for (m, c) in d {
        if c > 0 {
            l.insert(m, c);
        } else {
            r.insert(m, -c);
        }
    }
    (l, r)
}
/// a point at which two polynomials differ, among a few small ones
pub fn differ_at(l: &Poly, r: &Poly, atoms: &BTreeSet<u32>) -> Option<Vec<(u32, f64)>> {
    const P: [[i128; 7]; 4] = [[1, 1, 1, 1, 1, 1, 1], [2, 3, 5, 7, 11, 13, 17], [7, 2, 1, 3, 1, 5, 2], [1, 2, 1, 5, 3, 1, 2]];
    'next: for pt in &P {
        let at: BTreeMap<u32, i128> = atoms.iter().enumerate().map(|(i, &a)| (a, pt[i % 7])).collect();
        let mut v = [0i128; 2];
        for (k, p) in [l, r].into_iter().enumerate() {
            for (m, c) in p {
                let mut t = *c;
                for (a, e) in m {
                    for _ in 0..*e {
                        match t.checked_mul(at[a]) {
                            Some(x) => t = x,
                            None => continue 'next,
                        }
                    }
                }
                match v[k].checked_add(t) {
                    Some(x) => v[k] = x,
                    None => continue 'next,
                }
            }
        }
        if v[0] != v[1] {
            return Some(at.into_iter().map(|(a, x)| (a, x as f64)).collect());
        }
    }
    None
}
impl Rf {
    pub fn atom(i: u32) -> Rf {
        let mut p = Poly::new();
        p.insert(vec![(i, 1)], 1);
        Rf { num: p, den: pconst(1) }
    }
    pub fn int(n: i128, d: i128) -> Rf {
        Rf { num: pconst(n), den: pconst(d) }
    }
    /// exact value of a double with a short dyadic expansion
    pub fn from_f64(v: f64) -> Option<Rf> {
        for s in 0..40 {
            let x = v * (1u64 << s) as f64;
            if x == x.trunc() && x.abs() < 9e15 {
                return Some(Rf::int(x as i128, 1i128 << s).norm());
            }
        }
        None
    }
    pub fn add(&self, o: &Rf) -> Rf {
        if self.den == o.den {
            return Rf { num: padd(&self.num, &o.num, 1), den: self.den.clone() }.norm();
        }
        if let Some(q) = pdiv(&self.den, &o.den) {
            return Rf { num: padd(&self.num, &pmul(&o.num, &q), 1), den: self.den.clone() }.norm();
        }
        if let Some(q) = pdiv(&o.den, &self.den) {
            return Rf { num: padd(&pmul(&self.num, &q), &o.num, 1), den: o.den.clone() }.norm();
        }
        Rf { num: padd(&pmul(&self.num, &o.den), &pmul(&o.num, &self.den), 1), den: pmul(&self.den, &o.den) }.norm()
    }
    pub fn neg(&self) -> Rf {
        Rf { num: padd(&Poly::new(), &self.num, -1), den: self.den.clone() }
    }
    pub fn mul(&self, o: &Rf) -> Rf {
        if self.num == o.den {
            return Rf { num: o.num.clone(), den: self.den.clone() }.norm();
        }
        if self.den == o.num {
            return Rf { num: self.num.clone(), den: o.den.clone() }.norm();
        }
        Rf { num: pmul(&self.num, &o.num), den: pmul(&self.den, &o.den) }.norm()
    }
    pub fn inv(&self) -> Rf {
        Rf { num: self.den.clone(), den: self.num.clone() }
    }
    pub fn is_zero(&self) -> bool {
        self.num.is_empty()
    }
    /// cancel common monomial factors and equal numerator/denominator
    fn norm(mut self) -> Rf {
        if self.num.is_empty() {
            return Rf { num: Poly::new(), den: pconst(1) };
        }
        if self.num == self.den {
            return Rf::int(1, 1);
        }
        let mut common: Option<BTreeMap<u32, u32>> = None;
        let mut g: i128 = 0;
        for (m, c) in self.num.iter().chain(self.den.iter()) {
            let mm: BTreeMap<u32, u32> = m.iter().copied().collect();
            common = Some(match common {
                None => mm,
                Some(c) => c.into_iter().filter_map(|(v, e)| mm.get(&v).map(|f| (v, e.min(*f)))).collect(),
            });
            let (mut a, mut b) = (g.abs(), c.abs());
            while b != 0 {
                let t = a % b;
                a = b;
                b = t;
            }
            g = a;
        }
        let common = common.unwrap_or_default();
        if common.is_empty() && g <= 1 {
            return self;
        }
        let red = |p: &Poly| -> Poly {
            p.iter().map(|(m, c)| (m.iter().map(|&(v, e)| (v, e - common.get(&v).copied().unwrap_or(0))).filter(|x| x.1 > 0).collect(), c / g.max(1))).collect()
        };
        self.num = red(&self.num);
        self.den = red(&self.den);
        self
    }
    pub fn hash(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.num.hash(&mut h);
        self.den.hash(&mut h);
        h.finish()
    }
    pub fn same(&self, o: &Rf) -> bool {
        self == o
    }
    pub fn atoms(&self, s: &mut BTreeSet<u32>) {
        for (m, _) in self.num.iter().chain(self.den.iter()) {
            for (v, _) in m {
                s.insert(*v);
            }
        }
    }
    pub fn eval(&self, get: &dyn Fn(u32) -> f64) -> f64 {
        let p = |p: &Poly| -> f64 { p.iter().map(|(m, c)| *c as f64 * m.iter().map(|(v, e)| get(*v).powi(*e as i32)).product::<f64>()).sum() };
        p(&self.num) / p(&self.den)
    }
}
