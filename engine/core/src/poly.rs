//! Multivariate polynomials with integer coefficients (canonical: sorted, no zero terms).
use crate::int::Int;
use std::cmp::Ordering;

pub const NV: usize = 90;
/// Variables RAD0.. are square roots (algebraic elements), 0 is the infinitesimal.
pub const RAD0: usize = 60;
pub const EPS: usize = 0;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Mono(pub [u8; NV]);

impl PartialOrd for Mono { fn partial_cmp(&self, o: &Mono) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Mono { fn cmp(&self, o: &Mono) -> Ordering { self.0.cmp(&o.0) } }

impl Mono {
    pub fn one() -> Mono { Mono([0; NV]) }
    pub fn mul(&self, o: &Mono) -> Mono {
        let mut r = *self;
        for i in 0..NV {
            r.0[i] = match r.0[i].checked_add(o.0[i]) { Some(x) => x, None => crate::eng::abort("degree overflow") };
        }
        r
    }
    pub fn div(&self, o: &Mono) -> Option<Mono> {
        let mut r = *self;
        for i in 0..NV {
            if o.0[i] > r.0[i] { return None; }
            r.0[i] -= o.0[i];
        }
        Some(r)
    }
    pub fn is_one(&self) -> bool { self.0.iter().all(|&e| e == 0) }
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Poly {
    /// descending monomial order
    pub t: Vec<(Mono, Int)>,
}

impl Poly {
    pub fn zero() -> Poly { Poly { t: vec![] } }
    pub fn int(i: Int) -> Poly { if i.is_zero() { Poly::zero() } else { Poly { t: vec![(Mono::one(), i)] } } }
    pub fn one() -> Poly { Poly::int(Int::one()) }
    pub fn var(v: usize) -> Poly {
        let mut m = Mono::one();
        m.0[v] = 1;
        Poly { t: vec![(m, Int::one())] }
    }
    pub fn is_zero(&self) -> bool { self.t.is_empty() }
    pub fn as_const(&self) -> Option<Int> {
        if self.t.is_empty() { Some(Int::zero()) }
        else if self.t.len() == 1 && self.t[0].0.is_one() { Some(self.t[0].1.clone()) }
        else { None }
    }
    pub fn is_one(&self) -> bool { self.t.len() == 1 && self.t[0].0.is_one() && self.t[0].1.is_one() }
    fn from_unsorted(mut v: Vec<(Mono, Int)>) -> Poly {
        v.sort_by(|a, b| b.0.cmp(&a.0));
        let mut r: Vec<(Mono, Int)> = Vec::with_capacity(v.len());
        for (m, c) in v {
            if let Some(l) = r.last_mut() {
                if l.0 == m {
                    l.1 = l.1.add(&c);
                    continue;
                }
            }
            if let Some(l) = r.last() { if l.1.is_zero() { r.pop(); } }
            r.push((m, c));
        }
        if let Some(l) = r.last() { if l.1.is_zero() { r.pop(); } }
        Poly { t: r }
    }
    pub fn neg(&self) -> Poly { Poly { t: self.t.iter().map(|(m, c)| (*m, c.neg())).collect() } }
    pub fn add(&self, o: &Poly) -> Poly {
        let mut r = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() && j < o.t.len() {
            match self.t[i].0.cmp(&o.t[j].0) {
                Ordering::Greater => { r.push(self.t[i].clone()); i += 1; }
                Ordering::Less => { r.push(o.t[j].clone()); j += 1; }
                Ordering::Equal => {
                    let c = self.t[i].1.add(&o.t[j].1);
                    if !c.is_zero() { r.push((self.t[i].0, c)); }
                    i += 1;
                    j += 1;
                }
            }
        }
        r.extend_from_slice(&self.t[i..]);
        r.extend_from_slice(&o.t[j..]);
        Poly { t: r }
    }
    pub fn sub(&self, o: &Poly) -> Poly { self.add(&o.neg()) }
    pub fn scale(&self, k: &Int) -> Poly {
        if k.is_zero() { return Poly::zero(); }
        if k.is_one() { return self.clone(); }
        Poly { t: self.t.iter().map(|(m, c)| (*m, c.mul(k))).collect() }
    }
    pub fn mul_raw(&self, o: &Poly) -> Poly {
        if self.is_zero() || o.is_zero() { return Poly::zero(); }
        if o.t.len() == 1 {
            let (m, c) = &o.t[0];
            return Poly { t: self.t.iter().map(|(a, b)| (a.mul(m), b.mul(c))).collect() };
        }
        if self.t.len() == 1 { return o.mul_raw(self); }
        if self.t.len() * o.t.len() > 4_000_000 { crate::eng::abort("polynomial too large"); }
        let mut v = Vec::with_capacity(self.t.len() * o.t.len());
        for (m, c) in &self.t {
            for (n, d) in &o.t {
                v.push((m.mul(n), c.mul(d)));
            }
        }
        Poly::from_unsorted(v)
    }
    /// Exact division (treating every variable as transcendental).
    pub fn div_exact(&self, o: &Poly) -> Option<Poly> {
        if o.is_zero() { return None; }
        if self.is_zero() { return Some(Poly::zero()); }
        if let Some(c) = o.as_const() {
            let mut t = Vec::with_capacity(self.t.len());
            for (m, d) in &self.t { t.push((*m, d.div_exact(&c)?)); }
            return Some(Poly { t });
        }
        // quick degree test
        let (ds, dv) = (self.degs(), o.degs());
        for i in 0..NV { if dv[i] > ds[i] { return None; } }
        // trailing term must divide too
        let (ml, cl) = o.t.last().unwrap();
        let (sl, scl) = self.t.last().unwrap();
        sl.div(ml)?;
        scl.div_exact(cl)?;
        let (lm, lc) = &o.t[0];
        let mut rem = std::collections::BTreeMap::new();
        for (m, c) in &self.t { rem.insert(*m, c.clone()); }
        let mut q = vec![];
        while let Some((m, c)) = rem.pop_last() {
            let qm = m.div(lm)?;
            let qc = c.div_exact(lc)?;
            for (om, oc) in &o.t[1..] {
                let k = qm.mul(om);
                let v = qc.mul(oc);
                match rem.entry(k) {
                    std::collections::btree_map::Entry::Occupied(mut e) => {
                        let n = e.get().sub(&v);
                        if n.is_zero() { e.remove(); } else { *e.get_mut() = n; }
                    }
                    std::collections::btree_map::Entry::Vacant(e) => { e.insert(v.neg()); }
                }
            }
            q.push((qm, qc));
            if q.len() > 200_000 { return None; }
        }
        Some(Poly { t: q })
    }
    pub fn degs(&self) -> [u8; NV] {
        let mut d = [0u8; NV];
        for (m, _) in &self.t { for i in 0..NV { if m.0[i] > d[i] { d[i] = m.0[i]; } } }
        d
    }
    pub fn content(&self) -> Int {
        let mut g = Int::zero();
        for (_, c) in &self.t {
            g = g.gcd(c);
            if g.is_one() { break; }
        }
        g
    }
    pub fn max_rad(&self) -> Option<usize> {
        let mut best = None;
        for (m, _) in &self.t {
            for i in (RAD0..NV).rev() {
                if m.0[i] > 0 {
                    if best.map_or(true, |b| i > b) { best = Some(i); }
                    break;
                }
            }
        }
        best
    }
    /// p = sum_k v^k * r[k]
    pub fn by_var(&self, v: usize) -> Vec<Poly> {
        let mut r: Vec<Vec<(Mono, Int)>> = vec![];
        for (m, c) in &self.t {
            let e = m.0[v] as usize;
            while r.len() <= e { r.push(vec![]); }
            let mut n = *m;
            n.0[v] = 0;
            r[e].push((n, c.clone()));
        }
        r.into_iter().map(Poly::from_unsorted).collect()
    }
    /// Polynomial square root, if the polynomial is a perfect square.
    pub fn sqrt_exact(&self) -> Option<Poly> {
        if self.is_zero() { return Some(Poly::zero()); }
        let (lm, lc) = &self.t[0];
        let (em, ec) = self.t.last().unwrap();
        for m in [lm, em] { if m.0.iter().any(|e| e % 2 == 1) { return None; } }
        ec.sqrt_exact()?;
        for d in self.degs() { if d % 2 == 1 { return None; } }
        let mut hm = *lm;
        for e in hm.0.iter_mut() { *e /= 2; }
        let hc = lc.sqrt_exact()?;
        let mut root = Poly { t: vec![(hm, hc.clone())] };
        let two = hc.mul(&Int::from(2));
        let mut rem = self.sub(&root.mul_raw(&root));
        let mut steps = 0;
        while !rem.is_zero() {
            let (m, c) = rem.t[0].clone();
            let qm = m.div(&hm)?;
            let qc = c.div_exact(&two)?;
            if qm >= hm { return None; }
            let term = Poly { t: vec![(qm, qc)] };
            // rem -= 2*root*term + term^2
            rem = rem.sub(&root.mul_raw(&term).scale(&Int::from(2)).add(&term.mul_raw(&term)));
            root = root.add(&term);
            steps += 1;
            if steps > 400 { return None; }
        }
        Some(root)
    }
    pub fn smt(&self, name: &dyn Fn(usize) -> String) -> String {
        if self.is_zero() { return "0".into(); }
        let mut ts = vec![];
        for (m, c) in &self.t {
            let mut fs = vec![];
            if !c.is_one() || m.is_one() { fs.push(c.smt()); }
            for i in 0..NV { for _ in 0..m.0[i] { fs.push(name(i)); } }
            if fs.len() == 1 { ts.push(fs.pop().unwrap()); } else { ts.push(format!("(* {})", fs.join(" "))); }
        }
        if ts.len() == 1 { ts.pop().unwrap() } else { format!("(+ {})", ts.join(" ")) }
    }
    /// (value, sum of magnitudes) at a point
    pub fn eval(&self, val: &[f64]) -> (f64, f64) {
        let mut s = 0.0;
        let mut a = 0.0;
        for (m, c) in &self.t {
            let mut x = c.to_f64();
            for i in 0..NV { if m.0[i] > 0 { x *= val[i].powi(m.0[i] as i32); } }
            s += x;
            a += x.abs();
        }
        (s, a)
    }
    pub fn vars(&self) -> Vec<usize> {
        let d = self.degs();
        (0..NV).filter(|&i| d[i] > 0).collect()
    }
}

/// Polynomial gcd (primitive PRS, recursive in the variables); None when it gets too large.
pub fn gcd(a: &Poly, b: &Poly) -> Option<Poly> {
    let mut budget = 4000i64;
    gcd_rec(a, b, &mut budget)
}
fn prim_sign(p: &Poly) -> Poly {
    if p.is_zero() { return p.clone(); }
    let mut c = p.content();
    if p.t[0].1.sign() < 0 { c = c.neg(); }
    p.div_exact(&Poly::int(c)).unwrap()
}
fn gcd_rec(a: &Poly, b: &Poly, budget: &mut i64) -> Option<Poly> {
    *budget -= 1 + (a.t.len() + b.t.len()) as i64 / 8;
    if *budget < 0 { return None; }
    if a.is_zero() { return Some(prim_sign(b)); }
    if b.is_zero() { return Some(prim_sign(a)); }
    if a.as_const().is_some() || b.as_const().is_some() { return Some(Poly::one()); }
    if a.div_exact(b).is_some() { return Some(prim_sign(b)); }
    if b.div_exact(a).is_some() { return Some(prim_sign(a)); }
    let (da, db) = (a.degs(), b.degs());
    // a variable in only one of them: gcd divides the content of that one
    for v in 0..NV {
        if da[v] > 0 && db[v] == 0 {
            let mut g = b.clone();
            for c in a.by_var(v) { if !c.is_zero() { g = gcd_rec(&g, &c, budget)?; if g.is_one() { break; } } }
            return Some(g);
        }
        if db[v] > 0 && da[v] == 0 { return gcd_rec(b, a, budget); }
    }
    let v = (0..NV).filter(|&v| da[v] > 0).min_by_key(|&v| da[v].max(db[v]))?;
    let cont = |p: &Poly, budget: &mut i64| -> Option<Poly> {
        let mut g = Poly::zero();
        for c in p.by_var(v) { if !c.is_zero() { g = gcd_rec(&g, &c, budget)?; if g.is_one() { break; } } }
        Some(g)
    };
    let ca = cont(a, budget)?;
    let cb = cont(b, budget)?;
    let cg = gcd_rec(&ca, &cb, budget)?;
    let mut x = prim_sign(&a.div_exact(&ca).or_else(|| prim_sign(a).div_exact(&ca))?);
    let mut y = prim_sign(&b.div_exact(&cb).or_else(|| prim_sign(b).div_exact(&cb))?);
    if x.degs()[v] < y.degs()[v] { std::mem::swap(&mut x, &mut y); }
    while !y.is_zero() && y.degs()[v] > 0 {
        // pseudo remainder
        let dy = y.degs()[v] as usize;
        let ly = y.by_var(v).pop().unwrap();
        let mut r = x.clone();
        while !r.is_zero() && r.degs()[v] as usize >= dy {
            let dr = r.degs()[v] as usize;
            let lr = r.by_var(v).pop().unwrap();
            let mut m = Mono::one();
            m.0[v] = (dr - dy) as u8;
            let sh = Poly { t: vec![(m, Int::one())] };
            r = r.mul_raw(&ly).sub(&y.mul_raw(&lr).mul_raw(&sh));
            *budget -= 1 + r.t.len() as i64 / 8;
            if *budget < 0 || r.t.len() > 3000 { return None; }
        }
        x = y;
        if r.is_zero() { y = r; break; }
        let c = cont(&r, budget)?;
        y = prim_sign(&prim_sign(&r).div_exact(&c)?);
    }
    let g = if y.is_zero() { x } else { Poly::one() };
    Some(prim_sign(&g.mul_raw(&cg)))
}
