//! Symbolic values (rational functions over a tower of square roots), path
//! conditions, decisions, strata and obligations.
use crate::int::Int;
use crate::poly::{Poly, EPS, NV, RAD0};
use crate::solver::{Res, Solver};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub const NEG: u8 = 1;
pub const ZER: u8 = 2;
pub const POS: u8 = 4;
pub const ALL: u8 = 7;

/// Panic payloads of the engine itself (never confused with panics of the code under test).
pub enum Stop {
    /// the engine cannot represent something on this path: undecided
    Abort(String),
    /// path continued in more specific tasks
    Strata,
    Infeasible,
    /// harness assumption not met
    Assume,
    /// the harness asked to stop here: nothing after this point can break the property it checks
    Cut,
}

pub fn abort(s: &str) -> ! { std::panic::resume_unwind(Box::new(Stop::Abort(s.to_string()))) }
pub fn stop(s: Stop) -> ! { std::panic::resume_unwind(Box::new(s)) }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Frac { pub n: Poly, pub ic: Int, pub den: Vec<(u32, u32)> }

impl std::fmt::Debug for Poly {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.smt(&vname)) }
}

#[derive(Clone, Debug)]
pub enum Val { N(Rc<Frac>), Abs(Rc<Frac>), Sp(f64) }

pub fn vname(i: usize) -> String {
    if i == EPS { "eps".into() } else if i >= RAD0 { format!("r{}", i - RAD0) } else { format!("v{}", i) }
}

pub struct Rad { pub sq: Poly, pub abs_of: Option<u32>, pub repl: Option<Poly> }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Subst {
    /// v = num/den
    Lin(Poly, Poly),
    /// v = (-b + s*sqrt(b^2-4ac)) / 2a
    Quad(Poly, Poly, Poly, bool),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Task {
    pub subst: Vec<(usize, Subst)>,
    pub side: Vec<(Poly, u8)>,
    pub eqs: Vec<Poly>,
    pub prog: Vec<bool>,
    pub full: Vec<bool>,
    pub depth: u32,
}

pub struct Cons { pub smt: String, pub vars: u128, pub fm: Form, pub q: u8 }

#[derive(Clone)]
pub struct Form { c: i32, odd: Vec<u32>, even: Vec<u32>, tail: bool }

/// How a value was computed by the code under test (for the independent, un-normalised query).
#[derive(Clone, Copy, Debug)]
pub enum Op { Leaf, Un(u8, u32), Bin(u8, u32, u32) }

#[derive(Clone, Debug)]
pub struct Cand {
    pub label: String,
    /// candidate inputs, each a full assignment of the input variables
    pub inputs: Vec<Vec<f64>>,
    pub path: String,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub paths: u64,
    pub strata: u64,
    pub infeasible: u64,
    pub assume: u64,
    pub decisions: u64,
    pub obl: u64,
    pub obl_norm: u64,
    pub obl_smt: u64,
    pub obl_bool: u64,
    pub max_terms: usize,
    pub dirty: u64,
    pub raw_unsat: u64,
    pub raw_unknown: u64,
    pub raw_obl: u64,
}

#[derive(Clone)]
pub struct Cfg {
    pub concrete_eps: bool,
    pub feas_ms: u64,
    pub obl_ms: u64,
    pub path_ms: u64,
    pub max_decisions: usize,
    pub seed: u64,
    /// treat reads of never-written memory as the violation looked for
    pub dirty_is_violation: bool,
    pub raw_ms: u64,
    pub raw_total_s: f64,
    /// explore only branches that some sample point takes (the others are counted as excluded)
    pub witnessed: bool,
}
impl Default for Cfg {
    fn default() -> Cfg {
        Cfg { concrete_eps: false, feas_ms: 1500, obl_ms: 20000, path_ms: 60_000, max_decisions: 600, seed: 1, dirty_is_violation: false, raw_ms: 1500, raw_total_s: 20.0, witnessed: false }
    }
}

pub struct Eng {
    pub vals: Vec<Val>,
    pub ops: Vec<Op>,
    pub raw: Vec<(u32, u32)>,
    pub pool: Vec<Poly>,
    pool_ix: HashMap<Poly, u32>,
    fsign: HashMap<Vec<u32>, u8>,
    pub rads: Vec<Rad>,
    rad_ix: HashMap<Poly, usize>,
    pub nvars: usize,
    pub names: Vec<String>,
    vval: HashMap<usize, Frac>,
    pub pc: Vec<Cons>,
    pub samples: Vec<Vec<f64>>,
    pub task: Task,
    declog: Vec<bool>,
    proglog: Vec<bool>,
    pub spawned: Vec<Task>,
    pub solver: Solver,
    pub cfg: Cfg,
    pub stats: Stats,
    pub cands: Vec<Cand>,
    pub undecided: Vec<String>,
    pub uf: HashMap<(Frac, Frac), Frac>,
    pub dirty_vars: Vec<usize>,
    pub dirty_events: Vec<String>,
    pub fresh: Vec<usize>,
    pub depth_stop: bool,
    pub trace: bool,
    pub t0: std::time::Instant,
    pub replaying_full: bool,
    pub raw_spent: f64,
    /// from this many square roots on, eps is larger than everything else (iterations end)
    pub trunc_after: Option<u32>,
    /// end the path at the first square root that is not a rational function of the inputs
    pub cut_at_sqrt: bool,
    trunc_max: usize,
    trunc_skip: usize,
    trunc_used: usize,
    trunc_hit: std::cell::Cell<bool>,
    sqrts: u32,
    rad_depth: std::cell::Cell<u32>,
}

thread_local! { static ENG: RefCell<Option<Box<Eng>>> = RefCell::new(None); }

pub fn install(e: Eng) { ENG.with(|c| *c.borrow_mut() = Some(Box::new(e))); }
pub fn uninstall() -> Option<Box<Eng>> { ENG.with(|c| c.borrow_mut().take()) }
pub fn with<R>(f: impl FnOnce(&mut Eng) -> R) -> R {
    ENG.with(|c| {
        let mut b = c.borrow_mut();
        f(b.as_mut().expect("no engine"))
    })
}

fn hash64(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}

pub fn sample_value(seed: u64, k: usize, v: usize) -> f64 {
    let h = hash64(seed.wrapping_mul(1000003) ^ ((k as u64) << 20) ^ (v as u64).wrapping_mul(0x51ED2701));
    let u = (h % 1000003) as i64;
    match k % 5 {
        0 => (u % 9 - 4) as f64,
        1 => (u % 41 - 20) as f64 / 4.0,
        2 => (u % 17 - 8) as f64,
        3 => (u % 5 - 2) as f64 + ((u / 7) % 3) as f64 * 0.5,
        _ => { let m = (u % 401 - 200) as f64 / 64.0; if (u / 1000) % 5 == 0 { m * 16.0 } else if (u / 1000) % 5 == 1 { m / 8.0 } else { m } }
    }
}

fn mulset(a: u8, b: u8) -> u8 {
    let mut r = 0;
    for (i, x) in [(NEG, -1), (ZER, 0), (POS, 1)] {
        if a & i == 0 { continue; }
        for (j, y) in [(NEG, -1), (ZER, 0), (POS, 1)] {
            if b & j != 0 { r |= set_of(x * y); }
        }
    }
    r
}
fn set_of(s: i32) -> u8 { if s < 0 { NEG } else if s > 0 { POS } else { ZER } }
fn negset(a: u8) -> u8 { (a & ZER) | if a & NEG != 0 { POS } else { 0 } | if a & POS != 0 { NEG } else { 0 } }

fn bits(p: &Poly) -> u128 {
    let mut b = 0u128;
    for v in p.vars() { b |= 1u128 << v; }
    b
}

impl Eng {
    pub fn new(cfg: Cfg) -> Eng {
        Eng {
            vals: vec![], ops: vec![], raw: vec![], pool: vec![], pool_ix: HashMap::new(), fsign: HashMap::new(), rads: vec![], rad_ix: HashMap::new(),
            nvars: 0, names: vec![], vval: HashMap::new(), pc: vec![], samples: vec![], task: Task::default(), declog: vec![], proglog: vec![],
            spawned: vec![], solver: Solver::new(), cfg, stats: Stats::default(), cands: vec![], undecided: vec![], uf: HashMap::new(),
            dirty_vars: vec![], dirty_events: vec![], fresh: vec![], depth_stop: false, trace: false, t0: std::time::Instant::now(),
            replaying_full: false, raw_spent: 0.0, trunc_after: None, cut_at_sqrt: false, trunc_max: 0, trunc_skip: 0, trunc_used: 0, trunc_hit: std::cell::Cell::new(false), sqrts: 0,
            rad_depth: std::cell::Cell::new(0),
        }
    }

    pub fn reset(&mut self, task: Task) {
        self.vals.clear();
        self.ops.clear();
        self.raw.clear();
        self.pool.clear();
        self.pool_ix.clear();
        self.fsign.clear();
        self.rads.clear();
        self.rad_ix.clear();
        self.nvars = 0;
        self.names.clear();
        self.vval.clear();
        self.pc.clear();
        self.declog.clear();
        self.proglog.clear();
        self.uf.clear();
        self.dirty_vars.clear();
        self.fresh.clear();
        self.t0 = std::time::Instant::now();
        self.trunc_after = None;
        self.cut_at_sqrt = false;
        self.sqrts = 0;
        self.task = task;
        // EPS is pool factor 0 and positive; every input variable is a pool factor
        let e = self.pool_id(Poly::var(EPS));
        self.fsign.insert(vec![e], POS);
        let n = 160;
        self.samples = (0..n).map(|k| (0..NV).map(|v| if v == EPS || v >= RAD0 { 0.0 } else { sample_value(self.cfg.seed, k, v) }).collect()).collect();
    }

    fn check_time(&self) {
        if self.t0.elapsed().as_millis() as u64 > self.cfg.path_ms { abort("path time budget"); }
    }

    // ---------------------------------------------------------------- ring
    pub fn reduce(&mut self, p: Poly) -> Poly {
        let mut p = p;
        if p.max_rad().is_none() { return p; }
        for r in (0..self.rads.len()).rev() {
            let v = RAD0 + r;
            let d = p.degs()[v];
            if d == 0 { continue; }
            if let Some(q) = self.rads[r].repl.clone() {
                let cs = p.by_var(v);
                let mut acc = Poly::zero();
                for c in cs.into_iter().rev() { acc = acc.mul_raw(&q).add(&c); }
                p = acc;
            } else if d >= 2 {
                let sq = self.rads[r].sq.clone();
                let cs = p.by_var(v);
                let (mut ev, mut od) = (Poly::zero(), Poly::zero());
                for (k, c) in cs.into_iter().enumerate().rev() {
                    // Horner per parity
                    if k % 2 == 0 { ev = ev.mul_raw(&sq).add(&c); } else { od = od.mul_raw(&sq).add(&c); }
                    // (parities alternate, so each accumulator is multiplied once per own step)
                }
                p = ev.add(&od.mul_raw(&Poly::var(v)));
            }
        }
        if p.t.len() > self.stats.max_terms { self.stats.max_terms = p.t.len(); }
        if p.t.len() > 60_000 { abort("expression too large"); }
        p
    }
    pub fn pmul(&mut self, a: &Poly, b: &Poly) -> Poly { let r = a.mul_raw(b); self.reduce(r) }

    /// Exact division in the ring Q[x][radicals].
    pub fn ring_div(&mut self, n: &Poly, d: &Poly) -> Option<Poly> {
        match d.max_rad() {
            None => n.div_exact(d),
            Some(v) => {
                if n.is_zero() { return Some(Poly::zero()); }
                if let Some(q) = n.div_exact(d) { return Some(q); }
                let cs = d.by_var(v);
                if cs.len() > 2 { return None; }
                let a = cs[0].clone();
                let b = cs[1].clone();
                let sq = self.rads[v - RAD0].sq.clone();
                if (a.t.len() + b.t.len()) * n.t.len() > 40_000 { return None; }
                let a2 = self.pmul(&a, &a);
                let b2 = self.pmul(&b, &b);
                let b2s = self.pmul(&b2, &sq);
                let norm = a2.sub(&b2s);
                if norm.is_zero() { return None; }
                let conj = a.sub(&b.mul_raw(&Poly::var(v)));
                let nn = self.pmul(n, &conj);
                let q = self.ring_div(&nn, &norm)?;
                // the tower need not be a domain (undetected squares): verify
                if self.pmul(&q, d) == *n { Some(q) } else { None }
            }
        }
    }

    fn pool_id(&mut self, p: Poly) -> u32 {
        if let Some(&i) = self.pool_ix.get(&p) { return i; }
        let i = self.pool.len() as u32;
        self.pool.push(p.clone());
        self.pool_ix.insert(p, i);
        i
    }

    fn prim(&self, p: &Poly) -> (Int, Poly) {
        let mut c = p.content();
        if p.t[0].1.sign() < 0 { c = c.neg(); }
        if c.is_one() { return (c, p.clone()); }
        let q = p.div_exact(&Poly::int(c.clone())).unwrap();
        (c, q)
    }

    /// p = c * prod pool[f]^e
    pub fn factorize(&mut self, p: &Poly) -> (Int, Vec<(u32, u32)>) {
        if p.is_zero() { return (Int::zero(), vec![]); }
        let (c, mut q) = self.prim(p);
        let mut fs: Vec<(u32, u32)> = vec![];
        // monomial content
        let mut m = q.t[0].0;
        for (n, _) in &q.t { for i in 0..NV { if n.0[i] < m.0[i] { m.0[i] = n.0[i]; } } }
        if !m.is_one() {
            for (n, _) in q.t.iter_mut() { *n = n.div(&m).unwrap(); }
            for i in 0..NV { if m.0[i] > 0 { let id = self.pool_id(Poly::var(i)); fs.push((id, m.0[i] as u32)); } }
        }
        let mut cc = c;
        // hidden radical factors: A + B r with sq | A is r*(B + (A/sq) r)
        if q.t.len() > 1 && q.max_rad().is_some() {
            for r in (0..self.rads.len()).rev() {
                let v = RAD0 + r;
                if self.rads[r].repl.is_some() || self.rads[r].abs_of.is_some() { continue; }
                loop {
                    if q.degs()[v] == 0 { break; }
                    let cs = q.by_var(v);
                    if cs.len() != 2 || cs[0].is_zero() { break; }
                    let sq = self.rads[r].sq.clone();
                    if sq.as_const().is_some() { break; }
                    match self.ring_div(&cs[0], &sq) {
                        Some(a) => {
                            let ar = self.pmul(&a, &Poly::var(v));
                            q = cs[1].add(&ar);
                            let id = self.pool_id(Poly::var(v));
                            fs.push((id, 1));
                        }
                        None => break,
                    }
                }
            }
            let (k, r) = self.prim(&q);
            cc = cc.mul(&k);
            q = r;
        }
        if q.as_const().is_none() {
            if let Some(&id) = self.pool_ix.get(&q) { fs.push((id, 1)); q = Poly::one(); }
        }
        if q.as_const().is_none() {
            let nf = self.pool.len();
            let has_rad = q.max_rad().is_some();
            for i in 0..nf {
                if self.pool[i].t.len() == 1 { continue; }
                let f = self.pool[i].clone();
                if !has_rad && f.max_rad().is_some() { continue; }
                let mut e = 0;
                while let Some(d) = self.ring_div(&q, &f) {
                    if has_rad && f.max_rad().is_some() && d.t.len() > q.t.len() { break; }
                    q = d;
                    e += 1;
                    if q.as_const().is_some() || e > 8 { break; }
                }
                if e > 0 { fs.push((i as u32, e)); }
                if q.as_const().is_some() { break; }
            }
            if let Some(k) = q.as_const() {
                cc = cc.mul(&k);
            } else {
                let (k, r) = self.prim(&q);
                cc = cc.mul(&k);
                if let Some(s) = if r.max_rad().is_none() { r.sqrt_exact() } else { self.ring_sqrt(&r) } {
                    let (k2, f2) = self.factorize(&s);
                    cc = cc.mul(&k2.mul(&k2));
                    for (f, e) in f2 { fs.push((f, 2 * e)); }
                } else {
                    for g in self.split(&r) {
                        let id = self.pool_id(g);
                        fs.push((id, 1));
                    }
                }
            }
        }
        fs.sort();
        let mut out: Vec<(u32, u32)> = vec![];
        for (f, e) in fs {
            if let Some(l) = out.last_mut() { if l.0 == f { l.1 += e; continue; } }
            out.push((f, e));
        }
        (cc, out)
    }

    /// s with s*s = p in the ring, if found
    fn ring_sqrt(&mut self, p: &Poly) -> Option<Poly> {
        let v = match p.max_rad() { None => return p.sqrt_exact(), Some(v) => v };
        if p.t.len() > 300 { return None; }
        if self.rads[v - RAD0].abs_of.is_some() { return None; }
        let cs = p.by_var(v);
        if cs.len() != 2 { return None; }
        let (a, b) = (cs[0].clone(), cs[1].clone());
        let sq = self.rads[v - RAD0].sq.clone();
        let a2 = self.pmul(&a, &a);
        let b2 = self.pmul(&b, &b);
        let b2 = self.pmul(&b2, &sq);
        let n = a2.sub(&b2);
        if n.is_zero() { return None; }
        let s = self.ring_sqrt(&n)?;
        for t in [a.add(&s), a.sub(&s)] {
            if t.is_zero() { continue; }
            // (2C)^2 = 2(A +- s)
            let c2 = match self.ring_sqrt(&t.scale(&Int::from(2))) { Some(x) => x, None => continue };
            let d = match self.ring_div(&b.scale(&Int::from(2)), &c2) { Some(x) => x, None => continue };
            let two = Poly::int(Int::from(2));
            let full = c2.add(&self.pmul(&d, &Poly::var(v)));
            if let Some(h) = full.div_exact(&two) {
                let chk = self.pmul(&h, &h);
                if chk == *p { return Some(h); }
            }
        }
        None
    }

    /// Split a primitive polynomial by the content with respect to its variables (best effort).
    fn split(&mut self, p: &Poly) -> Vec<Poly> {
        if p.t.len() < 2 || p.t.len() > 400 { return vec![p.clone()]; }
        for v in p.vars() {
            if v >= RAD0 || v == EPS { continue; }
            let cs: Vec<Poly> = p.by_var(v).into_iter().filter(|c| !c.is_zero()).collect();
            if cs.len() < 2 { continue; }
            let mut g = cs[0].clone();
            for c in &cs[1..] {
                g = match crate::poly::gcd(&g, c) { Some(x) => x, None => Poly::one() };
                if g.as_const().is_some() { break; }
            }
            if g.as_const().is_none() {
                let (_, g) = self.prim(&g);
                if let Some(q) = p.div_exact(&g) {
                    let mut r = self.split(&g);
                    r.extend(self.split(&q));
                    return r;
                }
            }
        }
        vec![p.clone()]
    }

    // ---------------------------------------------------------------- fractions
    pub fn fint(&self, i: i64) -> Frac { Frac { n: Poly::int(Int::from(i)), ic: Int::one(), den: vec![] } }
    pub fn frat(&self, a: Int, b: Int) -> Frac {
        let (a, b) = if b.sign() < 0 { (a.neg(), b.neg()) } else { (a, b) };
        let g = a.gcd(&b);
        if a.is_zero() { return self.fint(0); }
        Frac { n: Poly::int(a.div_exact(&g).unwrap()), ic: b.div_exact(&g).unwrap(), den: vec![] }
    }
    pub fn fpoly(&self, p: Poly) -> Frac { Frac { n: p, ic: Int::one(), den: vec![] } }

    fn fnorm(&mut self, n: Poly, ic: Int, den: Vec<(u32, u32)>) -> Frac {
        let mut n = n;
        if n.is_zero() { return self.fint(0); }
        let mut ic = ic;
        let g = n.content().gcd(&ic);
        if !g.is_one() {
            n = n.div_exact(&Poly::int(g.clone())).unwrap();
            ic = ic.div_exact(&g).unwrap();
        }
        let mut d2 = Vec::with_capacity(den.len());
        for (f, mut e) in den {
            let fp = self.pool[f as usize].clone();
            while e > 0 {
                match self.ring_div(&n, &fp) { Some(q) => { n = q; e -= 1; } None => break }
            }
            if e > 0 { d2.push((f, e)); }
        }
        Frac { n, ic, den: d2 }
    }

    fn den_poly(&mut self, den: &[(u32, u32)]) -> Poly {
        let mut p = Poly::one();
        for &(f, e) in den {
            let fp = self.pool[f as usize].clone();
            for _ in 0..e { p = self.pmul(&p, &fp); }
        }
        p
    }

    pub fn renorm(&mut self, a: &Frac) -> Frac {
        let n = self.reduce(a.n.clone());
        self.fnorm(n, a.ic.clone(), a.den.clone())
    }

    pub fn fadd(&mut self, a: &Frac, b: &Frac) -> Frac {
        if a.n.is_zero() { return b.clone(); }
        if b.n.is_zero() { return a.clone(); }
        self.check_time();
        if a.den == b.den && a.ic == b.ic {
            let n = a.n.add(&b.n);
            return if a.den.is_empty() && a.ic.is_one() { self.fpoly(n) } else { self.fnorm(n, a.ic.clone(), a.den.clone()) };
        }
        let mut den: Vec<(u32, u32)> = vec![];
        let (mut ma, mut mb) = (vec![], vec![]);
        let (mut i, mut j) = (0, 0);
        while i < a.den.len() || j < b.den.len() {
            let fa = a.den.get(i).map_or(u32::MAX, |x| x.0);
            let fb = b.den.get(j).map_or(u32::MAX, |x| x.0);
            if fa == fb {
                let (ea, eb) = (a.den[i].1, b.den[j].1);
                let e = ea.max(eb);
                den.push((fa, e));
                if e > ea { ma.push((fa, e - ea)); }
                if e > eb { mb.push((fa, e - eb)); }
                i += 1;
                j += 1;
            } else if fa < fb { den.push(a.den[i]); mb.push(a.den[i]); i += 1; }
            else { den.push(b.den[j]); ma.push(b.den[j]); j += 1; }
        }
        let g = a.ic.gcd(&b.ic);
        let ka = b.ic.div_exact(&g).unwrap();
        let kb = a.ic.div_exact(&g).unwrap();
        let pa = self.den_poly(&ma).scale(&ka);
        let pb = self.den_poly(&mb).scale(&kb);
        let x = self.pmul(&a.n, &pa);
        let y = self.pmul(&b.n, &pb);
        let ic = a.ic.mul(&ka);
        self.fnorm(x.add(&y), ic, den)
    }
    pub fn fneg(&mut self, a: &Frac) -> Frac { Frac { n: a.n.neg(), ic: a.ic.clone(), den: a.den.clone() } }
    pub fn fsub(&mut self, a: &Frac, b: &Frac) -> Frac { let nb = self.fneg(b); self.fadd(a, &nb) }
    pub fn fmul(&mut self, a: &Frac, b: &Frac) -> Frac {
        if a.n.is_zero() || b.n.is_zero() { return self.fint(0); }
        self.check_time();
        if a.den.is_empty() && b.den.is_empty() && a.ic.is_one() && b.ic.is_one() { let p = self.pmul(&a.n, &b.n); return self.fpoly(p); }
        // cross-cancel first to keep the product small
        let x = self.fnorm(a.n.clone(), Int::one(), b.den.clone());
        let y = self.fnorm(b.n.clone(), Int::one(), a.den.clone());
        let mut den = x.den.clone();
        for (f, e) in y.den {
            if let Some(d) = den.iter_mut().find(|d| d.0 == f) { d.1 += e; } else { den.push((f, e)); }
        }
        den.sort();
        let n = self.pmul(&x.n, &y.n);
        self.fnorm(n, a.ic.mul(&b.ic), den)
    }
    /// 1/a for a non-zero a
    pub fn finv(&mut self, a: &Frac) -> Frac {
        let (c, fs) = self.factorize(&a.n);
        let mut num = self.den_poly(&a.den).scale(&a.ic);
        let mut c = c;
        if c.sign() < 0 { num = num.neg(); c = c.neg(); }
        let mut den: Vec<(u32, u32)> = vec![];
        for (f, e) in fs {
            let fp = self.pool[f as usize].clone();
            // a bare square root in a denominator is rationalised
            if fp.t.len() == 1 {
                if let Some(v) = fp.max_rad() {
                    let sq = self.rads[v - RAD0].sq.clone();
                    if e % 2 == 1 { num = self.pmul(&num, &fp); }
                    let (k, sf) = self.factorize(&sq);
                    let h = (e + 1) / 2;
                    let mut kk = k;
                    if kk.sign() < 0 { if h % 2 == 1 { num = num.neg(); } kk = kk.neg(); }
                    for _ in 0..h { c = c.mul(&kk); }
                    for (g, ge) in sf { den.push((g, ge * h)); }
                    continue;
                }
            }
            den.push((f, e));
        }
        den.sort();
        let mut d2: Vec<(u32, u32)> = vec![];
        for (f, e) in den {
            if let Some(l) = d2.last_mut() { if l.0 == f { l.1 += e; continue; } }
            d2.push((f, e));
        }
        self.fnorm(num, c, d2)
    }

    // ---------------------------------------------------------------- signs
    fn var_set(&self, v: usize) -> u8 {
        if v == EPS { return POS; }
        let mut s = ALL;
        if v >= RAD0 { s = ZER | POS; }
        if let Some(id) = self.pool_ix.get(&Poly::var(v)) {
            if let Some(k) = self.fsign.get(&vec![*id]) { s &= *k; }
        }
        if v >= RAD0 && s & ZER != 0 {
            let q = &self.rads[v - RAD0].sq;
            // the search over known factors may come back to this radical: only at the top level
            let qs = if self.rad_depth.get() < 1 {
                self.rad_depth.set(self.rad_depth.get() + 1);
                let r = self.poly_set(q);
                self.rad_depth.set(self.rad_depth.get() - 1);
                r
            } else {
                self.poly_direct(q)
            };
            if qs & ZER == 0 { s &= POS; }
        }
        s
    }
    fn poly_cheap(&self, p: &Poly) -> u8 {
        if p.is_zero() { return ZER; }
        let mut acc = 0u8;
        let mut strict = false;
        let mut cache: HashMap<usize, u8> = HashMap::new();
        for (m, c) in &p.t {
            let mut s = set_of(c.sign());
            for v in 0..NV {
                let e = m.0[v];
                if e == 0 { continue; }
                let vs = *cache.entry(v).or_insert_with(|| self.var_set(v));
                let vs = if e % 2 == 0 { mulset(vs, vs) & (ZER | POS) } else { vs };
                s = mulset(s, vs);
            }
            if s & ZER == 0 { strict = true; }
            acc |= s;
            if acc & NEG != 0 && acc & POS != 0 { return ALL; }
        }
        if strict { acc &= !ZER; }
        acc
    }
    fn poly_set(&self, p: &Poly) -> u8 {
        let mut s = self.poly_direct(p);
        if s == ALL || s == (ZER | POS) || s == (ZER | NEG) { s &= self.poly_sum(p); }
        s
    }
    fn poly_direct(&self, p: &Poly) -> u8 {
        let mut s = self.poly_cheap(p);
        if let Some(id) = self.pool_ix.get(p) {
            if let Some(k) = self.fsign.get(&vec![*id]) { s &= *k; }
        } else if p.t.len() > 0 && p.t[0].1.sign() < 0 {
            if let Some(id) = self.pool_ix.get(&p.neg()) {
                if let Some(k) = self.fsign.get(&vec![*id]) { s &= negset(*k); }
            }
        }
        s
    }
    /// p = c*f + rest with f of known sign and rest of known sign
    fn poly_sum(&self, p: &Poly) -> u8 {
        let mut s = ALL;
        if p.t.len() < 2 || p.t.len() > 400 { return s; }
        for (k, f) in self.pool.iter().enumerate() {
            if f.t.len() < 2 || f.t.len() > p.t.len() || f == p { continue; }
            let fs = match self.fsign.get(&vec![k as u32]) { Some(x) if *x != ALL => *x, _ => self.poly_cheap(f) };
            if fs == ALL || fs == (NEG | POS) { continue; }
            let c = match p.t.binary_search_by(|x| f.t[0].0.cmp(&x.0)) { Ok(i) => p.t[i].1.clone(), Err(_) => continue };
            // p*lc(f) - c*f
            let lf = f.t[0].1.clone();
            let rest = p.scale(&lf).sub(&f.scale(&c));
            let r = self.poly_cheap(&rest);
            if r == ALL { continue; }
            let a = if c.sign() < 0 { negset(fs) } else { fs };
            // sum of two signed quantities
            let mut t = 0u8;
            for i in [NEG, ZER, POS] { for j in [NEG, ZER, POS] {
                if a & i != 0 && r & j != 0 {
                    t |= if i == j { i } else if i == ZER { j } else if j == ZER { i } else { ALL };
                }
            } }
            s &= t;
            if s != ALL { break; }
        }
        s
    }
    pub fn fac_set(&self, f: u32) -> u8 { self.poly_set(&self.pool[f as usize]) }

    fn lead(&self, p: &Poly) -> (Poly, bool) {
        if p.degs()[EPS] == 0 { return (p.clone(), false); }
        let mut cs = p.by_var(EPS);
        if self.trunc_after.map_or(false, |n| self.sqrts >= n) {
            // after the first trunc_skip comparisons, at most trunc_max see the infinite tolerance
            self.trunc_hit.set(true);
            if self.trunc_used >= self.trunc_skip && self.trunc_used - self.trunc_skip < self.trunc_max { cs.reverse(); }
        }
        let mut it = cs.into_iter().filter(|c| !c.is_zero());
        let l = it.next().unwrap();
        (l, it.next().is_some())
    }

    pub fn form(&mut self, a: &Frac) -> Form {
        let mut fm = Form { c: 1, odd: vec![], even: vec![], tail: false };
        let n = self.reduce(a.n.clone());
        if n.is_zero() { fm.c = 0; return fm; }
        let (l, tail) = self.lead(&n);
        fm.tail = tail;
        let (c, fs) = self.factorize(&l);
        fm.c = c.sign();
        for (f, e) in fs { self.put(&mut fm, f, e, false); }
        for (f, e) in a.den.clone() {
            let fp = self.pool[f as usize].clone();
            let (l, t) = self.lead(&fp);
            if l == fp {
                if e % 2 == 1 { self.put(&mut fm, f, e, true); }
            } else {
                let (c, gs) = self.factorize(&l);
                if e % 2 == 1 { fm.c *= c.sign(); }
                for (g, ge) in gs {
                    if t { self.put(&mut fm, g, ge * e, false); } else { self.put(&mut fm, g, ge * e, true); }
                }
                if t { fm.tail = true; }
            }
        }
        fm
    }
    fn put(&mut self, fm: &mut Form, f: u32, e: u32, nonzero: bool) {
        let s = self.fac_set(f);
        if e % 2 == 0 {
            if nonzero || s & ZER == 0 { return; }
            if s == ZER { fm.c = 0; return; }
            if !fm.even.contains(&f) && !fm.odd.contains(&f) { fm.even.push(f); }
            return;
        }
        if s == POS { return; }
        if s == NEG { fm.c = -fm.c; return; }
        if s == ZER { fm.c = 0; return; }
        if let Some(k) = fm.odd.iter().position(|x| *x == f) {
            fm.odd.remove(k);
            if s & ZER != 0 && !nonzero { fm.even.push(f); }
        } else {
            fm.even.retain(|x| *x != f);
            fm.odd.push(f);
            fm.odd.sort();
        }
    }
    pub fn form_mul(&mut self, a: &Form, b: &Form) -> Form {
        let mut r = a.clone();
        r.c *= b.c;
        r.tail |= b.tail;
        for &f in &b.odd { self.put(&mut r, f, 1, false); }
        for &f in &b.even { self.put(&mut r, f, 2, false); }
        r
    }
    fn odd_set(&self, odd: &Vec<u32>) -> u8 {
        let mut s = POS;
        for &f in odd { s = mulset(s, self.fac_set(f)); }
        if odd.len() > 1 { if let Some(k) = self.fsign.get(odd) { s &= *k; } }
        s
    }
    pub fn possible(&self, fm: &Form) -> u8 {
        let mut s = set_of(fm.c);
        s = mulset(s, self.odd_set(&fm.odd));
        for &f in &fm.even {
            let z = self.fac_set(f);
            s = mulset(s, mulset(z, z) & (ZER | POS));
        }
        s
    }

    // ---------------------------------------------------------------- smt text
    fn decls(&self, used: u128) -> (String, u128) {
        // closure over radical definitions
        let mut u = used & !(1u128 << EPS);
        loop {
            let mut n = u;
            for (i, r) in self.rads.iter().enumerate() {
                if u >> (RAD0 + i) & 1 == 1 { n |= bits(&r.sq); }
            }
            if n == u { break; }
            u = n;
        }
        let mut s = String::new();
        for v in 0..NV { if u >> v & 1 == 1 { s.push_str(&format!("(declare-const {} Real)\n", vname(v))); } }
        for (i, r) in self.rads.iter().enumerate() {
            if u >> (RAD0 + i) & 1 == 1 {
                let n = vname(RAD0 + i);
                s.push_str(&format!("(assert (and (>= {} 0) (= (* {} {}) {})))\n", n, n, n, r.sq.smt(&vname)));
            }
        }
        (s, u)
    }
    fn form_smt(&self, fm: &Form, q: u8) -> (String, u128) {
        let mut b = 0u128;
        let mut fs = vec![];
        let mut neg = fm.c < 0;
        for &f in &fm.odd {
            b |= bits(&self.pool[f as usize]);
            fs.push(self.pool[f as usize].smt(&vname));
        }
        let mut q = q;
        if neg { q = negset(q); neg = false; }
        let _ = neg;
        let mut parts = vec![];
        let op = |t: String, q: u8| match q {
            NEG => format!("(< {} 0)", t),
            POS => format!("(> {} 0)", t),
            ZER => format!("(= {} 0)", t),
            5 => format!("(not (= {} 0))", t),
            3 => format!("(<= {} 0)", t),
            6 => format!("(>= {} 0)", t),
            7 => "true".to_string(),
            _ => "false".to_string(),
        };
        let t = if fs.is_empty() { "1".to_string() } else if fs.len() == 1 { fs[0].clone() } else { format!("(* {})", fs.join(" ")) };
        // even factors only decide whether the whole is zero
        for &f in &fm.even { b |= bits(&self.pool[f as usize]); }
        let evz: Vec<String> = fm.even.iter().map(|&f| format!("(= {} 0)", self.pool[f as usize].smt(&vname))).collect();
        if evz.is_empty() {
            return (op(t, q), b);
        }
        let anyz = if evz.len() == 1 { evz[0].clone() } else { format!("(or {})", evz.join(" ")) };
        if q & ZER != 0 { parts.push(anyz.clone()); }
        parts.push(format!("(and (not {}) {})", anyz, op(t, q)));
        let s = if parts.len() == 1 { parts.pop().unwrap() } else { format!("(or {})", parts.join(" ")) };
        (s, b)
    }

    /// Solve path condition (sliced to what `extra` touches) plus extra.
    pub fn query(&mut self, extra: &[(String, u128)], slice: bool, plan: &[(usize, u64)]) -> (Res, Vec<f64>) {
        let mut used = 0u128;
        for (_, b) in extra { used |= b; }
        let mut inc = vec![!slice; self.pc.len()];
        if slice {
            loop {
                let (_, u) = self.decls(used);
                used = u;
                let mut ch = false;
                for (i, c) in self.pc.iter().enumerate() {
                    // radicals of the constraint count through their definition
                    if !inc[i] {
                        let (_, cu) = self.decls(c.vars);
                        if cu & used != 0 || c.vars == 0 { inc[i] = true; used |= cu; ch = true; }
                    }
                }
                if !ch { break; }
            }
        } else {
            for c in &self.pc { used |= c.vars; }
        }
        let (d, u) = self.decls(used);
        let mut a = String::new();
        for (i, c) in self.pc.iter().enumerate() { if inc[i] { a.push_str(&format!("(assert {})\n", c.smt)); } }
        for (e, _) in extra { a.push_str(&format!("(assert {})\n", e)); }
        let vars: Vec<usize> = (0..RAD0).filter(|v| u >> v & 1 == 1).collect();
        let want: Vec<String> = vars.iter().map(|v| vname(*v)).collect();
        let (r, vals) = self.solver.check(&d, &a, &want, plan);
        if r != Res::Sat { return (r, vec![]); }
        let mut full = vec![f64::NAN; NV];
        for (k, v) in vars.iter().enumerate() { full[*v] = vals[k]; }
        (r, full)
    }
    fn feas_plan(&self) -> Vec<(usize, u64)> { vec![(0, self.cfg.feas_ms), (1, self.cfg.feas_ms)] }
    fn obl_plan(&self) -> Vec<(usize, u64)> { vec![(0, self.cfg.obl_ms / 4), (1, self.cfg.obl_ms / 4), (2, self.cfg.obl_ms / 4), (0, self.cfg.obl_ms)] }

    // ---------------------------------------------------------------- samples
    fn complete_sample(&self, s: &mut Vec<f64>) -> bool {
        for (i, r) in self.rads.iter().enumerate() {
            let (x, a) = r.sq.eval(s);
            if !(x >= -1e-12 * a) { return false; }
            s[RAD0 + i] = x.max(0.0).sqrt();
        }
        true
    }
    fn eval_form(&self, fm: &Form, s: &[f64]) -> Option<i32> {
        let mut sg = fm.c;
        for (fs, ev) in [(&fm.odd, false), (&fm.even, true)] {
            for &f in fs.iter() {
                let (x, a) = self.pool[f as usize].eval(s);
                if x.is_nan() { return None; }
                if x.abs() <= 1e-9 * a { return None; }
                if !ev && x < 0.0 { sg = -sg; }
            }
        }
        Some(sg)
    }
    fn model_sample(&mut self, m: Vec<f64>) -> Option<Vec<f64>> {
        // fill the variables the (sliced) query did not mention from an existing sample
        let base = self.samples.get(0).cloned();
        let mut s = m;
        for v in 0..RAD0 {
            if s[v].is_nan() { s[v] = match &base { Some(b) => b[v], None => sample_value(self.cfg.seed, 1, v) }; }
        }
        s[EPS] = 0.0;
        for v in RAD0..NV { s[v] = 0.0; }
        if !self.complete_sample(&mut s) { return None; }
        // values made up for the variables outside the slice need not satisfy the rest of the path
        if base.is_none() && !self.pc.iter().all(|c| c.q == ZER || self.eval_form(&c.fm, &s).map_or(false, |x| set_of(x) & c.q != 0)) { return None; }
        Some(s)
    }

    // ---------------------------------------------------------------- decisions
    fn learn(&mut self, fm: &Form, q: u8) {
        let mut q = q;
        if fm.c < 0 { q = negset(q); }
        if q & ZER == 0 {
            for f in fm.odd.iter().chain(fm.even.iter()).cloned().collect::<Vec<_>>() {
                let s = self.fac_set(f) & !ZER;
                self.set_fac(f, s);
            }
        } else if !fm.even.is_empty() { return; }
        if fm.odd.len() == 1 {
            let f = fm.odd[0];
            let s = self.fac_set(f) & q;
            self.set_fac(f, s);
        } else if fm.odd.len() > 1 {
            let k = self.odd_set(&fm.odd) & q;
            self.fsign.insert(fm.odd.clone(), k);
            // a single unknown factor gets its sign from the others
            for i in 0..fm.odd.len() {
                let rest: Vec<u32> = fm.odd.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, f)| *f).collect();
                let rs = self.odd_set(&rest);
                if rs == POS || rs == NEG {
                    let s = self.fac_set(fm.odd[i]) & if rs == POS { k } else { negset(k) };
                    self.set_fac(fm.odd[i], s);
                }
            }
        }
    }
    fn set_fac(&mut self, f: u32, s: u8) {
        self.fsign.insert(vec![f], s);
        if s & NEG == 0 || s & POS == 0 {
            let p = self.pool[f as usize].clone();
            for r in 0..self.rads.len() {
                if self.rads[r].abs_of == Some(f) && self.rads[r].repl.is_none() {
                    self.rads[r].repl = Some(if s & NEG == 0 { p.clone() } else { p.neg() });
                }
            }
        }
    }
    fn add_pc(&mut self, fm: &Form, q: u8) {
        let (smt, vars) = self.form_smt(fm, q);
        if smt != "true" { self.pc.push(Cons { smt, vars, fm: fm.clone(), q }); }
        self.learn(fm, q);
    }

    /// Decide "sign(form) in t".  prog: a comparison made by the code under test.
    pub fn decide(&mut self, fm: &Form, t: u8, prog: bool) -> bool {
        self.check_time();
        let s = self.possible(fm);
        if fm.tail && s & ZER != 0 && s != ZER {
            let mut g = fm.clone();
            g.tail = false;
            if self.decide(&g, ZER, false) { abort("unresolved leading coefficient"); }
            return self.decide(fm, t, prog);
        }
        if fm.tail && s == ZER { abort("leading coefficient vanishes"); }
        let forced = if prog && self.proglog.len() < self.task.prog.len() { Some(self.task.prog[self.proglog.len()]) } else { None };
        let triv = if s & !t == 0 { Some(true) } else if s & t == 0 { Some(false) } else { None };
        if s == 0 { stop(Stop::Infeasible); }
        if let Some(b) = triv {
            if let Some(f) = forced { if f != b { stop(Stop::Infeasible); } }
            if prog { self.proglog.push(b); }
            return b;
        }
        self.stats.decisions += 1;
        if self.declog.len() >= self.cfg.max_decisions { abort("decision budget"); }
        let k = self.declog.len();
        let choice: bool;
        if k < self.task.full.len() {
            choice = self.task.full[k];
            self.filter(fm, if choice { s & t } else { s & !t });
        } else {
            // which outcomes are possible?
            let (mut ft, mut ff) = (false, false);
            for smp in &self.samples {
                if let Some(x) = self.eval_form(fm, smp) {
                    if set_of(x) & t != 0 { ft = true } else { ff = true }
                }
            }
            let need: Vec<bool> = match forced { Some(b) => vec![b], None => vec![true, false] };
            let mut model: [Option<Vec<f64>>; 2] = [None, None];
            let mut possible = [ff, ft];
            if self.cfg.witnessed {
                if self.samples.is_empty() { stop(Stop::Assume); }
                if (ff || ft) && !(ff && ft) { self.stats.assume += 1; }
            }
            for &o in &need {
                if self.cfg.witnessed && (ff || ft) { continue; }
                if possible[o as usize] { continue; }
                // an equality outcome is a stratum: infeasible ones die out there, but ask anyway
                let q = if o { s & t } else { s & !t };
                let ex = self.form_smt(fm, q);
                let plan = self.feas_plan();
                let (r, m) = self.query(&[ex], true, &plan);
                match r {
                    Res::Unsat => {}
                    Res::Sat => { possible[o as usize] = true; model[o as usize] = self.model_sample(m); }
                    Res::Unknown => { possible[o as usize] = true; }
                }
            }
            choice = match forced {
                Some(b) => { if !possible[b as usize] { stop(Stop::Infeasible); } b }
                None => {
                    if possible[0] && possible[1] {
                        let mut alt = self.task.clone();
                        alt.full = self.declog.clone();
                        alt.full.push(false);
                        self.spawned.push(alt);
                        true
                    } else if possible[1] { true } else if possible[0] { false } else { stop(Stop::Infeasible) }
                }
            };
            if self.trace { eprintln!("  decide {} {:?} t={} s={} prog={} -> {}", k, self.form_smt(fm, t).0, t, s, prog, choice); }
            self.filter(fm, if choice { s & t } else { s & !t });
            if let Some(m) = model[choice as usize].take() {
                if let Some(x) = self.eval_form(fm, &m) {
                    if (set_of(x) & t != 0) == choice { self.samples.push(m); }
                }
            }
        }
        self.declog.push(choice);
        if prog { self.proglog.push(choice); }
        let q = if choice { s & t } else { s & !t };
        if q == ZER { self.equality(fm); }
        self.add_pc(fm, q);
        choice
    }
    fn filter(&mut self, fm: &Form, q: u8) {
        let old = std::mem::take(&mut self.samples);
        let mut keep = vec![];
        for s in old {
            if let Some(x) = self.eval_form(fm, &s) { if set_of(x) & q != 0 { keep.push(s); } }
        }
        self.samples = keep;
    }

    /// The path now requires one of the factors to vanish: continue in strata.
    fn equality(&mut self, fm: &Form) {
        if self.task.depth > 24 { self.add_eq(fm); return; }
        let mut fs: Vec<u32> = fm.odd.clone();
        fs.extend(fm.even.iter());
        fs.retain(|f| self.fac_set(*f) & ZER != 0);
        let mut tasks = vec![];
        for f in fs {
            let p = self.pool[f as usize].clone();
            let q = match self.radfree(&p) { Some(q) => q, None => { self.add_eq(fm); return; } };
            let (_, gs) = self.factorize(&q);
            for (g, _) in gs {
                let gp = self.pool[g as usize].clone();
                if gp.max_rad().is_some() { self.add_eq(fm); return; }
                if self.fac_set(g) & ZER == 0 { continue; }
                match self.strata(&gp) {
                    Some(mut v) => tasks.append(&mut v),
                    None => { self.add_eq(fm); return; }
                }
            }
        }
        self.spawned.extend(tasks);
        stop(Stop::Strata);
    }
    fn add_eq(&mut self, fm: &Form) { let _ = fm; }

    fn radfree(&mut self, p: &Poly) -> Option<Poly> {
        let mut p = p.clone();
        let mut guard = 0;
        while let Some(v) = p.max_rad() {
            let cs = p.by_var(v);
            if cs.len() != 2 { return None; }
            let sq = self.rads[v - RAD0].sq.clone();
            let a2 = self.pmul(&cs[0], &cs[0]);
            let b2 = self.pmul(&cs[1], &cs[1]);
            let b2 = self.pmul(&b2, &sq);
            p = a2.sub(&b2);
            guard += 1;
            if p.is_zero() || guard > 25 || p.t.len() > 5000 { return None; }
        }
        if p.degs()[EPS] > 0 { return None; }
        Some(p)
    }

    /// Tasks that together cover p = 0 (p radical-free, over free input variables).
    fn strata(&mut self, p: &Poly) -> Option<Vec<Task>> {
        let mut base = self.task.clone();
        base.full.clear();
        base.prog = self.proglog.clone();
        base.eqs.clear();
        // the outcome being decided now is part of the program-level prefix when it was forced;
        // callers push it to proglog before calling equality()
        base.depth += 1;
        let degs = p.degs();
        let vars: Vec<usize> = p.vars();
        if vars.is_empty() { return Some(vec![]); }
        for v in &vars { if self.dirty_vars.contains(v) { return None; } }
        // linear variable
        let mut best: Option<(usize, u64)> = None;
        for &v in &vars {
            if degs[v] != 1 { continue; }
            let cs = p.by_var(v);
            let cost = if cs[1].as_const().is_some() { 0 } else if self.poly_set(&cs[1]) & ZER == 0 { 10 } else { 1000 } + cs[1].t.len() as u64 * 3 + cs[0].t.len() as u64;
            if best.map_or(true, |b| cost < b.1) { best = Some((v, cost)); }
        }
        if let Some((v, _)) = best {
            let cs = p.by_var(v);
            let mut out = vec![];
            let mut t1 = base.clone();
            t1.subst.push((v, Subst::Lin(cs[0].neg(), cs[1].clone())));
            if cs[1].as_const().is_none() {
                t1.side.push((cs[1].clone(), NEG | POS));
                if self.poly_set(&cs[1]) & ZER != 0 {
                    let mut t2 = base.clone();
                    t2.eqs.push(cs[1].clone());
                    t2.eqs.push(cs[0].clone());
                    out.push(t2);
                }
            }
            out.insert(0, t1);
            return Some(out);
        }
        // sum of even monomials
        let sgn = p.t[0].1.sign();
        if p.t.iter().all(|(m, c)| c.sign() == sgn && m.0.iter().all(|e| e % 2 == 0)) {
            if p.t.last().unwrap().0.is_one() { return Some(vec![]); }
            let m = p.t[0].0;
            let mut out = vec![];
            for v in 0..NV {
                if m.0[v] > 0 {
                    let mut t = base.clone();
                    t.subst.push((v, Subst::Lin(Poly::zero(), Poly::one())));
                    t.eqs.push(p.clone());
                    out.push(t);
                }
            }
            return Some(out);
        }
        // quadratic
        let mut best: Option<(usize, u64)> = None;
        for &v in &vars {
            if degs[v] != 2 { continue; }
            let cs = p.by_var(v);
            let cost = if cs[2].as_const().is_some() { 0 } else if self.poly_set(&cs[2]) & ZER == 0 { 10 } else { 1000 } + p.t.len() as u64;
            if best.map_or(true, |b| cost < b.1) { best = Some((v, cost)); }
        }
        if let Some((v, _)) = best {
            let cs = p.by_var(v);
            let (a, b, c) = (cs[2].clone(), cs[1].clone(), cs[0].clone());
            let disc = b.mul_raw(&b).sub(&a.mul_raw(&c).scale(&Int::from(4)));
            let two_a = a.scale(&Int::from(2));
            let mut out = vec![];
            let mut push = |t: Task| out.push(t);
            let side_a = a.as_const().is_none();
            let mk = |base: &Task, s: Subst| {
                let mut t = base.clone();
                t.subst.push((v, s));
                if side_a { t.side.push((a.clone(), NEG | POS)); }
                t
            };
            if disc.is_zero() {
                push(mk(&base, Subst::Lin(b.neg(), two_a)));
            } else if let Some(s) = disc.sqrt_exact() {
                push(mk(&base, Subst::Lin(s.sub(&b), two_a.clone())));
                push(mk(&base, Subst::Lin(s.neg().sub(&b), two_a)));
            } else {
                let (k, fs) = self.factorize(&disc);
                let mut ds = set_of(k.sign());
                for (f, e) in &fs { let x = self.fac_set(*f); ds = mulset(ds, if e % 2 == 0 { mulset(x, x) & (ZER | POS) } else { x }); }
                if ds & POS == 0 {
                    if ds & ZER != 0 {
                        let mut t = mk(&base, Subst::Lin(b.neg(), two_a));
                        t.eqs.push(disc.clone());
                        push(t);
                    }
                } else {
                    for sg in [true, false] {
                        let mut t = mk(&base, Subst::Quad(a.clone(), b.clone(), c.clone(), sg));
                        t.side.push((disc.clone(), ZER | POS));
                        push(t);
                    }
                }
            }
            if side_a && self.poly_set(&a) & ZER != 0 {
                let mut t = base.clone();
                t.eqs.push(a.clone());
                t.eqs.push(p.clone());
                push(t);
            }
            return Some(out);
        }
        None
    }

    /// Called once at the start of a run: pending equalities and side conditions.
    pub fn begin(&mut self) {
        let eqs = self.task.eqs.clone();
        for (i, p) in eqs.iter().enumerate() {
            let f = self.eval_poly(p);
            let n = self.reduce(f.n.clone());
            if n.is_zero() { continue; }
            if n.as_const().is_some() { stop(Stop::Infeasible); }
            if self.task.depth > 24 { abort("stratum too deep"); }
            let q = match self.radfree(&n) { Some(q) => q, None => abort("stratum equality") };
            let (_, gs) = self.factorize(&q);
            let rest: Vec<Poly> = eqs[i..].to_vec();
            for (g, _) in gs {
                if self.fac_set(g) & ZER == 0 { continue; }
                let gp = self.pool[g as usize].clone();
                let prog = self.task.prog.clone();
                match self.strata(&gp) {
                    None => abort("stratum equality unsolved"),
                    Some(ts) => for mut t in ts {
                        t.prog = prog.clone();
                        t.eqs.extend(rest.iter().cloned());
                        self.spawned.push(t);
                    }
                }
            }
            stop(Stop::Strata);
        }
        for (p, set) in self.task.side.clone() {
            let f = self.eval_poly(&p);
            let fm = self.form(&f);
            if !self.decide(&fm, set, false) { stop(Stop::Infeasible); }
        }
    }

    pub fn var_value(&mut self, v: usize) -> Frac {
        if let Some(f) = self.vval.get(&v) { return f.clone(); }
        let s = self.task.subst.iter().find(|x| x.0 == v).map(|x| x.1.clone());
        let f = match s {
            None => { self.pool_id(Poly::var(v)); self.fpoly(Poly::var(v)) }
            Some(Subst::Lin(n, d)) => {
                let a = self.eval_poly(&n);
                let b = self.eval_poly(&d);
                if b.n.is_zero() { stop(Stop::Infeasible); }
                let i = self.finv(&b);
                self.fmul(&a, &i)
            }
            Some(Subst::Quad(a, b, c, sg)) => {
                let (fa, fb, fc) = (self.eval_poly(&a), self.eval_poly(&b), self.eval_poly(&c));
                if fa.n.is_zero() { stop(Stop::Infeasible); }
                let b2 = self.fmul(&fb, &fb);
                let ac = self.fmul(&fa, &fc);
                let four = self.fint(4);
                let ac4 = self.fmul(&ac, &four);
                let disc = self.fsub(&b2, &ac4);
                let r = match self.fsqrt(&disc) { Some(r) => r, None => stop(Stop::Infeasible) };
                let r = if sg { r } else { self.fneg(&r) };
                let n = self.fsub(&r, &fb);
                let two = self.fint(2);
                let a2 = self.fmul(&fa, &two);
                let i = self.finv(&a2);
                self.fmul(&n, &i)
            }
        };
        self.vval.insert(v, f.clone());
        f
    }
    pub fn eval_poly(&mut self, p: &Poly) -> Frac {
        let mut acc = self.fint(0);
        for (m, c) in &p.t {
            let mut t = self.fpoly(Poly::int(c.clone()));
            for v in 0..NV {
                for _ in 0..m.0[v] {
                    let x = self.var_value(v);
                    t = self.fmul(&t, &x);
                }
            }
            acc = self.fadd(&acc, &t);
        }
        acc
    }
    fn num_frac(&self, f: &Frac, s: &[f64]) -> f64 {
        let mut d = f.ic.to_f64();
        for (g, e) in &f.den { d *= self.pool[*g as usize].eval(s).0.powi(*e as i32); }
        f.n.eval(s).0 / d
    }
    /// Values of the named inputs at a sample.
    pub fn inputs_at(&self, s: &[f64]) -> Vec<f64> {
        (1..=self.nvars).map(|v| match self.vval.get(&v) { Some(f) => self.num_frac(f, s), None => s[v] }).collect()
    }

    /// A variable that is not a harness input (memory contents, uninterpreted results).
    pub fn new_fresh(&mut self, vals: Option<Vec<f64>>) -> usize {
        let v = RAD0 - 1 - self.fresh.len();
        if v <= self.nvars { abort("too many variables"); }
        self.fresh.push(v);
        if let Some(vals) = vals {
            for (s, x) in self.samples.iter_mut().zip(vals) { s[v] = x; }
            self.samples.retain(|s| s[v].is_finite());
        }
        self.pool_id(Poly::var(v));
        v
    }
    pub fn dirty(&mut self, what: &str) -> Val {
        self.stats.dirty += 1;
        let v = self.new_fresh(None);
        self.dirty_vars.push(v);
        if self.dirty_events.len() < 50 { self.dirty_events.push(what.to_string()); }
        Val::N(Rc::new(self.fpoly(Poly::var(v))))
    }
    /// x^p for x >= 0 as an uninterpreted non-negative function of canonical arguments.
    pub fn vpow(&mut self, x: &Val, p: &Val) -> Val {
        if let (Val::Sp(_), _) | (_, Val::Sp(_)) = (x, p) { return Val::Sp(f64::NAN); }
        let (fx, fp) = (self.force(x), self.force(p));
        let (fx, fp) = (self.renorm(&fx), self.renorm(&fp));
        if let (Some(n), true) = (fp.n.as_const(), fp.den.is_empty()) {
            if fp.ic.is_one() {
                if let Int::S(k) = n {
                    if k.abs() <= 16 {
                        let mut r = Val::N(Rc::new(self.fint(1)));
                        let b = Val::N(Rc::new(fx));
                        for _ in 0..k.abs() { r = self.vmul(&r, &b); }
                        if k < 0 { let o = Val::N(Rc::new(self.fint(1))); r = self.vdiv(&o, &r); }
                        return r;
                    }
                }
            } else if fp.ic == Int::from(2) && n.is_one() {
                return self.vsqrt(&Val::N(Rc::new(fx)));
            }
        }
        if fx.n.is_zero() { return Val::N(Rc::new(self.fint(0))); }
        let fm = self.form(&fx);
        if self.decide(&fm, NEG, false) { return Val::Sp(f64::NAN); }
        let fm = self.form(&fx);
        if self.decide(&fm, ZER, false) { return Val::N(Rc::new(self.fint(0))); }
        let key = (fx.clone(), fp.clone());
        let known: Vec<((Frac, Frac), Frac)> = self.uf.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        for ((kx, kp), r) in known {
            // arguments recorded earlier may have been simplified by facts learned since
            if self.renorm(&kx) == fx && self.renorm(&kp) == fp { return Val::N(Rc::new(r)); }
        }
        let vals: Vec<f64> = self.samples.iter().map(|s| self.num_frac(&fx, s).powf(self.num_frac(&fp, s))).collect();
        let v = self.new_fresh(Some(vals));
        let r = self.fpoly(Poly::var(v));
        let fm = self.form(&r);
        self.add_pc(&fm, POS);
        self.uf.insert(key, r.clone());
        Val::N(Rc::new(r))
    }

    pub fn new_var(&mut self, name: &str) -> Frac {
        self.nvars += 1;
        if self.nvars + self.fresh.len() + 1 >= RAD0 { abort("too many variables"); }
        self.names.push(name.to_string());
        let v = self.nvars;
        self.var_value(v)
    }

    // ---------------------------------------------------------------- sqrt, abs
    fn new_rad(&mut self, sq: Poly, abs_of: Option<u32>) -> usize {
        if let Some(&r) = self.rad_ix.get(&sq) { return r; }
        let r = self.rads.len();
        if self.trace { eprintln!("  rad r{}^2 = {:?} abs={:?}", r, sq, abs_of); }
        if RAD0 + r >= NV { abort("too many square roots"); }
        let old = std::mem::take(&mut self.samples);
        let mut keep = vec![];
        for mut s in old {
            let (x, a) = sq.eval(&s);
            if x >= -1e-12 * a { s[RAD0 + r] = x.max(0.0).sqrt(); keep.push(s); }
        }
        self.samples = keep;
        self.rads.push(Rad { sq: sq.clone(), abs_of, repl: None });
        self.rad_ix.insert(sq, r);
        self.pool_id(Poly::var(RAD0 + r));
        r
    }
    fn abs_factor(&mut self, f: u32) -> Poly {
        let p = self.pool[f as usize].clone();
        let s = self.fac_set(f);
        if s & NEG == 0 { return p; }
        if s & POS == 0 { return p.neg(); }
        if p.degs()[EPS] > 0 {
            let (l, _) = self.lead(&p);
            let lf = self.fpoly(l);
            let fm = self.form(&lf);
            return if self.decide(&fm, NEG, false) { p.neg() } else { p };
        }
        let sq = self.pmul(&p, &p);
        let r = self.new_rad(sq, Some(f));
        Poly::var(RAD0 + r)
    }
    pub fn fabs(&mut self, a: &Frac) -> Frac {
        let n = self.reduce(a.n.clone());
        if n.is_zero() { return self.fint(0); }
        let (c, fs) = self.factorize(&n);
        let mut num = Poly::int(c.abs());
        let mut flip = false;
        for (f, e) in fs {
            let fp = self.pool[f as usize].clone();
            let b = if e % 2 == 0 { fp } else { self.abs_factor(f) };
            for _ in 0..e { num = self.pmul(&num, &b); }
        }
        let mut den = vec![];
        for (f, e) in a.den.clone() {
            if e % 2 == 0 { den.push((f, e)); continue; }
            let fp = self.pool[f as usize].clone();
            let b = self.abs_factor(f);
            if b == fp { den.push((f, e)); }
            else if b == fp.neg() { den.push((f, e)); flip = !flip; }
            else { num = self.pmul(&num, &b); den.push((f, e + 1)); }
        }
        if flip { num = num.neg(); }
        self.fnorm(num, a.ic.clone(), den)
    }
    /// None: negative radicand (NaN)
    pub fn fsqrt(&mut self, a: &Frac) -> Option<Frac> {
        let n = self.reduce(a.n.clone());
        if n.is_zero() { return Some(self.fint(0)); }
        let a = self.fnorm(n, a.ic.clone(), a.den.clone());
        let fm = self.form(&a);
        if !self.decide(&fm, ZER | POS, false) { return None; }
        let (c, nf) = self.factorize(&a.n);
        let mut ex: Vec<(u32, i64)> = nf.iter().map(|x| (x.0, x.1 as i64)).collect();
        for &(f, e) in &a.den { match ex.iter_mut().find(|x| x.0 == f) { Some(x) => x.1 -= e as i64, None => ex.push((f, -(e as i64))) } }
        // integers
        let mut res = self.frat(Int::one(), a.ic.clone());
        let mut neg = c.sign() < 0;
        let mut k = c.abs().mul(&a.ic);
        let mut outside = Int::one();
        let mut single: Vec<Int> = vec![];
        for p in [2i64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97] {
            let ip = Int::from(p);
            let mut e = 0;
            while let Some(q) = k.div_exact(&ip) { k = q; e += 1; if k.is_one() { break; } }
            for _ in 0..e / 2 { outside = outside.mul(&ip); }
            if e % 2 == 1 { single.push(ip); }
        }
        match k.sqrt_exact() { Some(s) => outside = outside.mul(&s), None => single.push(k) }
        res = { let o = self.fpoly(Poly::int(outside)); self.fmul(&res, &o) };
        for s in single {
            let r = self.new_rad(Poly::int(s), None);
            let v = self.fpoly(Poly::var(RAD0 + r));
            res = self.fmul(&res, &v);
        }
        let mut rest = Poly::one();
        let mut any_rest = false;
        for (f, e) in ex {
            if e == 0 { continue; }
            let fp = self.pool[f as usize].clone();
            let q = e.div_euclid(2);
            let odd = e.rem_euclid(2) == 1;
            if q != 0 {
                let b = if q % 2 == 0 { fp.clone() } else { self.abs_factor(f) };
                let b = self.fpoly(b);
                let b = if q < 0 { self.finv(&b) } else { b };
                for _ in 0..q.abs() { res = self.fmul(&res, &b); }
            }
            if odd {
                if self.cut_at_sqrt { stop(Stop::Cut); }
                if fp.degs()[EPS] > 0 { abort("square root of an infinitesimal"); }
                let s = self.fac_set(f);
                if s & NEG == 0 {
                    let r = self.new_rad(fp, None);
                    let v = self.fpoly(Poly::var(RAD0 + r));
                    res = self.fmul(&res, &v);
                } else if s & POS == 0 {
                    neg = !neg;
                    let r = self.new_rad(fp.neg(), None);
                    let v = self.fpoly(Poly::var(RAD0 + r));
                    res = self.fmul(&res, &v);
                } else {
                    rest = self.pmul(&rest, &fp);
                    any_rest = true;
                }
            }
        }
        if any_rest {
            if self.cut_at_sqrt { stop(Stop::Cut); }
            if neg { rest = rest.neg(); }
            let r = self.new_rad(rest, None);
            let v = self.fpoly(Poly::var(RAD0 + r));
            res = self.fmul(&res, &v);
        }
        Some(res)
    }

    // ---------------------------------------------------------------- obligations
    pub fn path_text(&self) -> String {
        let mut s = String::new();
        for (v, t) in &self.task.subst { s.push_str(&format!("{} := {:?}; ", vname(*v), t)); }
        for c in self.pc.iter().take(12) { s.push_str(&c.smt); s.push_str(" & "); }
        if s.len() > 600 { s.truncate(600); }
        s
    }
    fn cand_from(&mut self, label: &str, first: Vec<Vec<f64>>, fm: Option<(&Form, u8)>) {
        // more concrete points on this path, those whose inputs are exact in f64 first
        let mut pts: Vec<Vec<f64>> = first;
        let ok = |e: &Eng, s: &[f64]| fm.map_or(true, |(g, t)| e.eval_form(g, s).map_or(false, |x| set_of(x) & t == 0));
        for s in self.samples.iter() { if ok(self, s) { pts.push(s.clone()); } }
        for k in 0..4000usize {
            if pts.len() > 400 { break; }
            let mut s: Vec<f64> = (0..NV).map(|v| if v == EPS || v >= RAD0 { 0.0 } else {
                let h = hash64(self.cfg.seed ^ ((k as u64) << 24) ^ (v as u64).wrapping_mul(0x9E37));
                (h % 9) as f64 - 4.0 }).collect();
            if !self.complete_sample(&mut s) { continue; }
            if !self.pc.iter().all(|c| c.q == ZER || self.eval_form(&c.fm, &s).map_or(false, |x| set_of(x) & c.q != 0)) { continue; }
            if ok(self, &s) { pts.push(s); }
        }
        let nice = |v: &Vec<f64>| v.iter().filter(|x| !(x.is_finite() && (*x * 1024.0).fract() == 0.0 && x.abs() < 1e6)).count();
        let mut inputs: Vec<Vec<f64>> = pts.iter().map(|s| self.inputs_at(s)).filter(|v| v.iter().all(|x| x.is_finite())).collect();
        let lead: Vec<Vec<f64>> = inputs.iter().take(2).cloned().collect();
        inputs.sort_by_key(|v| nice(v));
        inputs.truncate(22);
        inputs.extend(lead);
        let path = self.path_text();
        self.cands.push(Cand { label: label.to_string(), inputs, path });
    }
    /// Restrict the path to sign(a) in t without exploring the other side.
    pub fn restrict(&mut self, a: &Val, t: u8) {
        let f = match a { Val::Sp(x) => { if x.is_nan() || set_of(if *x > 0.0 { 1 } else { -1 }) & t == 0 { stop(Stop::Assume) } return; } _ => self.force(a) };
        let f = self.renorm(&f);
        let mut fm = self.form(&f);
        fm.tail = false;
        let s = self.possible(&fm);
        if s & t == 0 { stop(Stop::Assume); }
        if s & !t == 0 { return; }
        self.filter(&fm, s & t);
        self.add_pc(&fm, s & t);
    }
    /// A concrete point of this path (asks the solver when sampling lost it).
    pub fn witness(&mut self) -> Option<Vec<f64>> {
        let nice = |v: &Vec<f64>| v.iter().filter(|x| !(x.is_finite() && (*x * 1024.0).fract() == 0.0 && x.abs() < 1e6)).count();
        let ins: Vec<Vec<f64>> = self.samples.iter().map(|s| self.inputs_at(s)).collect();
        if let Some(v) = ins.into_iter().min_by_key(|v| nice(v)) { return Some(v); }
        let plan = self.feas_plan();
        let (r, m) = self.query(&[], false, &plan);
        if r != Res::Sat { return None; }
        let s = self.model_sample(m)?;
        Some(self.inputs_at(&s))
    }
    /// A violation was reached on this path whenever the path is feasible.
    pub fn report(&mut self, label: &str) {
        if !self.samples.is_empty() { self.cand_from(label, vec![], None); return; }
        let plan = self.obl_plan();
        let (r, m) = self.query(&[], false, &plan);
        match r {
            Res::Unsat => {}
            Res::Sat => { let s = self.model_sample(m); self.cand_from(label, s.into_iter().collect(), None); }
            Res::Unknown => {
                if self.task.subst.is_empty() == false || true {
                    let p = self.path_text();
                    self.undecided.push(format!("{}: path feasibility unknown [{}]", label, p));
                }
            }
        }
    }
    /// obligation: form's sign is in t on every point of this path
    pub fn oblige(&mut self, fm: &Form, t: u8, label: &str) {
        self.stats.obl += 1;
        let s = self.possible(fm);
        if s & !t == 0 { self.stats.obl_norm += 1; return; }
        self.stats.obl_smt += 1;
        // samples first
        if self.samples.iter().any(|x| self.eval_form(fm, x).map_or(false, |g| set_of(g) & t == 0)) {
            self.cand_from(label, vec![], Some((fm, t)));
            return;
        }
        let ex = self.form_smt(fm, s & !t);
        let plan = self.obl_plan();
        let (r, m) = self.query(&[ex], false, &plan);
        match r {
            Res::Unsat => {}
            Res::Sat => { let s = self.model_sample(m); self.cand_from(label, s.into_iter().collect(), Some((fm, t))); }
            Res::Unknown => { let p = self.path_text(); self.undecided.push(format!("{}: solver undecided [{}]", label, p)); }
        }
    }
    fn eps_order(&self, f: &Frac) -> i64 {
        if f.n.is_zero() { return i64::MAX; }
        let mut o = f.n.t.iter().map(|(m, _)| m.0[EPS]).min().unwrap() as i64;
        for (g, e) in &f.den {
            let k = self.pool[*g as usize].t.iter().map(|(m, _)| m.0[EPS]).min().unwrap() as i64;
            o -= k * *e as i64;
        }
        o
    }
    /// a = b up to terms that vanish relative to `scale` as eps -> 0
    pub fn oblige_eq(&mut self, a: &Val, b: &Val, scale: &[Val], label: &str) {
        let (x, y) = match (a, b) {
            (Val::Sp(_), _) | (_, Val::Sp(_)) => {
                let ok = matches!((a, b), (Val::Sp(x), Val::Sp(y)) if x == y);
                self.stats.obl += 1;
                if !ok { self.report(&format!("{} (not finite)", label)); }
                return;
            }
            _ => (self.force(a), self.force(b)),
        };
        let d = self.fsub(&x, &y);
        let d = self.renorm(&d);
        if d.n.is_zero() { self.stats.obl += 1; self.stats.obl_norm += 1; return; }
        let mut so = 0i64;
        for s in scale { if let Val::Sp(_) = s { continue; } let f = self.force(s); let f = self.renorm(&f); so = so.min(self.eps_order(&f)); }
        if self.eps_order(&d) > so { self.stats.obl += 1; self.stats.obl_norm += 1; return; }
        let mut fm = self.form(&d);
        fm.tail = false;
        self.oblige(&fm, ZER, label);
    }

    // ---------------------------------------------------------------- values
    pub fn force(&mut self, v: &Val) -> Frac {
        match v {
            Val::N(f) => (**f).clone(),
            Val::Abs(f) => self.fabs(f),
            Val::Sp(_) => abort("special value forced"),
        }
    }
    pub fn push(&mut self, v: Val) -> u64 {
        if self.vals.len() > 3_000_000 { abort("too many values"); }
        self.vals.push(v);
        self.ops.push(Op::Leaf);
        (self.vals.len() - 1) as u64
    }
    fn frac_has_eps(&self, f: &Frac) -> bool {
        f.n.degs()[EPS] > 0 || f.den.iter().any(|(g, _)| self.pool[*g as usize].degs()[EPS] > 0)
    }
    fn frac_smt(&self, f: &Frac) -> String {
        let mut d = vec![];
        if !f.ic.is_one() { d.push(Poly::int(f.ic.clone()).smt(&vname)); }
        for (g, e) in &f.den { for _ in 0..*e { d.push(self.pool[*g as usize].smt(&vname)); } }
        let n = f.n.smt(&vname);
        if d.is_empty() { n } else if d.len() == 1 { format!("(/ {} {})", n, d[0]) } else { format!("(/ {} (* {}))", n, d.join(" ")) }
    }
    /// The equalities this path had to satisfy, asked again of the solver over the operations the
    /// code performed, without the engine's normal forms.
    pub fn raw_check(&mut self) {
        let obls = std::mem::take(&mut self.raw);
        if obls.is_empty() || self.cfg.raw_ms == 0 { return; }
        let mut defs: HashMap<u32, bool> = HashMap::new();
        let mut text = String::new();
        let mut bits_used = 0u128;
        let mut asserted = vec![];
        let mut count = 0u64;
        let mut size = 0usize;
        for (a, b) in obls {
            let mut local = String::new();
            let mut added: Vec<u32> = vec![];
            let mut lb = 0u128;
            let mut ok = true;
            let mut stack = vec![(a, false), (b, false)];
            while let Some((x, done)) = stack.pop() {
                if defs.contains_key(&x) { continue; }
                let op = self.ops[x as usize];
                if !done {
                    stack.push((x, true));
                    match op { Op::Leaf => {} Op::Un(_, p) => stack.push((p, false)), Op::Bin(_, p, q) => { stack.push((p, false)); stack.push((q, false)); } }
                    continue;
                }
                if let Val::Sp(_) = self.vals[x as usize] { ok = false; break; }
                let line = match op {
                    Op::Leaf => {
                        let f = match &self.vals[x as usize] { Val::N(f) => f.clone(), _ => { ok = false; break; } };
                        if self.frac_has_eps(&f) || f.n.t.len() > 60 { ok = false; break; }
                        lb |= bits(&f.n);
                        for (g, _) in &f.den { lb |= bits(&self.pool[*g as usize]); }
                        format!("(define-fun t{} () Real {})\n", x, self.frac_smt(&f))
                    }
                    Op::Un(b'n', p) => format!("(define-fun t{} () Real (- t{}))\n", x, p),
                    Op::Un(b'a', p) => format!("(define-fun t{} () Real (ite (>= t{} 0) t{} (- t{})))\n", x, p, p, p),
                    Op::Un(b's', p) => format!("(declare-const t{} Real)\n(assert (and (>= t{} 0) (= (* t{} t{}) t{})))\n", x, x, x, x, p),
                    Op::Bin(b'/', p, q) => format!("(declare-const t{} Real)\n(assert (= (* t{} t{}) t{}))\n", x, x, q, p),
                    Op::Bin(c, p, q) => format!("(define-fun t{} () Real ({} t{} t{}))\n", x, c as char, p, q),
                    _ => { ok = false; break; }
                };
                local.push_str(&line);
                defs.insert(x, true);
                added.push(x);
            }
            if !ok { for x in added { defs.remove(&x); } continue; }
            size += added.len();
            if size > 900 { break; }
            text.push_str(&local);
            bits_used |= lb;
            asserted.push(format!("(not (= t{} t{}))", a, b));
            count += 1;
        }
        if asserted.is_empty() { return; }
        self.stats.raw_obl += count;
        if self.raw_spent > self.cfg.raw_total_s { self.stats.raw_unknown += count; return; }
        let t0 = std::time::Instant::now();
        for c in &self.pc { bits_used |= c.vars; }
        let (d, _) = self.decls(bits_used);
        let mut a = text;
        for c in &self.pc { a.push_str(&format!("(assert {})\n", c.smt)); }
        let all = if asserted.len() == 1 { format!("(assert {})\n", asserted[0]) } else { format!("(assert (or {}))\n", asserted.join(" ")) };
        let (mut un, mut uk, mut sat) = (0u64, 0u64, false);
        match self.solver.check(&d, &format!("{}{}", a, all), &[], &[(0, self.cfg.raw_ms)]).0 {
            Res::Unsat => un = count,
            Res::Sat => sat = true,
            Res::Unknown => {
                for x in &asserted {
                    if t0.elapsed().as_millis() as u64 > 4 * self.cfg.raw_ms { uk += 1; continue; }
                    match self.solver.check(&d, &format!("{}(assert {})\n", a, x), &[], &[(0, self.cfg.raw_ms / 6)]).0 {
                        Res::Unsat => un += 1,
                        Res::Unknown => uk += 1,
                        Res::Sat => sat = true,
                    }
                }
            }
        }
        self.raw_spent += t0.elapsed().as_secs_f64();
        self.stats.raw_unsat += un;
        self.stats.raw_unknown += uk;
        if sat { let p = self.path_text(); self.undecided.push(format!("engine: normal form and solver disagree [{}]", p)); }
    }
    pub fn is_dirty_dep(&self, f: &Frac) -> bool {
        if self.dirty_vars.is_empty() { return false; }
        let mut b = bits(&f.n);
        for (g, _) in &f.den { b |= bits(&self.pool[*g as usize]); }
        loop {
            let mut n = b;
            for (i, r) in self.rads.iter().enumerate() { if b >> (RAD0 + i) & 1 == 1 { n |= bits(&r.sq); } }
            if n == b { break; }
            b = n;
        }
        self.dirty_vars.iter().any(|v| b >> v & 1 == 1)
    }
    /// sign form of a - b; Err(ordering) for special values (None = unordered)
    pub fn cmp_form(&mut self, a: &Val, b: &Val) -> Result<Form, Option<i32>> {
        match (a, b) {
            (Val::Sp(x), Val::Sp(y)) => Err(x.partial_cmp(y).map(|o| o as i32)),
            (Val::Sp(x), _) => Err(if x.is_nan() { None } else { Some(if *x > 0.0 { 1 } else { -1 }) }),
            (_, Val::Sp(y)) => Err(if y.is_nan() { None } else { Some(if *y > 0.0 { -1 } else { 1 }) }),
            (Val::N(x), Val::N(y)) => { let d = self.fsub(x, y); let d = self.renorm(&d); Ok(self.form(&d)) }
            (Val::Abs(x), Val::Abs(y)) => {
                let (d, s) = (self.fsub(x, y), self.fadd(x, y));
                let (fd, fs) = (self.form(&d), self.form(&s));
                Ok(self.form_mul(&fd, &fs))
            }
            (Val::Abs(x), Val::N(y)) => {
                let yr = self.renorm(y);
                if yr.n.is_zero() {
                    let f = self.form(x);
                    return Ok(self.form_mul(&f, &f));
                }
                let fy = self.form(&yr);
                if self.possible(&fy) & NEG == 0 {
                    let (d, s) = (self.fsub(x, &yr), self.fadd(x, &yr));
                    let (fd, fs) = (self.form(&d), self.form(&s));
                    return Ok(self.form_mul(&fd, &fs));
                }
                let xa = self.fabs(x);
                let d = self.fsub(&xa, &yr);
                let d = self.renorm(&d);
                Ok(self.form(&d))
            }
            (Val::N(_), Val::Abs(_)) => { let mut f = match self.cmp_form(b, a) { Ok(f) => f, Err(e) => return Err(e.map(|x| -x)) }; f.c = -f.c; Ok(f) }
        }
    }
    pub fn compare(&mut self, a: &Val, b: &Val, t: u8, prog: bool) -> bool {
        let r = self.compare1(a, b, t, prog);
        if self.trunc_hit.replace(false) { self.trunc_used += 1; }
        r
    }
    fn compare1(&mut self, a: &Val, b: &Val, t: u8, prog: bool) -> bool {
        match self.cmp_form(a, b) {
            Ok(f) => self.decide(&f, t, prog),
            Err(o) => {
                let r = match o { None => false, Some(s) => set_of(s) & t != 0 };
                if prog {
                    if self.proglog.len() < self.task.prog.len() && self.task.prog[self.proglog.len()] != r { stop(Stop::Infeasible); }
                    self.proglog.push(r);
                }
                r
            }
        }
    }
    pub fn sign_of(&mut self, a: &Frac) -> i32 {
        let fm = self.form(a);
        if self.decide(&fm, ZER, false) { return 0; }
        let fm = self.form(a);
        if self.decide(&fm, POS, false) { 1 } else { -1 }
    }
    pub fn vadd(&mut self, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::Sp(x), Val::Sp(y)) => Val::Sp(x + y),
            (Val::Sp(x), _) | (_, Val::Sp(x)) => Val::Sp(*x),
            _ => {
                if let Val::N(f) = b { if f.n.is_zero() { return a.clone(); } }
                if let Val::N(f) = a { if f.n.is_zero() { return b.clone(); } }
                let (x, y) = (self.force(a), self.force(b));
                Val::N(Rc::new(self.fadd(&x, &y)))
            }
        }
    }
    pub fn vneg(&mut self, a: &Val) -> Val {
        match a {
            Val::Sp(x) => Val::Sp(-x),
            _ => { let x = self.force(a); Val::N(Rc::new(self.fneg(&x))) }
        }
    }
    pub fn vsub(&mut self, a: &Val, b: &Val) -> Val {
        if let (Val::N(_), Val::N(f)) | (Val::Abs(_), Val::N(f)) = (a, b) { if f.n.is_zero() { return a.clone(); } }
        let nb = self.vneg(b);
        self.vadd(a, &nb)
    }
    pub fn vmul(&mut self, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::Sp(x), Val::Sp(y)) => Val::Sp(x * y),
            (Val::Sp(x), o) | (o, Val::Sp(x)) => {
                let f = self.force(o);
                let s = self.sign_of(&f);
                Val::Sp(*x * s as f64)
            }
            (Val::Abs(x), Val::Abs(y)) => { if x == y { Val::N(Rc::new(self.fmul(x, y))) } else { Val::Abs(Rc::new(self.fmul(x, y))) } }
            _ => {
                let (x, y) = (self.force(a), self.force(b));
                Val::N(Rc::new(self.fmul(&x, &y)))
            }
        }
    }
    pub fn vdiv(&mut self, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::Sp(x), Val::Sp(y)) => Val::Sp(x / y),
            (Val::Sp(x), o) => {
                let f = self.force(o);
                let s = self.sign_of(&f);
                if s == 0 { return Val::Sp(*x / 0.0); }
                Val::Sp(*x * s as f64)
            }
            (_, Val::Sp(y)) => if y.is_nan() { Val::Sp(f64::NAN) } else { Val::N(Rc::new(self.fint(0))) },
            _ => {
                let inner = match b { Val::N(f) | Val::Abs(f) => (**f).clone(), _ => unreachable!() };
                let inner = self.renorm(&inner);
                let fm = self.form(&inner);
                let zero = if inner.n.is_zero() { true } else { let mut g = fm; let t = g.tail; g.tail = false; if t { false } else { self.decide(&g, ZER, false) } };
                if zero {
                    let f = match a { Val::N(f) | Val::Abs(f) => (**f).clone(), _ => unreachable!() };
                    let mut s = self.sign_of(&f);
                    if let Val::Abs(_) = a { s = s.abs(); }
                    return Val::Sp(if s == 0 { f64::NAN } else if s > 0 { f64::INFINITY } else { f64::NEG_INFINITY });
                }
                if let (Val::Abs(x), Val::Abs(y)) = (a, b) {
                    let i = self.finv(y);
                    return Val::Abs(Rc::new(self.fmul(x, &i)));
                }
                let (x, y) = (self.force(a), self.force(b));
                let y = self.renorm(&y);
                let i = self.finv(&y);
                Val::N(Rc::new(self.fmul(&x, &i)))
            }
        }
    }
    pub fn vabs(&mut self, a: &Val) -> Val {
        match a {
            Val::Sp(x) => Val::Sp(x.abs()),
            Val::Abs(_) => a.clone(),
            Val::N(f) => {
                let r = self.renorm(f);
                let fm = self.form(&r);
                let s = self.possible(&fm);
                if !fm.tail {
                    if s & NEG == 0 { return Val::N(Rc::new(r)); }
                    if s & POS == 0 { return Val::N(Rc::new(self.fneg(&r))); }
                }
                Val::Abs(Rc::new(r))
            }
        }
    }
    pub fn truncate_after(&mut self, n: u32, skip: usize, max: usize) { self.trunc_after = Some(n); self.trunc_skip = skip; self.sqrts = 0; self.trunc_max = max; self.trunc_used = 0; self.trunc_hit.set(false); }
    pub fn vsqrt(&mut self, a: &Val) -> Val {
        match a {
            Val::Sp(x) => Val::Sp(x.sqrt()),
            _ => {
                let f = self.force(a);
                if f.n.as_const().is_none() { self.sqrts += 1; }
                match self.fsqrt(&f) { Some(r) => Val::N(Rc::new(r)), None => Val::Sp(f64::NAN) }
            }
        }
    }
    pub fn from_f64(&mut self, x: f64) -> Val {
        if !x.is_finite() { return Val::Sp(x); }
        if x == 0.0 { return Val::N(Rc::new(self.fint(0))); }
        let bitsx = x.to_bits();
        let e = ((bitsx >> 52) & 0x7ff) as i64;
        let m = bitsx & ((1u64 << 52) - 1);
        let (mut m, mut e) = if e == 0 { (m as i128, -1074) } else { ((m | 1u64 << 52) as i128, e - 1075) };
        while m % 2 == 0 { m /= 2; e += 1; }
        let l2 = x.abs().log2();
        if l2 < -40.0 && !self.cfg.concrete_eps {
            let k = ((-l2) / 52.0).round().max(1.0) as usize;
            let mut p = Poly::one();
            for _ in 0..k { p = p.mul_raw(&Poly::var(EPS)); }
            if x < 0.0 { p = p.neg(); }
            return Val::N(Rc::new(self.fpoly(p)));
        }
        if x < 0.0 { m = -m; }
        let mi = Int::S(m);
        let f = if e >= 0 { self.fpoly(Poly::int(mi.mul(&crate::int::pow2(e as usize)))) } else { self.frat(mi, crate::int::pow2((-e) as usize)) };
        Val::N(Rc::new(f))
    }
    pub fn seen(tasks: &mut HashSet<Task>, t: &Task) -> bool { !tasks.insert(t.clone()) }
}
