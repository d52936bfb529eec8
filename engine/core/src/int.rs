//! Integers: i128 with transparent promotion to big integers.
use num::bigint::{BigInt, Sign};
use num::Integer;
use num::ToPrimitive;
use std::cmp::Ordering;

#[derive(Clone, Debug)]
pub enum Int {
    S(i128),
    B(BigInt),
}

fn big(i: &Int) -> BigInt {
    match i {
        Int::S(v) => {
            let neg = *v < 0;
            let m = v.unsigned_abs();
            let hi = BigInt::from((m >> 64) as u64);
            let lo = BigInt::from(m as u64);
            let r = (hi << 64usize) + lo;
            if neg { -r } else { r }
        }
        Int::B(b) => b.clone(),
    }
}

fn norm(b: BigInt) -> Int {
    if b.bits() <= 120 {
        let (s, bytes) = b.to_bytes_le();
        let mut m: i128 = 0;
        for (k, x) in bytes.iter().enumerate() {
            m |= (*x as i128) << (8 * k);
        }
        Int::S(if s == Sign::Minus { -m } else { m })
    } else {
        Int::B(b)
    }
}

pub fn pow2(k: usize) -> Int {
    norm(BigInt::from(1u8) << k)
}

impl Int {
    pub fn zero() -> Int { Int::S(0) }
    pub fn one() -> Int { Int::S(1) }
    pub fn from(v: i64) -> Int { Int::S(v as i128) }
    pub fn is_zero(&self) -> bool {
        match self { Int::S(v) => *v == 0, Int::B(_) => false }
    }
    pub fn is_one(&self) -> bool { matches!(self, Int::S(1)) }
    pub fn sign(&self) -> i32 {
        match self {
            Int::S(v) => v.signum() as i32,
            Int::B(b) => match b.sign() { Sign::Minus => -1, Sign::Plus => 1, _ => 0 },
        }
    }
    pub fn neg(&self) -> Int {
        match self { Int::S(v) => Int::S(-*v), Int::B(b) => norm(-b.clone()) }
    }
    pub fn abs(&self) -> Int { if self.sign() < 0 { self.neg() } else { self.clone() } }
    pub fn add(&self, o: &Int) -> Int {
        if let (Int::S(a), Int::S(b)) = (self, o) {
            if let Some(r) = a.checked_add(*b) {
                if r.unsigned_abs() >> 120 == 0 { return Int::S(r); }
            }
        }
        norm(big(self) + big(o))
    }
    pub fn sub(&self, o: &Int) -> Int { self.add(&o.neg()) }
    pub fn mul(&self, o: &Int) -> Int {
        if let (Int::S(a), Int::S(b)) = (self, o) {
            if let Some(r) = a.checked_mul(*b) {
                if r.unsigned_abs() >> 120 == 0 { return Int::S(r); }
            }
        }
        norm(big(self) * big(o))
    }
    pub fn divrem(&self, o: &Int) -> (Int, Int) {
        if let (Int::S(a), Int::S(b)) = (self, o) { return (Int::S(a / b), Int::S(a % b)); }
        let (q, r) = big(self).div_rem(&big(o));
        (norm(q), norm(r))
    }
    pub fn div_exact(&self, o: &Int) -> Option<Int> {
        let (q, r) = self.divrem(o);
        if r.is_zero() { Some(q) } else { None }
    }
    pub fn gcd(&self, o: &Int) -> Int {
        let mut a = self.abs();
        let mut b = o.abs();
        if let (Int::B(_), _) | (_, Int::B(_)) = (&a, &b) {
            if a.is_zero() { return b; }
            if b.is_zero() { return a; }
            return norm(big(&a).gcd(&big(&b)));
        }
        while !b.is_zero() {
            let (_, r) = a.divrem(&b);
            a = b;
            b = r;
        }
        a
    }
    /// Exact square root if this is a perfect square.
    pub fn sqrt_exact(&self) -> Option<Int> {
        if self.sign() < 0 { return None; }
        if self.is_zero() { return Some(Int::zero()); }
        let b = big(self);
        // Newton iteration.
        let mut x = BigInt::from(1u8) << ((b.bits() + 1) / 2);
        loop {
            let y = (&x + &b / &x) >> 1usize;
            if y >= x { break; }
            x = y;
        }
        if &x * &x == b { Some(norm(x)) } else { None }
    }
    pub fn to_f64(&self) -> f64 {
        match self {
            Int::S(v) => *v as f64,
            Int::B(b) => {
                let bits = b.bits();
                if bits > 1000 {
                    let sh = bits - 200;
                    let m = (b.clone() >> sh).to_f64().unwrap_or(f64::NAN);
                    m * 2f64.powi(sh as i32)
                } else { b.to_f64().unwrap_or(f64::NAN) }
            }
        }
    }
    pub fn smt(&self) -> String {
        if self.sign() < 0 { format!("(- {})", self.neg()) } else { format!("{}", self) }
    }
    /// Divide a and b (positive b), result correctly scaled for huge values.
    pub fn ratio_f64(a: &Int, b: &Int) -> f64 {
        let (x, y) = (big(a), big(b));
        let bx = x.bits() as i64;
        let by = y.bits() as i64;
        if bx < 900 && by < 900 { return a.to_f64() / b.to_f64(); }
        let sx = (bx - 200).max(0);
        let sy = (by - 200).max(0);
        let m = (x >> sx as usize).to_f64().unwrap() / (y >> sy as usize).to_f64().unwrap();
        let mut e = sx - sy;
        let mut m = m;
        while e > 500 { m *= 2f64.powi(500); e -= 500; }
        while e < -500 { m *= 2f64.powi(-500); e += 500; }
        m * 2f64.powi(e as i32)
    }
}

impl std::fmt::Display for Int {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self { Int::S(v) => write!(f, "{}", v), Int::B(b) => write!(f, "{}", b) }
    }
}
impl PartialEq for Int {
    fn eq(&self, o: &Int) -> bool { self.cmp(o) == Ordering::Equal }
}
impl Eq for Int {}
impl PartialOrd for Int { fn partial_cmp(&self, o: &Int) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Int {
    fn cmp(&self, o: &Int) -> Ordering {
        match (self, o) {
            (Int::S(a), Int::S(b)) => a.cmp(b),
            _ => big(self).cmp(&big(o)),
        }
    }
}
impl std::hash::Hash for Int {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        match self { Int::S(v) => v.hash(h), Int::B(b) => b.hash(h) }
    }
}
