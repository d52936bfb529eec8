//! Rounding analysis. `Du` is an exact symbolic value together with its first-order sensitivity to every rounding error
//! made so far: in the standard model each operation returns its exact result times (1 + r_k), |r_k| <= u, and the
//! coefficient of r_k in a later value is carried along by the chain rule. The library is instantiated with it.
use crate::sym::Sym;
use la::ApproxEq;
use num::{Float, Num, NumCast, One, Signed, ToPrimitive, Zero};
use std::cell::{Cell, RefCell};
use std::num::FpCategory;
use std::ops::*;
use symcore::eng::{abort, stop, Stop};

const TAG: u64 = 0xD00D_51A4_0000_0000;
#[derive(Clone)]
enum G {
    Lin(Vec<(u32, Sym)>),
    /// of |x|: the sign of x is asked for when the coefficients are needed
    Abs(Sym, u64),
}
thread_local! {
    static ARENA: RefCell<Vec<G>> = RefCell::new(vec![]);
    static ROUND: Cell<bool> = Cell::new(false);
    static NEXT: Cell<u32> = Cell::new(0);
}

#[derive(Clone, Copy)]
pub struct Du { pub v: Sym, g: u64 }

fn put(g: G) -> u64 {
    if let G::Lin(l) = &g { if l.is_empty() { return 0; } }
    ARENA.with(|a| { let mut a = a.borrow_mut(); a.push(g); TAG | a.len() as u64 })
}
fn coefs(g: u64) -> Vec<(u32, Sym)> {
    if g & 0xffff_ffff_0000_0000 != TAG { return vec![]; }
    let i = (g & 0xffff_ffff) as usize;
    let x = ARENA.with(|a| a.borrow().get(i.wrapping_sub(1)).cloned());
    match x {
        None => vec![],
        Some(G::Lin(l)) => l,
        Some(G::Abs(v, h)) => {
            let neg = v < Sym::f(0.0);
            let l = coefs(h);
            let l: Vec<_> = if neg { l.into_iter().map(|(k, c)| (k, -c)).collect() } else { l };
            ARENA.with(|a| a.borrow_mut()[i - 1] = G::Lin(l.clone()));
            l
        }
    }
}
fn exact_zero(x: Sym) -> bool { Sym::same_value(x, Sym::f(0.0)) }
fn unit(x: Sym) -> bool { Sym::same_value(x, Sym::f(1.0)) || Sym::same_value(x, Sym::f(-1.0)) }
fn clean(l: Vec<(u32, Sym)>) -> Vec<(u32, Sym)> { l.into_iter().filter(|(_, c)| !exact_zero(*c)).collect() }
/// fa * a + fb * b
fn lin(a: &[(u32, Sym)], fa: impl Fn(Sym) -> Sym, b: &[(u32, Sym)], fb: impl Fn(Sym) -> Sym) -> Vec<(u32, Sym)> {
    let (mut i, mut j) = (0, 0);
    let mut r = vec![];
    while i < a.len() || j < b.len() {
        if j == b.len() || i < a.len() && a[i].0 < b[j].0 { r.push((a[i].0, fa(a[i].1))); i += 1; }
        else if i == a.len() || b[j].0 < a[i].0 { r.push((b[j].0, fb(b[j].1))); j += 1; }
        else { r.push((a[i].0, fa(a[i].1) + fb(b[j].1))); i += 1; j += 1; }
    }
    r
}
fn done(v: Sym, l: Vec<(u32, Sym)>, rounds: bool) -> Du {
    if !v.is_finite() { return Du { v, g: 0 }; }
    let mut l = clean(l);
    if rounds && ROUND.with(|r| r.get()) && !exact_zero(v) {
        let k = NEXT.with(|n| { let k = n.get(); n.set(k + 1); k });
        l.push((k, v));
    }
    Du { v, g: put(G::Lin(l)) }
}
impl Du {
    pub fn exact(v: Sym) -> Du { Du { v, g: 0 } }
    pub fn f(x: f64) -> Du { Du::exact(Sym::f(x)) }
    pub fn coefs(self) -> Vec<(u32, Sym)> { coefs(self.g) }
    /// forget all roundings (start of a run)
    pub fn reset() { ARENA.with(|a| a.borrow_mut().clear()); NEXT.with(|n| n.set(0)); ROUND.with(|r| r.set(false)); }
    pub fn rounding(on: bool) { ROUND.with(|r| r.set(on)) }
}
impl Add for Du { type Output = Du; fn add(self, o: Du) -> Du {
    let v = self.v + o.v;
    done(v, lin(&coefs(self.g), |c| c, &coefs(o.g), |c| c), !exact_zero(self.v) && !exact_zero(o.v))
} }
impl Sub for Du { type Output = Du; fn sub(self, o: Du) -> Du {
    let v = self.v - o.v;
    done(v, lin(&coefs(self.g), |c| c, &coefs(o.g), |c| -c), !exact_zero(self.v) && !exact_zero(o.v))
} }
impl Mul for Du { type Output = Du; fn mul(self, o: Du) -> Du {
    let v = self.v * o.v;
    done(v, lin(&coefs(self.g), |c| c * o.v, &coefs(o.g), |c| c * self.v), !unit(self.v) && !unit(o.v))
} }
impl Div for Du { type Output = Du; fn div(self, o: Du) -> Du {
    let v = self.v / o.v;
    if !v.is_finite() { return Du { v, g: 0 }; }
    done(v, lin(&coefs(self.g), |c| c / o.v, &coefs(o.g), |c| -(c * v / o.v)), !unit(o.v))
} }
impl Rem for Du { type Output = Du; fn rem(self, _: Du) -> Du { abort("remainder") } }
impl Neg for Du { type Output = Du; fn neg(self) -> Du { let l = coefs(self.g).into_iter().map(|(k, c)| (k, -c)).collect(); done(-self.v, l, false) } }
impl AddAssign for Du { fn add_assign(&mut self, o: Du) { *self = *self + o } }
impl SubAssign for Du { fn sub_assign(&mut self, o: Du) { *self = *self - o } }
impl MulAssign for Du { fn mul_assign(&mut self, o: Du) { *self = *self * o } }
impl DivAssign for Du { fn div_assign(&mut self, o: Du) { *self = *self / o } }
impl<'a> Add<&'a Du> for Du { type Output = Du; fn add(self, o: &Du) -> Du { self + *o } }
impl std::iter::Sum for Du { fn sum<I: Iterator<Item = Du>>(i: I) -> Du { i.fold(Du::f(0.0), |a, b| a + b) } }
impl PartialEq for Du { fn eq(&self, o: &Du) -> bool { self.v == o.v } fn ne(&self, o: &Du) -> bool { self.v != o.v } }
impl PartialOrd for Du {
    fn partial_cmp(&self, o: &Du) -> Option<std::cmp::Ordering> { self.v.partial_cmp(&o.v) }
    fn lt(&self, o: &Du) -> bool { self.v < o.v }
    fn gt(&self, o: &Du) -> bool { self.v > o.v }
    fn le(&self, o: &Du) -> bool { self.v <= o.v }
    fn ge(&self, o: &Du) -> bool { self.v >= o.v }
}
impl Zero for Du { fn zero() -> Du { Du::f(0.0) } fn is_zero(&self) -> bool { self.v.is_zero() } }
impl One for Du { fn one() -> Du { Du::f(1.0) } }
impl Num for Du { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<Du, ()> { Err(()) } }
impl ToPrimitive for Du {
    fn to_i64(&self) -> Option<i64> { self.v.to_i64() }
    fn to_u64(&self) -> Option<u64> { self.v.to_u64() }
    fn to_f64(&self) -> Option<f64> { self.v.to_f64() }
}
impl NumCast for Du { fn from<T: ToPrimitive>(n: T) -> Option<Du> { n.to_f64().map(Du::f) } }
impl ApproxEq<Du> for Du {
    fn approx_epsilon() -> Du { Du::exact(Sym::approx_epsilon()) }
    fn approx_eq(&self, o: &Du) -> bool { self.v.approx_eq(&o.v) }
    fn approx_eq_eps(&self, o: &Du, e: &Du) -> bool { self.v.approx_eq_eps(&o.v, &e.v) }
}
impl Signed for Du {
    fn abs(&self) -> Du { Du { v: Signed::abs(&self.v), g: if self.g & 0xffff_ffff_0000_0000 == TAG { put(G::Abs(self.v, self.g)) } else { 0 } } }
    fn abs_sub(&self, o: &Du) -> Du { if *self <= *o { Du::f(0.0) } else { *self - *o } }
    fn signum(&self) -> Du { Du::exact(Signed::signum(&self.v)) }
    fn is_positive(&self) -> bool { self.v > Sym::f(0.0) }
    fn is_negative(&self) -> bool { self.v < Sym::f(0.0) }
}
impl Float for Du {
    fn nan() -> Du { Du::f(f64::NAN) }
    fn infinity() -> Du { Du::f(f64::INFINITY) }
    fn neg_infinity() -> Du { Du::f(f64::NEG_INFINITY) }
    fn neg_zero() -> Du { Du::f(0.0) }
    fn min_value() -> Du { Du::f(f64::MIN) }
    fn min_positive_value() -> Du { Du::f(f64::MIN_POSITIVE) }
    fn epsilon() -> Du { Du::exact(Sym::epsilon()) }
    fn max_value() -> Du { Du::f(f64::MAX) }
    fn is_nan(self) -> bool { self.v.is_nan() }
    fn is_infinite(self) -> bool { self.v.is_infinite() }
    fn is_finite(self) -> bool { self.v.is_finite() }
    fn is_normal(self) -> bool { self.v.is_normal() }
    fn classify(self) -> FpCategory { self.v.classify() }
    fn floor(self) -> Du { Du::exact(self.v.floor()) }
    fn ceil(self) -> Du { Du::exact(self.v.ceil()) }
    fn round(self) -> Du { Du::exact(self.v.round()) }
    fn trunc(self) -> Du { Du::exact(self.v.trunc()) }
    fn fract(self) -> Du { self - self.trunc() }
    fn abs(self) -> Du { Signed::abs(&self) }
    fn signum(self) -> Du { Du::exact(Float::signum(self.v)) }
    fn is_sign_positive(self) -> bool { self.v.is_sign_positive() }
    fn is_sign_negative(self) -> bool { self.v.is_sign_negative() }
    fn mul_add(self, a: Du, b: Du) -> Du {
        // a single rounding
        let on = ROUND.with(|r| r.get());
        Du::rounding(false);
        let m = self * a;
        let s = m + b;
        Du::rounding(on);
        done(s.v, coefs(s.g), true)
    }
    fn recip(self) -> Du { Du::f(1.0) / self }
    fn powi(self, n: i32) -> Du {
        let mut r = Du::f(1.0);
        for _ in 0..n.unsigned_abs() { r = r * self; }
        if n < 0 { r.recip() } else { r }
    }
    fn powf(self, n: Du) -> Du {
        match n.v.to_f64() {
            Some(x) if x == 2.0 => self * self,
            Some(x) if x == 0.5 => self.sqrt(),
            Some(x) if x == x.trunc() && x.abs() < 64.0 => self.powi(x as i32),
            _ => abort("powf"),
        }
    }
    fn sqrt(self) -> Du {
        let v = self.v.sqrt();
        if !v.is_finite() { return Du { v, g: 0 }; }
        let l = coefs(self.g);
        // the root is not differentiable at zero
        if !l.is_empty() && v.is_zero() { stop(Stop::Assume) }
        done(v, l.into_iter().map(|(k, c)| (k, c / (v + v))).collect(), !unit(v))
    }
    fn exp(self) -> Du { abort("exp") }
    fn exp2(self) -> Du { abort("exp2") }
    fn ln(self) -> Du { abort("ln") }
    fn log(self, _: Du) -> Du { abort("log") }
    fn log2(self) -> Du { abort("log2") }
    fn log10(self) -> Du { abort("log10") }
    fn max(self, o: Du) -> Du { if self.is_nan() { o } else if o.is_nan() { self } else if self >= o { self } else { o } }
    fn min(self, o: Du) -> Du { if self.is_nan() { o } else if o.is_nan() { self } else if self <= o { self } else { o } }
    fn abs_sub(self, o: Du) -> Du { Signed::abs_sub(&self, &o) }
    fn cbrt(self) -> Du { abort("cbrt") }
    fn hypot(self, o: Du) -> Du { (self * self + o * o).sqrt() }
    fn sin(self) -> Du { abort("sin") }
    fn cos(self) -> Du { abort("cos") }
    fn tan(self) -> Du { abort("tan") }
    fn asin(self) -> Du { abort("asin") }
    fn acos(self) -> Du { abort("acos") }
    fn atan(self) -> Du { abort("atan") }
    fn atan2(self, _: Du) -> Du { abort("atan2") }
    fn sin_cos(self) -> (Du, Du) { abort("sin_cos") }
    fn exp_m1(self) -> Du { abort("exp_m1") }
    fn ln_1p(self) -> Du { abort("ln_1p") }
    fn sinh(self) -> Du { abort("sinh") }
    fn cosh(self) -> Du { abort("cosh") }
    fn tanh(self) -> Du { abort("tanh") }
    fn asinh(self) -> Du { abort("asinh") }
    fn acosh(self) -> Du { abort("acosh") }
    fn atanh(self) -> Du { abort("atanh") }
    fn integer_decode(self) -> (u64, i16, i8) { abort("integer_decode") }
}
impl std::fmt::Debug for Du { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self.v) } }
impl std::fmt::Display for Du { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.v) } }
