//! The symbolic number type the generic code of the library is instantiated with.
use symcore::eng::{abort, with, Eng, Op, Val, NEG, POS, ZER};
use num::{Float, Num, NumCast, One, Signed, ToPrimitive, Zero};
use std::num::FpCategory;
use std::ops::*;
use std::rc::Rc;

const TAG: u64 = 0x51A4_C0DE_0000_0000;

#[derive(Clone, Copy)]
#[repr(transparent)]
pub struct Sym(u64);

pub fn mk(e: &mut Eng, v: Val) -> Sym { Sym(TAG | e.push(v)) }
pub fn get(e: &mut Eng, s: Sym) -> Val {
    let i = (s.0 & 0xffff_ffff) as usize;
    if s.0 & 0xffff_ffff_0000_0000 != TAG || i >= e.vals.len() {
        return e.dirty(&format!("read of never-written memory (bits {:#x})", s.0));
    }
    e.vals[i].clone()
}
// the machine epsilon where it is not that of f64 (C33)
thread_local! { pub static PREC: std::cell::Cell<Option<Sym>> = std::cell::Cell::new(None); }
thread_local! { pub static RANGE: std::cell::Cell<i64> = std::cell::Cell::new(0); }
/// the toy number format of the range harnesses
fn ranged(e: &mut Eng, v: Val) -> Val {
    let b = RANGE.with(|r| r.get());
    if b == 0 { return v; }
    let f = match &v { Val::N(f) | Val::Abs(f) => f.clone(), _ => return v };
    if f.n.is_zero() || f.n.degs()[symcore::poly::EPS] > 0 { return v; }
    let a = e.vabs(&v);
    let (hi, lo) = (e.from_f64((2.0f64).powi(b as i32)), e.from_f64((2.0f64).powi(-b as i32)));
    if e.compare(&a, &lo, NEG, true) { return e.from_f64(0.0); }
    if e.compare(&a, &hi, POS, true) {
        let neg = match &v { Val::Abs(_) => false, _ => { let z = e.from_f64(0.0); e.compare(&v, &z, NEG, true) } };
        return Val::Sp(if neg { f64::NEG_INFINITY } else { f64::INFINITY });
    }
    v
}
impl Sym {
    pub fn un(self, c: u8, f: impl FnOnce(&mut Eng, &Val) -> Val) -> Sym {
        with(|e| {
            let a = get(e, self);
            let r = f(e, &a);
            let r = ranged(e, r);
            let s = mk(e, r);
            if c != 0 && is_written_in(e, self) { *e.ops.last_mut().unwrap() = Op::Un(c, self.0 as u32); }
            s
        })
    }
    pub fn bin(self, o: Sym, c: u8, f: impl FnOnce(&mut Eng, &Val, &Val) -> Val) -> Sym {
        with(|e| {
            let a = get(e, self);
            let b = get(e, o);
            let r = f(e, &a, &b);
            let r = ranged(e, r);
            let s = mk(e, r);
            if c != 0 && is_written_in(e, self) && is_written_in(e, o) { *e.ops.last_mut().unwrap() = Op::Bin(c, self.0 as u32, o.0 as u32); }
            s
        })
    }
    /// equal as polynomials in the free symbols (no fork)
    pub fn same_value(a: Sym, b: Sym) -> bool {
        if a.0 == b.0 { return true; }
        with(|e| { let d = { let (x, y) = (get(e, a), get(e, b)); e.vsub(&x, &y) }; match d { Val::N(f) => f.n.is_zero(), _ => false } })
    }
    pub fn handle(self) -> u32 { self.0 as u32 }
    pub fn cmp(self, o: Sym, t: u8) -> bool {
        with(|e| { let a = get(e, self); let b = get(e, o); e.compare(&a, &b, t, true) })
    }
    pub fn f(x: f64) -> Sym { with(|e| { let v = e.from_f64(x); mk(e, v) }) }
    fn z(self) -> Sym { Sym::f(0.0) }
}

impl Add for Sym { type Output = Sym; fn add(self, o: Sym) -> Sym { self.bin(o, b'+', |e, a, b| e.vadd(a, b)) } }
impl Sub for Sym { type Output = Sym; fn sub(self, o: Sym) -> Sym { self.bin(o, b'-', |e, a, b| e.vsub(a, b)) } }
impl Mul for Sym { type Output = Sym; fn mul(self, o: Sym) -> Sym { self.bin(o, b'*', |e, a, b| e.vmul(a, b)) } }
impl Div for Sym { type Output = Sym; fn div(self, o: Sym) -> Sym { self.bin(o, b'/', |e, a, b| e.vdiv(a, b)) } }
impl Rem for Sym { type Output = Sym; fn rem(self, _: Sym) -> Sym { abort("remainder") } }
impl Neg for Sym { type Output = Sym; fn neg(self) -> Sym { self.un(b'n', |e, a| e.vneg(a)) } }
impl AddAssign for Sym { fn add_assign(&mut self, o: Sym) { *self = *self + o } }
impl SubAssign for Sym { fn sub_assign(&mut self, o: Sym) { *self = *self - o } }
impl MulAssign for Sym { fn mul_assign(&mut self, o: Sym) { *self = *self * o } }
impl DivAssign for Sym { fn div_assign(&mut self, o: Sym) { *self = *self / o } }
impl<'a> Add<&'a Sym> for Sym { type Output = Sym; fn add(self, o: &Sym) -> Sym { self + *o } }
impl std::iter::Sum for Sym { fn sum<I: Iterator<Item = Sym>>(i: I) -> Sym { i.fold(Sym::f(0.0), |a, b| a + b) } }

impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool { self.cmp(*o, ZER) }
    fn ne(&self, o: &Sym) -> bool {
        // NaN != anything
        with(|e| {
            let a = get(e, *self);
            let b = get(e, *o);
            match (&a, &b) {
                (Val::Sp(x), Val::Sp(y)) => x != y,
                (Val::Sp(_), _) | (_, Val::Sp(_)) => true,
                _ => !e.compare(&a, &b, ZER, true),
            }
        })
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<std::cmp::Ordering> {
        if self.is_nan() || o.is_nan() { return None; }
        Some(if self.cmp(*o, NEG) { std::cmp::Ordering::Less } else if self.cmp(*o, ZER) { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater })
    }
    fn lt(&self, o: &Sym) -> bool { self.cmp(*o, NEG) }
    fn gt(&self, o: &Sym) -> bool { self.cmp(*o, POS) }
    fn le(&self, o: &Sym) -> bool { self.cmp(*o, NEG | ZER) }
    fn ge(&self, o: &Sym) -> bool { self.cmp(*o, POS | ZER) }
}
impl Zero for Sym {
    fn zero() -> Sym { Sym::f(0.0) }
    fn is_zero(&self) -> bool { self.cmp(Sym::f(0.0), ZER) }
}
impl One for Sym { fn one() -> Sym { Sym::f(1.0) } }
impl Num for Sym { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<Sym, ()> { Err(()) } }
impl ToPrimitive for Sym {
    fn to_i64(&self) -> Option<i64> { self.to_f64().map(|x| x as i64) }
    fn to_u64(&self) -> Option<u64> { self.to_f64().map(|x| x as u64) }
    fn to_f64(&self) -> Option<f64> {
        with(|e| {
            let a = get(e, *self);
            match &a {
                Val::Sp(x) => Some(*x),
                _ => {
                    let f = e.force(&a);
                    match (f.n.as_const(), f.den.is_empty()) {
                        (Some(n), true) => Some(symcore::int::Int::ratio_f64(&n, &f.ic)),
                        _ => abort("symbolic value converted to a primitive"),
                    }
                }
            }
        })
    }
}
impl NumCast for Sym {
    fn from<T: ToPrimitive>(n: T) -> Option<Sym> { n.to_f64().map(Sym::f) }
}
impl Signed for Sym {
    fn abs(&self) -> Sym { self.un(b'a', |e, a| e.vabs(a)) }
    fn abs_sub(&self, o: &Sym) -> Sym { if *self <= *o { self.z() } else { *self - *o } }
    fn signum(&self) -> Sym { if *self > self.z() { Sym::f(1.0) } else if *self < self.z() { Sym::f(-1.0) } else { self.z() } }
    fn is_positive(&self) -> bool { *self > self.z() }
    fn is_negative(&self) -> bool { *self < self.z() }
}
fn sp(s: Sym) -> Option<f64> { with(|e| match get(e, s) { Val::Sp(x) => Some(x), _ => None }) }
impl Float for Sym {
    fn nan() -> Sym { Sym::f(f64::NAN) }
    fn infinity() -> Sym { Sym::f(f64::INFINITY) }
    fn neg_infinity() -> Sym { Sym::f(f64::NEG_INFINITY) }
    fn neg_zero() -> Sym { Sym::f(0.0) }
    fn min_value() -> Sym { Sym::f(f64::MIN) }
    fn min_positive_value() -> Sym { Sym::f(f64::MIN_POSITIVE) }
    fn epsilon() -> Sym { PREC.with(|c| c.get()).unwrap_or_else(|| Sym::f(f64::EPSILON)) }
    fn max_value() -> Sym { Sym::f(f64::MAX) }
    fn is_nan(self) -> bool { sp(self).map_or(false, |x| x.is_nan()) }
    fn is_infinite(self) -> bool { sp(self).map_or(false, |x| x.is_infinite()) }
    fn is_finite(self) -> bool { sp(self).is_none() }
    fn is_normal(self) -> bool { sp(self).is_none() && !self.is_zero() }
    fn classify(self) -> FpCategory {
        match sp(self) { Some(x) => x.classify(), None => if self.is_zero() { FpCategory::Zero } else { FpCategory::Normal } }
    }
    fn floor(self) -> Sym { match self.to_f64() { Some(x) => Sym::f(x.floor()), None => abort("floor") } }
    fn ceil(self) -> Sym { match self.to_f64() { Some(x) => Sym::f(x.ceil()), None => abort("ceil") } }
    fn round(self) -> Sym { match self.to_f64() { Some(x) => Sym::f(x.round()), None => abort("round") } }
    fn trunc(self) -> Sym { match self.to_f64() { Some(x) => Sym::f(x.trunc()), None => abort("trunc") } }
    fn fract(self) -> Sym { self - self.trunc() }
    fn abs(self) -> Sym { Signed::abs(&self) }
    fn signum(self) -> Sym { if self.is_nan() { self } else if self >= self.z() { Sym::f(1.0) } else { Sym::f(-1.0) } }
    fn is_sign_positive(self) -> bool { self >= self.z() }
    fn is_sign_negative(self) -> bool { self < self.z() }
    fn mul_add(self, a: Sym, b: Sym) -> Sym { self * a + b }
    fn recip(self) -> Sym { Sym::f(1.0) / self }
    fn powi(self, n: i32) -> Sym {
        let mut r = Sym::f(1.0);
        for _ in 0..n.unsigned_abs() { r = r * self; }
        if n < 0 { r.recip() } else { r }
    }
    fn powf(self, n: Sym) -> Sym { self.bin(n, 0, |e, a, b| e.vpow(a, b)) }
    fn sqrt(self) -> Sym { self.un(b's', |e, a| e.vsqrt(a)) }
    fn exp(self) -> Sym { abort("exp") }
    fn exp2(self) -> Sym { abort("exp2") }
    fn ln(self) -> Sym { abort("ln") }
    fn log(self, _: Sym) -> Sym { abort("log") }
    fn log2(self) -> Sym { abort("log2") }
    fn log10(self) -> Sym { abort("log10") }
    fn max(self, o: Sym) -> Sym { if self.is_nan() { o } else if o.is_nan() { self } else if self >= o { self } else { o } }
    fn min(self, o: Sym) -> Sym { if self.is_nan() { o } else if o.is_nan() { self } else if self <= o { self } else { o } }
    fn abs_sub(self, o: Sym) -> Sym { Signed::abs_sub(&self, &o) }
    fn cbrt(self) -> Sym { abort("cbrt") }
    fn hypot(self, o: Sym) -> Sym { (self * self + o * o).sqrt() }
    fn sin(self) -> Sym { abort("sin") }
    fn cos(self) -> Sym { abort("cos") }
    fn tan(self) -> Sym { abort("tan") }
    fn asin(self) -> Sym { abort("asin") }
    fn acos(self) -> Sym { abort("acos") }
    fn atan(self) -> Sym { abort("atan") }
    fn atan2(self, _: Sym) -> Sym { abort("atan2") }
    fn sin_cos(self) -> (Sym, Sym) { abort("sin_cos") }
    fn exp_m1(self) -> Sym { abort("exp_m1") }
    fn ln_1p(self) -> Sym { abort("ln_1p") }
    fn sinh(self) -> Sym { abort("sinh") }
    fn cosh(self) -> Sym { abort("cosh") }
    fn tanh(self) -> Sym { abort("tanh") }
    fn asinh(self) -> Sym { abort("asinh") }
    fn acosh(self) -> Sym { abort("acosh") }
    fn atanh(self) -> Sym { abort("atanh") }
    fn integer_decode(self) -> (u64, i16, i8) { abort("integer_decode") }
}
impl std::fmt::Debug for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "s{}", self.0 & 0xffff_ffff) }
}
impl std::fmt::Display for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "s{}", self.0 & 0xffff_ffff) }
}
thread_local! { pub static DRAWS: std::cell::RefCell<Vec<Sym>> = std::cell::RefCell::new(vec![]); }
impl rand::Rand for Sym {
    fn rand<R: rand::Rng>(_: &mut R) -> Sym {
        let s = with(|e| { let v = e.new_fresh(None); let f = e.fpoly(symcore::poly::Poly::var(v)); mk(e, Val::N(Rc::new(f))) });
        DRAWS.with(|d| d.borrow_mut().push(s));
        s
    }
}
pub fn same_handle(a: Sym, b: Sym) -> bool { a.0 == b.0 }
pub fn is_written_in(e: &Eng, s: Sym) -> bool { s.0 & 0xffff_ffff_0000_0000 == TAG && ((s.0 & 0xffff_ffff) as usize) < e.vals.len() }
pub fn is_written(s: Sym) -> bool { with(|e| s.0 & 0xffff_ffff_0000_0000 == TAG && ((s.0 & 0xffff_ffff) as usize) < e.vals.len()) }
