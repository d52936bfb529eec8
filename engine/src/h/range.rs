//! C26: no spurious overflow or underflow. The symbolic run uses a toy number format: exact reals, but any result of
//! magnitude above 2^B becomes infinite and any non-zero result below 2^-B becomes zero. Replay maps the inputs to
//! f64 by multiplying every exponent.
use super::*;
use crate::elem::Elem;
use crate::reg;
use la::{Matrix, SVD};

pub const B: i64 = 30;

/// entries with 0 or h <= |x| <= H/8; pattern bit set: zero
fn ranged_col<T: Elem>(m: usize, zero: i64) -> Vec<T> {
    let lim = T::q(1 << (B - 3), 1);
    // (a model value printed in decimal may fall a hair below the limit)
    let low = if T::symbolic() { T::q(1, 1 << B) } else { T::q(999, 1000 * (1 << B)) };
    (0..m).map(|i| if zero >> i & 1 == 1 { T::zero() } else {
        let x = T::var(&format!("x{}", i));
        T::assume_nz(x);
        T::assume(x.abs() <= lim);
        T::assume(x.abs() >= low);
        x
    }).collect()
}
fn near<T: Elem>(x: T, y: T, tol: T, label: &str) {
    if x.is_nan() || y.is_nan() || x.is_infinite() || y.is_infinite() { T::ok(false, label); return; }
    if x == y { T::ok(true, label); return; }
    T::ok((x - y).abs() <= tol, label);
}
fn biggest<T: Elem>(x: &[T]) -> T {
    let mut b = x[0].abs();
    for v in x.iter().skip(1) { if v.abs() > b { b = v.abs(); } }
    b
}
/// length divided by the largest magnitude
fn rel_len<T: Elem>(x: &[T], b: T) -> T {
    let mut s = T::zero();
    for v in x.iter() { let r = *v / b; s = s + r * r; }
    s.sqrt()
}
pub fn svd_range<T: Elem>(p: &[i64]) {
    let m = p[0] as usize;
    let x0 = ranged_col::<T>(m, p[2]);
    for stretch in T::stretches() {
        svd_range_of(p, m, x0.iter().map(|v| T::widen(*v, stretch)).collect());
    }
}
fn svd_range_of<T: Elem>(p: &[i64], m: usize, x: Vec<T>) {
    let a = if p[1] == 0 { Matrix::new(m, 1, x.clone()) } else { Matrix::new(1, m, x.clone()) };
    let d = T::in_range(B, || SVD::new(&a));
    let b = biggest(&x);
    let l = rel_len(&x, b);
    let s = at(d.get_s(), 0, 0);
    let tol = T::q(1, 1 << 16);
    if s.is_nan() || s.is_infinite() { T::ok(false, "range: the singular value is the length, at every magnitude"); return; }
    near(s / b, l, tol, "range: the singular value is the length, at every magnitude");
    // the singular vectors: u*v' = x/length
    let (u, v) = (d.get_u(), d.get_v());
    for i in 0..m {
        let w = if p[1] == 0 { at(u, i, 0) * at(v, 0, 0) } else { at(u, 0, 0) * at(v, i, 0) };
        if w.is_nan() { T::ok(false, "range: the singular vector is the unit vector along the input"); return; }
        near(w * l, x[i] / b, tol, "range: the singular vector is the unit vector along the input");
    }
}
pub fn register(v: &mut Vec<Harness>) {
    reg!(v, "C26", svd_range, 0, NO_XVAL, [1, 0, 0], [1, 1, 0], [2, 0, 0], [2, 1, 0], [2, 0, 1], [2, 0, 2], [3, 0, 4], [3, 0, 1], [3, 0, 2], [3, 1, 4], [3, 1, 1], [4, 0, 5], [4, 0, 10]);
    reg!(v, "C26", svd_range, 1, NO_XVAL, [3, 0, 0]);
}
