//! C16 QR factors, C17 QR solve, C18 pseudo-inverse.
use super::*;
use crate::elem::{panics, Elem};
use crate::reg;
use la::{Matrix, QRDecomposition};

pub fn check_qr<T: Elem>(a: &Matrix<T>) {
    let (m, n) = (a.rows(), a.cols());
    let k = m.min(n);
    let qr = QRDecomposition::new(a);
    let (q, r, h) = (qr.get_q(), qr.get_r(), qr.get_h());
    if !shape(&q, m, m, "QR: Q is m x m") { return; }
    if !shape(&r, m, n, "QR: R is m x n") { return; }
    if !shape(&h, m, n, "QR: H is m x n") { return; }
    for i in 0..m { for j in 0..n {
        if i > j { T::eq_(at(&r, i, j), T::zero(), "QR: R is zero below the diagonal"); }
        if i < j { T::eq_(at(&h, i, j), T::zero(), "QR: H is lower trapezoidal"); }
    } }
    orthogonal(&q, m, "QR: Q'Q = I");
    same(&mul(&q, &r), a, "QR: Q*R = A");
    for i in 0..k {
        T::ok(!(at(&h, i, i).abs() < at(&r, i, i).abs()), "QR: leading Householder component is at least the column norm");
    }
}
pub fn qr_full<T: Elem>(p: &[i64]) { check_qr(&sym_mat::<T>("a", p[0] as usize, p[1] as usize)); }

/// full rank only
pub fn qr_gen<T: Elem>(p: &[i64]) {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let a = sym_mat::<T>("a", m, n);
    let k = m.min(n);
    let lead = mat(m, k, |i, j| at(&a, i, j));
    T::assume_nz(det(&mul(&tr(&lead), &lead)));
    if m <= n { T::assume_nz(det(&lead)); }
    check_qr(&a);
}

/// Q is the product of the reflections the columns of H define
pub fn qr_h<T: Elem>(p: &[i64]) {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let a = sym_mat::<T>("a", m, n);
    let qr = QRDecomposition::new(&a);
    let (q, h) = (qr.get_q(), qr.get_h());
    if !shape(&q, m, m, "QR: Q is m x m") || !shape(&h, m, n, "QR: H is m x n") { return; }
    let mut acc = id::<T>(m);
    for c in 0..m.min(n) {
        let mut s = T::zero();
        for i in c..m { s = s + at(&h, i, c) * at(&h, i, c); }
        if s == T::zero() { continue; }
        let f = T::int(2) / s;
        let refl = mat(m, m, |i, j| { let e = if i == j { T::one() } else { T::zero() }; if i < c || j < c { e } else { e - f * at(&h, i, c) * at(&h, j, c) } });
        acc = mul(&acc, &refl);
    }
    same(&q, &acc, "QR: Q is the product of the Householder reflections");
}

pub fn qr_solve<T: Elem>(p: &[i64]) {
    let (m, n, nx) = (p[0] as usize, p[1] as usize, p[2] as usize);
    let a = sym_mat::<T>("a", m, n);
    let b = sym_mat::<T>("b", m, nx);
    check_qr_solve(&a, &b);
}
pub fn check_qr_solve<T: Elem>(a: &Matrix<T>, b: &Matrix<T>) {
    let (m, n, nx) = (a.rows(), a.cols(), b.cols());
    let qr = QRDecomposition::new(a);
    let fr = qr.is_full_rank();
    // rank by an independent route: Gram determinant
    let full = m >= n && det(&mul(&tr(a), a)) != T::zero();
    T::ok(fr == full, "QR: is_full_rank is true exactly for full column rank");
    let b0 = b.clone();
    match qr.solve(b) {
        None => T::ok(!full, "QR: solve returns None only without full column rank"),
        Some(x) => {
            T::ok(full, "QR: solve returns Some only for full column rank");
            if !shape(&x, n, nx, "QR: solution is n x nx") { return; }
            let r = mul(a, &x);
            let d = mat(m, nx, |i, j| at(&r, i, j) - at(b, i, j));
            if m == n { same(&r, b, "QR: A*X = B for square A"); }
            same(&mul(&tr(a), &d), &mat(n, nx, |_, _| T::zero()), "QR: A'(A*X-B) = 0");
        }
    }
    same(b, &b0, "QR: right-hand side unchanged");
}
pub fn qr_wide<T: Elem>(p: &[i64]) {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let a = sym_mat::<T>("a", m, n);
    let b = sym_mat::<T>("b", m, 1);
    let qr = QRDecomposition::new(&a);
    T::ok(!qr.is_full_rank(), "QR: a wide matrix lacks full column rank");
    T::ok(qr.solve(&b).is_none(), "QR: solve returns None for a wide matrix");
}
pub fn qr_reject<T: Elem>(p: &[i64]) {
    let (m, n, r) = (p[0] as usize, p[1] as usize, p[2] as usize);
    let a = sym_mat::<T>("a", m, n);
    let b = sym_mat::<T>("b", r, 1);
    let qr = QRDecomposition::new(&a);
    panics::<T, _>("QR: right-hand side with another number of rows is rejected", || qr.solve(&b));
}
pub fn pinv<T: Elem>(p: &[i64]) {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let a = sym_mat::<T>("a", m, n);
    T::assume(det(&mul(&tr(&a), &a)) != T::zero());
    let x = a.pinverse();
    if !shape(&x, n, m, "pinverse: n x m") { return; }
    let xa = mul(&x, &a);
    same(&xa, &id(n), "pinverse: X*A = I");
    let ax = mul(&a, &x);
    same(&ax, &tr(&ax), "pinverse: A*X is symmetric");
    same(&mul(&ax, &a), &a, "pinverse: A*X*A = A");
    same(&mul(&x, &ax), &x, "pinverse: X*A*X = X");
}
pub fn register(v: &mut Vec<Harness>) {
    reg!(v, "C16", qr_full, 0, 0, [1, 5], [5, 1], [2, 5], [1, 1], [1, 2], [1, 3], [2, 1], [3, 1], [4, 1], [2, 2], [2, 3], [3, 2], [2, 4]);
    reg!(v, "C16", qr_gen, 0, 0, [3, 3], [3, 4]);
    reg!(v, "C16", qr_h, 0, 0, [1, 3], [2, 3], [2, 4], [4, 1], [1, 2], [2, 1], [3, 1], [2, 2], [3, 2]);
    reg!(v, "C17", qr_solve, 0, 0, [1, 1, 3], [2, 1, 3], [2, 2, 3], [3, 2, 3], [4, 1, 1], [1, 1, 1], [2, 1, 1], [3, 1, 2], [2, 2, 1], [2, 2, 2], [3, 2, 1]);
    reg!(v, "C17", qr_solve, 1, 0, [4, 2, 1]);
    reg!(v, "C16", qr_full, 1, 0, [4, 2]);
    reg!(v, "C17", qr_wide, 0, 0, [1, 2], [1, 3], [2, 3]);
    reg!(v, "C17", qr_reject, 0, 0, [1, 1, 2], [2, 1, 1], [2, 2, 3], [2, 2, 1], [1, 2, 2]);
    reg!(v, "C18", pinv, 0, 0, [4, 1], [4, 2], [1, 1], [2, 1], [3, 1], [2, 2], [3, 2]);
}
