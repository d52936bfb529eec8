//! C19 existence and factors of the Cholesky decomposition, C20 its solver.
use super::*;
use crate::elem::{panics, Elem};
use crate::reg;
use la::{CholeskyDecomposition, Matrix};

fn symm<T: Elem>(nm: &str, n: usize) -> Matrix<T> {
    let a = sym_mat::<T>(nm, n, n);
    mat(n, n, |i, j| if i >= j { at(&a, i, j) } else { at(&a, j, i) })
}
fn lead<T: Elem>(a: &Matrix<T>, k: usize) -> Matrix<T> { mat(k, k, |i, j| at(a, i, j)) }

pub fn check_chol<T: Elem>(a: &Matrix<T>) {
    let n = a.rows();
    let a0 = a.clone();
    let mut good = true;
    for i in 0..n { for j in 0..i { if good && at(a, i, j) != at(a, j, i) { good = false; } } }
    // positive definite: all leading principal minors positive (Sylvester)
    for k in 1..n + 1 { if good && !(det(&lead(a, k)) > T::zero()) { good = false; } }
    match CholeskyDecomposition::new(a) {
        None => T::ok(!good, "Cholesky: None only when not symmetric positive definite"),
        Some(c) => {
            T::ok(good, "Cholesky: returned only for a symmetric positive definite matrix");
            if !good { return; }
            let l = c.get_l();
            if !shape(l, n, n, "Cholesky: L is n x n") { return; }
            for i in 0..n {
                T::ok(at(l, i, i) > T::zero(), "Cholesky: the diagonal of L is positive");
                for j in i + 1..n { T::eq_(at(l, i, j), T::zero(), "Cholesky: L is lower triangular"); }
            }
            same(&mul(l, &tr(l)), a, "Cholesky: L*L' = A");
        }
    }
    same(a, &a0, "Cholesky: the matrix is unchanged");
}
pub fn chol_any<T: Elem>(p: &[i64]) { check_chol(&sym_mat::<T>("a", p[0] as usize, p[0] as usize)); }
pub fn chol_sym<T: Elem>(p: &[i64]) { check_chol(&symm::<T>("a", p[0] as usize)); }
/// symmetric positive definite except for exactly one pair (i,j)
pub fn chol_onepair<T: Elem>(p: &[i64]) {
    let (n, pi, pj) = (p[0] as usize, p[1] as usize, p[2] as usize);
    let s = symm::<T>("a", n);
    let x = T::var("x");
    T::assume_nz(x - at(&s, pj, pi));
    let a = mat(n, n, |i, j| if i == pi && j == pj { x } else { at(&s, i, j) });
    T::ok(CholeskyDecomposition::new(&a).is_none(), "Cholesky: None when a mirrored pair differs");
}
pub fn chol_nonsquare<T: Elem>(p: &[i64]) {
    let a = sym_mat::<T>("a", p[0] as usize, p[1] as usize);
    T::ok(CholeskyDecomposition::new(&a).is_none(), "Cholesky: None for a non-square matrix");
}
pub fn chol_solve<T: Elem>(p: &[i64]) {
    let (n, nx) = (p[0] as usize, p[1] as usize);
    let a = symm::<T>("a", n);
    let b = sym_mat::<T>("b", n, nx);
    let b0 = b.clone();
    for k in 1..n + 1 { T::assume_pos(det(&lead(&a, k))); }
    match CholeskyDecomposition::new(&a) {
        None => T::ok(false, "Cholesky: None only when not symmetric positive definite"),
        Some(c) => {
            let x = c.solve(&b);
            if !shape(&x, n, nx, "Cholesky solve: X has the shape of B") { return; }
            same(&mul(&a, &x), &b, "Cholesky solve: A*X = B");
            same(&b, &b0, "Cholesky solve: the right-hand side is unchanged");
        }
    }
}
/// A = L0*L0' for a symbolic factor with positive diagonal: no radicals
pub fn chol_known<T: Elem>(p: &[i64]) {
    let (n, nx) = (p[0] as usize, p[1] as usize);
    let l0 = sym_mat::<T>("l", n, n);
    for i in 0..n { T::assume_pos(at(&l0, i, i)); }
    let l0 = mat(n, n, |i, j| if i >= j { at(&l0, i, j) } else { T::zero() });
    let a = mul(&l0, &tr(&l0));
    let b = sym_mat::<T>("b", n, nx);
    match CholeskyDecomposition::new(&a) {
        None => T::ok(false, "Cholesky: None only when not symmetric positive definite"),
        Some(c) => {
            same(c.get_l(), &l0, "Cholesky: the factor with positive diagonal");
            let x = c.solve(&b);
            if !shape(&x, n, nx, "Cholesky solve: X has the shape of B") { return; }
            same(&mul(&a, &x), &b, "Cholesky solve: A*X = B");
        }
    }
}
pub fn chol_reject<T: Elem>(p: &[i64]) {
    let (n, r, nx) = (p[0] as usize, p[1] as usize, p[2] as usize);
    let l0 = sym_mat::<T>("l", n, n);
    for i in 0..n { T::assume_pos(at(&l0, i, i)); }
    let l0 = mat(n, n, |i, j| if i >= j { at(&l0, i, j) } else { T::zero() });
    let b = sym_mat::<T>("b", r, nx);
    if let Some(c) = CholeskyDecomposition::new(&mul(&l0, &tr(&l0))) {
        panics::<T, _>("Cholesky solve: right-hand side with another number of rows is rejected", || c.solve(&b));
    }
}
pub fn register(v: &mut Vec<Harness>) {
    reg!(v, "C19", chol_any, 0, 0, [1], [2], [3]);
    reg!(v, "C19", chol_sym, 0, 0, [1], [2], [3], [4]);
    reg!(v, "C19", chol_onepair, 0, 0, [2, 0, 1], [2, 1, 0], [3, 0, 1], [3, 2, 0], [3, 1, 2], [3, 2, 1], [4, 3, 1], [4, 0, 3]);
    reg!(v, "C19", chol_nonsquare, 0, 0, [1, 2], [2, 1], [2, 3], [3, 2], [4, 1]);
    reg!(v, "C19", chol_known, 0, 0, [2, 1], [3, 1], [4, 1]);
    reg!(v, "C20", chol_solve, 0, 0, [3, 4], [1, 1], [1, 3], [2, 1], [2, 2], [2, 3], [3, 1], [3, 2]);
    reg!(v, "C20", chol_known, 0, 0, [2, 4], [3, 3], [4, 2]);
    reg!(v, "C20", chol_reject, 0, 0, [1, 2, 1], [2, 1, 1], [2, 1, 2], [2, 3, 1], [2, 4, 1], [3, 2, 3], [3, 1, 3]);
}
