//! C14 determinant and singularity, C15 solve and inverse.
use super::*;
use crate::elem::{panics, Elem};
use crate::reg;
use la::{LUDecomposition, Matrix};

pub fn check_det<T: Elem>(a: &Matrix<T>) {
    let a0 = a.clone();
    let d = det(a);
    let lu = LUDecomposition::new(a);
    T::eq_(a.det(), d, "det: signed sum over permutations");
    T::eq_(lu.det(), d, "LU det: signed sum over permutations");
    let ns = d != T::zero();
    T::ok(a.is_non_singular() == ns, "is_non_singular: true exactly when the determinant is not zero");
    T::ok(a.is_singular() == !ns, "is_singular: true exactly when the determinant is zero");
    T::ok(lu.is_non_singular() == ns, "LU is_non_singular: true exactly when the determinant is not zero");
    T::ok(lu.is_singular() == !ns, "LU is_singular: true exactly when the determinant is zero");
    same(a, &a0, "det: the matrix is unchanged");
}
pub fn det_full<T: Elem>(p: &[i64]) { check_det(&sym_mat::<T>("a", p[0] as usize, p[0] as usize)); }
pub fn det_reject<T: Elem>(p: &[i64]) {
    let a = sym_mat::<T>("a", p[0] as usize, p[1] as usize);
    panics::<T, _>("det: non-square is rejected", || a.det());
    panics::<T, _>("is_singular: non-square is rejected", || a.is_singular());
    panics::<T, _>("is_non_singular: non-square is rejected", || a.is_non_singular());
    panics::<T, _>("LU det: non-square is rejected", || LUDecomposition::new(&a).det());
}
/// the determinant does not depend on how often, or through which object, it is asked
pub fn det_perm<T: Elem>(p: &[i64]) {
    // a permutation of a diagonal matrix: sign of the permutation times the product
    let n = p[0] as usize;
    let perm: Vec<usize> = p[1..].iter().map(|x| *x as usize).collect();
    let d: Vec<T> = (0..n).map(|i| T::var(&format!("d{}", i))).collect();
    let a = mat(n, n, |i, j| if perm[i] == j { d[i] } else { T::zero() });
    let mut inv = 0;
    for i in 0..n { for j in 0..i { if perm[j] > perm[i] { inv += 1; } } }
    let mut w = if inv % 2 == 0 { T::one() } else { T::zero() - T::one() };
    for x in d.iter() { w = w * *x; }
    T::eq_(a.det(), w, "det: signed product for a permuted diagonal matrix");
    T::eq_(LUDecomposition::new(&a).det(), w, "LU det: signed product for a permuted diagonal matrix");
    T::ok(a.is_singular() == (w == T::zero()), "is_singular: true exactly when the determinant is zero");
}

pub fn check_solve<T: Elem>(a: &Matrix<T>, b: &Matrix<T>) {
    let n = a.rows();
    let (a0, b0) = (a.clone(), b.clone());
    let ns = det(a) != T::zero();
    let lu = LUDecomposition::new(a);
    for (x, who) in [(a.solve(b), "solve"), (lu.solve(b), "LU solve")] {
        match x {
            None => T::ok(!ns, &format!("{}: None only for a singular matrix", who)),
            Some(x) => {
                T::ok(ns, &format!("{}: Some only for a non-singular matrix", who));
                if ns && shape(&x, n, b.cols(), &format!("{}: X has the shape of B", who)) { same(&mul(a, &x), b, &format!("{}: A*X = B", who)); }
            }
        }
    }
    same(a, &a0, "solve: the matrix is unchanged");
    same(b, &b0, "solve: the right-hand side is unchanged");
}
pub fn solve_full<T: Elem>(p: &[i64]) {
    let (n, nx) = (p[0] as usize, p[1] as usize);
    check_solve(&sym_mat::<T>("a", n, n), &sym_mat::<T>("b", n, nx));
}
/// larger sizes: a structured matrix (sparse pattern given by a bit mask, other entries zero or one)
pub fn solve_pattern<T: Elem>(p: &[i64]) {
    let (n, nx, mask, base) = (p[0] as usize, p[1] as usize, p[2] as u64, p[3] as u64);
    let a = mat(n, n, |i, j| {
        let k = i * n + j;
        if mask >> k & 1 == 1 { T::var(&format!("a{}{}", i, j)) } else if base >> k & 1 == 1 { T::one() } else { T::zero() }
    });
    check_solve(&a, &sym_mat::<T>("b", n, nx));
    check_det(&a);
}
pub fn inverse_full<T: Elem>(p: &[i64]) {
    let n = p[0] as usize;
    let a = sym_mat::<T>("a", n, n);
    let a0 = a.clone();
    let ns = det(&a) != T::zero();
    match a.inverse() {
        None => T::ok(!ns, "inverse: None only for a singular matrix"),
        Some(x) => {
            T::ok(ns, "inverse: Some only for a non-singular matrix");
            if ns && shape(&x, n, n, "inverse: n x n") {
                same(&mul(&a, &x), &id(n), "inverse: A*X = I");
                same(&mul(&x, &a), &id(n), "inverse: X*A = I");
            }
        }
    }
    same(&a, &a0, "inverse: the matrix is unchanged");
}
pub fn solve_reject<T: Elem>(p: &[i64]) {
    let (m, n, r, nx) = (p[0] as usize, p[1] as usize, p[2] as usize, p[3] as usize);
    let a = sym_mat::<T>("a", m, n);
    let b = sym_mat::<T>("b", r, nx);
    panics::<T, _>("solve: unsuitable shapes are rejected", || a.solve(&b));
    panics::<T, _>("LU solve: unsuitable shapes are rejected", || LUDecomposition::new(&a).solve(&b));
    if m != n { panics::<T, _>("inverse: non-square is rejected", || a.inverse()); }
}
pub fn register(v: &mut Vec<Harness>) {
    reg!(v, "C14", det_full, 0, 0, [1], [2], [3], [4]);
    reg!(v, "C14", det_reject, 0, 0, [1, 2], [2, 1], [2, 3], [3, 2], [1, 4], [4, 1]);
    reg!(v, "C14", det_perm, 0, 0, [2, 1, 0], [3, 1, 2, 0], [3, 0, 2, 1], [3, 2, 1, 0], [4, 1, 0, 3, 2], [4, 1, 2, 3, 0], [4, 3, 2, 1, 0], [5, 4, 0, 1, 2, 3], [5, 1, 0, 2, 4, 3], [6, 5, 4, 3, 2, 1, 0], [6, 1, 2, 0, 4, 3, 5], [7, 6, 0, 1, 2, 3, 4, 5], [8, 7, 6, 5, 4, 3, 2, 1, 0], [8, 1, 0, 3, 2, 5, 4, 7, 6], [9, 1, 2, 3, 4, 5, 6, 7, 8, 0], [9, 2, 0, 1, 5, 3, 4, 8, 6, 7]);
    reg!(v, "C15", solve_full, 0, 0, [1, 1], [1, 3], [2, 1], [2, 2], [2, 3], [2, 4], [3, 1], [3, 2]);
    reg!(v, "C15", inverse_full, 0, 0, [1], [2], [3]);
    reg!(v, "C15", solve_pattern, 0, 0, [4, 1, 0x8421, 0x1842], [4, 2, 0x1248, 0x8421], [4, 1, 0x8cef, 0], [5, 1, 0x1108421, 0x0210842], [3, 5, 0x0f3, 0x0], [4, 5, 0x8421, 0x0842]);
    reg!(v, "C15", solve_reject, 0, 0, [1, 1, 2, 1], [2, 2, 1, 1], [2, 2, 3, 1], [2, 2, 1, 2], [2, 2, 4, 1], [2, 3, 2, 1], [3, 2, 3, 1], [3, 2, 2, 1], [2, 3, 3, 1], [1, 2, 1, 1], [2, 1, 2, 1], [1, 2, 2, 1], [2, 1, 1, 1]);
}
