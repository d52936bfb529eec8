//! C13 LU factors, C14 determinant, C15 solve and inverse.
use super::*;
use crate::elem::Elem;
use crate::reg;
use la::{LUDecomposition, Matrix};

pub fn check_lu<T: Elem>(a: &Matrix<T>) {
    let (m, n) = (a.rows(), a.cols());
    let k = m.min(n);
    let a0 = a.clone();
    let lu = LUDecomposition::new(a);
    same(a, &a0, "LU: the input matrix is unchanged");
    let (l, u, p) = (lu.get_l(), lu.get_u(), lu.get_p());
    if !shape(&l, m, k, "LU: L is m x min(m,n)") { return; }
    if !shape(&u, k, n, "LU: U is min(m,n) x n") { return; }
    if !shape(&p, m, m, "LU: P is m x m") { return; }
    let piv = lu.get_piv();
    T::ok(piv.len() == m, "LU: one pivot index per row");
    let mut seen = vec![0; m];
    for &x in piv.iter() { if x < m { seen[x] += 1; } }
    T::ok(seen.iter().all(|c| *c == 1), "LU: pivot vector is a permutation");
    if seen.iter().any(|c| *c != 1) || piv.len() != m { return; }
    for i in 0..m {
        for j in 0..k {
            if i == j { T::eq_(at(&l, i, j), T::one(), "LU: unit diagonal of L"); }
            if i < j { T::eq_(at(&l, i, j), T::zero(), "LU: L is lower triangular"); }
            if i > j { T::ok(!(at(&l, i, j).abs() > T::one()), "LU: entries of L have magnitude at most one"); }
        }
    }
    for i in 0..k { for j in 0..n { if i > j { T::eq_(at(&u, i, j), T::zero(), "LU: U is upper triangular"); } } }
    for i in 0..m { for j in 0..m {
        T::eq_(at(&p, i, j), if piv[i] == j { T::one() } else { T::zero() }, "LU: permutation matrix matches the pivot vector");
    } }
    let perm = mat(m, n, |i, j| at(a, piv[i], j));
    let prod = mul(&l, &u);
    same(&prod, &perm, "LU: P*A = L*U");
}
pub fn lu_full<T: Elem>(p: &[i64]) { check_lu(&sym_mat::<T>("a", p[0] as usize, p[1] as usize)); }

pub fn register(v: &mut Vec<Harness>) {
    reg!(v, "C13", lu_full, 0, 0, [1, 1], [1, 2], [2, 1], [2, 2], [1, 3], [3, 1], [2, 3], [3, 2], [3, 3], [2, 4], [4, 2], [4, 3], [3, 4], [4, 4], [5, 2]);
}
