//! Larger sizes: matrices built from known factors (integer and rational constants from a small generator) with a few
//! symbolic entries, so that the number of paths stays small.
use super::*;
use crate::elem::Elem;
use crate::reg;
use la::{CholeskyDecomposition, LUDecomposition, Matrix, QRDecomposition, SVD};

pub struct Gen(u64);
impl Gen {
    pub fn new(s: i64) -> Gen { Gen(s as u64 * 7919 + 12345) }
    /// lo..=hi
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        lo + ((self.0 >> 33) % (hi - lo + 1) as u64) as i64
    }
    pub fn nz(&mut self, b: i64) -> i64 { loop { let x = self.int(-b, b); if x != 0 { return x; } } }
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut p: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() { let j = self.int(0, i as i64) as usize; p.swap(i, j); }
        p
    }
}
/// a rational orthogonal matrix: product of two reflections along integer vectors
pub fn ortho<T: Elem>(g: &mut Gen, n: usize) -> Matrix<T> {
    let mut q = id::<T>(n);
    for _ in 0..2 {
        let v: Vec<i64> = (0..n).map(|i| if i == 0 { g.nz(2) } else { g.int(-2, 2) }).collect();
        let s: i64 = v.iter().map(|x| x * x).sum();
        q = mul(&q, &mat(n, n, |i, j| T::q(if i == j { s } else { 0 } - 2 * v[i] * v[j], s)));
    }
    q
}
/// an m x n upper trapezoidal matrix with non-zero diagonal; `k` symbols: the first on the diagonal, the rest above it
fn upper<T: Elem>(g: &mut Gen, m: usize, n: usize, k: usize, pos: bool) -> Matrix<T> {
    let d = m.min(n);
    let dk = g.int(0, d as i64 - 1) as usize;
    let mut c: Vec<Vec<T>> = (0..m).map(|i| (0..n).map(|j| if i > j { T::zero() } else if i == j { let x = g.nz(3); T::int(if pos { x.abs() } else { x }) } else { T::int(g.int(-3, 3)) }).collect()).collect();
    for s in 0..k {
        if s == 0 {
            let x = T::var("d");
            if pos { T::assume_pos(x); } else { T::assume_nz(x); }
            c[dk][dk] = x;
        } else if n > 1 {
            let i = g.int(0, (d as i64 - 1).min(n as i64 - 2)) as usize;
            let j = g.int(i as i64 + 1, n as i64 - 1) as usize;
            c[i][j] = T::var(&format!("u{}", s));
        }
    }
    mat(m, n, |i, j| c[i][j])
}
/// (P, L*U) with L unit lower trapezoidal, entries below one; rows permuted by P
pub fn plu<T: Elem>(p: &[i64]) -> (Vec<usize>, Matrix<T>, Matrix<T>, Matrix<T>) {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let k = m.min(n);
    let mut g = Gen::new(p[2]);
    let lc: Vec<T> = (0..m * k).map(|_| T::q(g.int(-3, 3), 4)).collect();
    let l = mat(m, k, |i, j| if i == j { T::one() } else if i > j { lc[i * k + j] } else { T::zero() });
    let u = upper::<T>(&mut g, k, n, p[3] as usize, false);
    let pm = g.perm(m);
    let lu = mul(&l, &u);
    let a = mat(m, n, |i, j| at(&lu, pm[i], j));
    (pm, a, l, u)
}
/// p = [m, n, seed, symbols]
pub fn lu_big<T: Elem>(p: &[i64]) {
    let (pm, a, l, u) = plu::<T>(p);
    super::lu::check_lu(&a);
    let d = LUDecomposition::new(&a);
    let piv = d.get_piv();
    let k = a.rows().min(a.cols());
    // rows below the pivots come in no particular order
    T::ok(piv.len() == pm.len() && (0..k).all(|i| pm[piv[i]] == i), "LU: the pivot is the entry of largest magnitude");
    same(&d.get_u(), &u, "LU: the factors of a product with small L");
    if piv.len() == pm.len() { same(&d.get_l(), &mat(a.rows(), k, |i, j| at(&l, pm[piv[i]], j)), "LU: the factors of a product with small L"); }
}
fn sign(p: &[usize]) -> bool { let mut s = false; for i in 0..p.len() { for j in 0..i { if p[j] > p[i] { s = !s; } } } s }
pub fn det_big<T: Elem>(p: &[i64]) {
    let (pm, a, _, u) = plu::<T>(p);
    let mut w = if sign(&pm) { T::zero() - T::one() } else { T::one() };
    for i in 0..a.rows() { w = w * at(&u, i, i); }
    T::eq_(a.det(), w, "det: signed product of the pivots");
    T::eq_(LUDecomposition::new(&a).det(), w, "LU det: signed product of the pivots");
    T::ok(a.is_non_singular() && !a.is_singular(), "is_singular: true exactly when the determinant is zero");
    // one pivot zero (rank n-1)
    let n = a.rows();
    let z = Gen::new(p[2] + 1).int(0, n as i64 - 1) as usize;
    let s = mat(n, n, |i, j| if j == z { if z == 0 { T::zero() } else { at(&a, i, 0) } } else { at(&a, i, j) });
    T::eq_(s.det(), T::zero(), "det: zero for dependent columns");
    T::ok(s.is_singular() && !s.is_non_singular(), "is_singular: true exactly when the determinant is zero");
    if z != 0 { T::ok(s.inverse().is_none(), "inverse: None for a singular matrix"); }
}
/// p = [n, n, seed, symbols, right-hand sides]
pub fn solve_big<T: Elem>(p: &[i64]) {
    let (_, a, _, _) = plu::<T>(p);
    let (n, nx) = (a.rows(), p[4] as usize);
    let mut g = Gen::new(p[2] + 2);
    let c: Vec<T> = (0..n * nx).map(|k| if k % n == k / n { T::var(&format!("b{}", k)) } else { T::int(g.int(-4, 4)) }).collect();
    let b = mat(n, nx, |i, j| c[i * nx + j]);
    let lu = LUDecomposition::new(&a);
    for (x, who) in [(a.solve(&b), "solve"), (lu.solve(&b), "LU solve")] {
        match x {
            None => T::ok(false, &format!("{}: None only for a singular matrix", who)),
            Some(x) => if shape(&x, n, nx, &format!("{}: X has the shape of B", who)) { same(&mul(&a, &x), &b, &format!("{}: A*X = B", who)); },
        }
    }
    match a.inverse() {
        None => T::ok(false, "inverse: None only for a singular matrix"),
        Some(x) => if shape(&x, n, n, "inverse: n x n") {
            same(&mul(&a, &x), &id(n), "inverse: A*X = I");
            same(&mul(&x, &a), &id(n), "inverse: X*A = I");
        }
    }
}
/// constants but for one symbol: p = [m, n, seed, position of the symbol]
pub fn one_sym<T: Elem>(p: &[i64]) -> Matrix<T> {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let mut g = Gen::new(p[2]);
    let c: Vec<T> = (0..m * n).map(|k| { let x = g.int(-4, 4); if k == p[3] as usize { T::var("x") } else { T::int(x) } }).collect();
    mat(m, n, |i, j| c[i * n + j])
}
pub fn lu_one<T: Elem>(p: &[i64]) { super::lu::check_lu(&one_sym::<T>(p)); }
pub fn det_one<T: Elem>(p: &[i64]) { super::solve::check_det(&one_sym::<T>(p)); }
pub fn solve_one<T: Elem>(p: &[i64]) {
    let a = one_sym::<T>(p);
    let mut g = Gen::new(p[2] + 3);
    let c: Vec<T> = (0..a.rows() * 2).map(|_| T::int(g.int(-4, 4))).collect();
    super::solve::check_solve(&a, &mat(a.rows(), 2, |i, j| c[i * 2 + j]));
}
/// Q*R with Q rational: p = [m, n, seed, symbols]
pub fn qr_mat<T: Elem>(p: &[i64]) -> Matrix<T> {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let mut g = Gen::new(p[2]);
    let q = ortho::<T>(&mut g, m);
    let r = upper::<T>(&mut g, m, n, p[3] as usize, false);
    mul(&q, &r)
}
pub fn qr_big<T: Elem>(p: &[i64]) { super::qr::check_qr(&qr_mat::<T>(p)); }
/// p = [m, n, seed, symbols, right-hand sides]
pub fn qr_solve_big<T: Elem>(p: &[i64]) {
    let a = qr_mat::<T>(p);
    let mut g = Gen::new(p[2] + 2);
    let (m, nx) = (a.rows(), p[4] as usize);
    let c: Vec<T> = (0..m * nx).map(|k| if k == m / 2 { T::var("b") } else { T::int(g.int(-4, 4)) }).collect();
    super::qr::check_qr_solve(&a, &mat(m, nx, |i, j| c[i * nx + j]));
}
/// dependent columns: one column of R repeats another
pub fn qr_rank_big<T: Elem>(p: &[i64]) {
    let a = qr_mat::<T>(p);
    let (m, n) = (a.rows(), a.cols());
    let mut g = Gen::new(p[2] + 1);
    let z = g.int(1, n as i64 - 1) as usize;
    let y = g.int(0, z as i64 - 1) as usize;
    let f = T::int(g.nz(2));
    let s = mat(m, n, |i, j| if j == z { f * at(&a, i, y) } else { at(&a, i, j) });
    let d = QRDecomposition::new(&s);
    T::ok(!d.is_full_rank(), "QR: is_full_rank is true exactly for full column rank");
    T::ok(d.solve(&mat(m, 1, |i, _| T::int(i as i64))).is_none(), "QR: solve returns None only without full column rank");
}
pub fn pinv_big<T: Elem>(p: &[i64]) {
    let a = qr_mat::<T>(p);
    let (m, n) = (a.rows(), a.cols());
    let x = a.pinverse();
    if !shape(&x, n, m, "pinverse: n x m") { return; }
    same(&mul(&x, &a), &id(n), "pinverse: X*A = I");
    let ax = mul(&a, &x);
    same(&ax, &tr(&ax), "pinverse: A*X is symmetric");
    same(&mul(&x, &ax), &x, "pinverse: X*A*X = X");
}
/// A = L0*L0': p = [n, seed, symbols, right-hand sides]
pub fn chol_l<T: Elem>(p: &[i64]) -> Matrix<T> { tr(&upper::<T>(&mut Gen::new(p[1]), p[0] as usize, p[0] as usize, p[2] as usize, true)) }
pub fn chol_big<T: Elem>(p: &[i64]) {
    let (n, nx) = (p[0] as usize, p[3] as usize);
    let l0 = chol_l::<T>(p);
    let a = mul(&l0, &tr(&l0));
    match CholeskyDecomposition::new(&a) {
        None => T::ok(false, "Cholesky: None only when not symmetric positive definite"),
        Some(c) => {
            same(c.get_l(), &l0, "Cholesky: the factor with positive diagonal");
            if nx > 0 {
                let b = mat(n, nx, |i, j| if i == j { T::var(&format!("b{}", i)) } else { T::int((i * 3 + j) as i64 % 5 - 2) });
                let x = c.solve(&b);
                if !shape(&x, n, nx, "Cholesky solve: X has the shape of B") { return; }
                same(&mul(&a, &x), &b, "Cholesky solve: A*X = B");
            }
        }
    }
}
/// not positive definite from the k-th leading minor on, or not symmetric in one pair: p = [n, seed, symbols]
pub fn chol_none_big<T: Elem>(p: &[i64]) {
    let n = p[0] as usize;
    let l0 = chol_l::<T>(p);
    let a = mul(&l0, &tr(&l0));
    let x = T::var("x");
    T::assume_nz(x);
    for i in 0..n { for j in 0..n { if i != j && (i + j + p[1] as usize) % 3 == 0 {
        let s = mat(n, n, |r, c| if r == i && c == j { at(&a, r, c) + x } else { at(&a, r, c) });
        T::ok(CholeskyDecomposition::new(&s).is_none(), "Cholesky: None when a mirrored pair differs");
    } } }
    for k in 0..n {
        // the pivot l_kk^2 becomes -x^2 (or zero)
        let v = at(&l0, k, k);
        for d in [v * v, v * v + x * x].iter() {
            let s = mat(n, n, |r, c| if r == k && c == k { at(&a, r, c) - *d } else { at(&a, r, c) });
            T::ok(CholeskyDecomposition::new(&s).is_none(), "Cholesky: None when a leading minor is not positive");
        }
    }
}
/// Q*diag(d) with one symbolic d: p = [m, n, seed, transposed]; zeros among d when seed is odd
pub fn qd_mat<T: Elem>(p: &[i64]) -> (Matrix<T>, Vec<T>) {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let mut g = Gen::new(p[2]);
    let q = ortho::<T>(&mut g, m);
    let k = g.int(0, n as i64 - 1) as usize;
    let d: Vec<T> = (0..n).map(|i| { let c = if p[2] % 2 == 1 { g.int(-2, 2) } else { g.nz(5) }; if i == k { T::var("d") } else { T::int(c) } }).collect();
    let dd = d.clone();
    (super::svd::flip(mat(m, n, |i, j| at(&q, i, j) * d[j]), p[3]), dd)
}
pub fn svd_big<T: Elem>(p: &[i64]) { super::svd::check_svd(&qd_mat::<T>(p).0); }
/// p[4] = 1: no symbol is negligible
pub fn rank_big<T: Elem>(p: &[i64]) {
    let (a, d) = qd_mat::<T>(p);
    for x in d.iter() { T::assume(*x == T::zero() || (x.abs() >= T::q(1, 8) && x.abs() <= T::int(16))); }
    let mut t = 0;
    for x in d.iter() { if *x != T::zero() { t += 1; } }
    T::ok(SVD::new(&a).rank() == t, "rank: the true rank when the small singular values are exactly zero");
}
pub fn direct_big<T: Elem>(p: &[i64]) {
    let (a, d) = qd_mat::<T>(p);
    for x in d.iter() { T::assume_nz(*x); }
    super::svd::check_direct(&a);
}
/// a permuted block diagonal matrix of 1x1 and symmetric 2x2 blocks with rational eigenvalues, plus x*I on one block;
/// p = [n, seed]
pub fn eig_mat<T: Elem>(p: &[i64]) -> Matrix<T> {
    let n = p[0] as usize;
    let mut g = Gen::new(p[1]);
    let pm = g.perm(n);
    let mut c = vec![vec![T::zero(); n]; n];
    let x = T::var("x");
    let mut i = 0;
    let at_sym = g.int(0, n as i64 - 2) as usize;
    let mut used = false;
    while i < n {
        let two = i + 1 < n && g.int(0, 1) == 1;
        let sh = if !used && (i >= at_sym || i + 2 >= n) { used = true; x } else { T::int(g.int(-6, 6)) };
        if two {
            let b = [(1, 2, 4), (3, 2, 0), (2, 2, -1), (0, 3, 8)][g.int(0, 3) as usize];
            c[i][i] = T::int(b.0) + sh; c[i][i + 1] = T::int(b.1); c[i + 1][i] = T::int(b.1); c[i + 1][i + 1] = T::int(b.2) + sh;
            i += 2;
        } else { c[i][i] = sh; i += 1; }
    }
    mat(n, n, |i, j| c[pm[i]][pm[j]])
}
pub fn eig_big<T: Elem>(p: &[i64]) { super::eig::check_sym(&eig_mat::<T>(p)); }
/// upper quasi-triangular, constants but for one symbol above the diagonal or one diagonal entry:
/// p = [n, seed, row, column]
pub fn gen_mat<T: Elem>(p: &[i64]) -> Matrix<T> {
    let n = p[0] as usize;
    let mut g = Gen::new(p[1]);
    let mut c = vec![vec![T::zero(); n]; n];
    for i in 0..n { for j in i..n { c[i][j] = T::int(if i == j { 2 * i as i64 - 5 } else { g.int(-3, 3) }); } }
    let k = g.int(0, n as i64 - 2) as usize;
    if p[1] % 2 == 1 { c[k + 1][k + 1] = c[k][k]; c[k][k + 1] = T::int(2); c[k + 1][k] = T::int(-2); }
    c[p[2] as usize][p[3] as usize] = T::var("x");
    mat(n, n, |i, j| c[i][j])
}
pub fn gen_big<T: Elem>(p: &[i64]) { super::eig::check_gen(&gen_mat::<T>(p)); }
pub fn register(v: &mut Vec<Harness>) {
    reg!(v, "C13", lu_big, 0, 0, [5, 5, 1, 2], [6, 6, 2, 2], [7, 7, 3, 1], [8, 8, 4, 1], [9, 9, 5, 1], [12, 12, 6, 1], [7, 4, 7, 2], [4, 7, 8, 2], [9, 2, 9, 2], [2, 9, 10, 2], [17, 3, 11, 1], [3, 17, 12, 1]);
    reg!(v, "C13", lu_one, 0, 0, [5, 5, 1, 0], [5, 5, 2, 7], [5, 5, 3, 24], [6, 6, 4, 14], [6, 4, 5, 9], [4, 6, 6, 10], [7, 7, 7, 30]);
    reg!(v, "C14", det_big, 0, 0, [5, 5, 1, 2], [6, 6, 2, 2], [7, 7, 3, 1], [8, 8, 4, 1], [9, 9, 5, 1], [12, 12, 6, 1]);
    reg!(v, "C14", det_one, 0, 0, [5, 5, 1, 0], [5, 5, 2, 7], [5, 5, 3, 24], [6, 6, 4, 14]);
    reg!(v, "C15", solve_big, 0, 0, [5, 5, 1, 2, 2], [6, 6, 2, 2, 1], [7, 7, 3, 1, 3], [8, 8, 4, 1, 9], [9, 9, 5, 1, 1], [5, 5, 6, 1, 12]);
    reg!(v, "C15", solve_one, 0, 0, [4, 4, 1, 5], [5, 5, 2, 7], [5, 5, 3, 24]);
    reg!(v, "C16", qr_big, 0, 0, [4, 4, 1, 2], [5, 5, 2, 2], [6, 6, 3, 1], [7, 7, 4, 1], [5, 3, 5, 2], [3, 5, 6, 2], [8, 2, 7, 2], [2, 8, 8, 2], [6, 4, 9, 1], [4, 7, 10, 1]);
    reg!(v, "C17", qr_solve_big, 0, 0, [4, 4, 1, 2, 1], [5, 5, 2, 1, 2], [5, 3, 5, 2, 1], [7, 2, 6, 2, 3], [6, 4, 7, 1, 2], [8, 5, 8, 1, 1]);
    reg!(v, "C17", qr_rank_big, 0, 0, [4, 4, 1, 1], [5, 5, 2, 1], [5, 3, 3, 1], [7, 4, 4, 1], [6, 6, 5, 1]);
    reg!(v, "C18", pinv_big, 0, 0, [4, 4, 1, 2], [5, 3, 2, 2], [7, 2, 3, 2], [6, 4, 4, 1], [5, 5, 5, 1], [8, 5, 6, 1]);
    reg!(v, "C19", chol_big, 0, 0, [5, 1, 2, 0], [6, 2, 2, 0], [8, 3, 1, 0], [12, 4, 1, 0]);
    reg!(v, "C19", chol_none_big, 0, 0, [4, 1, 1], [5, 2, 1], [6, 3, 1], [8, 4, 0]);
    reg!(v, "C20", chol_big, 0, 0, [5, 5, 2, 2], [6, 6, 2, 1], [7, 7, 1, 3], [8, 8, 1, 9], [5, 9, 1, 7], [12, 10, 1, 1]);
    reg!(v, "C21", eig_big, 0, 0, [4, 2], [5, 8], [6, 9], [7, 6], [8, 10], [8, 13]);
    reg!(v, "C21", eig_big, 1, 0, [4, 1], [5, 11], [5, 14], [6, 12]);
    reg!(v, "C22", gen_big, 0, 0, [5, 2, 0, 4], [6, 1, 1, 3], [6, 4, 2, 2], [7, 3, 0, 6], [8, 6, 3, 5]);
    reg!(v, "C23", svd_big, 0, 0, [5, 4, 3, 1], [6, 3, 4, 1], [6, 6, 8, 0], [5, 5, 12, 0], [7, 2, 8, 0], [7, 5, 7, 0]);
    reg!(v, "C23", svd_big, 1, 0, [5, 4, 2, 0], [4, 3, 15, 1]);
    reg!(v, "C24", rank_big, 0, CONCRETE_EPS, [4, 3, 1, 0], [5, 4, 2, 0], [5, 4, 3, 1], [6, 3, 4, 1], [5, 5, 9, 0]);
    reg!(v, "C24", rank_big, 1, CONCRETE_EPS, [7, 2, 8, 0]);
    reg!(v, "C25", direct_big, 0, 0, [4, 3, 0, 0], [5, 4, 2, 0], [5, 3, 4, 1], [6, 5, 6, 0]);
}
