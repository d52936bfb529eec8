//! C23 singular value decomposition, C24 rank, C25 direct decomposition.
use super::*;
use crate::elem::Elem;
use crate::reg;
use la::{Matrix, SVD};

fn diag_ok<T: Elem>(s: &Matrix<T>, m: usize, n: usize, label: &str) {
    for i in 0..m { for j in 0..n { if i != j { T::eq_(at(s, i, j), T::zero(), label); } } }
}
pub fn check_svd<T: Elem>(a: &Matrix<T>) {
    let (m, n) = (a.rows(), a.cols());
    let a0 = a.clone();
    let d = SVD::new(a);
    same(a, &a0, "SVD: the matrix is unchanged");
    let (u, s, v) = (d.get_u(), d.get_s(), d.get_v());
    if !shape(u, m, m, "SVD: U is m x m") || !shape(s, m, n, "SVD: S is m x n") || !shape(v, n, n, "SVD: V is n x n") { return; }
    diag_ok(s, m, n, "SVD: S is diagonal");
    for i in 0..m.min(n) {
        T::ok(!(at(s, i, i) < T::zero()), "SVD: singular values are non-negative");
        if i > 0 { T::ok(!(at(s, i, i) > at(s, i - 1, i - 1)), "SVD: singular values are in descending order"); }
    }
    orthogonal(u, m, "SVD: U'U = I");
    orthogonal(v, n, "SVD: V'V = I");
    // A*V = U*S, which with V orthogonal is A = U*S*V'
    let av = mul(a, v);
    let us = mat(m, n, |i, j| if j < m { at(u, i, j) * at(s, j, j) } else { T::zero() });
    same_s(&av, &us, a.get_data(), "SVD: A*V = U*S");
}
pub fn flip<T: Elem>(a: Matrix<T>, f: i64) -> Matrix<T> { if f == 1 { tr(&a) } else { a } }

/// single column (and, transposed, single row)
pub fn svd_col<T: Elem>(p: &[i64]) { check_svd(&flip(sym_mat::<T>("a", p[0] as usize, 1), p[1])); }
/// all entries symbolic
pub fn svd_full<T: Elem>(p: &[i64]) { check_svd(&sym_mat::<T>("a", p[0] as usize, p[1] as usize)); }
/// monomial pattern: entry (pm[j], j) symbolic for each column j, zeros elsewhere; columns whose bit is set are zero
pub fn monomial<T: Elem>(m: usize, n: usize, code: usize, zero: i64) -> Matrix<T> {
    let pm = super::eig::perm_of(m, code);
    let vs: Vec<T> = (0..n).map(|j| if zero >> j & 1 == 1 { T::zero() } else { T::var(&format!("d{}", j)) }).collect();
    mat(m, n, |i, j| if pm[j] == i { vs[j] } else { T::zero() })
}
pub fn svd_mono<T: Elem>(p: &[i64]) { check_svd(&flip(monomial::<T>(p[0] as usize, p[1] as usize, p[2] as usize, p[4]), p[3])); }
/// u*w' with the patterns of u and w given (99 symbolic)
pub fn svd_rank1<T: Elem>(p: &[i64]) { check_svd(&rank1_mat::<T>(p)) }
pub fn rank1_mat<T: Elem>(p: &[i64]) -> Matrix<T> {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let g = |k: usize, c: usize, nm: &str| -> Vec<T> { (0..c).map(|i| if p[k + i] == 99 { T::var(&format!("{}{}", nm, i)) } else { T::int(p[k + i]) }).collect() };
    let (u, w) = (g(2, m, "u"), g(2 + m, n, "w"));
    mat(m, n, |i, j| u[i] * w[j])
}
/// the 2x2 matrix [a b; 0 c], with rows spread over an m x 2 matrix, optionally transposed
pub fn svd_bid2<T: Elem>(p: &[i64]) {
    let (m, r0, r1) = (p[0] as usize, p[1] as usize, p[2] as usize);
    let (a, b, c) = (T::var("a"), T::var("b"), T::var("c"));
    check_svd(&flip(mat(m, 2, |i, j| if i == r0 { if j == 0 { a } else { b } } else if i == r1 && j == 1 { c } else { T::zero() }), p[3]));
}
/// every 2x2 upper bidiagonal matrix whose factors are rotations with a rational half-angle tangent x (right) and
/// y (left), so that no root in the computation is irrational; w scales
fn bid2p<T: Elem>(sg: i64) -> (T, T, T) {
    let (x, y) = (T::var("x"), T::var("y"));
    for v in [x, y].iter() { T::assume_pos(*v); T::assume_pos(T::one() - *v); }
    T::assume_pos(T::one() - x * y);
    T::assume_pos(if sg >> 3 & 1 == 1 { x - y } else { y - x });
    let w = T::one();
    let sgn = |v: T, k: i64| if sg >> k & 1 == 1 { T::zero() - v } else { v };
    let (x, y, w) = (sgn(x, 0), sgn(y, 1), sgn(w, 2));
    let two = T::int(2);
    let (ct, st) = (T::one() - x * x, two * x);
    let (cf, sf) = (T::one() - y * y, two * y);
    let (s1, s2) = (w * st * cf, w * sf * ct);
    (cf * s1 * ct + sf * s2 * st, cf * s1 * st - sf * s2 * ct, sf * s1 * st + cf * s2 * ct)
}
pub fn svd_bid2p<T: Elem>(p: &[i64]) {
    let (m, r0, r1) = (p[0] as usize, p[1] as usize, p[2] as usize);
    let (a, b, c) = bid2p::<T>(p[4]);
    check_svd(&flip(mat(m, 2, |i, j| if i == r0 { if j == 0 { a } else { b } } else if i == r1 && j == 1 { c } else { T::zero() }), p[3]));
}
/// G*[a b; 0 c] with G a rotation of symbolic angle: every 2x2 matrix up to scale; a further fixed rotation of two of
/// the m rows spreads it
pub fn gen2p<T: Elem>(p: &[i64]) -> Matrix<T> {
    let m = p[0] as usize;
    let (a, b, c) = bid2p::<T>(p[3]);
    let t = T::var("t");
    T::assume_pos(t);
    T::assume_pos(T::one() - t);
    let t = if p[3] >> 4 & 1 == 1 { T::zero() - t } else { t };
    let q = T::one() + t * t;
    let (g, h) = ((T::one() - t * t) / q, T::int(2) * t / q);
    let x = mat(m, 2, |i, j| match (i, j) { (0, 0) => g * a, (0, 1) => g * b - h * c, (1, 0) => h * a, (1, 1) => h * b + g * c, _ => T::zero() });
    let (r0, r1) = (p[1] as usize / 8, p[1] as usize % 8);
    let (c, s) = (T::q(3, 5), T::q(4, 5));
    let y = if r0 == r1 { x } else { mat(m, 2, |i, j| if i == r0 { c * at(&x, r0, j) - s * at(&x, r1, j) } else if i == r1 { s * at(&x, r0, j) + c * at(&x, r1, j) } else { at(&x, i, j) }) };
    flip(y, p[2])
}
pub fn svd_gen2p<T: Elem>(p: &[i64]) { check_svd(&gen2p::<T>(p)) }
pub fn direct_gen2p<T: Elem>(p: &[i64]) { check_direct(&gen2p::<T>(p)) }
pub fn rank_gen2p<T: Elem>(p: &[i64]) { check_rank(&gen2p::<T>(p), Some(2)) }
/// 2x2 block [a b; 0 c] plus diagonal, rows permuted and columns permuted
pub fn svd_sum<T: Elem>(p: &[i64]) { check_svd(&sum_mat::<T>(p)) }
pub fn sum_mat<T: Elem>(p: &[i64]) -> Matrix<T> {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let (rp, cp) = (super::eig::perm_of(m, p[2] as usize), super::eig::perm_of(n, p[3] as usize));
    let (a, b, c) = bid2p::<T>(p[5]);
    let d: Vec<T> = (0..n).map(|i| if i < 2 { T::zero() } else { T::var(&format!("d{}", i)) }).collect();
    let x = mat(m, n, |i, j| match (i, j) { (0, 0) => a, (0, 1) => b, (1, 1) => c, _ => if i == j { d[i] } else { T::zero() } });
    flip(mat(m, n, |i, j| at(&x, rp[i], cp[j])), p[4])
}
/// Q * diag(d) * R' with rational rotations Q, R of the first two coordinates
pub fn svd_rot<T: Elem>(p: &[i64]) {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let d: Vec<T> = (0..n).map(|i| T::var(&format!("d{}", i))).collect();
    let rot = |k: usize, c: T, s: T, a: usize, b: usize| mat(k, k, |i, j| if i == j { if i == a || i == b { c } else { T::one() } } else if i == a && j == b { T::zero() - s } else if i == b && j == a { s } else { T::zero() });
    let q = if p[2] >= 0 { rot(m, T::q(3, 5), T::q(4, 5), p[2] as usize / 8, p[2] as usize % 8) } else { id(m) };
    let r = if p[3] >= 0 { rot(n, T::q(5, 13), T::q(12, 13), p[3] as usize / 8, p[3] as usize % 8) } else { id(n) };
    let s = mat(m, n, |i, j| if i == j { d[i] } else { T::zero() });
    check_svd(&flip(mul(&mul(&q, &s), &tr(&r)), p[4]));
}

const ITER: &str = "SVD: U'U = I, V'V = I and diag(U'*A*V) = S wherever the iteration stops";
/// The iteration ended after `n` square roots, whatever is left off the diagonal: U and V are orthogonal and S is the
/// diagonal of U'*A*V. In f64, where the iteration runs to its own end, U'*A*V is diagonal as well.
pub fn check_iter<T: Elem>(a: &Matrix<T>, r: u32) {
    let (m, n) = (a.rows(), a.cols());
    T::truncate_after(r, 0, usize::MAX);
    let d = SVD::new(a);
    let (u, s, v) = (d.get_u(), d.get_s(), d.get_v());
    if !shape(u, m, m, ITER) || !shape(s, m, n, ITER) || !shape(v, n, n, ITER) { return; }
    same(&mul(&tr(u), u), &id(m), ITER);
    same(&mul(&tr(v), v), &id(n), ITER);
    let b = mul(&tr(u), &mul(a, v));
    for i in 0..m { for j in 0..n {
        if i == j { T::eqs(at(&b, i, i), at(s, i, i), a.get_data(), ITER); }
        else if !T::symbolic() { T::eqs(at(&b, i, j), T::zero(), a.get_data(), ITER); }
    } }
    if r == 0 && T::symbolic() && m >= n {
        // nothing but the reduction happened: in some order of the pairs it is bidiagonal
        let z: Vec<bool> = b.get_data().iter().map(|x| *x == T::zero()).collect();
        let mut f = 1;
        for i in 2..n + 1 { f *= i; }
        T::ok((0..f).any(|c| { let p = super::eig::perm_of(n, c); (0..m).all(|i| (0..n).all(|j| j == i || j == i + 1 || z[(if i < n { p[i] } else { i }) * n + p[j]])) }), ITER);
    }
    for i in 1..m.min(n) { T::ok(!(at(s, i, i) > at(s, i - 1, i - 1)) && !(at(s, i, i) < T::zero()), ITER); }
}
/// p = [m, n, transposed, square roots (90: no truncation), entries row by row: 99 symbolic, else the value]
pub fn iter_mat<T: Elem>(p: &[i64]) -> Matrix<T> {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let v: Vec<T> = (0..m * n).map(|k| if p[4 + k] == 99 { T::var(&format!("a{}{}", k / n, k % n)) } else { T::int(p[4 + k]) }).collect();
    flip(Matrix::new(m, n, v), p[2])
}
pub fn svd_iter<T: Elem>(p: &[i64]) {
    let a = iter_mat::<T>(p);
    if p[3] >= 90 { return check_svd(&a); }
    check_iter(&a, p[3] as u32);
}
// ------------------------------------------------------------------ C24
fn check_rank<T: Elem>(a: &Matrix<T>, truth: Option<usize>) {
    let (m, n) = (a.rows(), a.cols());
    let d = SVD::new(a);
    let r = d.rank();
    T::ok(r <= m.min(n), "rank: at most min(m,n)");
    let s = d.get_s();
    let mut big = at(s, 0, 0);
    for i in 1..m.min(n) { if at(s, i, i) > big { big = at(s, i, i); } }
    let eps = num::cast::<f64, T>(2.0f64.powi(-52)).unwrap();
    let tol = T::int(m.max(n) as i64) * eps * big;
    let mut k = 0;
    for i in 0..m.min(n) { if at(s, i, i) > tol { k += 1; } }
    T::ok(r == k, "rank: number of singular values above max(m,n)*eps*largest");
    if let Some(t) = truth { T::ok(r == t, "rank: the true rank when the small singular values are exactly zero"); }
}
/// diagonal with entries of any relative size
pub fn rank_diag<T: Elem>(p: &[i64]) { check_rank(&flip(monomial::<T>(p[0] as usize, p[1] as usize, p[2] as usize, p[4]), p[3]), None); }
pub fn rank_col<T: Elem>(p: &[i64]) {
    let a = flip(sym_mat::<T>("a", p[0] as usize, 1), p[1]);
    let mut z = true;
    for x in a.get_data().iter() { if z && *x != T::zero() { z = false; } }
    check_rank(&a, Some(if z { 0 } else { 1 }));
}
/// diagonal whose entries are zero or of magnitude 1..2
pub fn rank_true<T: Elem>(p: &[i64]) {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let a = monomial::<T>(m, n, p[2] as usize, p[4]);
    for x in a.get_data().iter() { T::assume(*x == T::zero() || (x.abs() >= T::one() && x.abs() <= T::int(2))); }
    let mut t = 0;
    for x in a.get_data().iter() { if *x != T::zero() { t += 1; } }
    check_rank(&flip(a, p[3]), Some(t));
}
/// u*w' has rank one unless zero
pub fn rank_one<T: Elem>(p: &[i64]) {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let x = T::var("x");
    let a = mat(m, n, |i, j| x * T::int(p[2 + i] * p[2 + m + j]));
    let t = if x == T::zero() { 0 } else { 1 };
    check_rank(&a, Some(t));
}

// ------------------------------------------------------------------ C25
pub fn check_direct<T: Elem>(a: &Matrix<T>) {
    let (m, n) = (a.rows(), a.cols());
    let k = m.min(n);
    let a0 = a.clone();
    let d = SVD::direct(a);
    same(a, &a0, "direct: the matrix is unchanged");
    let (u, s, v) = (d.get_u(), d.get_s(), d.get_v());
    if !shape(u, m, m, "direct: U is m x m") || !shape(s, m, n, "direct: S is m x n") || !shape(v, n, n, "direct: V is n x n") { return; }
    diag_ok(s, m, n, "direct: S is diagonal");
    for i in 0..k {
        T::ok(at(s, i, i) > T::zero(), "direct: singular values are positive");
        if i > 0 { T::ok(!(at(s, i, i) > at(s, i - 1, i - 1)), "direct: singular values are in descending order"); }
    }
    if m >= n { orthogonal(v, n, "direct: V'V = I"); } else { orthogonal(u, m, "direct: U'U = I"); }
    let usv = mul(&mul(u, s), &tr(v));
    same_s(&usv, a, a.get_data(), "direct: A = U*S*V'");
}
pub fn direct_col<T: Elem>(p: &[i64]) {
    let a = flip(sym_mat::<T>("a", p[0] as usize, 1), p[1]);
    let mut z = true;
    for x in a.get_data().iter() { if z && *x != T::zero() { z = false; } }
    T::assume(!z);
    check_direct(&a);
}
pub fn direct_mono<T: Elem>(p: &[i64]) {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let pm = super::eig::perm_of(m, p[2] as usize);
    let vs: Vec<T> = (0..n).map(|j| { let x = T::var(&format!("d{}", j)); T::assume_nz(x); x }).collect();
    check_direct(&flip(mat(m, n, |i, j| if pm[j] == i { vs[j] } else { T::zero() }), p[3]));
}
/// [a b; 0 c] spread over m rows, full rank
pub fn direct_bid2<T: Elem>(p: &[i64]) {
    let (m, r0, r1) = (p[0] as usize, p[1] as usize, p[2] as usize);
    let (a, b, c) = (T::var("a"), T::var("b"), T::var("c"));
    T::assume_nz(a); T::assume_nz(c);
    check_direct(&flip(mat(m, 2, |i, j| if i == r0 { if j == 0 { a } else { b } } else if i == r1 && j == 1 { c } else { T::zero() }), p[3]));
}
const DIRECT: &str = "direct: A = U*S*V', V'V = I and unit columns of U wherever the iteration stops";
/// as check_iter, for SVD::direct: p = [m, n, transposed, square roots, entries row by row]
pub fn direct_iter<T: Elem>(p: &[i64]) {
    let a = iter_mat::<T>(p);
    if !T::symbolic() { check_direct(&a); T::relabel(DIRECT); return; }
    T::truncate_after(p[3] as u32, 0, usize::MAX);
    let (m, n) = (a.rows(), a.cols());
    let d = SVD::direct(&a);
    let (mut u, mut s, mut v) = (d.get_u().clone(), d.get_s().clone(), d.get_v().clone());
    if !shape(&u, m, m, DIRECT) || !shape(&s, m, n, DIRECT) || !shape(&v, n, n, DIRECT) { return; }
    same(&mul(&mul(&u, &s), &tr(&v)), &a, DIRECT);
    if m < n { std::mem::swap(&mut u, &mut v); s = tr(&s); }
    same(&mul(&tr(&v), &v), &id(v.cols()), DIRECT);
    for i in 0..m.min(n) {
        let mut t = T::zero();
        for k in 0..u.rows() { t = t + at(&u, k, i) * at(&u, k, i); }
        T::eq_(t, T::one(), DIRECT);
        T::ok(at(&s, i, i) > T::zero(), DIRECT);
        if i > 0 { T::ok(!(at(&s, i, i) > at(&s, i - 1, i - 1)), DIRECT); }
    }
    diag_ok(&s, s.rows(), s.cols(), DIRECT);
}
pub fn register(v: &mut Vec<Harness>) {
    reg!(v, "C23", svd_col, 0, 0, [1, 0], [2, 0], [3, 0], [2, 1], [3, 1], [4, 0]);
    reg!(v, "C23", svd_mono, 0, 0, [2, 2, 0, 0, 0], [2, 2, 1, 0, 0], [3, 2, 0, 0, 0], [3, 2, 4, 0, 0], [3, 2, 2, 1, 0], [3, 3, 0, 0, 0], [3, 3, 4, 0, 0], [3, 3, 3, 0, 2], [4, 2, 11, 1, 0], [4, 3, 7, 0, 0], [3, 2, 0, 0, 3]);
    reg!(v, "C23", svd_rank1, 0, 0, [2, 2, 99, 99, 99, 99], [3, 2, 3, 4, 99, 99, 4], [2, 3, 99, 1, 3, 4, 99]);
    reg!(v, "C23", svd_bid2, 1, 0, [2, 0, 1, 0], [2, 1, 0, 0], [3, 0, 2, 0], [3, 2, 1, 0], [3, 1, 2, 1], [2, 0, 1, 1]);
    reg!(v, "C23", svd_bid2p, 0, 0, [2, 0, 1, 0, 0], [2, 0, 1, 0, 9], [2, 1, 0, 0, 2], [3, 0, 2, 0, 11], [3, 2, 1, 0, 4], [3, 1, 2, 1, 13], [2, 0, 1, 1, 6], [2, 0, 1, 0, 15]);
    reg!(v, "C23", svd_gen2p, 0, 0, [2, 0, 0, 0], [2, 0, 0, 9], [2, 0, 0, 18], [3, 10, 0, 11], [3, 2, 1, 20], [3, 10, 1, 29]);
    reg!(v, "C23", svd_sum, 0, 0, [3, 3, 0, 0, 0, 0]);
    reg!(v, "C23", svd_sum, 1, 0, [3, 3, 2, 4, 0, 9], [4, 3, 5, 1, 1, 3]);
    reg!(v, "C23", svd_full, 1, 0, [2, 2]);
    reg!(v, "C23", svd_rot, 0, 0, [2, 2, 1, -1, 0], [3, 2, 1, -1, 0]);
    reg!(v, "C23", svd_rot, 1, 0, [3, 2, 10, 1, 0]);
    reg!(v, "C23", svd_iter, 0, BRISK, [3, 3, 0, 1, 99, 1, 0, 0, 3, 1, 0, 0, 2], [3, 3, 0, 2, 5, 99, 0, 0, 3, 1, 0, 0, 2], [3, 3, 0, 1, 5, 1, 0, 0, 3, 99, 0, 0, 2], [4, 3, 0, 1, 5, 1, 0, 0, 3, 1, 0, 0, 2, 0, 0, 99], [3, 3, 1, 1, 5, 99, 0, 0, 3, 1, 0, 0, 2], [4, 4, 0, 1, 5, 99, 0, 0, 0, 3, 1, 0, 0, 0, 2, 1, 0, 0, 0, 7]);
    reg!(v, "C23", svd_iter, 1, BRISK, [4, 3, 0, 1, 99, 1, 0, 0, 3, 1, 0, 0, 2, 0, 0, 0], [4, 3, 0, 1, 5, 1, 0, 0, 3, 99, 0, 0, 0, 0, 0, 2]);
    // zero singular values on the way: splitting and deflation
    reg!(v, "C23", svd_iter, 0, BRISK, [3, 3, 0, 90, 99, 99, 0, 0, 0, 99, 0, 0, 99], [3, 3, 0, 1, 0, 99, 0, 0, 3, 1, 0, 0, 2], [3, 3, 0, 2, 5, 99, 0, 0, 3, 1, 0, 0, 0], [4, 4, 0, 2, 5, 3, 0, 0, 0, 0, 99, 0, 0, 0, 2, 1, 0, 0, 0, 7]);
    reg!(v, "C23", svd_iter, 1, BRISK, [3, 3, 0, 90, 99, 3, 0, 0, 0, 99, 0, 0, 2]);
    // the reduction to bidiagonal form
    reg!(v, "C23", svd_iter, 0, BRISK, [3, 2, 0, 0, 3, 99, 4, 1, 12, 2], [3, 3, 0, 0, 3, 3, 4, 4, 1, 2, 12, 2, 99], [3, 3, 0, 0, 3, 3, 4, 4, 99, 2, 12, 2, 1], [3, 3, 0, 0, 3, 99, 4, 4, 1, 2, 12, 2, 1], [4, 3, 0, 0, 1, 2, 1, 1, 0, 3, 1, 2, 99, 1, 1, 2]);
    reg!(v, "C23", svd_iter, 1, BRISK, [4, 4, 0, 0, 1, 2, 1, 1, 1, 0, 3, 1, 1, 2, 99, 1, 1, 1, 2, 5]);
    reg!(v, "C24", rank_col, 0, CONCRETE_EPS, [1, 0], [2, 0], [3, 0], [2, 1], [3, 1]);
    reg!(v, "C24", rank_diag, 0, CONCRETE_EPS, [2, 2, 0, 0, 0], [3, 2, 0, 0, 0], [3, 2, 0, 1, 0], [3, 3, 0, 0, 0], [4, 2, 0, 0, 0], [4, 2, 0, 1, 0]);
    reg!(v, "C24", rank_true, 0, CONCRETE_EPS, [2, 2, 1, 0, 0], [3, 2, 4, 0, 0], [3, 2, 0, 1, 0], [3, 3, 3, 0, 0]);
    reg!(v, "C24", rank_one, 0, CONCRETE_EPS, [2, 2, 3, 4, 4, 3], [3, 2, 3, 4, 0, 4, 3], [2, 3, 4, 3, 3, 4, 0]);
    reg!(v, "C24", rank_gen2p, 0, 0, [2, 0, 0, 0], [3, 10, 0, 11], [3, 2, 1, 20]);
    reg!(v, "C25", direct_gen2p, 0, 0, [2, 0, 0, 0], [2, 0, 0, 9], [2, 0, 0, 18], [3, 10, 0, 11], [3, 2, 1, 20]);
    reg!(v, "C25", direct_col, 0, 0, [1, 0], [2, 0], [3, 0], [2, 1], [3, 1]);
    reg!(v, "C25", direct_mono, 0, 0, [2, 2, 0, 0], [2, 2, 1, 0], [3, 2, 4, 0], [3, 2, 2, 1], [3, 3, 3, 0]);
    reg!(v, "C25", direct_iter, 0, BRISK, [2, 2, 0, 1, 1, 2, 99, 1], [2, 3, 0, 0, 1, 2, 99, 1, 2, 5], [3, 2, 0, 0, 1, 2, 99, 1, 2, 5], [3, 3, 0, 0, 1, 2, 99, 0, 3, 1, 0, 0, 2], [3, 3, 0, 1, 1, 0, 0, 0, 3, 1, 0, 0, 99], [4, 3, 0, 0, 1, 2, 99, 0, 3, 1, 0, 0, 2, 1, 1, 1], [3, 4, 0, 0, 1, 2, 99, 0, 0, 3, 1, 0, 2, 2, 1, 1]);
    reg!(v, "C25", direct_bid2, 0, 0, [2, 0, 1, 0], [3, 2, 0, 0], [3, 1, 2, 1]);
}
