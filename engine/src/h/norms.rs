//! C11 norms and trace, C12 approximate equality and the shape predicates.
use super::*;
use crate::elem::{panics, Elem};
use crate::reg;
use la::Matrix;

fn ab<T: Elem>(x: T) -> T { if x < T::zero() { T::zero() - x } else { x } }

/// one symbolic entry among constants: p = [n, seed]
pub fn vec_one<T: Elem>(p: &[i64]) {
    let n = p[0] as usize;
    let mut g = super::large::Gen::new(p[1]);
    let k = g.int(0, n as i64 - 1) as usize;
    let x = T::var("x");
    let d: Vec<T> = (0..n).map(|i| { let c = T::q(g.int(-9, 9), 2); if i == k { x } else { c } }).collect();
    check_norms(&mat(n, 1, |i, _| d[i]));
}
pub fn vec_norms<T: Elem>(p: &[i64]) {
    check_norms(&sym_mat::<T>("a", p[0] as usize, 1));
}
fn check_norms<T: Elem>(a: &Matrix<T>) {
    let n = a.rows();
    let d = a.get_data().clone();
    let mut s1 = T::zero();
    let mut s2 = T::zero();
    for x in d.iter() { s1 = s1 + ab(*x); s2 = s2 + *x * *x; }
    T::eq_(a.vector_1_norm(), s1, "1-norm: sum of magnitudes");
    for (r, who) in [(a.vector_2_norm(), "2-norm"), (a.vector_euclidean_norm(), "euclidean norm"), (a.length(), "length"), (a.frobenius_norm(), "Frobenius norm")] {
        T::ok(r >= T::zero(), &format!("{}: non-negative", who));
        T::eq_(r * r, s2, &format!("{}: root of the sum of squares", who));
    }
    let mx = a.vector_inf_norm();
    let mut hit = false;
    for x in d.iter() { T::ok(!(ab(*x) > mx), "inf-norm: at least every magnitude"); if ab(*x) == mx { hit = true; } }
    T::ok(hit, "inf-norm: one of the magnitudes");
    same(a, &mat(n, 1, |i, _| d[i]), "norms leave the vector alone");
}
/// p = 0 in the parameters stands for a symbolic exponent; powers that are not small integers or
/// square roots are an uninterpreted function of (base, exponent), the same in code and oracle
pub fn vec_pnorm<T: Elem>(p: &[i64]) {
    let (n, pp) = (p[0] as usize, p[1]);
    let a = sym_mat::<T>("a", n, 1);
    let e = if pp == 0 { let e = T::var("p"); T::assume_pos(e - T::one()); e } else { T::int(pp) };
    let r = a.vector_p_norm(e);
    let mut s = T::zero();
    for i in 0..n { s = s + ab(at(&a, i, 0)).powf(e); }
    let w = s.powf(T::one() / e);
    T::eqs(r, w, &[w], "p-norm: p-th root of the sum of p-th powers of magnitudes");
}
pub fn frob_trace<T: Elem>(p: &[i64]) {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let a = sym_mat::<T>("a", m, n);
    let mut s = T::zero();
    for x in a.get_data().iter() { s = s + *x * *x; }
    let f = a.frobenius_norm();
    T::ok(f >= T::zero(), "Frobenius norm: non-negative");
    T::eq_(f * f, s, "Frobenius norm: root of the sum of squares");
    let mut t = T::zero();
    for i in 0..m.min(n) { t = t + at(&a, i, i); }
    T::eq_(a.trace(), t, "trace: sum of the main diagonal");
}
pub fn norm_reject<T: Elem>(p: &[i64]) {
    let a = sym_mat::<T>("a", p[0] as usize, p[1] as usize);
    panics::<T, _>("1-norm: more than one column is rejected", || a.vector_1_norm());
    panics::<T, _>("2-norm: more than one column is rejected", || a.vector_2_norm());
    panics::<T, _>("euclidean norm: more than one column is rejected", || a.vector_euclidean_norm());
    panics::<T, _>("length: more than one column is rejected", || a.length());
    panics::<T, _>("p-norm: more than one column is rejected", || a.vector_p_norm(T::int(2)));
    panics::<T, _>("inf-norm: more than one column is rejected", || a.vector_inf_norm());
}

// ------------------------------------------------------------------ C12
fn near<T: Elem>(x: T, y: T) -> bool { let e = T::approx_epsilon(); let d = x - y; d < e && T::zero() - d < e }
pub fn approx_mat<T: Elem>(p: &[i64]) {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let a = sym_mat::<T>("a", m, n);
    let b = sym_mat::<T>("b", m, n);
    let r = a.approx_eq(&b);
    let e = a == b;
    let ne = a != b;
    let (mut w, mut we) = (true, true);
    for i in 0..m { for j in 0..n {
        if w && !near(at(&a, i, j), at(&b, i, j)) { w = false; }
        if we && at(&a, i, j) != at(&b, i, j) { we = false; }
    } }
    T::ok(r == w, "approx_eq: true exactly when every pair of elements is approximately equal");
    T::ok(b.approx_eq(&a) == w, "approx_eq: symmetric in the operands");
    T::ok(e == we, "==: true exactly when all elements are equal");
    T::ok(ne == !we, "!=: complement of ==");
}
/// the operands differ in one element: p = [m, n, its position]
pub fn approx_one<T: Elem>(p: &[i64]) {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let x = T::var("x");
    let y = T::var("y");
    let a = mat(m, n, |i, j| if i * n + j == p[2] as usize { x } else { T::q((i * 7 + j) as i64 % 11 - 5, 2) });
    let b = mat(m, n, |i, j| if i * n + j == p[2] as usize { y } else { at(&a, i, j) });
    let w = near(x, y);
    let we = x == y;
    T::ok(a.approx_eq(&b) == w, "approx_eq: true exactly when every pair of elements is approximately equal");
    T::ok(b.approx_eq(&a) == w, "approx_eq: symmetric in the operands");
    T::ok((a == b) == we, "==: true exactly when all elements are equal");
    T::ok((a != b) == !we, "!=: complement of ==");
}
pub fn approx_shape<T: Elem>(p: &[i64]) {
    let a = sym_mat::<T>("a", p[0] as usize, p[1] as usize);
    // same leading elements, other shape
    let d: Vec<T> = (0..(p[2] * p[3]) as usize).map(|k| a.get_data()[k % a.get_data().len()]).collect();
    let b = Matrix::new(p[2] as usize, p[3] as usize, d);
    T::ok(!a.approx_eq(&b), "approx_eq: false for different shapes");
    T::ok(!b.approx_eq(&a), "approx_eq: false for different shapes");
    T::ok(!(a == b), "==: false for different shapes");
    T::ok(a != b, "!=: true for different shapes");
}
pub fn symmetric<T: Elem>(p: &[i64]) {
    let n = p[0] as usize;
    let a = sym_mat::<T>("a", n, n);
    let r = a.is_symmetric();
    let rn = a.is_non_symmetric();
    let mut w = true;
    for i in 0..n { for j in 0..i { if w && !near(at(&a, i, j), at(&a, j, i)) { w = false; } } }
    T::ok(r == w, "is_symmetric: true exactly when every mirrored pair is approximately equal");
    T::ok(rn == !w, "is_non_symmetric: complement of is_symmetric");
}
pub fn shape_preds<T: Elem>(p: &[i64]) {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let a = sym_mat::<T>("a", m, n);
    T::ok(a.is_square() == (m == n), "is_square: compares row and column counts");
    T::ok(a.is_not_square() == (m != n), "is_not_square: complement of is_square");
    if m != n {
        T::ok(!a.is_symmetric(), "is_symmetric: false for a non-square matrix");
        T::ok(a.is_non_symmetric(), "is_non_symmetric: true for a non-square matrix");
    }
}
pub fn register(v: &mut Vec<Harness>) {
    reg!(v, "C11", vec_norms, 0, 0, [1], [2], [3], [4], [5]);
    reg!(v, "C11", vec_norms, 1, 0, [6]);
    reg!(v, "C11", vec_one, 0, 0, [7, 1], [9, 2], [16, 3], [17, 4], [33, 5], [8, 6], [9, 7], [9, 8]);
    reg!(v, "C11", vec_pnorm, 0, 0, [1, 1], [2, 1], [1, 2], [2, 2], [3, 2], [1, 3], [2, 3], [3, 3], [2, 4], [1, 0], [2, 0], [3, 0]);
    reg!(v, "C11", frob_trace, 0, 0, [1, 1], [1, 2], [2, 1], [2, 2], [2, 3], [3, 2], [3, 3], [1, 4], [4, 2], [4, 4], [3, 5], [6, 4], [9, 2], [2, 9], [7, 7], [17, 2], [2, 17], [5, 9]);
    reg!(v, "C11", norm_reject, 0, 0, [1, 2], [2, 2], [3, 2], [1, 3]);
    reg!(v, "C12", approx_mat, 0, 0, [1, 1], [1, 2], [2, 1], [2, 2], [1, 3], [3, 1], [2, 3], [3, 2], [3, 3], [2, 5], [5, 2], [3, 4], [4, 3], [1, 7], [7, 1]);
    reg!(v, "C12", approx_mat, 1, 0, [4, 4], [9, 2], [2, 9], [5, 5]);
    reg!(v, "C12", approx_one, 0, 0, [9, 2, 0], [9, 2, 1], [9, 2, 17], [2, 9, 0], [2, 9, 8], [2, 9, 9], [2, 9, 17], [5, 5, 12], [5, 5, 24], [17, 1, 16], [1, 17, 16], [1, 33, 32], [33, 1, 32], [8, 8, 63], [9, 9, 80], [9, 9, 40], [6, 4, 20], [4, 6, 20]);
    reg!(v, "C12", approx_shape, 0, 0, [1, 2, 2, 1], [2, 1, 1, 2], [2, 3, 3, 2], [2, 2, 1, 4], [2, 2, 2, 3], [2, 2, 3, 2], [2, 3, 2, 2], [3, 2, 2, 2], [1, 1, 1, 2], [1, 1, 2, 1], [3, 4, 4, 3], [2, 6, 3, 4], [3, 8, 4, 6], [9, 2, 2, 9], [5, 5, 5, 6], [5, 5, 6, 5], [9, 3, 8, 3]);
    reg!(v, "C12", symmetric, 0, 0, [1], [2], [3], [4], [5], [6], [7], [9]);
    reg!(v, "C12", shape_preds, 0, 0, [1, 1], [1, 2], [2, 1], [2, 2], [2, 3], [3, 2], [3, 3], [4, 2], [2, 4], [1, 4], [4, 1], [9, 2], [2, 9], [8, 8], [9, 8], [1, 17], [17, 1]);
}
