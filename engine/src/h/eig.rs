//! C21 symmetric and C22 non-symmetric eigendecomposition.
use super::*;
use crate::elem::{panics, Elem};
use crate::reg;
use la::{EigenDecomposition, Matrix};

fn maxabs<T: Elem>(a: &Matrix<T>) -> Vec<T> { a.get_data().clone() }

pub fn check_sym<T: Elem>(a: &Matrix<T>) {
    let n = a.rows();
    let a0 = a.clone();
    let e = EigenDecomposition::new(a);
    same(a, &a0, "eigen: the matrix is unchanged");
    let (v, d) = (e.get_v(), e.get_d());
    let (re, im) = (e.get_real_eigenvalues(), e.get_imag_eigenvalues());
    T::ok(re.len() == n && im.len() == n, "eigen: n eigenvalues");
    if re.len() != n || im.len() != n || !shape(v, n, n, "eigen: V is n x n") || !shape(&d, n, n, "eigen: D is n x n") { return; }
    for i in 0..n {
        T::eq_(im[i], T::zero(), "eigen: imaginary parts are zero for a symmetric matrix");
        if i > 0 { T::ok(!(re[i] > re[i - 1]), "eigen: eigenvalues are in descending order"); }
        for j in 0..n { T::eq_(at(&d, i, j), if i == j { re[i] } else { T::zero() }, "eigen: D is the diagonal matrix of the eigenvalues"); }
    }
    orthogonal(v, n, "eigen: V'V = I");
    let av = mul(a, v);
    let vd = mat(n, n, |i, j| at(v, i, j) * re[j]);
    same_s(&av, &vd, &maxabs(a), "eigen: A*V = V*D");
}
pub fn symm<T: Elem>(nm: &str, n: usize) -> Matrix<T> {
    let a = sym_mat::<T>(nm, n, n);
    mat(n, n, |i, j| if i >= j { at(&a, i, j) } else { at(&a, j, i) })
}
pub fn perm_of(n: usize, code: usize) -> Vec<usize> {
    let mut pool: Vec<usize> = (0..n).collect();
    let mut c = code;
    let mut r = vec![];
    for k in (1..n + 1).rev() { let i = c % k; c /= k; r.push(pool.remove(i)); }
    r
}
pub fn eig_full<T: Elem>(p: &[i64]) { check_sym(&symm::<T>("a", p[0] as usize)); }
pub fn eig_diag<T: Elem>(p: &[i64]) {
    let n = p[0] as usize;
    let d: Vec<T> = (0..n).map(|i| T::var(&format!("d{}", i))).collect();
    check_sym(&mat(n, n, |i, j| if i == j { d[i] } else { T::zero() }));
}
/// direct sum of a symbolic symmetric 2x2 block and a symbolic diagonal, rows and columns permuted
pub fn eig_sum<T: Elem>(p: &[i64]) {
    let (n, pm) = (p[0] as usize, perm_of(p[0] as usize, p[1] as usize));
    let b = symm::<T>("b", 2);
    let d: Vec<T> = (0..n).map(|i| if i < 2 { T::zero() } else { T::var(&format!("d{}", i)) }).collect();
    let a = mat(n, n, |i, j| if i < 2 && j < 2 { at(&b, i, j) } else if i == j { d[i] } else { T::zero() });
    check_sym(&mat(n, n, |i, j| at(&a, pm[i], pm[j])));
}
/// x*I + y*v*v' with v partly symbolic: pattern of v given by parameters (0 symbolic, else the value)
pub fn eig_rank1<T: Elem>(p: &[i64]) {
    let n = p.len() - 1;
    let v: Vec<T> = (0..n).map(|i| if p[i + 1] == 99 { T::var(&format!("v{}", i)) } else { T::int(p[i + 1]) }).collect();
    let x = if p[0] & 1 == 1 { T::var("x") } else { T::zero() };
    let y = if p[0] & 2 == 2 { T::var("y") } else { T::one() };
    check_sym(&mat(n, n, |i, j| y * v[i] * v[j] + if i == j { x } else { T::zero() }));
}

const ITER: &str = "eigen: V'V = I and V'*A*V = D wherever the iteration stops";
/// The iteration ended after `n` square roots, whatever is left off the diagonal: V is orthogonal and D is the
/// diagonal of V'*A*V. In f64, where the iteration runs to its own end, V'*A*V is diagonal as well.
pub fn check_iter<T: Elem>(a: &Matrix<T>, n: u32) {
    let k = a.rows();
    T::truncate_after(n, 0, usize::MAX);
    let e = EigenDecomposition::new(a);
    let (v, re) = (e.get_v(), e.get_real_eigenvalues());
    if !shape(v, k, k, ITER) { return; }
    T::ok(re.len() == k, ITER);
    if re.len() != k { return; }
    same(&mul(&tr(v), v), &id(k), ITER);
    let d = mul(&tr(v), &mul(a, v));
    for i in 0..k { for j in 0..k {
        if i == j { T::eqs(at(&d, i, i), re[i], a.get_data(), ITER); }
        else if !T::symbolic() { T::eqs(at(&d, i, j), T::zero(), a.get_data(), ITER); }
    } }
    if n == 0 && T::symbolic() {
        // nothing but the reduction happened: some order of the rows is tridiagonal
        let z: Vec<bool> = d.get_data().iter().map(|x| *x == T::zero()).collect();
        let mut f = 1;
        for i in 2..k + 1 { f *= i; }
        T::ok((0..f).any(|c| { let p = perm_of(k, c); (0..k).all(|i| (0..k).all(|j| (i as i64 - j as i64).abs() < 2 || z[p[i] * k + p[j]])) }), ITER);
    }
}
/// p = [n, square roots, pattern of the lower triangle row by row: 99 symbolic, else the value]
pub fn eig_iter<T: Elem>(p: &[i64]) {
    let n = p[0] as usize;
    let mut low = vec![];
    let mut k = 2;
    for i in 0..n { for j in 0..i + 1 { low.push(if p[k] == 99 { T::var(&format!("a{}{}", i, j)) } else { T::int(p[k]) }); k += 1; } }
    let at = |i: usize, j: usize| if i >= j { low[i * (i + 1) / 2 + j] } else { low[j * (j + 1) / 2 + i] };
    check_iter(&mat(n, n, at), p[1] as u32);
}
// ------------------------------------------------------------------ C22
pub fn check_gen<T: Elem>(a: &Matrix<T>) {
    let n = a.rows();
    let mut sy = true;
    for i in 0..n { for j in 0..i { if sy && at(a, i, j) != at(a, j, i) { sy = false; } } }
    T::assume(!sy);
    let a0 = a.clone();
    let e = EigenDecomposition::new(a);
    same(a, &a0, "eigen: the matrix is unchanged");
    let (v, d) = (e.get_v(), e.get_d());
    let (re, im) = (e.get_real_eigenvalues(), e.get_imag_eigenvalues());
    T::ok(re.len() == n && im.len() == n, "eigen: n eigenvalues");
    if re.len() != n || im.len() != n || !shape(v, n, n, "eigen: V is n x n") || !shape(&d, n, n, "eigen: D is n x n") { return; }
    let mut i = 0;
    let mut tracesum = T::zero();
    let mut prod = T::one();
    let mut want = mat(n, n, |_, _| T::zero()).get_data().clone();
    while i < n {
        if im[i] == T::zero() {
            want[i * n + i] = re[i];
            tracesum = tracesum + re[i];
            prod = prod * re[i];
            i += 1;
        } else {
            T::ok(i + 1 < n && im[i] > T::zero(), "eigen: complex eigenvalues come in pairs, positive imaginary part first");
            if i + 1 >= n { return; }
            T::eq_(im[i + 1], T::zero() - im[i], "eigen: a complex pair is conjugate");
            T::eq_(re[i + 1], re[i], "eigen: a complex pair is conjugate");
            want[i * n + i] = re[i];
            want[i * n + i + 1] = im[i];
            want[(i + 1) * n + i] = T::zero() - im[i];
            want[(i + 1) * n + i + 1] = re[i];
            tracesum = tracesum + re[i] + re[i];
            prod = prod * (re[i] * re[i] + im[i] * im[i]);
            i += 2;
        }
    }
    same(&d, &Matrix::new(n, n, want), "eigen: D is block diagonal with the eigenvalues");
    let mut t = T::zero();
    for i in 0..n { t = t + at(a, i, i); }
    T::eqs(tracesum, t, &maxabs(a), "eigen: the eigenvalues sum to the trace");
    T::eqs(prod, det(a), &[], "eigen: the eigenvalues multiply to the determinant");
    let av = mul(a, v);
    let vd = mul(v, &d);
    for j in 0..n {
        // scale: the column of V times the matrix
        let mut sc = vec![];
        for i in 0..n { for x in a.get_data().iter() { sc.push(at(v, i, j) * *x); } }
        for i in 0..n { T::eqs(at(&av, i, j), at(&vd, i, j), &sc, "eigen: A*V = V*D"); }
        let mut s = T::zero();
        for i in 0..n { s = s + at(v, i, j) * at(v, i, j); }
        if s == T::zero() {
            let mut dup = false;
            for k in 0..n { if k != j && re[k] == re[j] && im[k] == im[j] { dup = true; } }
            T::ok(dup, "eigen: eigenvectors of distinct eigenvalues are non-zero");
        }
    }
}
pub fn gen_full<T: Elem>(p: &[i64]) { check_gen(&sym_mat::<T>("a", p[0] as usize, p[0] as usize)); }
/// block upper triangular: bit i of the mask set means the sub-diagonal entry (i+1,i) is symbolic, others zero;
/// the strict upper part is symbolic where `up` has its bit set
pub fn gen_quasi<T: Elem>(p: &[i64]) {
    let (n, sub, up) = (p[0] as usize, p[1] as u64, p[2] as u64);
    let mut k = 0;
    let mut d = vec![];
    for i in 0..n { for j in 0..n {
        let s = if i == j { true } else if i == j + 1 { sub >> j & 1 == 1 } else if i < j { let b = up >> k & 1 == 1; k += 1; b } else { false };
        d.push(if s { T::var(&format!("a{}{}", i, j)) } else { T::zero() });
    } }
    check_gen(&Matrix::new(n, n, d));
}
/// the same block form with rows and columns permuted, so that the Hessenberg reduction has work to do
pub fn gen_perm<T: Elem>(p: &[i64]) { check_gen(&perm_mat::<T>(p)) }
pub fn perm_mat<T: Elem>(p: &[i64]) -> Matrix<T> {
    let (n, sub, up) = (p[0] as usize, p[1] as u64, p[2] as u64);
    let pm = perm_of(n, p[3] as usize);
    let mut k = 0;
    let mut d = vec![];
    for i in 0..n { for j in 0..n {
        let s = if i == j { true } else if i == j + 1 { sub >> j & 1 == 1 } else if i < j { let b = up >> k & 1 == 1; k += 1; b } else { false };
        d.push(if s { T::var(&format!("a{}{}", i, j)) } else { T::zero() });
    } }
    let a = Matrix::new(n, n, d);
    mat(n, n, |i, j| at(&a, pm[i], pm[j]))
}
/// R*(block form)*R' with R a rational rotation (3/5, 4/5) of coordinates (1,2)
pub fn gen_rot<T: Elem>(p: &[i64]) { check_gen(&rot_mat::<T>(p)) }
pub fn rot_mat<T: Elem>(p: &[i64]) -> Matrix<T> {
    let (n, sub, up) = (p[0] as usize, p[1] as u64, p[2] as u64);
    let mut k = 0;
    let mut d = vec![];
    for i in 0..n { for j in 0..n {
        let s = if i == j { true } else if i == j + 1 { sub >> j & 1 == 1 } else if i < j { let b = up >> k & 1 == 1; k += 1; b } else { false };
        d.push(if s { T::var(&format!("a{}{}", i, j)) } else { T::zero() });
    } }
    let a = Matrix::new(n, n, d);
    let (c, s) = (T::q(3, 5), T::q(4, 5));
    let r = mat(n, n, |i, j| if i == j { if i == 1 || i == 2 { c } else { T::one() } } else if i == 1 && j == 2 { T::zero() - s } else if i == 2 && j == 1 { s } else { T::zero() });
    mul(&mul(&r, &a), &tr(&r))
}
/// x*I + u*w'
pub fn gen_rank1<T: Elem>(p: &[i64]) {
    let n = (p.len() - 1) / 2;
    let g = |k: usize, nm: &str| -> Vec<T> { (0..n).map(|i| if p[k + i] == 99 { T::var(&format!("{}{}", nm, i)) } else { T::int(p[k + i]) }).collect() };
    let (u, w) = (g(1, "u"), g(1 + n, "w"));
    let x = if p[0] == 1 { T::var("x") } else { T::zero() };
    check_gen(&mat(n, n, |i, j| u[i] * w[j] + if i == j { x } else { T::zero() }));
}
/// entries row by row: 99 symbolic, 1000+k the multiple k of one symbolic t, else the value; with p[1] = 1 conjugated by
/// the rational reflection of the coordinates 1..3 along (1,2,2) and with p[1] = 2 by that of the coordinates 0..2
pub fn gen_pat<T: Elem>(p: &[i64]) { check_gen(&pat_mat::<T>(p)) }
pub fn pat_mat<T: Elem>(p: &[i64]) -> Matrix<T> {
    let n = p[0] as usize;
    let t = if p[2..].iter().any(|x| *x > 500) { T::var("t") } else { T::zero() };
    let d = (0..n * n).map(|k| match p[2 + k] { 99 => T::var(&format!("a{}{}", k / n, k % n)), x if x > 500 => T::int(x - 1000) * t, x => T::int(x) }).collect();
    let a = Matrix::new(n, n, d);
    if p[1] == 0 { return a; }
    let o = if p[1] == 1 { 1 } else { 0 };
    let w = [1i64, 2, 2];
    let e = |i: usize| if i >= o && i < o + 3 { w[i - o] } else { 0 };
    let r = mat(n, n, |i, j| (if i == j { T::one() } else { T::zero() }) - T::q(2 * e(i) * e(j), 9));
    mul(&mul(&r, &a), &r)
}
const QR1: &str = "eigen: one QR step is an orthogonal similarity";
/// The QR iteration ended after p[0] % 10 square roots by taking every sub-diagonal entry for zero, but for the first
/// p[0] / 10 looked at. V is then Q*X with X unit upper triangular, or for a pair of complex eigenvalues block
/// triangular, and D has the diagonal of Q'AQ, or for a pair the sum and product of its 2x2 block, however far the
/// iteration had come.
/// p = [square roots, skipped comparisons and 100 to look at X as well, columns of V looked at, then as in gen_pat]
pub fn gen_iter<T: Elem>(p: &[i64]) {
    let a = pat_mat::<T>(&p[2..]);
    if !T::symbolic() { check_gen(&a); T::relabel(QR1); return; }
    let n = a.rows();
    let skip = (p[0] / 10 % 10) as usize;
    T::truncate_after((p[0] % 10) as u32, skip, n - 1 - skip);
    let e = EigenDecomposition::new(&a);
    let (v, re, im) = (e.get_v(), e.get_real_eigenvalues(), e.get_imag_eigenvalues());
    T::ok(re.len() == n && im.len() == n && v.rows() == n && v.cols() == n, QR1);
    if re.len() != n || im.len() != n || v.rows() != n || v.cols() != n { return; }
    let (mut t, mut s) = (T::zero(), T::zero());
    for i in 0..n { t = t + at(&a, i, i); s = s + re[i]; }
    T::eq_(s, t, QR1);
    let mut qs: Vec<Matrix<T>> = vec![];
    let form = |x: &Matrix<T>, y: &Matrix<T>| at(&mul(&tr(x), &mul(&a, y)), 0, 0);
    for j in 0..p[1] as usize {
        let real = im[j] == T::zero();
        let second = !real && im[j] < T::zero();
        let mut q = mat(n, 1, |i, _| at(v, i, j));
        for w in qs.iter() { let c = at(&mul(&tr(w), &q), 0, 0); q = mat(n, 1, |i, _| at(&q, i, 0) - c * at(w, i, 0)); }
        let l2 = at(&mul(&tr(&q), &q), 0, 0);
        if real { T::eq_(l2, T::one(), QR1); T::eq_(form(&q, &q), re[j], QR1); }
        else {
            T::assume_nz(l2);
            let l = l2.sqrt();
            q = mat(n, 1, |i, _| at(&q, i, 0) / l);
        }
        qs.push(q);
        if second {
            T::ok(j > 0 && im[j - 1] > T::zero(), QR1);
            if j == 0 { return; }
            let (x, y) = (&qs[j - 1], &qs[j]);
            T::eq_(re[j], re[j - 1], QR1);
            T::eq_(im[j], T::zero() - im[j - 1], QR1);
            T::eq_(form(x, x) + form(y, y), re[j] + re[j], QR1);
            T::eq_(form(x, x) * form(y, y) - form(x, y) * form(y, x), re[j] * re[j] + im[j] * im[j], QR1);
        }
    }
    // the columns of X = Q'V are eigenvectors of the upper triangle of Q'AQ
    if p[0] >= 100 { for j in 1..qs.len() { for i in 0..j {
        if im[i] != T::zero() || im[j] != T::zero() || re[i] == re[j] { continue; }
        let vj = mat(n, 1, |k, _| at(v, k, j));
        let x: Vec<T> = (i..j + 1).map(|k| at(&mul(&tr(&qs[k]), &vj), 0, 0)).collect();
        let mut s = T::zero();
        for k in i..j + 1 { s = s + form(&qs[i], &qs[k]) * x[k - i]; }
        T::eq_(s, re[j] * x[0], QR1);
    } } }
    // nothing but the Hessenberg reduction happened
    if p[0] % 100 == 0 { for j in 0..qs.len() { for i in j + 2..qs.len() { T::eq_(at(&mul(&tr(&qs[i]), &mul(&a, &qs[j])), 0, 0), T::zero(), QR1); } } }
}
pub fn eig_reject<T: Elem>(p: &[i64]) {
    let a = sym_mat::<T>("a", p[0] as usize, p[1] as usize);
    panics::<T, _>("eigen: non-square is rejected", || EigenDecomposition::new(&a));
}
pub fn register(v: &mut Vec<Harness>) {
    reg!(v, "C21", eig_full, 0, 0, [1], [2]);
    reg!(v, "C21", eig_diag, 0, 0, [2], [3], [4]);
    reg!(v, "C21", eig_sum, 0, 0, [3, 0], [3, 1], [3, 2], [3, 3], [3, 4], [3, 5]);
    reg!(v, "C21", eig_sum, 1, 0, [4, 0], [4, 7], [4, 11], [4, 23]);
    reg!(v, "C21", eig_rank1, 0, 0, [3, 3, 4, 99]);
    reg!(v, "C21", eig_iter, 0, BRISK, [3, 0, 99, 99, 99, 99, 99, 99], [3, 2, 99, 1, 3, 0, 2, 5], [3, 2, 4, 1, 99, 0, 2, 5], [3, 2, 4, 1, 3, 0, 2, 99], [4, 0, 4, 1, 3, 2, 99, 5, 1, 2, 3, 7], [4, 0, 4, 1, 3, 2, 1, 5, 99, 2, 3, 7], [4, 1, 4, 1, 3, 0, 2, 5, 0, 0, 99, 7], [4, 1, 4, 1, 3, 0, 99, 5, 0, 0, 1, 7]);
    reg!(v, "C21", eig_iter, 1, BRISK, [3, 5, 4, 1, 3, 0, 2, 99], [3, 2, 99, 1, 3, 0, 99, 5], [4, 1, 4, 1, 3, 0, 2, 5, 0, 0, 1, 99], [4, 1, 99, 1, 3, 0, 2, 5, 0, 0, 1, 7]);
    reg!(v, "C22", gen_full, 0, 0, [2]);
    reg!(v, "C22", gen_quasi, 0, 0, [3, 0, 7], [3, 1, 0], [3, 1, 6], [3, 2, 0], [3, 2, 3], [4, 0, 9], [4, 5, 0]);
    reg!(v, "C22", gen_perm, 0, 0, [3, 1, 0, 1], [3, 1, 0, 3], [3, 2, 0, 5]);
    reg!(v, "C22", gen_rot, 0, 0, [3, 1, 0], [3, 2, 0]);
    reg!(v, "C22", gen_rank1, 0, 0, [1, 1, 3, 4, 99, 0, 0], [1, 99, 3, 4, 1, 0, 0], [0, 3, 4, 0, 1, 99, 0]);
    reg!(v, "C22", gen_pat, 0, BRISK, [3, 0, 99, 0, 0, 2, 1, 2, 0, 3, 2], [3, 0, 1, 0, 0, 99, 1, 2, 0, 3, 2], [3, 0, 7, 0, 0, 2, 1, -2, 0, 3, 99], [3, 0, 7, 1003, 998, 2, 1, 2, 0, 3, 2], [4, 1, 5, 2, 1, 0, 3, 1, 0, 1, 0, 0, 1, 2, 0, 0, 99, 2]);
    reg!(v, "C22", gen_pat, 1, BRISK, [3, 0, 99, 3, -2, 2, 1, 2, 0, 3, 2], [3, 0, 7, 0, 0, 2, 99, 2, 0, 3, 2]);
    reg!(v, "C22", gen_iter, 0, BRISK, [100, 3, 3, 0, 99, 99, 99, 3, 99, 99, -4, 99, 99], [100, 3, 3, 0, 4, 1, 1, 99, 2, 5, -4, 1, 2], [100, 4, 4, 0, 1, 2, 3, 99, 1, 3, 2, 5, 2, 1, 0, 4, 2, 7, 1, 1], [0, 3, 4, 0, 1, 2, 3, 7, 1, 3, 2, 99, 2, 1, 0, 4, 2, 7, 1, 1]);
    reg!(v, "C22", gen_iter, 0, BRISK, [101, 3, 3, 0, 99, 1, 3, 2, 1, 2, 0, 3, 2], [101, 3, 3, 0, 4, 1, 99, 2, 1, 2, 0, 3, 2], [101, 3, 3, 0, 4, 1, 3, 2, 1, 2, 0, 3, 99], [101, 3, 3, 0, 4, 1, 3, 2, 1, 99, 0, 3, 5], [101, 4, 4, 0, 1, -3, -2, 99, 3, 4, 3, 99, 0, -2, 1, 4, 0, 0, -3, 2], [101, 5, 5, 0, 1, 2, 0, 2, 99, -2, 2, 1, 3, 0, 0, 1, 2, 0, 2, 0, 0, -2, 2, -2, 0, 0, 0, 1, 2]);
    // a pair deflating after the exceptional shift
    reg!(v, "C22", gen_iter, 0, BRISK, [111, 4, 4, 0, 99, 1, 2, 1, 0, 5, 0, 1, 0, 1, 5, 0, 0, 0, 1, 5], [111, 4, 4, 0, 99, 1, 2, 1, 0, 5, 0, -1, 0, 1, 5, 0, 0, 0, 1, 5], [111, 4, 4, 0, 5, 99, 2, 1, 0, 5, 0, 1, 0, 1, 5, 0, 0, 0, 1, 5]);
    // eigenvectors of block triangular matrices of every combination of real and complex blocks
    reg!(v, "C22", gen_pat, 0, BRISK, [4, 0, 99, 1, 2, 1, 0, 5, 1, 3, 0, 0, 1, -2, 0, 0, 3, 2], [4, 0, 3, 99, 2, 1, 0, 5, 1, 3, 0, 0, 1, -2, 0, 0, 3, 2], [4, 0, 3, 1, 99, 1, 0, 5, 1, 3, 0, 0, 1, -2, 0, 0, 3, 2], [4, 0, 3, 1, 1, 1, 0, 5, 99, 3, 0, 0, 1, -2, 0, 0, 3, 2], [4, 0, 1, -2, 2, 1, 3, 2, 1, 3, 0, 0, 1, -2, 0, 0, 3, 99], [4, 0, 1, -2, 99, 1, 3, 2, 1, 3, 0, 0, 1, -1, 0, 0, 5, 2], [4, 0, 1, -2, 2, 99, 3, 2, 1, 3, 0, 0, 2, -2, 0, 0, 1, 2], [4, 0, 1, -2, 99, 1, 2, 1, 1, 3, 0, 0, 1, -2, 0, 0, 2, 1], [4, 0, 1, -2, 99, 99, 2, 1, 99, 99, 0, 0, 1, -3, 0, 0, 2, 2], [4, 0, 3, 99, 2, 1, 0, 3, 1, 3, 0, 0, 1, -2, 0, 0, 3, 2], [4, 0, 99, 1, 2, 1, 0, 5, 1, 3, 0, 0, 5, -2, 0, 0, 0, 2], [4, 0, 1, -2, 2, 1, 3, 2, 1, 3, 0, 0, 99, -2, 0, 0, 0, 4], [4, 0, 99, 1, 2, -2, 0, 1, -2, 3, 0, 3, 2, 1, 0, 0, 0, 99]);
    reg!(v, "C22", gen_pat, 0, BRISK, [4, 0, 1, -5, 2, 1, 99, 1, 1, 3, 0, 0, 1, -2, 0, 0, 2, 1], [5, 0, 99, 1, 2, 1, 3, 0, 5, 1, 3, 4, 0, 2, 99, -2, 1, 0, 0, 0, 2, -1, 0, 0, 0, 1, 1], [5, 0, 99, 1, 2, 1, 3, 0, 1, -2, 3, 4, 0, 3, 2, -2, 1, 0, 0, 0, 2, -1, 0, 0, 0, 1, 1], [5, 0, 1, -2, 2, 1, 3, 3, 2, -2, 3, 4, 0, 0, 99, -2, 1, 0, 0, 0, 2, -1, 0, 0, 0, 1, 1], [3, 0, 0, 99, 0, 0, 0, 0, 0, 0, 0], [4, 0, 0, 2, 99, 1, 0, 0, 0, 99, 0, 0, 0, 1, 0, 0, 0, 0]);
    // the exceptional shift of the tenth iteration
    reg!(v, "C22", gen_iter, 0, BRISK, [101, 3, 3, 0, 5, 0, 99, 1, 5, 0, 0, 1, 5]);
    reg!(v, "C22", gen_iter, 1, BRISK, [101, 3, 3, 0, 4, 99, 3, 2, 1, 7, 0, 3, 5], [101, 5, 5, 0, -2, 0, 2, 0, 2, -1, -1, 3, 2, 99, 0, -1, -1, -2, -1, 0, 0, 2, 1, 1, 0, 0, 0, -2, -2], [0, 3, 4, 0, 1, 2, 3, 7, 1, 3, 2, 9, 2, 99, 0, 4, 2, 7, 1, 1], [0, 2, 4, 0, 1, 2, 3, 7, 99, 3, 2, 9, 2, 1, 0, 4, 2, 7, 1, 1]);
    reg!(v, "C22", eig_reject, 0, 0, [1, 2], [2, 1], [2, 3], [3, 2]);
}
