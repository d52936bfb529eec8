//! C31: backward stability by first-order rounding analysis. The library runs on `Du`; for every entry of a residual and
//! every rounding made by the library the solver decides whether the rounding is amplified beyond AMP times the size of
//! the known factors of the input. Replays run the library in f32 and compute the residual in f64.
use super::large::{ortho, plu, Gen};
use super::*;
use crate::du::Du;
use crate::elem::Elem;
use crate::sym::{get, Sym};
use la::{CholeskyDecomposition, EigenDecomposition, LUDecomposition, Matrix, QRDecomposition, SVD};
use num::{Float, Signed};
use symcore::eng::{with, NEG, ZER};
use symcore::fl::flw;

/// a single rounding may enter a residual at most this many times enlarged
pub const AMP: i64 = 256;
/// replays: residual in units of 2^-24 times the scale
const UNITS: f64 = 32.0;

pub trait Rnd: Elem {
    /// the element type the library runs on
    type R: Float + Signed + la::ApproxEq<Self::R> + std::fmt::Debug + 'static;
    /// the type residuals are computed in
    type X: Float;
    fn begin();
    fn down(self) -> Self::R;
    fn up(x: Self::R) -> Self::X;
    fn rounding(on: bool);
    fn val(x: Self::X) -> Self;
    fn small(x: Self::X, scale2: Self, label: &str);
}
impl Rnd for Sym {
    type R = Du;
    type X = Du;
    fn begin() { Du::reset() }
    fn down(self) -> Du { Du::exact(self) }
    fn up(x: Du) -> Du { x }
    fn rounding(on: bool) { Du::rounding(on) }
    fn val(x: Du) -> Sym { x.v }
    fn small(x: Du, scale2: Sym, label: &str) {
        let bound = scale2 * Sym::int(AMP * AMP);
        Sym::eqs(x.v, Sym::int(0), &[Sym::int(1)], "rounding analysis: the residual is zero in exact arithmetic");
        for (_, c) in x.coefs() {
            let c2 = c * c;
            with(|e| {
                let (x, y) = (get(e, c2), get(e, bound));
                match e.cmp_form(&x, &y) {
                    Ok(f) => e.oblige(&f, NEG | ZER, label),
                    Err(Some(o)) if o < 0 => {}
                    Err(_) => { e.stats.obl += 1; e.stats.obl_bool += 1; e.report(label) }
                }
            });
        }
    }
}
impl Rnd for f64 {
    type R = f32;
    type X = f64;
    fn begin() {}
    fn down(self) -> f32 {
        f64::assume(self == 0.0 || self.abs() > 1e-9 && self.abs() < 1e9);
        self as f32
    }
    fn up(x: f32) -> f64 { x as f64 }
    fn rounding(_: bool) {}
    fn val(x: f64) -> f64 { x }
    fn small(x: f64, scale2: f64, label: &str) {
        let b = UNITS * (2.0f64).powi(-24) * scale2.sqrt();
        flw(|f| { f.checks += 1; if !(x.abs() <= b) { f.fails.push(format!("{}: residual {:e}, {:e} allowed (single precision)", label, x, b)) } })
    }
}
fn conv<A: Copy, B: Copy>(a: &Matrix<A>, f: impl Fn(A) -> B) -> Matrix<B> {
    Matrix::new(a.rows(), a.cols(), a.get_data().iter().map(|x| f(*x)).collect())
}
fn xmat<X: Float>(m: usize, n: usize, f: impl Fn(usize, usize) -> X) -> Matrix<X> {
    let mut d = vec![];
    for i in 0..m { for j in 0..n { d.push(f(i, j)); } }
    Matrix::new(m, n, d)
}
fn xat<X: Float>(a: &Matrix<X>, i: usize, j: usize) -> X { a.get_data()[i * a.cols() + j] }
fn xmul<X: Float>(a: &Matrix<X>, b: &Matrix<X>) -> Matrix<X> {
    xmat(a.rows(), b.cols(), |i, j| { let mut s = X::zero(); for k in 0..a.cols() { s = s + xat(a, i, k) * xat(b, k, j); } s })
}
fn xtr<X: Float>(a: &Matrix<X>) -> Matrix<X> { xmat(a.cols(), a.rows(), |i, j| xat(a, j, i)) }
fn sumsq<T: Elem>(a: &Matrix<T>) -> T { let mut s = T::zero(); for x in a.get_data() { s = s + *x * *x; } s }
/// sum of the squares of the products that make up a*b
fn scale2<T: Elem>(a: &Matrix<T>, b: &Matrix<T>) -> T {
    mulsq(a, b).get_data().iter().fold(T::zero(), |s, x| s + *x)
}
fn mulsq<T: Elem>(a: &Matrix<T>, b: &Matrix<T>) -> Matrix<T> {
    mul(&mat(a.rows(), a.cols(), |i, j| at(a, i, j) * at(a, i, j)), &mat(b.rows(), b.cols(), |i, j| at(b, i, j) * at(b, i, j)))
}
struct Run<T: Rnd>(std::marker::PhantomData<T>);
impl<T: Rnd> Run<T> {
    fn lib<A>(f: impl FnOnce() -> A) -> A { T::rounding(true); let r = f(); T::rounding(false); r }
    fn up(a: &Matrix<T::R>) -> Matrix<T::X> { conv(a, T::up) }
    fn small(a: &Matrix<T::X>, b: &Matrix<T::X>, s2: T, label: &str) {
        T::ok(a.rows() == b.rows() && a.cols() == b.cols(), label);
        if a.rows() != b.rows() || a.cols() != b.cols() { return; }
        for i in 0..a.get_data().len() { T::small(a.get_data()[i] - b.get_data()[i], s2, label); }
    }
    fn orth(q: &Matrix<T::X>, label: &str) {
        let n = q.cols();
        Self::small(&xmul(&xtr(q), q), &xmat(n, n, |i, j| if i == j { T::X::one() } else { T::X::zero() }), T::int(n as i64), label);
    }
}
use num::{One, Zero};
const LU: &str = "LU: the rounding errors of L*U - P*A stay small";
const SOLVE: &str = "solve: the rounding errors of A*X - B stay small";
const INV: &str = "inverse: the rounding errors of A*X - I stay small";
const CHOL: &str = "Cholesky: the rounding errors of L*L' - A stay small";
const CSOLVE: &str = "Cholesky solve: the rounding errors of A*X - B stay small";
const QR: &str = "QR: the rounding errors of Q*R - A stay small";
const QO: &str = "QR: the rounding errors of Q'Q - I stay small";
const QSOLVE: &str = "QR solve: the rounding errors of A*X - B stay small";
const EV: &str = "eigen: the rounding errors of A*V - V*D stay small";
const EO: &str = "eigen: the rounding errors of V'V - I stay small";
const GV: &str = "eigen (general): the rounding errors of A*V - V*D stay small";
const SV: &str = "SVD: the rounding errors of U*S*V' - A stay small";
const SO: &str = "SVD: the rounding errors of U'U - I and V'V - I stay small";

/// p = [m, n, seed, symbols]
pub fn rnd_lu<T: Rnd>(p: &[i64]) {
    T::begin();
    let (_, a, l0, u0) = plu::<T>(p);
    let ar = conv(&a, |x: T| x.down());
    let s2 = scale2(&l0, &u0);
    let (l, u, pm) = Run::<T>::lib(|| { let d = LUDecomposition::new(&ar); (d.get_l(), d.get_u(), d.get_p()) });
    Run::<T>::small(&xmul(&Run::<T>::up(&l), &Run::<T>::up(&u)), &xmul(&Run::<T>::up(&pm), &Run::<T>::up(&ar)), s2, LU);
}
/// A = P*L0*U0, B = A*X0: p = [n, n, seed, symbols, which]
pub fn rnd_solve<T: Rnd>(p: &[i64]) {
    T::begin();
    let (_, a, l0, u0) = plu::<T>(p);
    let n = a.rows();
    let mut g = Gen::new(p[2] + 5);
    let x0 = mat(n, 1, |_, _| T::one());
    let x0 = mat(n, 1, |i, _| at(&x0, i, 0) * T::q(if i == 0 { 3 } else { 1 + (p[2] * 3 + i as i64 * 5) % 7 }, 7));
    let b = mul(&a, &x0);
    let _ = g.int(0, 1);
    let (ar, br) = (conv(&a, |x: T| x.down()), conv(&b, |x: T| x.down()));
    let s2 = scale2(&l0, &u0);
    match p[4] {
        0 | 1 => {
            let x = Run::<T>::lib(|| if p[4] == 0 { ar.solve(&br) } else { LUDecomposition::new(&ar).solve(&br) });
            match x {
                None => T::ok(!T::symbolic(), SOLVE),
                Some(x) => Run::<T>::small(&xmul(&Run::<T>::up(&ar), &Run::<T>::up(&x)), &Run::<T>::up(&br), s2 * xsq::<T>(&x), SOLVE),
            }
        }
        _ => match Run::<T>::lib(|| ar.inverse()) {
            None => T::ok(!T::symbolic(), INV),
            Some(x) => {
                // column by column: |A*x_j - e_j| against |L0||U0||x_j|
                let r = xmul(&Run::<T>::up(&ar), &Run::<T>::up(&x));
                for j in 0..n {
                    let s = s2 * xsq::<T>(&Matrix::new(n, 1, (0..n).map(|i| x.get_data()[i * n + j]).collect()));
                    for i in 0..n { T::small(xat(&r, i, j) - if i == j { T::X::one() } else { T::X::zero() }, s, INV); }
                }
            }
        },
    }
}
/// the squares of the entries of a computed solution (None cannot be told from Some in f32 where A is close to singular)
fn xsq<T: Rnd>(x: &Matrix<T::R>) -> T { x.get_data().iter().fold(T::zero(), |s, v| { let w = T::val(T::up(*v)); s + w * w }) }
/// A = L0*L0': p = [n, seed, symbols, solve]
pub fn rnd_chol<T: Rnd>(p: &[i64]) {
    T::begin();
    let l0 = chol_l::<T>(p);
    let n = l0.rows();
    let a = mul(&l0, &tr(&l0));
    let ar = conv(&a, |x: T| x.down());
    let s2 = scale2(&l0, &tr(&l0));
    if p[3] == 0 {
        match Run::<T>::lib(|| CholeskyDecomposition::new(&ar).map(|c| c.get_l().clone())) {
            None => T::ok(!T::symbolic(), CHOL),
            Some(l) => { let l = Run::<T>::up(&l); Run::<T>::small(&xmul(&l, &xtr(&l)), &Run::<T>::up(&ar), s2, CHOL) }
        }
    } else {
        let x0 = mat(n, 1, |i, _| T::q(if i == 0 { 3 } else { 1 + (p[1] * 3 + i as i64 * 5) % 7 }, 7));
        let b = mul(&a, &x0);
        let br = conv(&b, |x: T| x.down());
        match Run::<T>::lib(|| CholeskyDecomposition::new(&ar).map(|c| c.solve(&br))) {
            None => T::ok(!T::symbolic(), CSOLVE),
            Some(x) => Run::<T>::small(&xmul(&Run::<T>::up(&ar), &Run::<T>::up(&x)), &Run::<T>::up(&br), s2 * xsq::<T>(&x), CSOLVE),
        }
    }
}
fn chol_l<T: Elem>(p: &[i64]) -> Matrix<T> {
    let n = p[0] as usize;
    let mut g = Gen::new(p[1]);
    let mut c: Vec<Vec<T>> = (0..n).map(|i| (0..n).map(|j| if i > j { T::q(g.int(-6, 6), 7) } else if i == j { T::q(g.int(2, 9), 7) } else { T::zero() }).collect()).collect();
    syms(&mut g, &mut c, n, n, p[2], true, true);
    mat(n, n, |i, j| c[i][j])
}
/// `k` symbols: the first on the diagonal, the rest off it (below when `low`)
fn syms<T: Elem>(g: &mut Gen, c: &mut Vec<Vec<T>>, m: usize, n: usize, k: i64, low: bool, pos: bool) {
    let d = m.min(n);
    for s in 0..k {
        let (i, j) = (g.int(0, d as i64 - 1) as usize, g.int(0, d as i64 - 1) as usize);
        let x = T::var(&format!("s{}", s));
        if s == 0 || i == j { if pos { T::assume_pos(x); } else { T::assume_nz(x); } c[i][i] = x; }
        else { let (lo, hi) = (i.min(j), i.max(j)); if low { c[hi][lo] = x } else { c[lo][hi] = x } }
    }
}
/// an orthogonal matrix whose first column tends to plus or minus the first unit vector as the symbol t tends to zero
fn turn<T: Elem>(g: &mut Gen, n: usize, kind: i64) -> Matrix<T> {
    let t = T::var("t");
    let mut v: Vec<T> = (0..n).map(|_| T::q(g.nz(3), 7)).collect();
    if kind & 1 == 0 { v[0] = t; } else { for i in 1..n { v[i] = v[i] * t; } }
    let mut s = T::zero();
    for x in v.iter() { s = s + *x * *x; }
    T::assume_pos(s);
    let mut q = mat(n, n, |i, j| (if i == j { T::one() } else { T::zero() }) - T::int(2) * v[i] * v[j] / s);
    if kind & 2 == 2 { q = mul(&q, &ortho::<T>(g, n)); }
    q
}
/// p = [m, n, seed, kind of Q, symbols of R, which]
pub fn rnd_qr<T: Rnd>(p: &[i64]) {
    T::begin();
    let (m, n) = (p[0] as usize, p[1] as usize);
    let mut g = Gen::new(p[2]);
    let q0 = turn::<T>(&mut g, m, p[3]);
    let mut c: Vec<Vec<T>> = (0..m).map(|i| (0..n).map(|j| if i > j { T::zero() } else if i == j { T::q(g.nz(9), 7) } else { T::q(g.int(-9, 9), 7) }).collect()).collect();
    syms(&mut g, &mut c, m, n, p[4], false, false);
    let r0 = mat(m, n, |i, j| c[i][j]);
    let a = mul(&q0, &r0);
    let ar = conv(&a, |x: T| x.down());
    let s2 = sumsq(&r0);
    if p[5] == 0 {
        let (q, r) = Run::<T>::lib(|| { let d = QRDecomposition::new(&ar); (d.get_q(), d.get_r()) });
        let (q, r) = (Run::<T>::up(&q), Run::<T>::up(&r));
        Run::<T>::orth(&q, QO);
        Run::<T>::small(&xmul(&q, &r), &Run::<T>::up(&ar), s2, QR);
    } else {
        let x0 = mat(n, 1, |i, _| T::q(if i == 0 { 3 } else { 1 + (p[1] * 3 + i as i64 * 5) % 7 }, 7));
        let b = mul(&a, &x0);
        let br = conv(&b, |x: T| x.down());
        match Run::<T>::lib(|| QRDecomposition::new(&ar).solve(&br)) {
            None => T::ok(!T::symbolic(), QSOLVE),
            Some(x) => Run::<T>::small(&xmul(&Run::<T>::up(&ar), &Run::<T>::up(&x)), &Run::<T>::up(&br), s2 * xsq::<T>(&x), QSOLVE),
        }
    }
}
/// Q0*diag*Q0': p = [n, seed, kind of Q, symbols]
pub fn rnd_eig<T: Rnd>(p: &[i64]) {
    T::begin();
    let n = p[0] as usize;
    let mut g = Gen::new(p[1]);
    let q0 = turn::<T>(&mut g, n, p[2]);
    let mut d: Vec<T> = (0..n).map(|_| T::q(g.nz(30), 7)).collect();
    if p[3] > 0 { let k = g.int(0, n as i64 - 1) as usize; d[k] = T::var("d"); }
    let a = mul(&q0, &mat(n, n, |i, j| d[i] * at(&q0, j, i)));
    let a = mat(n, n, |i, j| if i >= j { at(&a, i, j) } else { at(&a, j, i) });
    let ar = conv(&a, |x: T| x.down());
    let mut s2 = T::zero();
    for x in d.iter() { s2 = s2 + *x * *x; }
    let (v, dd) = Run::<T>::lib(|| { let e = EigenDecomposition::new(&ar); (e.get_v().clone(), e.get_d()) });
    let (v, dd) = (Run::<T>::up(&v), Run::<T>::up(&dd));
    Run::<T>::orth(&v, EO);
    Run::<T>::small(&xmul(&Run::<T>::up(&ar), &v), &xmul(&v, &dd), s2, EV);
}
/// Q0*R0*Q0', R0 quasi-triangular: p = [n, seed, kind of Q (4: the identity), symbols of R0, complex pair in front].
/// Each column of V is judged against its own size.
pub fn rnd_gen<T: Rnd>(p: &[i64]) {
    T::begin();
    let n = p[0] as usize;
    let mut g = Gen::new(p[1]);
    let q0 = if p[2] == 4 { id::<T>(n) } else { turn::<T>(&mut g, n, p[2]) };
    let mut c: Vec<Vec<T>> = (0..n).map(|i| (0..n).map(|j| if i > j { T::zero() } else if i == j { T::q(10 * i as i64 - 7 + g.int(-4, 4), 7) } else { T::q(g.nz(9), 7) }).collect()).collect();
    if p[4] == 1 { c[1][1] = c[0][0]; c[1][0] = T::q(-5, 7); c[0][1] = T::q(11, 7); }
    if p[3] > 0 { c[0][n - 1] = T::var("x"); if n == 2 && p[4] == 1 { T::assume_pos(c[0][1]); } }
    if p[3] > 1 { c[n - 1][n - 1] = T::var("y"); }
    let r0 = mat(n, n, |i, j| c[i][j]);
    check_gen::<T>(&mul(&mul(&q0, &r0), &tr(&q0)), sumsq(&r0));
}
fn check_gen<T: Rnd>(a: &Matrix<T>, s2: T) {
    let n = a.rows();
    let ar = conv(a, |x: T| x.down());
    let (v, dd) = Run::<T>::lib(|| { let e = EigenDecomposition::new(&ar); (e.get_v().clone(), e.get_d()) });
    let (v, dd) = (Run::<T>::up(&v), Run::<T>::up(&dd));
    let (av, vd) = (xmul(&Run::<T>::up(&ar), &v), xmul(&v, &dd));
    let mut w: Vec<T> = (0..n).map(|j| { let mut s = T::zero(); for i in 0..n { let x = T::val(xat(&v, i, j)); s = s + x * x; } s }).collect();
    // the two columns of a complex pair are one vector
    for j in 1..n { if T::val(xat(&dd, j, j - 1)) != T::zero() { let s = w[j] + w[j - 1]; w[j] = s; w[j - 1] = s; } }
    for j in 0..n { for i in 0..n { T::small(xat(&av, i, j) - xat(&vd, i, j), s2 * w[j], GV); } }
}
/// as gen_pat
pub fn rnd_pat<T: Rnd>(p: &[i64]) {
    T::begin();
    let a = super::eig::pat_mat::<T>(p);
    let s2 = sumsq(&a);
    check_gen::<T>(&a, s2);
}
/// as gen_iter, the iteration cut short after p[0] square roots: V is an orthogonal matrix times a unit upper triangular
/// one, the first eigenvalue belongs to the first column (in f32, where the iteration ends by itself, A*V = V*D)
pub fn rnd_gencut<T: Rnd>(p: &[i64]) {
    T::begin();
    let a = super::eig::pat_mat::<T>(&p[1..]);
    let (n, s2) = (a.rows(), sumsq(&a));
    if !T::symbolic() { check_gen::<T>(&a, s2); return; }
    let ar = conv(&a, |x: T| x.down());
    T::truncate_after(p[0] as u32, 0, n - 1);
    let (v, d) = Run::<T>::lib(|| { let e = EigenDecomposition::new(&ar); (e.get_v().clone(), e.get_d()) });
    let (v, d) = (Run::<T>::up(&v), Run::<T>::up(&d));
    if (1..n).any(|i| T::val(xat(&d, i, i - 1)) != T::zero()) { return; }
    let g = xmul(&xtr(&v), &v);
    T::small(xat(&g, 0, 0) - T::X::one(), T::one(), GV);
    let f = xmul(&xtr(&v), &xmul(&Run::<T>::up(&ar), &v));
    T::small(xat(&f, 0, 0) - xat(&d, 0, 0), s2, GV);
    let w = T::val(xat(&g, 1, 1));
    T::small(xat(&g, 0, 0) * xat(&g, 1, 1) - xat(&g, 0, 1) * xat(&g, 1, 0) - T::X::one(), w * w, GV);
}
/// Q0*diag, or its transpose: p = [m, n, seed, kind of Q, symbols, transposed]
pub fn rnd_svd<T: Rnd>(p: &[i64]) {
    T::begin();
    let (m, n) = (p[0] as usize, p[1] as usize);
    let mut g = Gen::new(p[2]);
    let q0 = turn::<T>(&mut g, m, p[3]);
    let mut d: Vec<T> = (0..n).map(|_| T::q(g.nz(30), 7)).collect();
    if p[4] > 0 { let k = g.int(0, n as i64 - 1) as usize; d[k] = T::var("d"); }
    let a = super::svd::flip(mat(m, n, |i, j| at(&q0, i, j) * d[j]), p[5]);
    let ar = conv(&a, |x: T| x.down());
    let mut s2 = T::zero();
    for x in d.iter() { s2 = s2 + *x * *x; }
    let (u, s, v) = Run::<T>::lib(|| { let d = SVD::new(&ar); (d.get_u().clone(), d.get_s().clone(), d.get_v().clone()) });
    let (u, s, v) = (Run::<T>::up(&u), Run::<T>::up(&s), Run::<T>::up(&v));
    Run::<T>::orth(&u, SO);
    Run::<T>::orth(&v, SO);
    Run::<T>::small(&xmul(&xmul(&u, &s), &xtr(&v)), &Run::<T>::up(&ar), s2, SV);
}
/// constants but for `p[3] + 1` symbols, the iteration cut short after p[4] square roots: V'V - I, and the diagonal of V'AV
/// against D, stay small (in f32, where the iteration ends by itself, all of V'AV - D): p = [n, n, seed, symbols, roots]
pub fn rnd_eigcut<T: Rnd>(p: &[i64]) {
    T::begin();
    let a = few::<T>(p);
    let n = a.rows();
    let a = mat(n, n, |i, j| if i >= j { at(&a, i, j) } else { at(&a, j, i) });
    let ar = conv(&a, |x: T| x.down());
    T::truncate_after(p[4] as u32, 0, usize::max_value());
    let (v, d) = Run::<T>::lib(|| { let e = EigenDecomposition::new(&ar); (e.get_v().clone(), e.get_d()) });
    let (v, d) = (Run::<T>::up(&v), Run::<T>::up(&d));
    Run::<T>::orth(&v, EO);
    let b = xmul(&xtr(&v), &xmul(&Run::<T>::up(&ar), &v));
    let s2 = sumsq(&a);
    for i in 0..n { for j in 0..n { if i == j || !T::symbolic() { T::small(xat(&b, i, j) - xat(&d, i, j), s2, EV); } } }
}
/// an upper triangle with few entries turned by `turn` from the right, so that the rows are reduced: p = [n, seed, kind]
pub fn rnd_svdrow<T: Rnd>(p: &[i64]) {
    T::begin();
    let n = p[0] as usize;
    let mut g = Gen::new(p[1]);
    let q = turn::<T>(&mut g, n - 1, p[2]);
    let (c, e, z) = (T::q(g.nz(9), 7), T::q(g.nz(9), 7), T::q(g.nz(9), 7));
    // [c, e*q1'; 0, z*q2'; 0]: bidiagonal with one entry above the diagonal
    let a = mat(n, n, |i, j| if i == 0 { if j == 0 { c } else { e * at(&q, j - 1, 0) } } else if j == 0 || i > p[3] as usize { T::zero() } else { z * at(&q, j - 1, i) });
    check_svdcut::<T>(&a, 0);
}
/// as rnd_eigcut for the SVD: p = [m, n, seed, symbols, roots, transposed]
pub fn rnd_svdcut<T: Rnd>(p: &[i64]) {
    T::begin();
    check_svdcut::<T>(&super::svd::flip(few::<T>(p), p[5]), p[4]);
}
fn check_svdcut<T: Rnd>(a: &Matrix<T>, roots: i64) {
    let (m, n) = (a.rows(), a.cols());
    let ar = conv(a, |x: T| x.down());
    T::truncate_after(roots as u32, 0, usize::max_value());
    let (u, s, v) = Run::<T>::lib(|| { let d = SVD::new(&ar); (d.get_u().clone(), d.get_s().clone(), d.get_v().clone()) });
    let (u, s, v) = (Run::<T>::up(&u), Run::<T>::up(&s), Run::<T>::up(&v));
    Run::<T>::orth(&u, SO);
    Run::<T>::orth(&v, SO);
    let b = xmul(&xtr(&u), &xmul(&Run::<T>::up(&ar), &v));
    let s2 = sumsq(a);
    for i in 0..m { for j in 0..n { if i == j || !T::symbolic() { T::small(xat(&b, i, j) - xat(&s, i, j), s2, SV); } } }
}
fn few<T: Elem>(p: &[i64]) -> Matrix<T> {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let mut g = Gen::new(p[2]);
    let mut c: Vec<T> = (0..m * n).map(|_| T::q(g.int(-9, 9), 7)).collect();
    for s in 0..p[3] + 1 { let i = g.int(0, m as i64 - 1) as usize; let j = g.int(0, i.min(n - 1) as i64) as usize; c[i * n + j] = T::var(&format!("x{}", s)); }
    mat(m, n, |i, j| c[i * n + j])
}
/// the given inputs and points close by, so that the low bits vary
fn vary(f: fn(&[i64]), p: &[i64]) {
    let ins = flw(|f| f.inputs.clone());
    let mut z: u64 = 88172645463325252;
    for k in 0..48 {
        flw(|f| {
            f.next = 0;
            f.inputs = ins.iter().map(|x| {
                z ^= z << 13; z ^= z >> 7; z ^= z << 17;
                if k == 0 { *x } else { x * (1.0 + 1e-3 * ((z >> 11) as f64 / (1u64 << 53) as f64 - 0.5)) }
            }).collect();
        });
        f(p);
        if flw(|f| !f.fails.is_empty()) { break; }
    }
    flw(|f| f.inputs = ins);
}
macro_rules! regr {
    ($v:expr, $f:ident, $tier:expr, $flags:expr, $( [ $($p:expr),* ] ),*) => {
        $( { fn flt(p: &[i64]) { vary($f::<f64>, p) }
          $v.push(Harness { prop: "C31", name: stringify!($f), p: vec![$($p as i64),*], tier: $tier, sym: $f::<Sym>, flt, flags: $flags }); } )*
    };
}
pub fn register(v: &mut Vec<Harness>) {
    regr!(v, rnd_lu, 0, NO_XVAL, [2, 2, 1, 2], [3, 3, 2, 2], [3, 3, 3, 3], [4, 4, 3, 2], [5, 5, 4, 2], [6, 6, 5, 1], [8, 8, 9, 1], [4, 2, 6, 2], [2, 4, 7, 2], [5, 3, 8, 2]);
    regr!(v, rnd_solve, 0, NO_XVAL, [2, 2, 1, 2, 0], [3, 3, 2, 2, 0], [3, 3, 2, 2, 1], [4, 4, 3, 1, 0], [4, 4, 4, 2, 0], [5, 5, 4, 1, 0], [6, 6, 7, 1, 0], [2, 2, 1, 2, 2], [3, 3, 2, 1, 2], [3, 3, 3, 1, 2], [4, 4, 3, 1, 2], [2, 2, 2, 1, 0], [2, 2, 3, 1, 0], [2, 2, 4, 1, 0], [2, 2, 5, 1, 0], [2, 2, 6, 2, 0], [3, 3, 5, 1, 0], [3, 3, 6, 1, 1], [4, 4, 6, 1, 0], [5, 5, 7, 1, 0], [2, 2, 4, 1, 2], [3, 3, 5, 1, 2], [3, 3, 6, 1, 2]);
    regr!(v, rnd_chol, 0, NO_XVAL, [2, 1, 2, 0], [3, 2, 2, 0], [4, 3, 2, 0], [5, 4, 1, 0], [7, 5, 1, 0], [2, 1, 2, 1], [3, 2, 2, 1], [4, 3, 1, 1], [5, 6, 1, 1]);
    regr!(v, rnd_qr, 0, NO_XVAL, [2, 2, 1, 0, 0, 0], [2, 2, 1, 1, 0, 0], [2, 2, 2, 2, 1, 0], [3, 3, 1, 0, 0, 0], [3, 3, 2, 1, 0, 0], [2, 3, 4, 1, 1, 0], [4, 2, 5, 1, 0, 0], [3, 1, 5, 1, 1, 0], [4, 4, 3, 1, 0, 0], [2, 2, 1, 1, 0, 1], [2, 2, 1, 0, 1, 1], [3, 2, 2, 1, 0, 1], [3, 3, 3, 1, 0, 1]);
    regr!(v, rnd_qr, 1, NO_XVAL, [2, 2, 3, 3, 1, 0], [3, 2, 3, 1, 1, 0], [5, 3, 3, 0, 0, 0], [4, 3, 2, 1, 0, 1]);
    regr!(v, rnd_eig, 0, NO_XVAL, [2, 1, 0, 0], [2, 1, 1, 0]);
    regr!(v, rnd_eig, 1, NO_XVAL, [2, 2, 1, 1], [2, 3, 0, 1]);
    regr!(v, rnd_eigcut, 0, NO_XVAL, [2, 2, 1, 0, 0], [2, 2, 2, 0, 1], [2, 2, 3, 0, 2], [3, 3, 1, 0, 0], [3, 3, 2, 0, 0], [4, 4, 1, 0, 0]);
    regr!(v, rnd_eigcut, 1, NO_XVAL, [3, 3, 3, 0, 1], [3, 3, 5, 1, 0], [4, 4, 2, 0, 0]);
    regr!(v, rnd_gen, 0, NO_XVAL, [2, 1, 0, 0, 0], [2, 1, 1, 0, 0], [2, 1, 4, 2, 0], [2, 1, 0, 0, 1], [2, 1, 1, 0, 1], [2, 1, 4, 1, 1], [3, 1, 4, 1, 0], [3, 2, 4, 2, 0], [4, 2, 4, 2, 0], [3, 3, 4, 1, 1]);
    regr!(v, rnd_gen, 1, NO_XVAL, [2, 2, 1, 1, 0], [5, 2, 4, 2, 0]);
    regr!(v, rnd_pat, 0, NO_XVAL | BRISK, [4, 0, 1, -2, 2, 99, 3, 2, 1, 3, 0, 0, 2, -2, 0, 0, 1, 2], [4, 0, 99, 1, 2, 1, 0, 5, 1, 3, 0, 0, 1, -2, 0, 0, 3, 2]);
    regr!(v, rnd_gencut, 0, NO_XVAL | BRISK, [0, 3, 0, 4, 1, 1, 99, 2, 5, -4, 1, 2], [0, 4, 0, 1, 2, 3, 99, 1, 3, 2, 5, 2, 1, 0, 4, 2, 7, 1, 1]);
    regr!(v, rnd_pat, 1, NO_XVAL | BRISK, [3, 0, 1, 0, 0, 99, 1, 2, 0, 3, 2]);
    regr!(v, rnd_svdrow, 0, NO_XVAL, [3, 1, 0, 0], [3, 1, 1, 0], [3, 1, 0, 1], [3, 2, 1, 1], [4, 2, 1, 0]);
    regr!(v, rnd_svd, 0, NO_XVAL, [2, 1, 1, 0, 0, 0], [2, 2, 1, 0, 0, 0], [3, 2, 1, 1, 0, 0], [3, 1, 1, 1, 1, 0], [3, 2, 1, 1, 1, 0], [3, 3, 2, 0, 0, 0], [3, 1, 1, 1, 1, 1], [3, 2, 1, 1, 0, 1]);
    regr!(v, rnd_svd, 1, NO_XVAL, [2, 2, 1, 0, 1, 1], [3, 3, 2, 1, 1, 1]);
    regr!(v, rnd_svdcut, 0, NO_XVAL, [2, 2, 1, 0, 0, 0], [2, 2, 3, 1, 0, 1], [3, 2, 2, 0, 0, 1]);
    regr!(v, rnd_svdcut, 1, NO_XVAL, [2, 2, 2, 0, 1, 0], [3, 2, 1, 0, 0, 0]);
}
