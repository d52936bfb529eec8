//! C33: what is negligible is judged at the element type's own precision. The symbolic scalar's machine epsilon is
//! itself symbolic here; constants of the library keep their values. Counterexamples are replayed in f32.
use super::*;
use crate::{reg32};
use la::{EigenDecomposition, Matrix, SVD};

/// a symbol of magnitude 1 to 2
fn unit<T: Elem>(nm: &str) -> T { let x = T::var(nm); T::assume(x.abs() >= T::one() && x.abs() <= T::int(2)); x }
/// an entry that is negligible next to numbers of magnitude 1
fn small<T: Elem>(nm: &str, eps: T) -> T { let x = T::var(nm); T::assume(x.abs() <= T::q(1, 4)); x * eps }
fn trivial<T: Elem>(a: &Matrix<T>) -> bool { a.get_data().iter().all(|x| *x == T::zero() || *x == T::one() || *x == T::zero() - T::one()) }
/// the entries of `d` are the magnitudes of `want` in descending order
fn sorted_as<T: Elem>(d: &[T], want: &[T], abs: bool) -> bool {
    let mut left: Vec<T> = want.iter().map(|x| if abs { x.abs() } else { *x }).collect();
    for (i, x) in d.iter().enumerate() {
        if i > 0 && *x > d[i - 1] { return false; }
        match left.iter().position(|y| y == x) { Some(k) => { left.remove(k); } None => return false }
    }
    true
}

const RANK: &str = "precision: rank counts the singular values above max(m,n)*epsilon of the type*largest";
/// p = [m, n, transposed]: diagonal, every entry but the first one any multiple of the type's epsilon
pub fn prec_rank<T: Elem>(p: &[i64]) {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let eps = T::prec();
    let d: Vec<T> = (0..n).map(|i| if i == 0 { unit("d0") } else { let x = T::var(&format!("d{}", i)); T::assume(x.abs() <= T::int(8)); x * eps }).collect();
    let a = mat(m, n, |i, j| if i == j { d[i] } else { T::zero() });
    let a = if p[2] == 1 { tr(&a) } else { a };
    let tol = T::int(m.max(n) as i64) * eps;
    let mut big = d[0].abs();
    for x in d.iter() { if x.abs() > big { big = x.abs(); } }
    // away from the borderline, where rounding decides
    let mut k = 0;
    for x in d.iter() {
        T::assume(x.abs() <= tol * big * T::q(3, 4) || x.abs() >= tol * big * T::q(5, 4));
        if x.abs() > tol * big { k += 1; }
    }
    T::ok(SVD::new(&a).rank() == k, RANK);
}
const SV: &str = "precision: an off-diagonal entry below the epsilon of the type is negligible for the singular value iteration";
/// p = [m, n, transposed]: upper bidiagonal with negligible entries above the diagonal
pub fn prec_svd<T: Elem>(p: &[i64]) {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let eps = T::prec();
    let d: Vec<T> = (0..n).map(|i| unit(&format!("d{}", i))).collect();
    let e: Vec<T> = (0..n).map(|i| if i + 1 < n { small(&format!("e{}", i), eps) } else { T::zero() }).collect();
    let a = mat(m, n, |i, j| if i == j { d[i] } else if i + 1 == j { e[i] } else { T::zero() });
    let s = SVD::new(&if p[2] == 1 { tr(&a) } else { a });
    let k: Vec<T> = (0..n).map(|i| at(s.get_s(), i, i)).collect();
    T::ok(sorted_as(&k, &d, true), SV);
    T::ok(trivial(s.get_u()) && trivial(s.get_v()), SV);
}
const EIG: &str = "precision: a sub-diagonal entry below the epsilon of the type is negligible for the eigenvalue iteration";
/// p = [n]: symmetric tridiagonal with negligible entries off the diagonal
pub fn prec_sym<T: Elem>(p: &[i64]) {
    let n = p[0] as usize;
    let eps = T::prec();
    let d: Vec<T> = (0..n).map(|i| unit(&format!("d{}", i))).collect();
    let e: Vec<T> = (0..n - 1).map(|i| small(&format!("e{}", i), eps)).collect();
    let a = mat(n, n, |i, j| if i == j { d[i] } else if i + 1 == j { e[i] } else if j + 1 == i { e[j] } else { T::zero() });
    let x = EigenDecomposition::new(&a);
    T::ok(sorted_as(x.get_real_eigenvalues(), &d, false), EIG);
    T::ok(trivial(x.get_v()), EIG);
}
/// p = [n]: upper triangular but for negligible entries below the diagonal, equal entries next to each other avoided
pub fn prec_gen<T: Elem>(p: &[i64]) {
    let n = p[0] as usize;
    let eps = T::prec();
    let d: Vec<T> = (0..n).map(|i| unit(&format!("d{}", i))).collect();
    let e: Vec<T> = (0..n - 1).map(|i| { let x = small(&format!("e{}", i), eps); T::assume_nz(x); x }).collect();
    let a = mat(n, n, |i, j| if i == j { d[i] } else if i + 1 == j { T::int(3) } else if j + 1 == i { e[j] } else { T::zero() });
    let x = EigenDecomposition::new(&a);
    T::ok(x.get_imag_eigenvalues().iter().all(|y| *y == T::zero()), EIG);
    for i in 0..n { T::ok(x.get_real_eigenvalues()[i] == d[i], EIG); for j in 0..i { T::ok(at(x.get_v(), i, j) == T::zero(), EIG); } }
}
const KEEP: &str = "precision: an off-diagonal entry well above the epsilon of the type is not dropped";
/// p = [kind (0 svd, 1 symmetric, 2 general), m, n, transposed, which entry, the symbolic diagonal entry of kind 0]: bidiagonal or tridiagonal, one
/// off-diagonal entry at least eight times the type's epsilon, the others anything: the iteration has to
/// act, and its first act takes a square root
pub fn prec_keep<T: Elem>(p: &[i64]) {
    let (m, n) = (p[1] as usize, p[2] as usize);
    let eps = T::prec();
    let d: Vec<T> = (0..n).map(|i| if p[0] > 0 || i == p[5] as usize { unit(&format!("d{}", i)) } else { T::int(1 + i as i64 % 2) }).collect();
    let e: Vec<T> = (0..n - 1).map(|i| {
        let x = T::var(&format!("e{}", i));
        T::assume(x.abs() <= T::q(1, 4));
        if i == p[4] as usize { T::assume(x.abs() >= eps * T::int(8)); }
        x
    }).collect();
    let up = |i: usize, j: usize| if i == j { Some(d[i]) } else if i + 1 == j { Some(e[i]) } else { None };
    T::cut_at_sqrt();
    let idle = match p[0] {
        0 => {
            let a = mat(m, n, |i, j| up(i, j).unwrap_or(T::zero()));
            let s = SVD::new(&if p[3] == 1 { tr(&a) } else { a });
            trivial(s.get_u()) && trivial(s.get_v())
        }
        1 => trivial(EigenDecomposition::new(&mat(n, n, |i, j| up(i, j).or(up(j, i)).unwrap_or(T::zero()))).get_v()),
        _ => {
            let x = EigenDecomposition::new(&mat(n, n, |i, j| if i < j { T::int(if i + 1 == j { 3 } else { 0 }) } else { up(j, i).unwrap_or(T::zero()) }));
            let v = x.get_v();
            x.get_imag_eigenvalues().iter().all(|y| *y == T::zero()) && (0..n).all(|i| (0..i).all(|j| at(v, i, j) == T::zero()))
        }
    };
    T::ok(!idle, KEEP);
}
pub fn register(v: &mut Vec<Harness>) {
    reg32!(v, "C33", prec_rank, 0, CONCRETE_EPS, [2, 2, 0], [3, 2, 0], [3, 2, 1], [3, 3, 0]);
    reg32!(v, "C33", prec_svd, 0, CONCRETE_EPS, [2, 2, 0], [3, 2, 0], [3, 2, 1], [3, 3, 0]);
    reg32!(v, "C33", prec_sym, 0, CONCRETE_EPS, [2], [3]);
    reg32!(v, "C33", prec_gen, 0, CONCRETE_EPS, [2], [3]);
    reg32!(v, "C33", prec_keep, 0, CONCRETE_EPS, [0, 2, 2, 0, 0, 0], [0, 2, 2, 0, 0, 1], [0, 3, 2, 0, 0, 0], [0, 3, 2, 1, 0, 1], [0, 3, 3, 0, 0, 0], [0, 3, 3, 0, 1, 1], [1, 2, 2, 0, 0], [1, 3, 3, 0, 0], [1, 3, 3, 0, 1], [2, 2, 2, 0, 0], [2, 3, 3, 0, 0], [2, 3, 3, 0, 1]);
}
