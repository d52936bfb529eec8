//! C10: no result depends on memory the library never wrote. Fresh memory is filled with a pattern that is no valid
//! symbolic number; reading it yields an unconstrained symbol that taints everything computed from it.
use super::*;
use crate::elem::Elem;
use crate::reg;
use la::{CholeskyDecomposition, EigenDecomposition, LUDecomposition, Matrix, QRDecomposition, SVD};

fn em<T: Elem>(label: &str, a: &Matrix<T>) {
    T::ok(a.rows() > 0 && a.get_data().len() == a.rows() * a.cols(), label);
    T::emit_int(label, a.rows() as i64);
    T::emit_int(label, a.cols() as i64);
    for x in a.get_data().iter() { T::emit(label, *x); }
}
fn eo<T: Elem>(label: &str, a: &Option<Matrix<T>>) {
    T::emit_int(label, a.is_some() as i64);
    if let Some(ref a) = *a { em(label, a); }
}
fn done<T: Elem>() { T::ok(!T::dirty_reads(), "an operation read memory that was never written"); }

pub fn dirty_make<T: Elem>(p: &[i64]) {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let gen = |nm: &str, m: usize, n: usize| if m * n <= 6 { sym_mat::<T>(nm, m, n) } else { mat(m, n, |i, j| T::int((i * n + j + 1) as i64)) };
    let dv = |nm: &str, n: usize| (0..n).map(|i| if m * n <= 6 { T::var(&format!("{}{}", nm, i)) } else { T::int(i as i64 + 1) }).collect::<Vec<T>>();
    let a = gen("a", m, n);
    let b = gen("b", m, n);
    em("new", &a);
    em("vector", &Matrix::vector(dv("v", m)));
    em("row_vector", &Matrix::row_vector(dv("v", m)));
    em("id", &Matrix::<T>::id(m, n));
    em("zero", &Matrix::<T>::zero(m, n));
    em("zero_vector", &Matrix::<T>::zero_vector(m));
    em("one_vector", &Matrix::<T>::one_vector(m));
    em("diag", &Matrix::diag(dv("d", m)));
    em("block_diag", &Matrix::block_diag(m, n, dv("d", m.min(n))));
    let r = Matrix::<T>::random(m.min(7), n.min(7));
    if T::symbolic() { em("random", &r); }
    em("map", &a.map(&|x: &T| *x + T::one()));
    em("reduce", &a.reduce(&dv("i", n), &|s: &T, x: &T| *s + *x));
    em("scale", &a.scale(T::int(3)));
    em("elem_mul", &a.elem_mul(&b));
    em("elem_div", &a.elem_div(&a.map(&|_: &T| T::int(2))));
    em("neg", &-&a);
    em("add", &(&a + &b));
    em("sub", &(&a - &b));
    em("cr", &a.cr(&gen("c", m, 2)));
    em("cb", &a.cb(&gen("e", 2, n)));
    em("cr same", &a.cr(&b));
    em("cb same", &a.cb(&b));
    em("t", &a.t());
    let mut c = a.clone();
    c.mt();
    em("mt", &c);
    for i in 0..m { for j in 0..n { if m > 1 && n > 1 { em("minor", &a.minor(i, j)); } } }
    for i in 0..m { for j in 0..n { for k in i + 1..m + 1 { for l in j + 1..n + 1 { em("sub_matrix", &a.sub_matrix(i, j, k, l)); } } } }
    for j in 0..n { em("get_column", &a.get_column(j)); }
    let rp: Vec<usize> = (0..m + 1).map(|i| (i * 2 + 1) % m).collect();
    let cp: Vec<usize> = (0..n + 2).map(|i| (i * 2 + 1) % n).collect();
    em("permute_rows", &a.permute_rows(&rp));
    em("permute_columns", &a.permute_columns(&cp));
    em("permute_rows", &a.permute_rows(&[m - 1]));
    em("permute_columns", &a.permute_columns(&[n - 1]));
    em("filter_rows", &a.filter_rows(&|_, i| i % 2 == 0));
    em("filter_columns", &a.filter_columns(&|_, i| i % 2 == 0));
    em("select_rows", &a.select_rows(&(0..m).map(|i| i + 1 == m).collect::<Vec<_>>()));
    em("select_columns", &a.select_columns(&(0..n).map(|i| i + 1 == n).collect::<Vec<_>>()));
    T::emit("trace", a.trace());
    done::<T>();
}
pub fn dirty_mul<T: Elem>(p: &[i64]) {
    let (m, k, n) = (p[0] as usize, p[1] as usize, p[2] as usize);
    let a = sym_mat::<T>("a", m, k);
    let b = sym_mat::<T>("b", k, n);
    em("mul", &(&a * &b));
    let mut c = a.clone();
    c.mmul(&b);
    em("mmul", &c);
    done::<T>();
}
pub fn dirty_norm<T: Elem>(p: &[i64]) {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let a = sym_mat::<T>("a", m, n);
    T::emit("frobenius_norm", a.frobenius_norm());
    T::emit_int("is_symmetric", a.is_symmetric() as i64);
    if n == 1 {
        T::emit("length", a.length());
        T::emit("vector_1_norm", a.vector_1_norm());
        T::emit("vector_inf_norm", a.vector_inf_norm());
    }
    done::<T>();
}
pub fn dirty_lu<T: Elem>(p: &[i64]) {
    let (m, n, nx) = (p[0] as usize, p[1] as usize, p[2] as usize);
    let a = sym_mat::<T>("a", m, n);
    let d = LUDecomposition::new(&a);
    em("LU get_l", &d.get_l());
    em("LU get_u", &d.get_u());
    em("LU get_p", &d.get_p());
    for x in d.get_piv().iter() { T::emit_int("LU get_piv", *x as i64); }
    if m == n {
        T::emit("LU det", d.det());
        T::emit_int("LU is_singular", d.is_singular() as i64);
        let b = sym_mat::<T>("b", m, nx);
        eo("LU solve", &d.solve(&b));
        eo("Matrix::solve", &a.solve(&b));
        eo("Matrix::inverse", &a.inverse());
        T::emit("Matrix::det", a.det());
    }
    done::<T>();
}
pub fn dirty_qr<T: Elem>(p: &[i64]) {
    let (m, n, nx) = (p[0] as usize, p[1] as usize, p[2] as usize);
    let a = sym_mat::<T>("a", m, n);
    let d = QRDecomposition::new(&a);
    em("QR get_q", &d.get_q());
    em("QR get_r", &d.get_r());
    em("QR get_h", &d.get_h());
    T::emit_int("QR is_full_rank", d.is_full_rank() as i64);
    if nx > 0 && m >= n {
        eo("QR solve", &d.solve(&sym_mat::<T>("b", m, nx)));
    }
    done::<T>();
}
pub fn dirty_chol<T: Elem>(p: &[i64]) {
    let n = p[0] as usize;
    let a = if p[1] == 0 { super::eig::symm::<T>("a", n) } else { sym_mat::<T>("a", n, n) };
    match CholeskyDecomposition::new(&a) {
        None => T::emit_int("Cholesky", 0),
        Some(d) => {
            em("Cholesky get_l", d.get_l());
            em("Cholesky solve", &d.solve(&sym_mat::<T>("b", n, p[2] as usize)));
        }
    }
    done::<T>();
}
/// kinds of matrix: 0 all symbolic m x n, 1 one symbolic per column (permuted, some zero, optionally transposed),
/// 2 rank one, 3 every well-conditioned 2x2 (optionally spread and transposed), 4 2x2 block plus diagonal,
/// 5 symmetric, 6 quasi-triangular permuted, 7 rotated block, 8 zero
fn kind<T: Elem>(k: i64, p: &[i64]) -> Matrix<T> {
    match k {
        0 => sym_mat::<T>("a", p[0] as usize, p[1] as usize),
        1 => super::svd::flip(super::svd::monomial::<T>(p[0] as usize, p[1] as usize, p[2] as usize, p[4]), p[3]),
        2 => super::svd::rank1_mat::<T>(p),
        3 => super::svd::gen2p::<T>(p),
        4 => super::svd::sum_mat::<T>(p),
        5 => super::eig::symm::<T>("a", p[0] as usize),
        6 => super::eig::perm_mat::<T>(p),
        7 => super::eig::rot_mat::<T>(p),
        _ => mat(p[0] as usize, p[1] as usize, |_, _| T::zero()),
    }
}
pub fn dirty_svd<T: Elem>(p: &[i64]) {
    let a = kind::<T>(p[0], &p[1..]);
    let d = SVD::new(&a);
    em("SVD get_u", d.get_u());
    em("SVD get_s", d.get_s());
    em("SVD get_v", d.get_v());
    done::<T>();
}
pub fn dirty_rank<T: Elem>(p: &[i64]) {
    T::emit_int("SVD rank", SVD::new(&kind::<T>(p[0], &p[1..])).rank() as i64);
    done::<T>();
}
pub fn dirty_direct<T: Elem>(p: &[i64]) {
    let a = kind::<T>(p[0], &p[1..]);
    // full rank
    if p[0] == 0 { for x in a.get_data().iter() { T::assume_nz(*x); } }
    if p[0] == 1 {
        let pm = super::eig::perm_of(p[1] as usize, p[3] as usize);
        for j in 0..p[2] as usize { T::assume_nz(if p[4] == 1 { at(&a, j, pm[j]) } else { at(&a, pm[j], j) }); }
    }
    let d = SVD::direct(&a);
    em("SVD::direct get_u", d.get_u());
    em("SVD::direct get_s", d.get_s());
    em("SVD::direct get_v", d.get_v());
    done::<T>();
}
pub fn dirty_pinv<T: Elem>(p: &[i64]) {
    let a = kind::<T>(p[0], &p[1..]);
    T::assume_nz(det(&mul(&tr(&a), &a)));
    em("pinverse", &a.pinverse());
    done::<T>();
}
pub fn dirty_eig<T: Elem>(p: &[i64]) {
    let a = kind::<T>(p[0], &p[1..]);
    let d = EigenDecomposition::new(&a);
    em("eigen get_v", d.get_v());
    em("eigen get_d", &d.get_d());
    for x in d.get_real_eigenvalues().iter() { T::emit("eigen real parts", *x); }
    for x in d.get_imag_eigenvalues().iter() { T::emit("eigen imaginary parts", *x); }
    done::<T>();
}
// ---- larger sizes, from known factors
/// p as for lu_big, then the right-hand sides
pub fn dirty_lu_big<T: Elem>(p: &[i64]) {
    let (_, a, _, _) = super::large::plu::<T>(p);
    let d = LUDecomposition::new(&a);
    em("LU get_l", &d.get_l());
    em("LU get_u", &d.get_u());
    em("LU get_p", &d.get_p());
    for x in d.get_piv().iter() { T::emit_int("LU get_piv", *x as i64); }
    if p[0] == p[1] {
        let n = a.rows();
        T::emit("LU det", d.det());
        T::emit("Matrix::det", a.det());
        let b = mat(n, p[4] as usize, |i, j| T::int((i * 3 + j * 2) as i64 % 7 - 3));
        eo("LU solve", &d.solve(&b));
        eo("Matrix::solve", &a.solve(&b));
        eo("Matrix::inverse", &a.inverse());
    }
    done::<T>();
}
pub fn dirty_qr_big<T: Elem>(p: &[i64]) {
    let a = super::large::qr_mat::<T>(p);
    let d = QRDecomposition::new(&a);
    em("QR get_q", &d.get_q());
    em("QR get_r", &d.get_r());
    em("QR get_h", &d.get_h());
    T::emit_int("QR is_full_rank", d.is_full_rank() as i64);
    if p[0] >= p[1] {
        eo("QR solve", &d.solve(&mat(a.rows(), p[4] as usize, |i, j| T::int((i * 3 + j * 2) as i64 % 7 - 3))));
        if p[4] == 1 { em("pinverse", &a.pinverse()); }
    }
    done::<T>();
}
/// p as for chol_big
pub fn dirty_chol_big<T: Elem>(p: &[i64]) {
    let l = super::large::chol_l::<T>(p);
    let a = mul(&l, &tr(&l));
    match CholeskyDecomposition::new(&a) {
        None => T::emit_int("Cholesky", 0),
        Some(d) => {
            em("Cholesky get_l", d.get_l());
            em("Cholesky solve", &d.solve(&mat(a.rows(), p[3] as usize, |i, j| T::int((i * 3 + j * 2) as i64 % 7 - 3))));
        }
    }
    done::<T>();
}
pub fn dirty_svd_big<T: Elem>(p: &[i64]) {
    let (a, _) = super::large::qd_mat::<T>(p);
    let d = SVD::new(&a);
    em("SVD get_u", d.get_u());
    em("SVD get_s", d.get_s());
    em("SVD get_v", d.get_v());
    done::<T>();
}
pub fn dirty_direct_big<T: Elem>(p: &[i64]) {
    let (a, d) = super::large::qd_mat::<T>(p);
    for x in d.iter() { T::assume_nz(*x); }
    let d = SVD::direct(&a);
    em("SVD::direct get_u", d.get_u());
    em("SVD::direct get_s", d.get_s());
    em("SVD::direct get_v", d.get_v());
    done::<T>();
}
/// p[0]: 0 symmetric (as eig_big), 1 general (as gen_big)
pub fn dirty_eig_big<T: Elem>(p: &[i64]) {
    let a = if p[0] == 0 { super::large::eig_mat::<T>(&p[1..]) } else { super::large::gen_mat::<T>(&p[1..]) };
    let d = EigenDecomposition::new(&a);
    em("eigen get_v", d.get_v());
    em("eigen get_d", &d.get_d());
    for x in d.get_real_eigenvalues().iter() { T::emit("eigen real parts", *x); }
    for x in d.get_imag_eigenvalues().iter() { T::emit("eigen imaginary parts", *x); }
    done::<T>();
}
pub fn register(v: &mut Vec<Harness>) {
    reg!(v, "C10", dirty_make, 0, FILLS, [1, 1], [1, 2], [2, 1], [1, 4], [4, 1], [2, 2], [2, 3], [3, 2], [3, 3], [2, 5], [5, 2], [4, 3], [6, 6], [3, 7], [9, 8], [17, 2], [2, 17]);
    reg!(v, "C10", dirty_mul, 0, FILLS, [1, 1, 1], [1, 2, 1], [2, 1, 2], [2, 2, 2], [2, 3, 4], [4, 3, 2], [3, 1, 5], [4, 4, 4], [5, 6, 7], [9, 2, 9], [1, 9, 1], [2, 1, 9], [1, 2, 17], [9, 3, 1]);
    reg!(v, "C10", dirty_norm, 0, FILLS, [1, 1], [1, 2], [2, 1], [2, 2], [3, 1], [2, 3], [3, 2], [3, 3]);
    reg!(v, "C10", dirty_norm, 0, FILLS, [9, 1], [4, 4], [5, 2], [6, 6]);
    reg!(v, "C10", dirty_lu_big, 0, FILLS, [4, 4, 1, 1, 1], [5, 5, 1, 2, 3], [6, 6, 2, 2, 7], [7, 7, 3, 1, 1], [9, 9, 5, 1, 2], [7, 4, 7, 2], [4, 7, 8, 2], [9, 2, 9, 2], [2, 9, 10, 2]);
    reg!(v, "C10", dirty_qr_big, 0, FILLS, [4, 4, 1, 1, 1], [5, 5, 2, 1, 2], [7, 7, 4, 1, 8], [5, 3, 5, 2, 1], [2, 8, 8, 2, 0], [4, 7, 10, 1, 0], [8, 5, 8, 1, 1], [8, 2, 7, 2, 2]);
    reg!(v, "C10", dirty_chol_big, 0, FILLS, [4, 1, 1, 1], [5, 5, 2, 2], [6, 6, 2, 1], [7, 7, 1, 3], [8, 8, 1, 9], [9, 9, 1, 1], [12, 10, 1, 1]);
    reg!(v, "C10", dirty_svd_big, 0, FILLS, [5, 4, 3, 1], [6, 3, 4, 1], [7, 2, 8, 0], [7, 5, 7, 0], [5, 5, 12, 0]);
    reg!(v, "C10", dirty_direct_big, 0, FILLS, [4, 3, 0, 0], [5, 4, 2, 0], [5, 3, 4, 1], [6, 5, 6, 0]);
    reg!(v, "C10", dirty_eig_big, 0, FILLS, [0, 4, 2], [0, 5, 8], [0, 7, 6], [0, 8, 13], [1, 5, 2, 0, 4], [1, 6, 1, 1, 3], [1, 7, 3, 0, 6]);
    reg!(v, "C10", dirty_lu, 0, FILLS, [1, 1, 1], [1, 2, 1], [2, 1, 1], [2, 2, 1], [2, 2, 3], [2, 3, 1], [3, 2, 1], [3, 3, 1], [2, 4, 1], [4, 2, 1]);
    reg!(v, "C10", dirty_qr, 0, FILLS, [1, 1, 1], [1, 2, 0], [1, 3, 0], [2, 1, 1], [2, 1, 2], [3, 1, 1], [2, 2, 2], [2, 3, 0], [3, 2, 1]);
    reg!(v, "C10", dirty_chol, 0, FILLS, [1, 0, 1], [2, 0, 1], [2, 0, 3], [2, 1, 1], [3, 0, 1], [3, 1, 1]);
    reg!(v, "C10", dirty_svd, 0, FILLS, [0, 1, 1], [0, 2, 1], [0, 1, 2], [0, 3, 1], [0, 1, 3], [1, 2, 2, 1, 0, 0], [1, 3, 2, 4, 0, 0], [1, 3, 2, 2, 1, 0], [1, 3, 3, 3, 0, 2], [1, 3, 2, 4, 1, 1], [1, 4, 2, 11, 0, 0], [1, 4, 2, 11, 1, 0],
        [1, 5, 1, 0, 0, 0], [1, 5, 2, 0, 1, 0], [1, 5, 2, 0, 0, 3], [2, 3, 2, 3, 4, 99, 99, 4], [2, 2, 3, 99, 1, 3, 4, 99], [3, 2, 0, 0, 0], [3, 3, 10, 0, 11], [3, 3, 2, 1, 20], [4, 3, 3, 0, 0, 0, 0], [8, 2, 2], [8, 3, 2], [8, 2, 4]);
    reg!(v, "C10", dirty_rank, 0, FILLS | CONCRETE_EPS, [0, 1, 1], [0, 2, 1], [0, 1, 2], [1, 3, 2, 4, 0, 0], [1, 3, 2, 2, 1, 0], [1, 4, 2, 11, 0, 0], [1, 4, 2, 11, 1, 0], [8, 3, 2], [8, 2, 3]);
    reg!(v, "C10", dirty_direct, 0, FILLS, [0, 1, 1], [0, 2, 1], [0, 1, 2], [1, 2, 2, 1, 0, 0], [1, 3, 2, 4, 0, 0], [1, 3, 2, 2, 1, 0], [3, 2, 0, 0, 0], [3, 3, 10, 0, 11], [3, 3, 2, 1, 20]);
    reg!(v, "C10", dirty_pinv, 0, FILLS, [0, 1, 1], [0, 2, 1], [0, 2, 2], [0, 3, 2]);
    reg!(v, "C10", dirty_eig, 0, FILLS, [5, 1], [5, 2], [0, 2, 2], [6, 3, 0, 7, 0], [6, 3, 1, 0, 3], [6, 3, 2, 0, 5], [6, 4, 5, 0, 9], [7, 3, 1, 0]);
}
