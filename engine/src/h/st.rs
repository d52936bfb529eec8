//! C01-C09: shape and element operations with symbolic contents.
use super::*;
use crate::elem::{panics, Elem};
use crate::reg;
use la::Matrix;

fn vars<T: Elem>(nm: &str, n: usize) -> Vec<T> { if n > 12 { return many(nm, n); } (0..n).map(|i| T::var(&format!("{}{}", nm, i))).collect() }
/// well-formedness every matrix value must satisfy
fn wf<T: Elem>(a: &Matrix<T>, label: &str) {
    T::ok(a.rows() > 0 && a.cols() > 0 && a.get_data().len() == a.rows() * a.cols(), label);
}

// ------------------------------------------------------------------ C01
pub fn ctor_new<T: Elem>(p: &[i64]) {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let d = vars::<T>("d", m * n);
    let a = Matrix::new(m, n, d.clone());
    if !shape(&a, m, n, "Matrix::new: requested shape") { return; }
    for i in 0..m * n { T::eq_(a.get_data()[i], d[i], "Matrix::new: keeps the data in order"); }
    for k in [m * n - 1, m * n + 1] {
        let e = vars::<T>("e", k);
        panics::<T, _>("Matrix::new: wrong data length is rejected", || Matrix::new(m, n, e));
    }
    let e = vars::<T>("f", 0);
    panics::<T, _>("Matrix::new: zero rows are rejected", || Matrix::new(0, n, e.clone()));
    panics::<T, _>("Matrix::new: zero columns are rejected", || Matrix::new(m, 0, e.clone()));
    let v = Matrix::vector(d.clone());
    if shape(&v, m * n, 1, "vector: one column") { for i in 0..m * n { T::eq_(v.get_data()[i], d[i], "vector: keeps the data"); } }
    let v = Matrix::row_vector(d.clone());
    if shape(&v, 1, m * n, "row_vector: one row") { for i in 0..m * n { T::eq_(v.get_data()[i], d[i], "row_vector: keeps the data"); } }
    panics::<T, _>("vector: empty data is rejected", || Matrix::<T>::vector(vec![]));
    panics::<T, _>("row_vector: empty data is rejected", || Matrix::<T>::row_vector(vec![]));
}
/// dimensions whose product only wraps to the data length
pub fn ctor_wrap<T: Elem>(_: &[i64]) {
    const H: usize = 1 << 63;
    for k in 0..9usize {
        for d in 2..8usize {
            // r * d = k modulo 2^64
            for q in 1..d {
                let t = (q as u128) * (1u128 << 64) + k as u128;
                if t % d as u128 != 0 { continue; }
                let r = (t / d as u128) as usize;
                let e = vec![T::one(); k];
                let l = "Matrix::new: a data length that equals rows*columns only by wrap-around is rejected";
                panics::<T, _>(l, || Matrix::new(r, d, e.clone()));
                panics::<T, _>(l, || Matrix::new(d, r, e.clone()));
            }
        }
    }
    for (r, c) in [(H, 2), (2, H), (1 << 32, 1 << 32), (1 << 40, 1 << 30)] {
        let l = "a shape whose element count wraps around is rejected";
        panics::<T, _>(l, || Matrix::<T>::new(r, c, vec![]));
        panics::<T, _>(l, || Matrix::<T>::zero(r, c));
        panics::<T, _>(l, || Matrix::<T>::id(r, c));
        if r.min(c) == 2 { panics::<T, _>(l, || Matrix::<T>::block_diag(r, c, vec![T::one(); 2])); }
    }
}
pub fn ctor_const<T: Elem>(p: &[i64]) {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let k = m.min(n);
    same(&Matrix::<T>::id(m, n), &mat(m, n, |i, j| if i == j { T::one() } else { T::zero() }), "id: ones on the diagonal, zeros elsewhere");
    same(&Matrix::<T>::zero(m, n), &mat(m, n, |_, _| T::zero()), "zero: all zeros");
    same(&Matrix::<T>::zero_vector(m), &mat(m, 1, |_, _| T::zero()), "zero_vector: all zeros, one column");
    same(&Matrix::<T>::one_vector(m), &mat(m, 1, |_, _| T::one()), "one_vector: all ones, one column");
    let d = vars::<T>("d", m);
    same(&Matrix::diag(d.clone()), &mat(m, m, |i, j| if i == j { d[i] } else { T::zero() }), "diag: given diagonal, zeros elsewhere");
    let d = vars::<T>("b", k);
    same(&Matrix::block_diag(m, n, d.clone()), &mat(m, n, |i, j| if i == j { d[i] } else { T::zero() }), "block_diag: given diagonal, zeros elsewhere");
    for l in [k - 1, k + 1] {
        let e = vars::<T>("e", l);
        panics::<T, _>("block_diag: wrong number of diagonal elements is rejected", || Matrix::block_diag(m, n, e));
    }
    panics::<T, _>("id: zero rows are rejected", || Matrix::<T>::id(0, n));
    panics::<T, _>("id: zero columns are rejected", || Matrix::<T>::id(m, 0));
    panics::<T, _>("zero: zero rows are rejected", || Matrix::<T>::zero(0, n));
    panics::<T, _>("zero: zero columns are rejected", || Matrix::<T>::zero(m, 0));
    panics::<T, _>("zero_vector: zero rows are rejected", || Matrix::<T>::zero_vector(0));
    panics::<T, _>("one_vector: zero rows are rejected", || Matrix::<T>::one_vector(0));
    panics::<T, _>("diag: empty data is rejected", || Matrix::<T>::diag(vec![]));
    panics::<T, _>("block_diag: zero dimensions are rejected", || Matrix::<T>::block_diag(0, n, vec![]));
    panics::<T, _>("block_diag: zero dimensions are rejected", || Matrix::<T>::block_diag(m, 0, vec![]));
}

// ------------------------------------------------------------------ C02
pub fn access<T: Elem>(p: &[i64]) {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let a = sym_mat::<T>("a", m, n);
    let d = a.get_data().clone();
    for i in 0..m + 2 { for j in 0..n + 2 {
        if i < m && j < n {
            let w = d[i * n + j];
            T::eq_(a.get(i, j), w, "get: row-major element");
            T::eq_(*a.get_ref(i, j), w, "get_ref: row-major element");
            T::eq_(a[(i, j)], w, "index: row-major element");
            let x = T::var("x");
            let mut b = a.clone();
            T::eq_(*b.get_mref(i, j), w, "get_mref: row-major element");
            b.set(i, j, x);
            let want = mat(m, n, |r, c| if r == i && c == j { x } else { d[r * n + c] });
            same(&b, &want, "set: changes that element only");
            let mut b = a.clone();
            *b.get_mref(i, j) = x;
            same(&b, &want, "get_mref: changes that element only");
        } else {
            panics::<T, _>("get: out of range is rejected", || a.get(i, j));
            panics::<T, _>("get_ref: out of range is rejected", || *a.get_ref(i, j));
            panics::<T, _>("index: out of range is rejected", || a[(i, j)]);
            let mut b = a.clone();
            panics::<T, _>("get_mref: out of range is rejected", || *b.get_mref(i, j));
            let mut b = a.clone();
            panics::<T, _>("set: out of range is rejected", || b.set(i, j, T::one()));
        }
    } }
    same(&a, &mat(m, n, |i, j| d[i * n + j]), "access leaves the matrix alone");
    let mut b = a.clone();
    T::ok(b.get_mut_data().len() == m * n, "get_mut_data: all elements");
}

/// coordinates so large that the flattened offset wraps around into the storage
pub fn access_far<T: Elem>(p: &[i64]) {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let a = sym_mat::<T>("a", m, n);
    for (i, j) in far(m, n) {
        panics::<T, _>("get: out of range is rejected", || a.get(i, j));
        panics::<T, _>("get_ref: out of range is rejected", || *a.get_ref(i, j));
        panics::<T, _>("index: out of range is rejected", || a[(i, j)]);
        let mut b = a.clone();
        panics::<T, _>("get_mref: out of range is rejected", || *b.get_mref(i, j));
        let mut b = a.clone();
        panics::<T, _>("set: out of range is rejected", || b.set(i, j, T::one()));
    }
}
/// coordinates outside an m x n matrix whose row-major offset, modulo 2^64, is inside
fn far(m: usize, n: usize) -> Vec<(usize, usize)> {
    let mut o = vec![];
    for t in 0..m * n {
        // j = t - i*n
        for i in [m, m + 1, 1 << 32, 1 << 60, (usize::MAX / n).wrapping_add(1), usize::MAX / n, usize::MAX - 1, usize::MAX, 1 << 63, 0, 1] {
            let j = t.wrapping_sub(i.wrapping_mul(n));
            if i >= m || j >= n { o.push((i, j)); }
        }
    }
    for i in [0, m, usize::MAX] { o.push((i, usize::MAX)); o.push((usize::MAX, if i < n { i } else { 0 })); o.push((i, n)); }
    o
}

// ------------------------------------------------------------------ C03
pub fn elementwise<T: Elem>(p: &[i64]) {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let a = sym_mat::<T>("a", m, n);
    let b = sym_mat::<T>("b", m, n);
    let f = T::var("f");
    let (a0, b0) = (a.clone(), b.clone());
    let two = |g: &dyn Fn(T, T) -> T| mat(m, n, |i, j| g(at(&a, i, j), at(&b, i, j)));
    let w = two(&|x, y| x + y);
    same(&(&a + &b), &w, "add: elementwise sum");
    same(&(&a + b.clone()), &w, "add: elementwise sum");
    same(&(a.clone() + &b), &w, "add: elementwise sum");
    same(&(a.clone() + b.clone()), &w, "add: elementwise sum");
    let mut c = a.clone(); c.madd(&b); same(&c, &w, "madd: elementwise sum in place");
    let w = two(&|x, y| x - y);
    same(&(&a - &b), &w, "sub: elementwise difference");
    same(&(&a - b.clone()), &w, "sub: elementwise difference");
    same(&(a.clone() - &b), &w, "sub: elementwise difference");
    same(&(a.clone() - b.clone()), &w, "sub: elementwise difference");
    let mut c = a.clone(); c.msub(&b); same(&c, &w, "msub: elementwise difference in place");
    let w = two(&|x, _| T::zero() - x);
    same(&(-&a), &w, "neg: elementwise negation");
    same(&(-a.clone()), &w, "neg: elementwise negation");
    let mut c = a.clone(); c.mneg(); same(&c, &w, "mneg: elementwise negation in place");
    let w = two(&|x, _| f * x);
    same(&a.scale(f), &w, "scale: every element times the factor");
    let mut c = a.clone(); c.mscale(f); same(&c, &w, "mscale: every element times the factor, in place");
    let w = two(&|x, y| x * y);
    same(&a.elem_mul(&b), &w, "elem_mul: elementwise product");
    let mut c = a.clone(); c.melem_mul(&b); same(&c, &w, "melem_mul: elementwise product in place");
    for i in 0..m { for j in 0..n { T::assume_nz(at(&b, i, j)); } }
    let w = two(&|x, y| x / y);
    same(&a.elem_div(&b), &w, "elem_div: elementwise quotient");
    let mut c = a.clone(); c.melem_div(&b); same(&c, &w, "melem_div: elementwise quotient in place");
    same(&a, &a0, "elementwise operations leave the left operand alone");
    same(&b, &b0, "elementwise operations leave the right operand alone");
}
pub fn elementwise_reject<T: Elem>(p: &[i64]) {
    let a = sym_mat::<T>("a", p[0] as usize, p[1] as usize);
    let b = sym_mat::<T>("b", p[2] as usize, p[3] as usize);
    panics::<T, _>("add: shape mismatch is rejected", || &a + &b);
    panics::<T, _>("add: shape mismatch is rejected", || a.clone() + b.clone());
    panics::<T, _>("add: shape mismatch is rejected", || &a + b.clone());
    panics::<T, _>("add: shape mismatch is rejected", || a.clone() + &b);
    panics::<T, _>("sub: shape mismatch is rejected", || &a - &b);
    panics::<T, _>("sub: shape mismatch is rejected", || a.clone() - b.clone());
    panics::<T, _>("sub: shape mismatch is rejected", || &a - b.clone());
    panics::<T, _>("sub: shape mismatch is rejected", || a.clone() - &b);
    panics::<T, _>("madd: shape mismatch is rejected", || a.clone().madd(&b));
    panics::<T, _>("msub: shape mismatch is rejected", || a.clone().msub(&b));
    panics::<T, _>("elem_mul: shape mismatch is rejected", || a.elem_mul(&b));
    panics::<T, _>("melem_mul: shape mismatch is rejected", || a.clone().melem_mul(&b));
    for i in 0..b.get_data().len() { T::assume_nz(b.get_data()[i]); }
    panics::<T, _>("elem_div: shape mismatch is rejected", || a.elem_div(&b));
    panics::<T, _>("melem_div: shape mismatch is rejected", || a.clone().melem_div(&b));
}

// ------------------------------------------------------------------ C04
pub fn product<T: Elem>(p: &[i64]) {
    let (m, k, n) = (p[0] as usize, p[1] as usize, p[2] as usize);
    let a = sym_mat::<T>("a", m, k);
    let b = sym_mat::<T>("b", k, n);
    let w = mul(&a, &b);
    same(&(&a * &b), &w, "product: sum over the inner index");
    same(&(&a * b.clone()), &w, "product: sum over the inner index");
    same(&(a.clone() * &b), &w, "product: sum over the inner index");
    same(&(a.clone() * b.clone()), &w, "product: sum over the inner index");
    let mut c = a.clone();
    c.mmul(&b);
    same(&c, &w, "mmul: in-place product");
}
pub fn product_reject<T: Elem>(p: &[i64]) {
    let a = sym_mat::<T>("a", p[0] as usize, p[1] as usize);
    let b = sym_mat::<T>("b", p[2] as usize, p[3] as usize);
    panics::<T, _>("product: inner dimension mismatch is rejected", || &a * &b);
    panics::<T, _>("product: inner dimension mismatch is rejected", || &a * b.clone());
    panics::<T, _>("product: inner dimension mismatch is rejected", || a.clone() * &b);
    panics::<T, _>("product: inner dimension mismatch is rejected", || a.clone() * b.clone());
    panics::<T, _>("mmul: inner dimension mismatch is rejected", || a.clone().mmul(&b));
}

// ------------------------------------------------------------------ C05
pub fn transpose<T: Elem>(p: &[i64]) {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let a = sym_mat::<T>("a", m, n);
    let a0 = a.clone();
    let w = tr(&a);
    let t = a.t();
    same(&t, &w, "t: coordinates swapped");
    same(&t.t(), &a0, "t: twice restores the original");
    same(&a, &a0, "t: operand unchanged");
    let mut b = a.clone();
    b.mt();
    same(&b, &w, "mt: same result as t");
    b.mt();
    same(&b, &a0, "mt: twice restores the original");
}

// ------------------------------------------------------------------ C06
pub fn sub_all<T: Elem>(p: &[i64]) {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let a = sym_mat::<T>("a", m, n);
    for r0 in 0..m + 1 { for r1 in 0..m + 2 { for c0 in 0..n + 1 { for c1 in 0..n + 2 {
        if r0 < r1 && c0 < c1 && r1 <= m && c1 <= n {
            same(&a.sub_matrix(r0, c0, r1, c1), &mat(r1 - r0, c1 - c0, |i, j| at(&a, r0 + i, c0 + j)), "sub_matrix: exactly the requested block");
        } else {
            panics::<T, _>("sub_matrix: empty or outside range is rejected", || a.sub_matrix(r0, c0, r1, c1));
        }
    } } } }
}
pub fn block_far<T: Elem>(p: &[i64]) {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let a = sym_mat::<T>("a", m, n);
    let rs = [0, 1, m, m + 1, usize::MAX - 1, usize::MAX, 1 << 63, (usize::MAX / n).wrapping_add(1), usize::MAX / n];
    let cs = [0, 1, n, n + 1, usize::MAX - 1, usize::MAX, 1 << 63];
    let l = "sub_matrix: empty or outside range is rejected";
    for r0 in rs { for r1 in rs { for c0 in cs { for c1 in cs {
        if r0 < r1 && c0 < c1 && r1 <= m && c1 <= n { continue; }
        panics::<T, _>(l, || a.sub_matrix(r0, c0, r1, c1));
    } } } }
    for (i, j) in far(m, n) {
        panics::<T, _>("minor: index outside is rejected", || a.minor(i, j));
        if j >= n { panics::<T, _>("get_column: index outside is rejected", || a.get_column(j)); }
    }
}
pub fn select_far<T: Elem>(p: &[i64]) {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let a = sym_mat::<T>("a", m, n);
    for (i, j) in far(m, n) {
        if i >= m { panics::<T, _>("permute_rows: out-of-range index is rejected", || a.permute_rows(&[0, i])); }
        if j >= n { panics::<T, _>("permute_columns: out-of-range index is rejected", || a.permute_columns(&[j, 0])); }
    }
}
pub fn minor_all<T: Elem>(p: &[i64]) {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let a = sym_mat::<T>("a", m, n);
    for r in 0..m + 2 { for c in 0..n + 2 {
        if r < m && c < n && m > 1 && n > 1 {
            same(&a.minor(r, c), &mat(m - 1, n - 1, |i, j| at(&a, if i < r { i } else { i + 1 }, if j < c { j } else { j + 1 })), "minor: remaining elements in order");
        } else {
            panics::<T, _>("minor: index outside (or nothing left) is rejected", || a.minor(r, c));
        }
    } }
    for c in 0..n + 2 {
        if c < n { same(&a.get_column(c), &mat(m, 1, |i, _| at(&a, i, c)), "get_column: that column"); }
        else { panics::<T, _>("get_column: index outside is rejected", || a.get_column(c)); }
    }
}

// ------------------------------------------------------------------ C07
pub fn concat<T: Elem>(p: &[i64]) {
    let (m, n, k) = (p[0] as usize, p[1] as usize, p[2] as usize);
    let a = sym_mat::<T>("a", m, n);
    let b = sym_mat::<T>("b", m, k);
    let w = mat(m, n + k, |i, j| if j < n { at(&a, i, j) } else { at(&b, i, j - n) });
    same(&a.cr(&b), &w, "cr: left columns then right columns");
    same(&(a.clone() | &b), &w, "|: left columns then right columns");
    let c = sym_mat::<T>("c", k, n);
    same(&a.cb(&c), &mat(m + k, n, |i, j| if i < m { at(&a, i, j) } else { at(&c, i - m, j) }), "cb: top rows then bottom rows");
}
pub fn concat_reject<T: Elem>(p: &[i64]) {
    let a = sym_mat::<T>("a", p[0] as usize, p[1] as usize);
    let b = sym_mat::<T>("b", p[2] as usize, p[3] as usize);
    if a.rows() != b.rows() {
        panics::<T, _>("cr: different row counts are rejected", || a.cr(&b));
        panics::<T, _>("|: different row counts are rejected", || a.clone() | &b);
    }
    if a.cols() != b.cols() { panics::<T, _>("cb: different column counts are rejected", || a.cb(&b)); }
}

// ------------------------------------------------------------------ C08
fn lists(n: usize, len: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..len { let mut nx = vec![]; for l in &out { for v in 0..n { let mut k = l.clone(); k.push(v); nx.push(k); } } out = nx; }
    out
}
/// every list of length k over 0..n when there are at most 5000; otherwise orderings in runs, rotations, repetitions and
/// lists from a small generator
fn some_lists(n: usize, k: usize) -> Vec<Vec<usize>> {
    if (n as f64).powi(k as i32) <= 5000.0 { return lists(n, k); }
    let r = n - 1;
    let mut v: Vec<Vec<usize>> = vec![];
    for s in 0..n {
        v.push((0..k).map(|i| (i + s) % r).collect());
        v.push((0..k).map(|i| (2 * n * k + s - i) % r).collect());
        v.push((0..k).map(|i| (2 * i + s) % r).collect());
        v.push((0..k).map(|i| (i / 2 + s) % r).collect());
        v.push((0..k).map(|_| s).collect());
        v.push((0..k).map(|i| (i + s) % n).collect());
    }
    let mut g = super::large::Gen::new((n * 31 + k) as i64);
    for _ in 0..60 {
        v.push((0..k).map(|_| g.int(0, r as i64 - 1) as usize).collect());
        // a permutation of all indices, cut or continued
        let p = g.perm(r);
        v.push((0..k).map(|i| p[i % r]).collect());
        // two entries swapped in a run
        let mut q: Vec<usize> = (0..k).map(|i| i % r).collect();
        let (a, b) = (g.int(0, k as i64 - 1) as usize, g.int(0, k as i64 - 1) as usize);
        q.swap(a, b);
        v.push(q);
    }
    v
}
pub fn permute<T: Elem>(p: &[i64]) {
    let (m, n, k) = (p[0] as usize, p[1] as usize, p[2] as usize);
    let a = sym_mat::<T>("a", m, n);
    for l in some_lists(m + 1, k) {
        if l.iter().all(|x| *x < m) && k > 0 { same(&a.permute_rows(&l), &mat(k, n, |i, j| at(&a, l[i], j)), "permute_rows: one row per entry, in order"); }
        else { panics::<T, _>("permute_rows: out-of-range index or empty list is rejected", || a.permute_rows(&l)); }
    }
    for l in some_lists(n + 1, k) {
        if l.iter().all(|x| *x < n) && k > 0 { same(&a.permute_columns(&l), &mat(m, k, |i, j| at(&a, i, l[j])), "permute_columns: one column per entry, in order"); }
        else { panics::<T, _>("permute_columns: out-of-range index or empty list is rejected", || a.permute_columns(&l)); }
    }
    let big = vec![usize::MAX; k.max(1)];
    panics::<T, _>("permute_rows: out-of-range index is rejected", || a.permute_rows(&big));
    panics::<T, _>("permute_columns: out-of-range index is rejected", || a.permute_columns(&big));
}
pub fn filter<T: Elem>(p: &[i64]) {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let a = sym_mat::<T>("a", m, n);
    let bits = |x: usize, n: usize| -> Vec<bool> { (0..n).map(|i| x >> i & 1 == 1).collect() };
    for x in 0..1usize << m {
        let sel = bits(x, m);
        let keep: Vec<usize> = (0..m).filter(|i| sel[*i]).collect();
        let log = std::cell::RefCell::new(vec![]);
        let f = |q: &Matrix<T>, r: usize| -> bool { log.borrow_mut().push((q as *const Matrix<T> as usize, r)); sel[r] };
        if keep.is_empty() {
            panics::<T, _>("filter_rows: keeping nothing is rejected", || a.filter_rows(&f));
            panics::<T, _>("select_rows: keeping nothing is rejected", || a.select_rows(&sel));
        } else {
            let w = mat(keep.len(), n, |i, j| at(&a, keep[i], j));
            same(&a.filter_rows(&f), &w, "filter_rows: the rows marked true in order");
            same(&a.select_rows(&sel), &w, "select_rows: the rows marked true in order");
            T::ok(*log.borrow() == (0..m).map(|i| (&a as *const Matrix<T> as usize, i)).collect::<Vec<_>>(), "filter_rows: predicate consulted with the matrix and each index");
        }
    }
    for x in 0..1usize << n {
        let sel = bits(x, n);
        let keep: Vec<usize> = (0..n).filter(|i| sel[*i]).collect();
        let log = std::cell::RefCell::new(vec![]);
        let f = |q: &Matrix<T>, r: usize| -> bool { log.borrow_mut().push((q as *const Matrix<T> as usize, r)); sel[r] };
        if keep.is_empty() {
            panics::<T, _>("filter_columns: keeping nothing is rejected", || a.filter_columns(&f));
            panics::<T, _>("select_columns: keeping nothing is rejected", || a.select_columns(&sel));
        } else {
            let w = mat(m, keep.len(), |i, j| at(&a, i, keep[j]));
            same(&a.filter_columns(&f), &w, "filter_columns: the columns marked true in order");
            same(&a.select_columns(&sel), &w, "select_columns: the columns marked true in order");
            T::ok(*log.borrow() == (0..n).map(|i| (&a as *const Matrix<T> as usize, i)).collect::<Vec<_>>(), "filter_columns: predicate consulted with the matrix and each index");
        }
    }
    for d in [0usize, 1, 2] {
        if d == 1 { continue; }
        panics::<T, _>("select_rows: mask of the wrong length is rejected", || a.select_rows(&vec![true; m + d - 1]));
        panics::<T, _>("select_columns: mask of the wrong length is rejected", || a.select_columns(&vec![true; n + d - 1]));
    }
}
/// the predicate's answer is itself a symbolic condition on the elements
pub fn filter_sym<T: Elem>(p: &[i64]) {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let a = sym_mat::<T>("a", m, n);
    let t = T::var("t");
    let keep: Vec<usize> = (0..m).filter(|i| at(&a, *i, 0) > t).collect();
    let f = |q: &Matrix<T>, r: usize| -> bool { q.get(r, 0) > t };
    if keep.is_empty() { panics::<T, _>("filter_rows: keeping nothing is rejected", || a.filter_rows(&f)); }
    else { same(&a.filter_rows(&f), &mat(keep.len(), n, |i, j| at(&a, keep[i], j)), "filter_rows: rows satisfying the predicate"); }
    let keep: Vec<usize> = (0..n).filter(|j| at(&a, 0, *j) > t).collect();
    let f = |q: &Matrix<T>, c: usize| -> bool { q.get(0, c) > t };
    if keep.is_empty() { panics::<T, _>("filter_columns: keeping nothing is rejected", || a.filter_columns(&f)); }
    else { same(&a.filter_columns(&f), &mat(m, keep.len(), |i, j| at(&a, i, keep[j])), "filter_columns: columns satisfying the predicate"); }
}

// ------------------------------------------------------------------ C09
pub fn map_reduce<T: Elem>(p: &[i64]) {
    let (m, n) = (p[0] as usize, p[1] as usize);
    let a = sym_mat::<T>("a", m, n);
    let c = T::var("c");
    let count = std::cell::Cell::new(0usize);
    let f = |x: &T| -> T { count.set(count.get() + 1); *x * *x + c };
    let w = mat(m, n, |i, j| at(&a, i, j) * at(&a, i, j) + c);
    same(&a.map(&f), &w, "map: function value at every element");
    T::ok(count.get() == m * n, "map: function applied once per element");
    count.set(0);
    let mut b = a.clone();
    b.mmap(&f);
    same(&b, &w, "mmap: function value at every element");
    T::ok(count.get() == m * n, "mmap: function applied once per element");
    // a fold that is neither commutative nor associative
    let init = vars::<T>("i", n);
    count.set(0);
    let g = |s: &T, x: &T| -> T { count.set(count.get() + 1); *s * c + *x };
    let r = a.reduce(&init, &g);
    let w = mat(1, n, |_, j| { let mut s = init[j]; for i in 0..m { s = s * c + at(&a, i, j); } s });
    same(&r, &w, "reduce: folds each column from top to bottom");
    T::ok(count.get() == m * n, "reduce: function applied once per element");
    for k in [n - 1, n + 1] {
        let e = vars::<T>("e", k);
        panics::<T, _>("reduce: initial vector of the wrong length is rejected", || a.reduce(&e, &g));
    }
    // to another element type
    let bm = a.map(&|_: &T| 7u8);
    T::ok(bm.rows() == m && bm.cols() == n && bm.get_data().iter().all(|x| *x == 7), "map: result of another type");
    let cnt = a.reduce(&vec![0usize; n], &|s: &usize, _: &T| *s + 1);
    T::ok(cnt.rows() == 1 && cnt.cols() == n && cnt.get_data().iter().all(|x| *x == m), "reduce: each column folds all its rows");
    wf(&a, "map and reduce leave the operand well formed");
}

pub fn register(v: &mut Vec<Harness>) {
    reg!(v, "C01", ctor_new, 0, 0, [1, 1], [1, 2], [1, 4], [2, 1], [3, 1], [2, 2], [2, 3], [3, 2], [3, 3], [4, 3], [3, 5]);
    reg!(v, "C01", ctor_const, 0, 0, [1, 1], [1, 2], [1, 4], [2, 1], [4, 1], [2, 2], [2, 3], [3, 2], [3, 3], [4, 3], [3, 5], [5, 5]);
    reg!(v, "C01", ctor_wrap, 0, WRAP, [0]);
    reg!(v, "C01", ctor_new, 0, 0, [5, 5], [7, 3], [1, 40], [33, 2]);
    reg!(v, "C01", ctor_const, 0, 0, [7, 3], [3, 8], [17, 17], [1, 33], [33, 1]);
    reg!(v, "C02", access_far, 0, WRAP, [1, 1], [2, 2], [2, 3], [3, 2], [4, 1]);
    reg!(v, "C02", access, 0, 0, [5, 6], [7, 3], [6, 9], [9, 6], [17, 2], [2, 17]);
    reg!(v, "C03", elementwise, 0, 0, [5, 5], [3, 11], [17, 4], [9, 8], [33, 2], [2, 33]);
    reg!(v, "C04", product, 0, 0, [5, 5, 5], [2, 9, 3], [9, 2, 7], [1, 20, 1], [8, 8, 8], [5, 17, 2], [1, 1, 4], [2, 1, 9], [1, 2, 17], [2, 2, 6], [2, 3, 8], [17, 2, 3], [3, 2, 33], [6, 1, 6], [1, 5, 7], [9, 9, 9], [2, 33, 2], [33, 1, 1]);
    reg!(v, "C05", transpose, 0, 0, [5, 5], [7, 3], [3, 7], [8, 8], [9, 7], [7, 9], [16, 17], [17, 16], [17, 17], [33, 2], [2, 33], [1, 40], [40, 1], [12, 18]);
    reg!(v, "C06", block_far, 0, WRAP, [1, 1], [2, 3], [3, 2]);
    reg!(v, "C06", sub_all, 0, 0, [5, 5], [6, 3], [9, 2], [2, 9]);
    reg!(v, "C06", minor_all, 0, 0, [5, 5], [9, 7], [2, 12], [12, 2], [17, 2], [2, 17]);
    reg!(v, "C07", concat, 0, 0, [5, 5, 6], [9, 7, 4], [2, 16, 17], [17, 3, 3], [33, 2, 2], [2, 33, 2], [2, 2, 33]);
    reg!(v, "C08", select_far, 0, WRAP, [1, 1], [2, 3], [3, 2]);
    reg!(v, "C08", permute, 0, 0, [5, 3, 3], [3, 5, 3], [2, 2, 5], [6, 6, 2], [9, 2, 9], [2, 9, 9], [3, 3, 9], [9, 3, 12], [17, 2, 4], [2, 17, 4], [6, 6, 6], [17, 2, 17]);
    reg!(v, "C08", filter, 0, 0, [6, 5], [5, 7], [9, 2], [2, 9]);
    reg!(v, "C09", map_reduce, 0, 0, [5, 5], [9, 7], [17, 2], [2, 17], [33, 1], [1, 33]);
    reg!(v, "C02", access, 0, 0, [1, 1], [1, 2], [1, 4], [2, 1], [4, 1], [2, 2], [2, 3], [3, 2], [3, 3], [2, 4], [4, 3]);
    reg!(v, "C03", elementwise, 0, 0, [1, 1], [1, 2], [1, 4], [2, 1], [4, 1], [2, 2], [2, 3], [3, 2], [3, 3], [4, 4]);
    reg!(v, "C03", elementwise_reject, 0, 0, [1, 1, 1, 2], [1, 2, 1, 1], [1, 2, 2, 1], [2, 1, 1, 2], [2, 3, 3, 2], [3, 2, 2, 3], [2, 2, 1, 4], [2, 2, 4, 1], [1, 4, 2, 2], [4, 1, 2, 2], [2, 2, 2, 3], [2, 2, 3, 2], [2, 3, 2, 2], [3, 2, 2, 2], [3, 4, 2, 6], [1, 6, 3, 2]);
    reg!(v, "C04", product, 0, 0, [1, 1, 1], [1, 2, 1], [2, 1, 2], [1, 3, 2], [2, 2, 2], [2, 3, 2], [3, 2, 3], [2, 3, 4], [3, 1, 3], [1, 3, 1], [3, 2, 1], [1, 2, 3], [3, 3, 3], [4, 3, 2], [2, 4, 3], [4, 4, 4]);
    reg!(v, "C04", product_reject, 0, 0, [1, 1, 2, 1], [1, 2, 1, 2], [2, 2, 1, 2], [2, 2, 3, 2], [2, 3, 2, 3], [3, 2, 3, 2], [2, 3, 2, 2], [2, 1, 2, 1], [1, 4, 2, 2], [2, 2, 4, 1], [3, 2, 3, 1], [2, 4, 2, 4], [2, 2, 1, 1], [1, 1, 3, 3]);
    reg!(v, "C05", transpose, 0, 0, [1, 1], [1, 2], [2, 1], [1, 3], [3, 1], [2, 2], [2, 3], [3, 2], [3, 3], [2, 4], [4, 2], [3, 4], [4, 3], [4, 4], [2, 5], [5, 2], [3, 5], [5, 3], [5, 4], [4, 6], [6, 4], [1, 7], [7, 1]);
    reg!(v, "C06", sub_all, 0, 0, [1, 1], [1, 2], [2, 1], [2, 2], [2, 3], [3, 2], [3, 3], [3, 4], [4, 2]);
    reg!(v, "C06", minor_all, 0, 0, [1, 1], [1, 3], [3, 1], [2, 2], [2, 3], [3, 2], [3, 3], [3, 4], [4, 3], [4, 4]);
    reg!(v, "C07", concat, 0, 0, [1, 1, 1], [1, 2, 1], [2, 1, 1], [2, 1, 3], [2, 2, 1], [2, 2, 2], [3, 2, 1], [2, 3, 2], [3, 1, 2], [1, 3, 3], [3, 3, 2], [4, 3, 1]);
    reg!(v, "C07", concat_reject, 0, 0, [1, 1, 2, 2], [1, 2, 2, 1], [2, 1, 1, 2], [2, 3, 3, 2], [2, 2, 1, 4], [1, 4, 2, 2], [2, 2, 2, 3], [2, 2, 3, 2], [3, 2, 2, 2], [2, 3, 2, 2], [2, 3, 4, 3], [3, 4, 2, 6], [2, 6, 3, 4]);
    reg!(v, "C08", permute, 0, 0, [1, 1, 0], [1, 1, 2], [2, 1, 2], [1, 2, 2], [2, 2, 0], [2, 2, 2], [2, 3, 1], [2, 3, 3], [3, 2, 3], [3, 3, 2], [3, 2, 1]);
    reg!(v, "C08", filter, 0, 0, [1, 1], [1, 2], [2, 1], [2, 2], [2, 3], [3, 2], [3, 3], [4, 3], [3, 4]);
    reg!(v, "C08", filter_sym, 0, 0, [1, 1], [2, 1], [2, 2], [2, 3], [3, 2]);
    reg!(v, "C09", map_reduce, 0, 0, [1, 1], [1, 2], [2, 1], [2, 2], [1, 3], [3, 1], [2, 3], [3, 2], [3, 3], [4, 3], [3, 5]);
}
