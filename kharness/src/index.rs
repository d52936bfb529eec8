//! C01, C02, C05-C09: dimensions, coordinates, index lists and masks as symbolic machine integers.
use crate::rt::*;
use crate::{check, harnesses, rejects};
use la::Matrix;

/// a matrix of symbolic shape up to R x C holding symbolic bytes, and a copy of its shape and data
pub fn any_mat<const N: usize>(rmax: usize, cmax: usize) -> (Matrix<u8>, usize, usize, [u8; N]) {
    let (r, c) = (any_u8() as usize, any_u8() as usize);
    assume(r >= 1 && r <= rmax && c >= 1 && c <= cmax && r * c <= N);
    let mut a = [0u8; N];
    for k in 0..N { a[k] = any_u8(); }
    let mut v = a.to_vec();
    v.truncate(r * c);
    (Matrix::new(r, c, v), r, c, a)
}
harnesses! { table;
    c01_new: "C01", 0, false, cadical, 8, {
        let (r, c, n) = (any_usize(), any_usize(), any_u8() as usize);
        assume(n <= 6);
        let mut a = [0u8; 6];
        for k in 0..6 { a[k] = any_u8(); }
        let mut v = a.to_vec();
        v.truncate(n);
        let valid = r >= 1 && c >= 1 && r <= 6 && c <= 6 && r * c == n;
        if !valid { rejects!("C01: new rejects a length other than rows*columns and empty shapes", Matrix::new(r, c, v)); }
    }
    c01_new_ok: "C01", 0, true, cadical, 8, {
        let (m, r, c, a) = any_mat::<6>(6, 6);
        check!(m.rows() == r && m.cols() == c, "C01: new has the requested shape");
        check!(m.get_data().len() == r * c, "C01: new keeps rows*columns elements");
        let k = any_usize();
        assume(k < r * c);
        check!(m.get_data()[k] == a[k], "C01: new keeps the data in order");
    }
    c02_read: "C02", 0, true, cadical, 10, {
        let (mut m, r, c, a) = any_mat::<9>(3, 3);
        let (i, j) = (any_usize(), any_usize());
        assume(i < r && j < c);
        let x = a[i * c + j];
        check!(m.get(i, j) == x, "C02: get reads row-major");
        check!(*m.get_ref(i, j) == x, "C02: get_ref reads row-major");
        check!(m[(i, j)] == x, "C02: indexing reads row-major");
        check!(*m.get_mref(i, j) == x, "C02: get_mref reads row-major");
    }
    c02_write: "C02", 0, true, cadical, 10, {
        let (mut m, r, c, a) = any_mat::<9>(3, 3);
        let (i, j, k) = (any_usize(), any_usize(), any_usize());
        let v = any_u8();
        assume(i < r && j < c && k < r * c);
        if any_u8() == 0 { m.set(i, j, v) } else { *m.get_mref(i, j) = v }
        check!(m.rows() == r && m.cols() == c, "C02: writing leaves the shape alone");
        check!(m.get_data()[k] == if k == i * c + j { v } else { a[k] }, "C02: writing changes that element and no other");
    }
    c02_outside: "C02", 0, false, cadical, 10, {
        let (mut m, r, c, _) = any_mat::<9>(3, 3);
        let (i, j) = (any_usize(), any_usize());
        assume(i >= r || j >= c);
        match any_u8() {
            0 => rejects!("C02: get rejects a coordinate outside", m.get(i, j)),
            1 => rejects!("C02: get_ref rejects a coordinate outside", *m.get_ref(i, j)),
            2 => rejects!("C02: indexing rejects a coordinate outside", m[(i, j)]),
            3 => rejects!("C02: get_mref rejects a coordinate outside", *m.get_mref(i, j)),
            _ => rejects!("C02: set rejects a coordinate outside", m.set(i, j, 1)),
        }
    }
    c06_minor: "C06", 0, true, cadical, 10, {
        let (m, a) = mat::<9>(3, 3);
        let (y, x) = (any_usize(), any_usize());
        assume(y < 3 && x < 3);
        let s = m.minor(y, x);
        check!(s.rows() == 2 && s.cols() == 2 && s.get_data().len() == 4, "C06: minor has one row and one column less");
        for i in 0..2 { for j in 0..2 {
            let (si, sj) = (if i < y { i } else { i + 1 }, if j < x { j } else { j + 1 });
            check!(s.get_data()[i * 2 + j] == a[si * 3 + sj], "C06: minor keeps the remaining elements in order");
        } }
    }
    c06_minor_outside: "C06", 0, false, cadical, 10, {
        let (m, _) = mat::<6>(2, 3);
        let (y, x) = (any_usize(), any_usize());
        assume(y >= 2 || x >= 3);
        rejects!("C06: minor rejects an index outside", m.minor(y, x));
    }
    c06_minor_row: "C06", 0, false, cadical, 10, {
        let (m, _) = mat::<3>(1, 3);
        rejects!("C06: minor of a single row is rejected", m.minor(any_usize(), any_usize()));
    }
    c06_minor_col: "C06", 0, false, cadical, 10, {
        let (m, _) = mat::<3>(3, 1);
        rejects!("C06: minor of a single column is rejected", m.minor(any_usize(), any_usize()));
    }
    c06_column: "C06", 0, true, cadical, 10, {
        let (m, r, c, a) = any_mat::<9>(3, 3);
        let (x, i) = (any_usize(), any_usize());
        assume(x < c && i < r);
        let s = m.get_column(x);
        check!(s.rows() == r && s.cols() == 1, "C06: get_column is a column");
        check!(s.get_data()[i] == a[i * c + x], "C06: get_column copies the column");
    }
    c06_column_outside: "C06", 0, false, cadical, 10, {
        let (m, r, c, _) = any_mat::<9>(3, 3);
        let x = any_usize();
        assume(x >= c);
        rejects!("C06: get_column rejects an index outside", m.get_column(x));
    }
    c08_rows: "C08", 0, true, cadical, 10, {
        let (m, a) = mat::<6>(3, 2);
        let p = [any_usize(), any_usize(), any_usize(), any_usize()];
        for k in 0..4 { assume(p[k] < 3); }
        let s = m.permute_rows(&p);
        check!(s.rows() == 4 && s.cols() == 2 && s.get_data().len() == 8, "C08: permute_rows gives one row per entry");
        for i in 0..4 { for j in 0..2 { check!(s.get_data()[i * 2 + j] == a[p[i] * 2 + j], "C08: permute_rows follows the list"); } }
    }
    c08_columns: "C08", 0, true, cadical, 10, {
        let (m, a) = mat::<6>(2, 3);
        let p = [any_usize(), any_usize(), any_usize(), any_usize()];
        for k in 0..4 { assume(p[k] < 3); }
        let s = m.permute_columns(&p);
        check!(s.rows() == 2 && s.cols() == 4 && s.get_data().len() == 8, "C08: permute_columns gives one column per entry");
        for i in 0..2 { for j in 0..4 { check!(s.get_data()[i * 4 + j] == a[i * 3 + p[j]], "C08: permute_columns follows the list"); } }
    }
    c08_rows_outside: "C08", 0, false, cadical, 10, {
        let (m, _) = mat::<6>(3, 2);
        let p = [any_usize(), any_usize(), any_usize()];
        assume(p[0] >= 3 || p[1] >= 3 || p[2] >= 3);
        rejects!("C08: permute_rows rejects an index outside", m.permute_rows(&p));
    }
    c08_columns_outside: "C08", 0, false, cadical, 10, {
        let (m, _) = mat::<6>(2, 3);
        let p = [any_usize(), any_usize(), any_usize()];
        assume(p[0] >= 3 || p[1] >= 3 || p[2] >= 3);
        rejects!("C08: permute_columns rejects an index outside", m.permute_columns(&p));
    }
}
/// a matrix of fixed shape holding symbolic bytes
pub fn mat<const N: usize>(r: usize, c: usize) -> (Matrix<u8>, [u8; N]) {
    let mut a = [0u8; N];
    for k in 0..N { a[k] = any_u8(); }
    (Matrix::new(r, c, a.to_vec()), a)
}
