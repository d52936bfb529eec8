//! C28 random matrices, C29 matrix literals.
use super::*;
use crate::elem::{panics, Elem};
use crate::reg;
use la::{m, m_one, m_rec, Matrix};
use std::cell::Cell;

pub fn random<T: Elem>(p: &[i64]) {
    let (m, n) = (p[0] as usize, p[1] as usize);
    T::draws();
    for _ in 0..2 {
        let a = Matrix::<T>::random(m, n);
        let draws = T::draws();
        if !shape(&a, m, n, "random: requested shape") { return; }
        let d = a.get_data();
        for i in 0..m * n {
            let set = !T::never_written(d[i]);
            T::ok(set, "random: every element is set");
            if !set { return; }
            match draws {
                Some(ref w) => match w.iter().find(|x| T::identical(**x, d[i])) {
                    Some(x) => T::eq_(*x, d[i], "random: every element is a draw from the generator"),
                    None => T::ok(false, "random: every element is a draw from the generator"),
                },
                // the real generator yields numbers in [0,1); any particular one has negligible probability
                None => T::ok(d[i] > T::zero() && d[i] < T::one() && d[i] != T::q(1, 2), "random: every element is a draw from the generator"),
            }
            for j in 0..i { T::ok(!T::identical(d[i], d[j]), "random: elements are separate draws"); }
        }
    }
}
pub fn random_reject<T: Elem>(_: &[i64]) {
    for k in 0..4 {
        panics::<T, _>("random: zero rows are rejected", || Matrix::<T>::random(0, k));
        panics::<T, _>("random: zero columns are rejected", || Matrix::<T>::random(k, 0));
    }
    for (r, c) in [(1usize << 63, 2usize), (2, 1 << 63), (1 << 32, 1 << 32)] {
        panics::<T, _>("random: a shape whose element count wraps around is rejected", || Matrix::<T>::random(r, c));
    }
}

thread_local! { static STEP: Cell<usize> = Cell::new(0); static ORDER: Cell<bool> = Cell::new(true); }
/// the k-th expression of a literal, noting when it is evaluated
fn e<T: Elem>(v: &[T], k: usize) -> T {
    STEP.with(|s| { if s.get() != k { ORDER.with(|o| o.set(false)); } s.set(s.get() + 1); });
    v[k]
}
fn lit<T: Elem>(r: usize, c: usize, f: impl Fn(&[T]) -> Matrix<T>) {
    let v: Vec<T> = (0..r * c).map(|i| T::var(&format!("x{}", i))).collect();
    STEP.with(|s| s.set(0));
    ORDER.with(|s| s.set(true));
    let a = f(&v);
    T::ok(STEP.with(|s| s.get()) == r * c && ORDER.with(|s| s.get()), "m!: every expression is evaluated once, in reading order");
    if !shape(&a, r, c, "m!: one row per group, one column per expression") { return; }
    for i in 0..r * c { T::eq_(a.get_data()[i], v[i], "m!: the expressions in reading order"); }
}
pub fn literal<T: Elem>(p: &[i64]) {
    match p[0] {
        11 => lit::<T>(1, 1, |v| m!(e(v, 0))),
        12 => lit::<T>(1, 2, |v| m!(e(v, 0), e(v, 1))),
        14 => lit::<T>(1, 4, |v| m!(e(v, 0), e(v, 1), e(v, 2), e(v, 3))),
        21 => lit::<T>(2, 1, |v| m!(e(v, 0); e(v, 1))),
        41 => lit::<T>(4, 1, |v| m!(e(v, 0); e(v, 1); e(v, 2); e(v, 3))),
        22 => lit::<T>(2, 2, |v| m!(e(v, 0), e(v, 1); e(v, 2), e(v, 3))),
        23 => lit::<T>(2, 3, |v| m!(e(v, 0), e(v, 1), e(v, 2); e(v, 3), e(v, 4), e(v, 5))),
        32 => lit::<T>(3, 2, |v| m!(e(v, 0), e(v, 1); e(v, 2), e(v, 3); e(v, 4), e(v, 5))),
        33 => lit::<T>(3, 3, |v| m!(e(v, 0), e(v, 1), e(v, 2); e(v, 3), e(v, 4), e(v, 5); e(v, 6), e(v, 7), e(v, 8))),
        25 => lit::<T>(2, 5, |v| m!(e(v, 0), e(v, 1), e(v, 2), e(v, 3), e(v, 4); e(v, 5), e(v, 6), e(v, 7), e(v, 8), e(v, 9))),
        52 => lit::<T>(5, 2, |v| m!(e(v, 0), e(v, 1); e(v, 2), e(v, 3); e(v, 4), e(v, 5); e(v, 6), e(v, 7); e(v, 8), e(v, 9))),
        34 => lit::<T>(3, 4, |v| m!(e(v, 0), e(v, 1), e(v, 2), e(v, 3); e(v, 4), e(v, 5), e(v, 6), e(v, 7); e(v, 8), e(v, 9), e(v, 10), e(v, 11))),
        16 => lit::<T>(1, 6, |v| m!(e(v, 0), e(v, 1), e(v, 2), e(v, 3), e(v, 4), e(v, 5))),
        61 => lit::<T>(6, 1, |v| m!(e(v, 0); e(v, 1); e(v, 2); e(v, 3); e(v, 4); e(v, 5))),
        44 => lit::<T>(4, 4, |v| m!(e(v, 0), e(v, 1), e(v, 2), e(v, 3); e(v, 4), e(v, 5), e(v, 6), e(v, 7); e(v, 8), e(v, 9), e(v, 10), e(v, 11); e(v, 12), e(v, 13), e(v, 14), e(v, 15))),
        // expressions of other forms
        _ => lit::<T>(2, 3, |v| m!({ e(v, 0) }, if true { e(v, 1) } else { v[0] }, e(v, 2) + T::zero() * v[0]; [e(v, 3), v[0]][0], (|x: T, _: T| x)(e(v, 4), v[1]), -(-e(v, 5)))),
    }
}
pub fn ragged<T: Elem>(_: &[i64]) {
    let v: Vec<T> = (0..9).map(|i| T::var(&format!("x{}", i))).collect();
    let l = "m!: rows of different lengths are rejected";
    panics::<T, _>(l, || m!(v[0], v[1]; v[2]));
    panics::<T, _>(l, || m!(v[0]; v[1], v[2]));
    panics::<T, _>(l, || m!(v[0], v[1], v[2]; v[3]));
    panics::<T, _>(l, || m!(v[0]; v[1], v[2], v[3]));
    panics::<T, _>(l, || m!(v[0], v[1], v[2]; v[3], v[4]));
    panics::<T, _>(l, || m!(v[0], v[1]; v[2], v[3], v[4]));
    panics::<T, _>(l, || m!(v[0], v[1], v[2]; v[3], v[4]; v[5]));
    panics::<T, _>(l, || m!(v[0]; v[1], v[2]; v[3], v[4], v[5]));
    panics::<T, _>(l, || m!(v[0], v[1]; v[2], v[3], v[4]; v[5]));
    panics::<T, _>(l, || m!(v[0], v[1]; v[2]; v[3], v[4], v[5]));
    panics::<T, _>(l, || m!(v[0], v[1]; v[2], v[3]; v[4]));
    panics::<T, _>(l, || m!(v[0], v[1]; v[2]; v[3], v[4]));
    panics::<T, _>(l, || m!(v[0]; v[1]; v[2], v[3], v[4], v[5]));
    panics::<T, _>(l, || m!(v[0], v[1], v[2], v[3], v[4]; v[5], v[6]; v[7], v[8]));
    panics::<T, _>(l, || m!(v[0], v[1], v[2], v[3]; v[4]; v[5], v[6], v[7], v[8]));
}
pub fn register(v: &mut Vec<Harness>) {
    reg!(v, "C28", random, 0, NO_XVAL, [1, 1], [1, 2], [2, 1], [1, 5], [5, 1], [2, 2], [2, 3], [3, 2], [3, 3], [4, 3], [3, 4], [9, 2], [2, 9], [5, 5], [11, 2], [2, 11]);
    reg!(v, "C28", random_reject, 0, NO_XVAL | WRAP, [0]);
    reg!(v, "C29", literal, 0, 0, [11], [12], [14], [21], [41], [22], [23], [32], [33], [25], [52], [34], [16], [61], [44], [0]);
    reg!(v, "C29", ragged, 0, 0, [0]);
}
