#![allow(dead_code, unused)]
//! Kani harnesses: machine-integer indices and dimensions, IEEE scalars, text.
pub mod rt;
pub mod approx;
pub mod index;
#[cfg(not(kani))]
pub fn table() -> Vec<rt::H> {
    let mut v = vec![];
    approx::table(&mut v);
    index::table(&mut v);
    v
}
