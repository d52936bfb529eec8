//! Concrete (f64) execution context used for replay and cross-validation.
use std::cell::RefCell;
#[derive(Default)]
pub struct Fl {
    pub inputs: Vec<f64>,
    pub next: usize,
    pub fails: Vec<String>,
    pub checks: u64,
    pub tol: f64,
    pub outs: Vec<(String, u64)>,
}
thread_local! { pub static FL: RefCell<Fl> = RefCell::new(Fl::default()); }
pub fn flw<R>(f: impl FnOnce(&mut Fl) -> R) -> R { FL.with(|c| f(&mut c.borrow_mut())) }
