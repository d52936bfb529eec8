//! The same harness bodies run under Kani (inputs symbolic) and natively (inputs replayed from a
//! counterexample, in order).
#[cfg(kani)]
mod imp {
    pub fn any_u8() -> u8 { kani::any() }
    pub fn any_usize() -> usize { kani::any() }
    pub fn any_f64() -> f64 { kani::any() }
    pub fn any_f32() -> f32 { kani::any() }
    pub fn assume(b: bool) { kani::assume(b) }
    pub fn rejects<R>(f: impl FnOnce() -> R, accepted: impl FnOnce()) { let r = f(); std::mem::forget(r); accepted(); }
}
#[cfg(kani)]
#[macro_export]
macro_rules! check { ($b:expr, $l:expr) => { kani::assert($b, $l) }; }

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    pub struct Skip;
    thread_local! {
        pub static IN: RefCell<VecDeque<Vec<u8>>> = RefCell::new(VecDeque::new());
        pub static FAILS: RefCell<Vec<String>> = RefCell::new(vec![]);
    }
    fn next(n: usize) -> Vec<u8> {
        let mut v = IN.with(|i| i.borrow_mut().pop_front()).unwrap_or_default();
        v.resize(n, 0);
        v
    }
    pub fn any_u8() -> u8 { next(1)[0] }
    pub fn any_usize() -> usize { let v = next(8); let mut b = [0u8; 8]; b.copy_from_slice(&v); usize::from_le_bytes(b) }
    pub fn any_f64() -> f64 { f64::from_bits(any_usize() as u64) }
    pub fn any_f32() -> f32 { let v = next(4); let mut b = [0u8; 4]; b.copy_from_slice(&v); f32::from_le_bytes(b) }
    pub fn assume(b: bool) { if !b { std::panic::resume_unwind(Box::new(Skip)) } }
    pub fn fail(l: &str) { FAILS.with(|f| f.borrow_mut().push(l.to_string())) }
    pub fn rejects<R>(f: impl FnOnce() -> R, accepted: impl FnOnce()) {
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_ok() { accepted() }
    }
}
#[cfg(not(kani))]
#[macro_export]
macro_rules! check { ($b:expr, $l:expr) => { if !$b { $crate::rt::fail($l) } }; }
pub use imp::*;

/// the call must panic
#[macro_export]
macro_rules! rejects { ($l:expr, $e:expr) => { $crate::rt::rejects(|| $e, || $crate::check!(false, $l)) }; }

pub struct H { pub prop: &'static str, pub name: &'static str, pub tier: u8, pub nopanic: bool, pub module: &'static str, pub f: fn() }

/// harnesses! { table; name: property, tier, must not panic, solver, unwind, { body } ... }
#[macro_export]
macro_rules! harnesses {
    ($t:ident; $( $name:ident : $prop:expr, $tier:expr, $np:expr, $solver:ident, $unwind:expr, $body:block )*) => {
        $(
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::solver($solver))]
            #[cfg_attr(kani, kani::unwind($unwind))]
            pub fn $name() $body
        )*
        #[cfg(not(kani))]
        pub fn $t(v: &mut Vec<$crate::rt::H>) {
            $( v.push($crate::rt::H { prop: $prop, name: stringify!($name), tier: $tier, nopanic: $np, module: module_path!(), f: $name }); )*
        }
    };
}
