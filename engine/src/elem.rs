//! The harness language: property bodies are written once, generically, and run
//! both symbolically (Sym) and concretely (f64) against the real library.
use crate::sym::{get, mk, Sym, DRAWS};
use la::ApproxEq;
use num::{Float, NumCast, Signed};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;
use symcore::eng::{stop, with, Stop, Val, NEG, POS, ZER};
use symcore::fl::flw;

pub trait Elem: Float + Signed + ApproxEq<Self> + NumCast + rand::Rand + std::fmt::Debug + Copy + 'static {
    fn var(name: &str) -> Self;
    fn q(a: i64, b: i64) -> Self;
    fn assume(b: bool);
    /// restrict the run to inputs with this sign, without exploring the others
    fn assume_pos(x: Self);
    fn assume_nonneg(x: Self);
    fn assume_nz(x: Self);
    fn ok(b: bool, label: &str);
    fn eqs(a: Self, b: Self, scale: &[Self], label: &str);
    fn eq_(a: Self, b: Self, label: &str) { Self::eqs(a, b, &[], label) }
    fn symbolic() -> bool;
    /// from the n-th square root on, count every comparison against eps as converged (symbolic runs only)
    fn truncate_after(n: u32, skip: usize, max: usize);
    /// symbolic runs end (well) at the first square root that is not a rational function of the inputs
    fn cut_at_sqrt() {}
    /// put the failures so far under one label (replays)
    fn relabel(_label: &str) {}
    /// the machine epsilon of the type; symbolic runs: any number between 2^-62 and 2^-6
    fn prec() -> Self;
    fn draws() -> Option<Vec<Self>>;
    /// the bits are those of memory the library never wrote
    fn never_written(x: Self) -> bool;
    /// the value depends on memory the library never wrote
    fn tainted(x: Self) -> bool;
    /// a result handed to the caller: it must not depend on memory the library never wrote
    fn emit(label: &str, x: Self);
    fn emit_int(label: &str, x: i64);
    /// the very same value, not merely an equal one
    fn identical(x: Self, y: Self) -> bool;
    /// some operation of the run used memory the library never wrote
    fn dirty_reads() -> bool;
    fn int(a: i64) -> Self { Self::q(a, 1) }
    /// run with results above 2^b infinite and below 2^-b zero
    fn in_range<R>(b: i64, f: impl FnOnce() -> R) -> R;
    /// an input of the toy format as an input of the real one
    fn widen(x: Self, stretch: i64) -> Self;
    /// the ways of mapping inputs of the toy format that are tried
    fn stretches() -> Vec<i64>;
}

// inputs for a run in exact arithmetic on given numbers instead of symbols
thread_local! { pub static EXACT: std::cell::RefCell<Option<std::collections::VecDeque<f64>>> = std::cell::RefCell::new(None); }

impl ApproxEq<Sym> for Sym {
    fn approx_epsilon() -> Sym { Sym::f(1.0e-6) }
    fn approx_eq(&self, o: &Sym) -> bool { self.approx_eq_eps(o, &Sym::f(1.0e-6)) }
    fn approx_eq_eps(&self, o: &Sym, e: &Sym) -> bool { Signed::abs(&(*self - *o)) < *e }
}

impl Elem for Sym {
    fn var(name: &str) -> Sym {
        if let Some(x) = EXACT.with(|c| c.borrow_mut().as_mut().map(|v| v.pop_front().unwrap_or(0.0))) { return Sym::f(x); }
        with(|e| { let f = e.new_var(name); mk(e, Val::N(Rc::new(f))) })
    }
    fn q(a: i64, b: i64) -> Sym {
        with(|e| { let f = e.frat(symcore::int::Int::from(a), symcore::int::Int::from(b)); mk(e, Val::N(Rc::new(f))) })
    }
    fn assume(b: bool) { if !b { stop(Stop::Assume) } }
    fn assume_pos(x: Sym) { with(|e| { let v = get(e, x); e.restrict(&v, POS) }) }
    fn assume_nonneg(x: Sym) { with(|e| { let v = get(e, x); e.restrict(&v, POS | ZER) }) }
    fn assume_nz(x: Sym) { with(|e| { let v = get(e, x); e.restrict(&v, POS | NEG) }) }
    fn ok(b: bool, label: &str) {
        with(|e| {
            e.stats.obl += 1;
            e.stats.obl_bool += 1;
            if !b { e.report(label) }
        })
    }
    fn eqs(a: Sym, b: Sym, scale: &[Sym], label: &str) {
        with(|e| {
            let (x, y) = (get(e, a), get(e, b));
            let s: Vec<Val> = scale.iter().map(|s| get(e, *s)).collect();
            e.oblige_eq(&x, &y, &s, label);
            if scale.is_empty() && crate::sym::is_written_in(e, a) && crate::sym::is_written_in(e, b) { e.raw.push((a.handle(), b.handle())); }
        })
    }
    fn in_range<R>(b: i64, f: impl FnOnce() -> R) -> R {
        crate::sym::RANGE.with(|r| r.set(b));
        let r = catch_unwind(AssertUnwindSafe(f));
        crate::sym::RANGE.with(|r| r.set(0));
        match r { Ok(x) => x, Err(p) => resume_unwind(p) }
    }
    fn widen(x: Sym, _: i64) -> Sym { x }
    fn stretches() -> Vec<i64> { vec![0] }
    fn symbolic() -> bool { true }
    fn truncate_after(n: u32, skip: usize, max: usize) { if EXACT.with(|c| c.borrow().is_none()) { with(|e| e.truncate_after(n, skip, max)) } }
    fn cut_at_sqrt() { if EXACT.with(|c| c.borrow().is_none()) { with(|e| e.cut_at_sqrt = true) } }
    fn prec() -> Sym {
        let x = Sym::var("eps");
        Sym::assume_pos(x);
        Sym::assume(x >= Sym::q(1, 1 << 62) && x <= Sym::q(1, 64));
        crate::sym::PREC.with(|c| c.set(Some(x)));
        x
    }
    fn draws() -> Option<Vec<Sym>> { Some(DRAWS.with(|d| std::mem::take(&mut *d.borrow_mut()))) }
    fn emit(label: &str, x: Sym) { let t = Self::tainted(x); Self::ok(!t, label) }
    fn emit_int(label: &str, x: i64) { Self::ok(x >= 0 && x < 1 << 20, label) }
    fn identical(x: Sym, y: Sym) -> bool { Sym::same_value(x, y) }
    fn dirty_reads() -> bool { with(|e| !e.dirty_vars.is_empty()) }
    fn never_written(x: Sym) -> bool { !crate::sym::is_written(x) }
    fn tainted(x: Sym) -> bool {
        if !crate::sym::is_written(x) { return true; }
        with(|e| { let v = get(e, x); match &v { Val::Sp(_) => false, _ => { let f = e.force(&v); let f = e.renorm(&f); e.is_dirty_dep(&f) } } })
    }
}

impl Elem for f64 {
    fn var(_: &str) -> f64 { flw(|f| { let x = f.inputs.get(f.next).cloned().unwrap_or(0.0); f.next += 1; x }) }
    fn q(a: i64, b: i64) -> f64 { a as f64 / b as f64 }
    fn assume(b: bool) { if !b { resume_unwind(Box::new(Stop::Assume)) } }
    fn assume_pos(x: f64) { Self::assume(x > 0.0) }
    fn assume_nonneg(x: f64) { Self::assume(x >= 0.0) }
    fn assume_nz(x: f64) { Self::assume(x != 0.0) }
    fn ok(b: bool, label: &str) { flw(|f| { f.checks += 1; if !b { f.fails.push(label.to_string()) } }) }
    fn eqs(a: f64, b: f64, scale: &[f64], label: &str) {
        flw(|f| {
            f.checks += 1;
            let mut s = 1.0f64.max(a.abs()).max(b.abs());
            for x in scale { s = s.max(x.abs()); }
            if !((a - b).abs() <= f.tol * s) { f.fails.push(format!("{}: {:e} vs {:e}", label, a, b)) }
        })
    }
    fn in_range<R>(_: i64, f: impl FnOnce() -> R) -> R { f() }
    fn stretches() -> Vec<i64> { vec![0, 2, 5, 10, -4] }
    fn widen(x: f64, stretch: i64) -> f64 {
        if x == 0.0 || !x.is_finite() { return x; }
        let e = x.abs().log2().floor();
        let m = x / (2.0f64).powf(e);
        let k = (e * (1022.0 / crate::h::range::B as f64 + stretch as f64)).round().max(-1022.0).min(1018.0);
        m * (2.0f64).powf(k)
    }
    fn symbolic() -> bool { false }
    fn truncate_after(_: u32, _: usize, _: usize) {}
    fn relabel(label: &str) { flw(|f| for x in f.fails.iter_mut() { *x = format!("{}: {}", label, x); }) }
    fn prec() -> f64 { let _ = f64::var("eps"); f64::EPSILON }
    fn draws() -> Option<Vec<f64>> { None }
    fn emit(label: &str, x: f64) { let b = if x.is_nan() { u64::max_value() } else { x.to_bits() }; flw(|f| { f.checks += 1; f.outs.push((label.to_string(), b)) }) }
    fn emit_int(label: &str, x: i64) { flw(|f| { f.checks += 1; f.outs.push((label.to_string(), x as u64)) }) }
    fn identical(x: f64, y: f64) -> bool { x == y }
    fn dirty_reads() -> bool { false }
    fn never_written(_: Self) -> bool { false }
    fn tainted(_: Self) -> bool { false }
}

/// replays in single precision (C33)
impl Elem for f32 {
    fn var(n: &str) -> f32 { f64::var(n) as f32 }
    fn q(a: i64, b: i64) -> f32 { (a as f64 / b as f64) as f32 }
    fn assume(b: bool) { f64::assume(b) }
    fn assume_pos(x: f32) { f64::assume(x > 0.0) }
    fn assume_nonneg(x: f32) { f64::assume(x >= 0.0) }
    fn assume_nz(x: f32) { f64::assume(x != 0.0) }
    fn ok(b: bool, label: &str) { f64::ok(b, label) }
    fn eqs(a: f32, b: f32, scale: &[f32], label: &str) {
        let s: Vec<f64> = scale.iter().map(|x| *x as f64).collect();
        f64::eqs(a as f64, b as f64, &s, label)
    }
    fn in_range<R>(_: i64, f: impl FnOnce() -> R) -> R { f() }
    fn stretches() -> Vec<i64> { vec![0] }
    fn widen(x: f32, _: i64) -> f32 { x }
    fn symbolic() -> bool { false }
    fn truncate_after(_: u32, _: usize, _: usize) {}
    fn relabel(label: &str) { f64::relabel(label) }
    fn prec() -> f32 { let _ = f64::var("eps"); f32::EPSILON }
    fn draws() -> Option<Vec<f32>> { None }
    fn emit(label: &str, x: f32) { f64::emit(label, x as f64) }
    fn emit_int(label: &str, x: i64) { f64::emit_int(label, x) }
    fn identical(x: f32, y: f32) -> bool { x == y }
    fn dirty_reads() -> bool { false }
    fn never_written(_: Self) -> bool { false }
    fn tainted(_: Self) -> bool { false }
}

/// The library must reject this call by panicking.
pub fn panics<T: Elem, R>(label: &str, f: impl FnOnce() -> R) {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(_) => T::ok(false, label),
        Err(p) => match p.downcast::<Stop>() {
            Ok(s) => resume_unwind(s),
            Err(_) => T::ok(true, label),
        },
    }
}
