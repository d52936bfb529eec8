//! C12 the scalar predicate on IEEE numbers (all bit patterns).
use crate::rt::*;
use crate::{check, harnesses};
use la::ApproxEq;
harnesses! { table;
    c12_def_f64: "C12", 0, false, kissat, 2, {
        let (a, b, e) = (any_f64(), any_f64(), any_f64());
        let d = a - b;
        let d = if d < 0.0 { -d } else { d };
        check!(a.approx_eq_eps(&b, &e) == (d < e), "C12: scalars are approximately equal exactly when |a - b| < eps");
    }
    c12_def_f32: "C12", 0, false, kissat, 2, {
        let (a, b, e) = (any_f32(), any_f32(), any_f32());
        let d = a - b;
        let d = if d < 0.0 { -d } else { d };
        check!(a.approx_eq_eps(&b, &e) == (d < e), "C12: scalars are approximately equal exactly when |a - b| < eps");
    }
    c12_default_f64: "C12", 0, false, kissat, 2, {
        let (a, b) = (any_f64(), any_f64());
        let d = a - b;
        let d = if d < 0.0 { -d } else { d };
        check!(a.approx_eq(&b) == (d < 1.0e-6), "C12: the default tolerance is 1e-6");
        check!(<f64 as ApproxEq<f64>>::approx_epsilon() == 1.0e-6, "C12: the default tolerance is reported as 1e-6");
    }
    c12_default_f32: "C12", 0, false, kissat, 2, {
        let (a, b) = (any_f32(), any_f32());
        let d = a - b;
        let d = if d < 0.0 { -d } else { d };
        check!(a.approx_eq(&b) == (d < 1.0e-6), "C12: the default tolerance is 1e-6");
        check!(<f32 as ApproxEq<f32>>::approx_epsilon() == 1.0e-6, "C12: the default tolerance is reported as 1e-6");
    }
    c12_sym_f64: "C12", 1, false, kissat, 2, {
        let (a, b, e) = (any_f64(), any_f64(), any_f64());
        check!(a.approx_eq_eps(&b, &e) == b.approx_eq_eps(&a, &e), "C12: approximate equality is symmetric");
    }
    c12_nan_f64: "C12", 0, false, cadical, 2, {
        let (a, b, e) = (any_f64(), any_f64(), any_f64());
        assume(a.is_nan() || b.is_nan());
        check!(!a.approx_eq_eps(&b, &e) && !a.approx_eq(&b), "C12: NaN is approximately equal to nothing");
    }
    c12_nan_f32: "C12", 0, false, cadical, 2, {
        let (a, b, e) = (any_f32(), any_f32(), any_f32());
        assume(a.is_nan() || b.is_nan());
        check!(!a.approx_eq_eps(&b, &e) && !a.approx_eq(&b), "C12: NaN is approximately equal to nothing");
    }
}
