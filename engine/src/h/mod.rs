//! Property harnesses.
use crate::elem::Elem;
use la::Matrix;
pub mod lu;
pub mod qr;
pub mod st;
pub mod eig;
pub mod svd;
pub mod range;
pub mod lits;
pub mod dirty;
pub mod solve;
pub mod chol;
pub mod norms;
pub mod text;
pub mod prec;
pub mod large;
pub mod round;

pub struct Harness {
    pub prop: &'static str,
    pub name: &'static str,
    pub p: Vec<i64>,
    pub tier: u8,
    pub sym: fn(&[i64]),
    pub flt: fn(&[i64]),
    pub flags: u32,
}
impl Harness {
    pub fn id(&self) -> String {
        format!("{}[{}]", self.name, self.p.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
    }
}
pub const CONCRETE_EPS: u32 = 1;
pub const NO_XVAL: u32 = 2;
/// replay under several patterns of fresh memory and compare the results
pub const FILLS: u32 = 4;
/// also run with the library compiled as in a release build (wrapping machine integers)
pub const WRAP: u32 = 8;

/// explore only the paths that some of the sample points take (deep towers of roots, where the solver cannot tell
/// whether a branch is possible); on those paths the assertions cover every value
pub const BRISK: u32 = 16;

#[macro_export]
macro_rules! reg {
    ($v:expr, $prop:expr, $f:ident, $tier:expr, $flags:expr, $( [ $($p:expr),* ] ),*) => {
        $( $v.push($crate::h::Harness { prop: $prop, name: stringify!($f), p: vec![$($p as i64),*], tier: $tier,
            sym: $f::<$crate::sym::Sym>, flt: $f::<f64>, flags: $flags }); )*
    };
}

/// as reg!, replays in single precision
#[macro_export]
macro_rules! reg32 {
    ($v:expr, $prop:expr, $f:ident, $tier:expr, $flags:expr, $( [ $($p:expr),* ] ),*) => {
        $( $v.push($crate::h::Harness { prop: $prop, name: stringify!($f), p: vec![$($p as i64),*], tier: $tier,
            sym: $f::<$crate::sym::Sym>, flt: $f::<f32>, flags: $flags }); )*
    };
}

pub fn all() -> Vec<Harness> {
    let mut v = vec![];
    lu::register(&mut v);
    qr::register(&mut v);
    st::register(&mut v);
    eig::register(&mut v);
    svd::register(&mut v);
    range::register(&mut v);
    lits::register(&mut v);
    dirty::register(&mut v);
    solve::register(&mut v);
    chol::register(&mut v);
    norms::register(&mut v);
    text::register(&mut v);
    prec::register(&mut v);
    large::register(&mut v);
    round::register(&mut v);
    v
}

// ---------------------------------------------------------------- helpers
/// m x n matrix of fresh symbolic entries
pub fn sym_mat<T: Elem>(nm: &str, m: usize, n: usize) -> Matrix<T> {
    let mut d = vec![];
    if m * n > 20 { return Matrix::new(m, n, many(nm, m * n)); }
    for i in 0..m { for j in 0..n { d.push(T::var(&format!("{}{}{}", nm, i, j))); } }
    Matrix::new(m, n, d)
}
/// distinct linear forms u + k*v + (k*k mod 23)*w of three fresh symbols, for shapes with more elements than symbols
pub fn many<T: Elem>(nm: &str, n: usize) -> Vec<T> {
    let (u, v, w) = (T::var(&format!("{}_u", nm)), T::var(&format!("{}_v", nm)), T::var(&format!("{}_w", nm)));
    (0..n).map(|k| u + T::int(k as i64) * v + T::int((k * k % 23) as i64) * w).collect()
}
pub fn mat<T: Elem>(m: usize, n: usize, f: impl Fn(usize, usize) -> T) -> Matrix<T> {
    let mut d = vec![];
    for i in 0..m { for j in 0..n { d.push(f(i, j)); } }
    Matrix::new(m, n, d)
}
/// independent reference product (does not use the library's)
pub fn mul<T: Elem>(a: &Matrix<T>, b: &Matrix<T>) -> Matrix<T> {
    assert!(a.cols() == b.rows(), "harness: product shapes");
    mat(a.rows(), b.cols(), |i, j| { let mut s = T::zero(); for k in 0..a.cols() { s = s + a.get_data()[i * a.cols() + k] * b.get_data()[k * b.cols() + j]; } s })
}
pub fn tr<T: Elem>(a: &Matrix<T>) -> Matrix<T> { mat(a.cols(), a.rows(), |i, j| a.get_data()[j * a.cols() + i]) }
pub fn at<T: Elem>(a: &Matrix<T>, i: usize, j: usize) -> T { a.get_data()[i * a.cols() + j] }
pub fn id<T: Elem>(n: usize) -> Matrix<T> { mat(n, n, |i, j| if i == j { T::one() } else { T::zero() }) }
pub fn shape<T: Elem>(a: &Matrix<T>, m: usize, n: usize, label: &str) -> bool {
    let r = a.get_data().len() == m * n && a.rows() == m && a.cols() == n;
    T::ok(r, label);
    r
}
pub fn same<T: Elem>(a: &Matrix<T>, b: &Matrix<T>, label: &str) {
    if !shape(a, b.rows(), b.cols(), label) { return; }
    for i in 0..b.get_data().len() { T::eq_(a.get_data()[i], b.get_data()[i], label); }
}
/// equality relative to a scale
pub fn same_s<T: Elem>(a: &Matrix<T>, b: &Matrix<T>, scale: &[T], label: &str) {
    if !shape(a, b.rows(), b.cols(), label) { return; }
    for i in 0..b.get_data().len() { T::eqs(a.get_data()[i], b.get_data()[i], scale, label); }
}
pub fn orthogonal<T: Elem>(q: &Matrix<T>, n: usize, label: &str) {
    if !shape(q, n, n, label) { return; }
    same(&mul(&tr(q), q), &id(n), label);
}
/// determinant by permutation expansion
pub fn det<T: Elem>(a: &Matrix<T>) -> T {
    let n = a.rows();
    fn go<T: Elem>(a: &Matrix<T>, row: usize, used: &mut Vec<bool>, n: usize) -> T {
        if row == n { return T::one(); }
        let mut s = T::zero();
        let mut sg = true;
        for c in 0..n {
            if used[c] { continue; }
            used[c] = true;
            let t = at(a, row, c) * go(a, row + 1, used, n);
            used[c] = false;
            s = if sg { s + t } else { s - t };
            sg = !sg;
        }
        s
    }
    go(a, 0, &mut vec![false; n], n)
}
