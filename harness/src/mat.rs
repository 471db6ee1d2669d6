//! Element types, registers and their projection to JSON.
use crate::json::*;
use num_complex::Complex;
use num_traits::Zero;
use sparsetools::coo::{CCoo, Coo};
use sparsetools::csc::{CCSC, CSC};
use sparsetools::csr::{CCSR, CSR};
use sparsetools::dok::DoK;
use sparsetools::*;
use std::hash::Hash;

pub trait Idx: Integer + Hash + 'static {
    fn from_i(n: i64) -> Self {
        let n = n.checked_mul(IUNIT.with(|u| u.get())).unwrap_or_else(|| die("index too large"));
        match <Self as num_traits::NumCast>::from(n) {
            Some(v) => v,
            None => die("index does not fit the index type"),
        }
    }
}
impl<I: Integer + Hash + 'static> Idx for I {}

pub enum Mat<I, T> {
    Coo(Coo<I, T>),
    Csr(CSR<I, T>),
    Csc(CSC<I, T>),
    Dok(DoK<I, T>),
}

pub type CmpK<I, T> = fn(usize, usize, &[I], &[I], &[T], &[I], &[I], &[T], &mut [I], &mut [I], &mut [bool]);
pub type ValK<I, T> = fn(usize, usize, &[I], &[I], &[T], &[I], &[I], &[T], &mut [I], &mut [I], &mut [T]);

thread_local! {
    /// Scalars of float types are the integers of the trace times 2^SHIFT.
    pub static SHIFT: std::cell::Cell<i32> = const { std::cell::Cell::new(0) };
}
/// Runs f with scalars written and read in units of 2^e.
pub fn shifted<X>(e: i32, f: impl FnOnce() -> X) -> X {
    struct Back(i32);
    impl Drop for Back {
        fn drop(&mut self) {
            SHIFT.with(|s| s.set(self.0));
        }
    }
    let _back = Back(SHIFT.with(|s| s.replace(e)));
    f()
}
thread_local! {
    /// Indices and dimensions are those of the trace times this; only for
    /// histories on coordinate and dictionary matrices.
    pub static IUNIT: std::cell::Cell<i64> = const { std::cell::Cell::new(1) };
}
/// An index or dimension as the trace has it.
pub fn index_out(n: i64) -> i64 {
    let u = IUNIT.with(|u| u.get());
    if n % u == 0 && (n / u).abs() <= 1_000_000_000 {
        n / u
    } else {
        1_000_000_009
    }
}
fn dim(n: usize) -> i64 {
    i64::try_from(n).map_or(1_000_000_009, index_out)
}
thread_local! {
    /// Scalars of integer types are those of the trace times BASE^SHIFT.
    pub static BASE: std::cell::Cell<i128> = const { std::cell::Cell::new(1) };
    /// Every n-th zero read by a float type is negative (0: none).
    pub static NEGZERO: std::cell::Cell<(u32, u32)> = const { std::cell::Cell::new((0, 0)) };
}
fn base() -> i128 {
    let e = SHIFT.with(|s| s.get());
    let b = BASE.with(|b| b.get());
    (0..e).fold(1i128, |u, _| u.checked_mul(b).unwrap_or_else(|| die("unit too large")))
}
fn int_in(n: i64) -> i128 {
    (n as i128).checked_mul(base()).unwrap_or_else(|| die("value too large"))
}
fn scale_in(n: i64) -> f64 {
    match n {
        0 => {
            let (k, m) = NEGZERO.with(|z| z.get());
            NEGZERO.with(|z| z.set((k + 1, m)));
            if m > 0 && k % m == 0 { -0.0 } else { 0.0 }
        }
        1000000001 => f64::NAN,
        1000000002 => f64::INFINITY,
        1000000003 => f64::NEG_INFINITY,
        _ => n as f64 * 2f64.powi(SHIFT.with(|s| s.get())),
    }
}
fn scale_out(v: f64) -> String {
    float_j(v * 2f64.powi(-SHIFT.with(|s| s.get())))
}

pub trait Val: Scalar + 'static {
    /// Complex scalars are written as pairs.
    const PAIR: bool = false;
    fn from_j(j: &J) -> Self;
    fn to_j(&self) -> String;
    /// A value to find in output arrays that were not written.
    fn junk() -> Self;
    /// Ordered routines, where the type is ordered.
    fn cmp_kernel<I: Idx>(_f: &str) -> Option<CmpK<I, Self>> {
        None
    }
    fn ord_kernel<I: Idx>(_f: &str) -> Option<ValK<I, Self>> {
        None
    }
    fn cmp_fn(_f: &str) -> Option<fn(Self, Self) -> bool> {
        None
    }
    fn ord_fn(_f: &str) -> Option<fn(Self, Self) -> Self> {
        None
    }
    fn neg<I: Idx>(_m: &Mat<I, Self>) -> Mat<I, Self> {
        die("negation of an unsigned type")
    }
    /// conj, real, imag, h, with_real, with_imag (real results embedded).
    fn complex<I: Idx>(_op: &str, _m: &Mat<I, Self>) -> Mat<I, Self> {
        die("complex operation on a real type")
    }
    fn lscale<I: Idx>(_s: Self, _m: &Mat<I, Self>, _own: bool) -> Mat<I, Self> {
        die("left scaling needs Complex64")
    }
}

macro_rules! ordered {
    () => {
        fn cmp_kernel<I: Idx>(f: &str) -> Option<CmpK<I, Self>> {
            Some(match f {
                "lt" => csr_lt_csr::<I, Self>,
                "le" => csr_le_csr::<I, Self>,
                "gt" => csr_gt_csr::<I, Self>,
                "ge" => csr_ge_csr::<I, Self>,
                _ => return None,
            })
        }
        fn ord_kernel<I: Idx>(f: &str) -> Option<ValK<I, Self>> {
            Some(match f {
                "max" => csr_max_csr::<I, Self>,
                "min" => csr_min_csr::<I, Self>,
                _ => return None,
            })
        }
        fn cmp_fn(f: &str) -> Option<fn(Self, Self) -> bool> {
            Some(match f {
                "lt" => |a, b| a < b,
                "le" => |a, b| a <= b,
                "gt" => |a, b| a > b,
                "ge" => |a, b| a >= b,
                _ => return None,
            })
        }
        fn ord_fn(f: &str) -> Option<fn(Self, Self) -> Self> {
            Some(match f {
                "max" => |a, b| if a > b { a } else { b },
                "min" => |a, b| if a < b { a } else { b },
                _ => return None,
            })
        }
    };
}

macro_rules! negated {
    () => {
        fn neg<I: Idx>(m: &Mat<I, Self>) -> Mat<I, Self> {
            match m {
                Mat::Coo(a) => Mat::Coo(-a.clone()),
                Mat::Csr(a) => Mat::Csr(-a.clone()),
                Mat::Csc(a) => Mat::Csc(-dup(a)),
                _ => die("neg: format"),
            }
        }
    };
}

fn int_j(v: i128) -> String {
    let u = base();
    let v = if v % u == 0 { v / u } else { i128::MAX };
    if (-1_000_000_000..=1_000_000_000).contains(&v) {
        format!("{}", v)
    } else {
        "1000000009".to_string()
    }
}

fn float_j(v: f64) -> String {
    if v.is_nan() {
        "1000000001".to_string()
    } else if v == f64::INFINITY {
        "1000000002".to_string()
    } else if v == f64::NEG_INFINITY {
        "1000000003".to_string()
    } else if v.fract() == 0.0 && v.abs() <= 1e9 {
        format!("{}", v as i64)
    } else {
        "1000000009".to_string()
    }
}

macro_rules! signed_int {
    ($($t:ty),*) => {$(
        impl Val for $t {
            fn from_j(j: &J) -> Self {
                <$t>::try_from(int_in(j.num())).unwrap_or_else(|_| die("value does not fit"))
            }
            fn to_j(&self) -> String { int_j(*self as i128) }
            fn junk() -> Self { 99 }
            ordered!();
            negated!();
        }
    )*};
}
macro_rules! unsigned_int {
    ($($t:ty),*) => {$(
        impl Val for $t {
            fn from_j(j: &J) -> Self {
                <$t>::try_from(int_in(j.num())).unwrap_or_else(|_| die("value does not fit"))
            }
            fn to_j(&self) -> String { int_j(i128::try_from(*self).unwrap_or(i128::MAX)) }
            fn junk() -> Self { 99 }
            ordered!();
        }
    )*};
}
macro_rules! float {
    ($($t:ty),*) => {$(
        impl Val for $t {
            fn from_j(j: &J) -> Self { scale_in(j.num()) as $t }
            fn to_j(&self) -> String { scale_out(*self as f64) }
            fn junk() -> Self { 99.0 }
            ordered!();
            negated!();
        }
    )*};
}
signed_int!(i16, i32, i64, i128, isize);
unsigned_int!(u16, u32, u64, u128, usize);
float!(f64, f32);

macro_rules! complex {
    ($f:ty, $lscale:item) => {
        impl Val for Complex<$f> {
            const PAIR: bool = true;
            fn from_j(j: &J) -> Self {
                let v = j.arr();
                Complex::new(scale_in(v[0].num()) as $f, scale_in(v[1].num()) as $f)
            }
            fn to_j(&self) -> String {
                format!("[{},{}]", scale_out(self.re as f64), scale_out(self.im as f64))
            }
            fn junk() -> Self {
                Complex::new(99.0, -99.0)
            }
            negated!();
            fn complex<I: Idx>(op: &str, m: &Mat<I, Self>) -> Mat<I, Self> {
                let up = |v: &[$f]| v.iter().map(|&x| Complex::new(x, 0.0)).collect::<Vec<_>>();
                let coo = |a: Coo<I, $f>| {
                    Mat::Coo(
                        Coo::new(a.rows(), a.cols(), a.rowidx().to_vec(), a.colidx().to_vec(), up(a.values()))
                            .unwrap(),
                    )
                };
                let csr = |a: CSR<I, $f>| {
                    Mat::Csr(
                        CSR::new(a.rows(), a.cols(), a.rowptr().to_vec(), a.colidx().to_vec(), up(a.values()))
                            .unwrap(),
                    )
                };
                let csc = |a: CSC<I, $f>| {
                    Mat::Csc(
                        CSC::new(a.rows(), a.cols(), a.rowidx().to_vec(), a.colptr().to_vec(), up(a.values()))
                            .unwrap(),
                    )
                };
                let re = |a: &CSR<I, Self>| {
                    CSR::<I, $f>::new(
                        a.rows(),
                        a.cols(),
                        a.rowptr().to_vec(),
                        a.colidx().to_vec(),
                        a.values().iter().map(|v| v.re).collect(),
                    )
                    .unwrap()
                };
                match (op, m) {
                    ("conj", Mat::Coo(a)) => Mat::Coo(CCoo::<I, $f>::conj(a)),
                    ("conj", Mat::Csr(a)) => Mat::Csr(CCSR::<I, $f, Self>::conj(a)),
                    ("conj", Mat::Csc(a)) => Mat::Csc(CCSC::<I, $f, Self>::conj(a)),
                    ("real", Mat::Coo(a)) => coo(a.real()),
                    ("real", Mat::Csr(a)) => csr(a.real()),
                    ("real", Mat::Csc(a)) => csc(a.real()),
                    ("imag", Mat::Coo(a)) => coo(a.imag()),
                    ("imag", Mat::Csr(a)) => csr(a.imag()),
                    ("imag", Mat::Csc(a)) => csc(a.imag()),
                    ("h", Mat::Coo(a)) => Mat::Coo(CCoo::<I, $f>::h(a)),
                    ("h", Mat::Csr(a)) => Mat::Csc(CCSR::<I, $f, Self>::h(a)),
                    ("h", Mat::Csc(a)) => Mat::Csr(CCSC::<I, $f, Self>::h(a)),
                    ("with_real", Mat::Csr(a)) => {
                        Mat::Csr(<CSR<I, Self> as CCSR<I, $f, Self>>::with_real(&re(a)))
                    }
                    ("with_imag", Mat::Csr(a)) => {
                        Mat::Csr(<CSR<I, Self> as CCSR<I, $f, Self>>::with_imag(&re(a)))
                    }
                    _ => die("complex: operation or format"),
                }
            }
            $lscale
        }
    };
}
complex!(
    f64,
    fn lscale<I: Idx>(s: Self, m: &Mat<I, Self>, own: bool) -> Mat<I, Self> {
        match (m, own) {
            (Mat::Csr(a), true) => Mat::Csr(s * a.clone()),
            (Mat::Csr(a), false) => Mat::Csr(s * a),
            (Mat::Csc(a), true) => Mat::Csc(s * dup(a)),
            (Mat::Csc(a), false) => Mat::Csc(s * a),
            _ => die("lscale: format"),
        }
    }
);
complex!(
    f32,
    fn lscale<I: Idx>(_s: Self, _m: &Mat<I, Self>, _own: bool) -> Mat<I, Self> {
        die("left scaling needs Complex64")
    }
);

/// CSC has no Clone.
pub fn dup<I: Idx, T: Scalar>(a: &CSC<I, T>) -> CSC<I, T> {
    CSC::new(a.rows(), a.cols(), a.rowidx().to_vec(), a.colptr().to_vec(), a.values().to_vec()).unwrap()
}

pub fn ij<I: Idx>(v: &[I]) -> String {
    list(v, |x| match x.to_i64() {
        Some(n) => format!("{}", index_out(n)),
        _ => "1000000009".to_string(),
    })
}
pub fn vj<T: Val>(v: &[T]) -> String {
    list(v, |x| x.to_j())
}
pub fn dj<T: Val>(v: &[Vec<T>]) -> String {
    list(v, |r| vj(r))
}

impl<I: Idx, T: Val> Mat<I, T> {
    pub fn project(&self) -> String {
        match self {
            Mat::Coo(a) => format!(
                "{{\"f\":\"coo\",\"r\":{},\"c\":{},\"n\":{},\"i\":{},\"j\":{},\"x\":{}}}",
                dim(a.rows()), dim(a.cols()), a.nnz(), ij(a.rowidx()), ij(a.colidx()), vj(a.values())
            ),
            Mat::Csr(a) => format!(
                "{{\"f\":\"csr\",\"r\":{},\"c\":{},\"n\":{},\"p\":{},\"j\":{},\"x\":{}}}",
                dim(a.rows()), dim(a.cols()), a.nnz(), ij(a.rowptr()), ij(a.colidx()), vj(a.values())
            ),
            Mat::Csc(a) => format!(
                "{{\"f\":\"csc\",\"r\":{},\"c\":{},\"n\":{},\"p\":{},\"j\":{},\"x\":{}}}",
                dim(a.rows()), dim(a.cols()), a.nnz(), ij(a.colptr()), ij(a.rowidx()), vj(a.values())
            ),
            Mat::Dok(a) => {
                // iteration order is not part of the state: sorted by position
                let mut e: Vec<((I, I), T)> = a.iter().map(|(k, v)| (*k, *v)).collect();
                e.sort_by(|x, y| x.0.cmp(&y.0));
                format!(
                    "{{\"f\":\"dok\",\"r\":{},\"c\":{},\"n\":{},\"i\":{},\"j\":{},\"x\":{}}}",
                    dim(a.rows()), dim(a.cols()), a.nnz(),
                    ij(&e.iter().map(|t| t.0 .0).collect::<Vec<_>>()),
                    ij(&e.iter().map(|t| t.0 .1).collect::<Vec<_>>()),
                    vj(&e.iter().map(|t| t.1).collect::<Vec<_>>())
                )
            }
        }
    }
    pub fn coo(&self) -> &Coo<I, T> {
        match self {
            Mat::Coo(a) => a,
            _ => die("a coordinate matrix is needed"),
        }
    }
    pub fn csr(&self) -> &CSR<I, T> {
        match self {
            Mat::Csr(a) => a,
            _ => die("a CSR matrix is needed"),
        }
    }
    pub fn csc(&self) -> &CSC<I, T> {
        match self {
            Mat::Csc(a) => a,
            _ => die("a CSC matrix is needed"),
        }
    }
    pub fn dok(&self) -> &DoK<I, T> {
        match self {
            Mat::Dok(a) => a,
            _ => die("a dictionary matrix is needed"),
        }
    }
}

pub fn zero<T: Zero>() -> T {
    T::zero()
}
