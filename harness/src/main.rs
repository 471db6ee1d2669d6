//! Executes calls on the real library and records what came back.
//!
//! Reads one JSON call per line, writes the same line extended by the outcome
//! ("out"), the result matrix ("m") or value ("v") and the operands after the
//! call ("post").  It computes no expected results.
mod json;
mod mat;

use json::*;
use mat::*;
use num_complex::{Complex32, Complex64};
use sparsetools::coo::Coo;
use sparsetools::csc::CSC;
use sparsetools::csr::CSR;
use sparsetools::dok::DoK;
use sparsetools::graph::{connected_components, cs_graph_components, depth_first_order, Connection};
use sparsetools::*;
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{SystemTime, UNIX_EPOCH};

static STARTED: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<String> = Mutex::new(String::new());

enum R<I, T> {
    M(Mat<I, T>),
    V(String),
}
/// Err(()) is an error the library reported.
type Out<I, T> = Result<R<I, T>, ()>;

fn e<X, E>(r: Result<X, E>) -> Result<X, ()> {
    r.map_err(|_| ())
}

fn idx<I: Idx>(j: &J) -> Vec<I> {
    j.arr().iter().map(|x| I::from_i(x.num())).collect()
}
fn us(j: &J) -> usize {
    usize::try_from(j.num()).unwrap_or_else(|_| die("negative size"))
}
fn dim(j: &J) -> usize {
    us(j).checked_mul(IUNIT.with(|u| u.get()) as usize).unwrap_or_else(|| die("size too large"))
}
fn uss(j: &J) -> Vec<usize> {
    j.arr().iter().map(us).collect()
}
fn vals<T: Val>(j: &J) -> Vec<T> {
    j.arr().iter().map(T::from_j).collect()
}
/// Scalars that are factors: in units of one whatever the matrix is in.
fn plain<T: Val>(j: &J) -> T {
    shifted(0, || T::from_j(j))
}
fn plains<T: Val>(j: &J) -> Vec<T> {
    shifted(0, || vals(j))
}
fn dense<T: Val>(j: &J) -> Vec<Vec<T>> {
    j.arr().iter().map(vals).collect()
}
fn lines(s: &str) -> String {
    list(&s.lines().collect::<Vec<_>>(), |l| quote(l))
}
fn form(c: &J) -> i64 {
    c.get("form").map(|b| b.num()).unwrap_or(3)
}
fn jb(b: bool) -> R0 {
    R0(if b { "true" } else { "false" }.to_string())
}
struct R0(String);

/// The four owned/borrowed forms of a binary operator.
macro_rules! forms {
    ($c:expr, $a:expr, $da:expr, $b:expr, $db:expr, $op:tt) => {
        match form($c) {
            0 => $da $op $db,
            1 => $a $op $db,
            2 => $da $op $b,
            _ => $a $op $b,
        }
    };
}

fn call<I: Idx, T: Val>(op: &str, c: &J, a: &[&Mat<I, T>]) -> Out<I, T> {
    use Mat as M;
    let m = |x: Mat<I, T>| Ok(R::M(x));
    let v = |s: String| Ok(R::V(s));
    let b = |x: bool| Ok(R::V(jb(x).0));
    let (jk, jv) = (I::from_i(99), T::junk());
    match op {
        // ---- constructors
        "coo_new" => m(M::Coo(e(Coo::new(dim(c.at("r")), dim(c.at("c")), idx(c.at("i")), idx(c.at("j")), vals(c.at("x"))))?)),
        "csr_new" => m(M::Csr(e(CSR::new(us(c.at("r")), us(c.at("c")), idx(c.at("p")), idx(c.at("j")), vals(c.at("x"))))?)),
        "csc_new" => m(M::Csc(e(CSC::new(us(c.at("r")), us(c.at("c")), idx(c.at("j")), idx(c.at("p")), vals(c.at("x"))))?)),
        "coo_with_size" => m(M::Coo(Coo::with_size(dim(c.at("r")), dim(c.at("c"))))),
        "coo_with_capacity" => m(M::Coo(Coo::with_capacity(dim(c.at("r")), dim(c.at("c")), us(c.at("k"))))),
        "csr_with_size" => m(M::Csr(CSR::with_size(us(c.at("r")), us(c.at("c"))))),
        "dok_new" => m(M::Dok(DoK::new(dim(c.at("r")), dim(c.at("c"))))),
        "dok_with_capacity" => m(M::Dok(DoK::with_capacity(dim(c.at("r")), dim(c.at("c")), us(c.at("k"))))),
        "coo_from_dense" => m(M::Coo(Coo::from_dense(&dense::<T>(c.at("D"))))),
        "csr_from_dense" => m(M::Csr(CSR::from_dense(&dense::<T>(c.at("D"))))),
        "csc_from_dense" => m(M::Csc(CSC::from_dense(&dense::<T>(c.at("D"))))),
        "dok_from_dense" => {
            let d = dense::<T>(c.at("D"));
            let s: Vec<&[T]> = d.iter().map(|r| r.as_slice()).collect();
            m(M::Dok(DoK::from_dense(&s)))
        }
        "coo_with_diagonal" => m(M::Coo(Coo::with_diagonal(&vals::<T>(c.at("x"))))),
        "csr_with_diagonal" => m(M::Csr(CSR::with_diagonal(vals::<T>(c.at("x"))))),
        "csc_with_diagonal" => m(M::Csc(CSC::with_diagonal(vals::<T>(c.at("x"))))),
        "coo_identity" => m(M::Coo(Coo::identity(us(c.at("n"))))),
        "coo_clone" => m(M::Coo(a[0].coo().clone())),
        "csr_clone" => m(M::Csr(a[0].csr().clone())),
        // ---- conversions
        "coo_to_csr" => m(M::Csr(a[0].coo().to_csr())),
        "coo_to_csc" => m(M::Csc(a[0].coo().to_csc())),
        "dok_to_csr" => m(M::Csr(a[0].dok().to_csr())),
        "dok_to_csc" => m(M::Csc(a[0].dok().to_csc())),
        "dok_to_coo" => m(M::Coo(a[0].dok().to_coo())),
        "csr_to_csc" => m(M::Csc(a[0].csr().to_csc())),
        "csr_to_coo" => m(M::Coo(a[0].csr().to_coo())),
        "csc_to_csr" => m(M::Csr(a[0].csc().to_csr())),
        "csc_to_coo" => m(M::Coo(a[0].csc().to_coo())),
        "coo_to_dense" => v(dj(&a[0].coo().to_dense())),
        "csc_to_dense" => v(dj(&a[0].csc().to_dense())),
        "dok_to_dense" => v(dj(&a[0].dok().to_dense())),
        "k_csr_tocsc" | "k_csc_tocsr" => {
            let csr = op == "k_csr_tocsc";
            let (r, cc, p, j, x) = comp(a[0]);
            let minor = if csr { cc } else { r };
            let mut bp = vec![jk; minor + 1];
            let mut bi = vec![jk; x.len()];
            let mut bx = vec![jv; x.len()];
            if csr {
                csr_tocsc(r, cc, p, j, x, &mut bp, &mut bi, &mut bx);
                m(M::Csc(CSC::new(r, cc, bi, bp, bx).unwrap()))
            } else {
                csc_tocsr(r, cc, p, j, x, &mut bp, &mut bi, &mut bx);
                m(M::Csr(CSR::new(r, cc, bp, bi, bx).unwrap()))
            }
        }
        "k_coo_tocsr" => {
            let s = a[0].coo();
            let n = s.nnz();
            let mut bp = vec![jk; s.rows() + 1];
            let mut bj = vec![jk; n];
            let mut bx = vec![jv; n];
            coo_tocsr(s.rows(), s.cols(), n, s.rowidx(), s.colidx(), s.values(), &mut bp, &mut bj, &mut bx);
            m(M::Csr(CSR::new(s.rows(), s.cols(), bp, bj, bx).unwrap()))
        }
        "k_csr_tocoo" => {
            let s = a[0].csr();
            let n = s.nnz();
            let (mut i, mut j, mut x) = (vec![jk; n], vec![jk; n], vec![jv; n]);
            csr_tocoo(s.rows(), s.cols(), s.rowptr(), s.colidx(), s.values(), &mut i, &mut j, &mut x);
            m(M::Coo(Coo::new(s.rows(), s.cols(), i, j, x).unwrap()))
        }
        "k_expandptr" => {
            let (_, _, p, _, x) = comp(a[0]);
            let mut o = vec![jk; x.len()];
            expandptr(p.len() - 1, p, &mut o);
            v(ij(&o))
        }
        "k_csr_todense" => {
            let s = a[0].csr();
            let mut d = dense::<T>(c.at("D"));
            csr_todense(s.rows(), s.cols(), s.rowptr(), s.colidx(), s.values(), &mut d);
            v(dj(&d))
        }
        "k_coo_todense" => {
            let s = a[0].coo();
            let mut y = vals::<T>(c.at("y"));
            coo_todense(s.rows(), s.cols(), s.nnz(), s.rowidx(), s.colidx(), s.values(), &mut y, c.at("fortran").boolean());
            v(vj(&y))
        }
        // ---- predicates
        "csr_sorted" => b(a[0].csr().has_sorted_indexes()),
        "csc_sorted" => b(a[0].csc().has_sorted_indexes()),
        "csr_canon" => b(a[0].csr().has_canonical_format()),
        "csc_canon" => b(a[0].csc().has_canonical_format()),
        "k_sorted" => {
            let (_, _, p, j, _) = comp(a[0]);
            b(csr_has_sorted_indices(p.len() - 1, p, j))
        }
        "k_canon" => {
            let (_, _, p, j, _) = comp(a[0]);
            b(csr_has_canonical_format(p.len() - 1, p, j))
        }
        "csc_shape" => {
            let s = a[0].csc().shape();
            v(format!("[{},{}]", s.0, s.1))
        }
        // ---- transposition, parts, scaling
        "coo_transpose" => m(M::Coo(a[0].coo().clone().transpose())),
        "coo_t" => m(M::Coo(a[0].coo().t())),
        "csr_transpose" => m(M::Csc(a[0].csr().clone().transpose())),
        "csr_t" => m(M::Csc(a[0].csr().t())),
        "csc_transpose" => m(M::Csr(a[0].csc().transpose())),
        "csc_t" => m(M::Csr(a[0].csc().t())),
        "coo_conj" | "csr_conj" | "csc_conj" => m(T::complex("conj", a[0])),
        "coo_real" | "csr_real" | "csc_real" => m(T::complex("real", a[0])),
        "coo_imag" | "csr_imag" | "csc_imag" => m(T::complex("imag", a[0])),
        "coo_h" | "csr_h" | "csc_h" => m(T::complex("h", a[0])),
        "csr_with_real" => m(T::complex("with_real", a[0])),
        "csr_with_imag" => m(T::complex("with_imag", a[0])),
        "coo_neg" | "csr_neg" | "csc_neg" => m(T::neg(a[0])),
        "csr_scale" => {
            let (s, x) = (plain::<T>(c.at("s")), a[0].csr());
            m(M::Csr(if form(c) == 0 { x.clone() * s } else { x * s }))
        }
        "csc_scale" => {
            let (s, x) = (plain::<T>(c.at("s")), a[0].csc());
            m(M::Csc(if form(c) == 0 { dup(x) * s } else { x * s }))
        }
        "csr_lscale" | "csc_lscale" => m(T::lscale(plain::<T>(c.at("s")), a[0], form(c) == 0)),
        // ---- sums and products
        "coo_add" => {
            let (x, y) = (a[0].coo(), a[1].coo());
            m(M::Csr(forms!(c, x, x.clone(), y, y.clone(), +)))
        }
        "csr_add" => {
            let (x, y) = (a[0].csr(), a[1].csr());
            m(M::Csr(forms!(c, x, x.clone(), y, y.clone(), +)))
        }
        "csr_sub" => {
            let (x, y) = (a[0].csr(), a[1].csr());
            m(M::Csr(forms!(c, x, x.clone(), y, y.clone(), -)))
        }
        "csr_mul" => {
            let (x, y) = (a[0].csr(), a[1].csr());
            m(M::Csr(forms!(c, x, x.clone(), y, y.clone(), *)))
        }
        "csc_add" => {
            let (x, y) = (a[0].csc(), a[1].csc());
            m(M::Csc(forms!(c, x, dup(x), y, dup(y), +)))
        }
        "csc_sub" => {
            let (x, y) = (a[0].csc(), a[1].csc());
            m(M::Csc(forms!(c, x, dup(x), y, dup(y), -)))
        }
        "csc_mul" => {
            let (x, y) = (a[0].csc(), a[1].csc());
            m(M::Csc(forms!(c, x, dup(x), y, dup(y), *)))
        }
        "csc_mul_csr" => {
            let (x, y) = (a[0].csc(), a[1].csr());
            m(M::Csc(forms!(c, x, dup(x), y, y.clone(), *)))
        }
        "csc_add_m" => m(M::Csc(e(CSC::add(a[0].csc(), a[1].csc()))?)),
        "csc_sub_m" => m(M::Csc(e(a[0].csc().subtract(a[1].csc()))?)),
        "csr_matmat" => m(M::Csr(e(a[0].csr().mat_mat(a[1].csr()))?)),
        "csc_matmat" => m(M::Csc(e(a[0].csc().mat_mat(a[1].csc()))?)),
        "k_csr_matmat" | "k_csc_matmat" | "k_csr_maxnnz" | "k_csc_maxnnz" => {
            let csr = op.starts_with("k_csr");
            let (ar, _, ap, aj, ax) = comp(a[0]);
            let (_, bc, bp, bj, bx) = comp(a[1]);
            let n = if csr { csr_matmat_maxnnz(ar, bc, ap, aj, bp, bj) } else { csc_matmat_maxnnz(ar, bc, ap, aj, bp, bj) };
            if op.ends_with("maxnnz") {
                return v(format!("{}", n));
            }
            let mut cp = vec![jk; if csr { ar } else { bc } + 1];
            let (mut cj, mut cx) = (vec![jk; n], vec![jv; n]);
            if csr {
                csr_matmat(ar, bc, ap, aj, ax, bp, bj, bx, &mut cp, &mut cj, &mut cx);
                trim(&cp, &mut cj, &mut cx);
                m(M::Csr(CSR::new(ar, bc, cp, cj, cx).unwrap()))
            } else {
                csc_matmat(ar, bc, ap, aj, ax, bp, bj, bx, &mut cp, &mut cj, &mut cx);
                trim(&cp, &mut cj, &mut cx);
                m(M::Csc(CSC::new(ar, bc, cj, cp, cx).unwrap()))
            }
        }
        "k_bin" => m(M::Csr(binop(c.at("fn").str(), c.at("which").str(), a[0].csr(), a[1].csr()))),
        "csr_matvec" => v(vj(&e(a[0].csr().mat_vec(&plains::<T>(c.at("x"))))?)),
        "csc_matvec" => v(vj(&e(a[0].csc().mat_vec(&plains::<T>(c.at("x"))))?)),
        "csr_mulvec" | "csc_mulvec" => {
            let x = plains::<T>(c.at("x"));
            let s: &[T] = &x;
            let vec = c.get("rk").map(|j| j.str() == "vec").unwrap_or(false);
            let o: Vec<T> = match a[0] {
                M::Csr(q) => match (form(c), vec) {
                    (0, false) => q.clone() * s,
                    (1, false) => q * s,
                    (2, false) => q.clone() * &s,
                    (_, false) => q * &s,
                    (0, true) => q.clone() * &x,
                    (1, true) => q * &x,
                    (2, true) => q.clone() * &&x,
                    (_, true) => q * &&x,
                },
                M::Csc(q) => match (form(c), vec) {
                    (0, false) => dup(q) * s,
                    (1, false) => q * s,
                    (2, false) => dup(q) * &s,
                    (_, false) => q * &s,
                    (0, true) => dup(q) * &x,
                    (1, true) => q * &x,
                    (2, true) => dup(q) * &&x,
                    (_, true) => q * &&x,
                },
                _ => die("mulvec: format"),
            };
            v(vj(&o))
        }
        "k_csr_matvec" | "k_csc_matvec" => {
            let (r, cc, p, j, x) = comp(a[0]);
            let (xx, mut y) = (plains::<T>(c.at("x")), vals::<T>(c.at("y")));
            if op == "k_csr_matvec" {
                csr_matvec(r, cc, p, j, x, &xx, &mut y)
            } else {
                csc_matvec(r, cc, p, j, x, &xx, &mut y)
            }
            v(vj(&y))
        }
        "k_csr_matvecs" | "k_csc_matvecs" => {
            let (r, cc, p, j, x) = comp(a[0]);
            let (xx, mut y) = (plains::<T>(c.at("x")), vals::<T>(c.at("y")));
            let nv = us(c.at("nv"));
            if op == "k_csr_matvecs" {
                csr_matvecs(r, cc, nv, p, j, x, &xx, &mut y)
            } else {
                csc_matvecs(r, cc, nv, p, j, x, &xx, &mut y)
            }
            v(vj(&y))
        }
        "k_coo_matvec" => {
            let s = a[0].coo();
            let (xx, mut y) = (plains::<T>(c.at("x")), vals::<T>(c.at("y")));
            coo_matvec(s.nnz(), s.rowidx(), s.colidx(), s.values(), &xx, &mut y);
            v(vj(&y))
        }
        // ---- blocks
        "coo_h_stack" => m(M::Coo(e(Coo::h_stack(a[0].coo(), a[1].coo()))?)),
        "coo_v_stack" => m(M::Coo(e(Coo::v_stack(a[0].coo(), a[1].coo()))?)),
        "csr_h_stack" => m(M::Csr(e(CSR::h_stack(a[0].csr(), a[1].csr()))?)),
        "coo_h_stack3" => m(M::Coo(e(Coo::h_stack3(a[0].coo(), a[1].coo(), a[2].coo()))?)),
        "coo_v_stack3" => m(M::Coo(e(Coo::v_stack3(a[0].coo(), a[1].coo(), a[2].coo()))?)),
        "coo_compose" => {
            let q: Vec<&Coo<I, T>> = a.iter().map(|x| x.coo()).collect();
            m(M::Coo(e(Coo::compose([[q[0], q[1]], [q[2], q[3]]]))?))
        }
        "coo_compose3" => {
            let q: Vec<&Coo<I, T>> = a.iter().map(|x| x.coo()).collect();
            m(M::Coo(e(Coo::compose3([[q[0], q[1], q[2]], [q[3], q[4], q[5]], [q[6], q[7], q[8]]]))?))
        }
        "csc_compose" => m(M::Csc(e(CSC::compose(a[0].csc(), a[1].csc(), a[2].csc(), a[3].csc()))?)),
        // ---- selection, slicing
        "csr_select" | "csc_select" => {
            let r: Option<Vec<I>> = c.get("rows").map(idx);
            let q: Option<Vec<I>> = c.get("cols").map(idx);
            match a[0] {
                M::Csr(s) => m(M::Csr(e(s.select(r.as_deref(), q.as_deref()))?)),
                M::Csc(s) => m(M::Csc(e(s.select(r.as_deref(), q.as_deref()))?)),
                _ => die("select: format"),
            }
        }
        "k_select" => {
            let s = a[0].csr();
            let (r, q) = (idx::<I>(c.at("rows")), idx::<I>(c.at("cols")));
            let (mut p, mut j, mut x) = (vec![], vec![], vec![]);
            csr_select(s.rows(), s.cols(), s.rowptr(), s.colidx(), s.values(), &r, &q, &mut p, &mut j, &mut x);
            full(&p, &j, &x);
            m(M::Csr(CSR::new(r.len(), q.len(), p, j, x).unwrap()))
        }
        "k_submatrix" => {
            let s = a[0].csr();
            let g = |k: &str| c.at(k).num();
            let (mut p, mut j, mut x) = (vec![], vec![], vec![]);
            get_csr_submatrix(
                s.rows(), s.cols(), s.rowptr(), s.colidx(), s.values(),
                I::from_i(g("r0")), I::from_i(g("r1")), I::from_i(g("c0")), I::from_i(g("c1")),
                &mut p, &mut j, &mut x,
            );
            full(&p, &j, &x);
            m(M::Csr(CSR::new((g("r1") - g("r0")) as usize, (g("c1") - g("c0")) as usize, p, j, x).unwrap()))
        }
        "k_row_index" => {
            let (_, _, p, j, x) = comp(a[0]);
            let rows = uss(c.at("idx"));
            let (mut bj, mut bx) = (vec![], vec![]);
            csr_row_index(rows.len(), &rows, p, j, x, &mut bj, &mut bx);
            v(format!("[{},{}]", ij::<I>(&bj), vj::<T>(&bx)))
        }
        "k_row_slice" => {
            let (_, _, p, j, x) = comp(a[0]);
            let (mut bj, mut bx) = (vec![], vec![]);
            csr_row_slice(us(c.at("start")), us(c.at("stop")), us(c.at("step")), p, j, x, &mut bj, &mut bx);
            v(format!("[{},{}]", ij::<I>(&bj), vj::<T>(&bx)))
        }
        "k_col_index" => {
            // pass 1, then pass 2 with the stable order of the indices by column
            let s = a[0].csr();
            let cols = uss(c.at("idx"));
            let mut off = vec![I::from_i(0); s.cols()];
            let mut bp = vec![jk; s.rows() + 1];
            csr_column_index1(cols.len(), &cols, s.rows(), s.cols(), s.rowptr(), s.colidx(), &mut off, &mut bp);
            let n = bp[s.rows()].to_usize().unwrap();
            let mut order: Vec<usize> = (0..cols.len()).collect();
            order.sort_by_key(|&k| cols[k]);
            let order: Vec<I> = order.iter().map(|&k| I::from_i(k as i64)).collect();
            let (mut bj, mut bx) = (vec![jk; n], vec![jv; n]);
            csr_column_index2(&order, &off, s.nnz(), s.colidx(), s.values(), &mut bj, &mut bx);
            m(M::Csr(CSR::new(s.rows(), cols.len(), bp, bj, bx).unwrap()))
        }
        // ---- diagonals, triangle, elements
        "coo_diagonal" => v(vj(&a[0].coo().diagonal())),
        "csr_diagonal" => v(vj(&a[0].csr().diagonal())),
        "csc_diagonal" => v(vj(&a[0].csc().diagonal())),
        "k_csr_diagonal" | "k_csc_diagonal" => {
            let (r, cc, p, j, x) = comp(a[0]);
            let k = c.at("k").num() as isize;
            let mut y = vec![jv; r.min(cc)];
            if op == "k_csr_diagonal" {
                csr_diagonal(k, r, cc, p, j, x, &mut y)
            } else {
                csc_diagonal(k, r, cc, p, j, x, &mut y)
            }
            v(vj(&y))
        }
        "coo_upper" => m(M::Coo(a[0].coo().upper(I::from_i(c.at("k").num())))),
        "csr_get" => v(a[0].csr().get(I::from_i(c.at("i").num()), I::from_i(c.at("j").num())).to_j()),
        "dok_get" => v(a[0].dok().get(I::from_i(c.at("i").num()), I::from_i(c.at("j").num())).to_j()),
        "k_count_diag" => {
            let s = a[0].csr();
            v(format!("{}", csr_count_diagonals(s.rows(), s.rowptr(), s.colidx())))
        }
        // ---- text
        "coo_to_string" => v(lines(&a[0].coo().to_string())),
        "csr_to_string" => v(lines(&a[0].csr().to_string())),
        "csc_to_string" => v(lines(&a[0].csc().to_string())),
        "dok_to_string" => v(lines(&a[0].dok().to_string())),
        "csr_to_table" => {
            let t = a[0].csr().to_table();
            let rows: Vec<Vec<&str>> = t.lines().map(|l| l.split_whitespace().collect()).collect();
            v(list(&rows, |r| list(r, |s| quote(s))))
        }
        // ---- graphs
        "g_cc" => {
            let con = if c.at("conn").str() == "strong" { Connection::Strong } else { Connection::Weak };
            let (n, l) = e(connected_components(a[0].csr(), c.at("directed").boolean(), con))?;
            v(format!("[{},{}]", n, ij(&l)))
        }
        "g_dfs" => {
            let (n, p) = e(depth_first_order(a[0].csr(), us(c.at("start")), c.at("directed").boolean()))?;
            v(format!("[{},{}]", ij(&n), list(&p, |q| q.map(|k| format!("{}", k)).unwrap_or("-1".to_string()))))
        }
        "csr_cc" | "k_gcomp" => {
            let s = a[0].csr();
            let kernel = op == "k_gcomp";
            match c.get("F").map(|f| f.str()).unwrap_or("i32") {
                "i8" => comps::<I, T, i8>(s, kernel),
                "i64" => comps::<I, T, i64>(s, kernel),
                "isize" => comps::<I, T, isize>(s, kernel),
                _ => comps::<I, T, i32>(s, kernel),
            }
        }
        _ => die(&format!("unknown operation {}", op)),
    }
}

fn comps<I: Idx, T: Val, F: Idx + num_traits::Signed>(s: &CSR<I, T>, kernel: bool) -> Out<I, T> {
    let (n, l) = if kernel {
        let mut f = vec![F::from_i(99); s.rows()];
        let n = e(cs_graph_components::<I, T, F>(s.rows(), s.rowptr(), s.colidx(), &mut f))?;
        (n, f)
    } else {
        e(s.connected_components::<F>())?
    };
    Ok(R::V(format!("[{},{}]", n, ij(&l))))
}

fn comp<I: Idx, T: Val>(m: &Mat<I, T>) -> (usize, usize, &[I], &[I], &[T]) {
    match m {
        Mat::Csr(a) => (a.rows(), a.cols(), a.rowptr(), a.colidx(), a.values()),
        Mat::Csc(a) => (a.rows(), a.cols(), a.colptr(), a.rowidx(), a.values()),
        _ => die("a compressed matrix is needed"),
    }
}

/// The kernels that write into buffers of an upper-bound size say in the last
/// pointer how much of them they used.
fn trim<I: Idx, T>(p: &[I], j: &mut Vec<I>, x: &mut Vec<T>) {
    let n = p[p.len() - 1].to_usize().unwrap();
    j.truncate(n);
    x.truncate(n);
}

/// The kernels that grow their output leave no more than they report.
fn full<I: Idx, T>(p: &[I], j: &[I], x: &[T]) {
    let n = p[p.len() - 1].to_usize().unwrap();
    assert!(j.len() == n && x.len() == n);
}

fn binop<I: Idx, T: Val>(f: &str, which: &str, a: &CSR<I, T>, b: &CSR<I, T>) -> CSR<I, T> {
    let n = a.nnz() + b.nnz();
    let (r, c) = (a.rows(), a.cols());
    let (ap, aj, ax) = (a.rowptr(), a.colidx(), a.values());
    let (bp, bj, bx) = (b.rowptr(), b.colidx(), b.values());
    let mut cp = vec![I::from_i(99); r + 1];
    let mut cj = vec![I::from_i(99); n];
    let val: Option<fn(T, T) -> T> = match f {
        "add" => Some(|a, b| a + b),
        "sub" => Some(|a, b| a - b),
        "mul" => Some(|a, b| a * b),
        "div" => Some(|a, b| a / b),
        _ => T::ord_fn(f),
    };
    if let Some(g) = val {
        let mut cx = vec![T::junk(); n];
        match which {
            "general" => csr_binop_csr_general(r, c, ap, aj, ax, bp, bj, bx, &mut cp, &mut cj, &mut cx, g),
            "canonical" => csr_binop_csr_canonical(r, c, ap, aj, ax, bp, bj, bx, &mut cp, &mut cj, &mut cx, g),
            "auto" => csr_binop_csr(r, c, ap, aj, ax, bp, bj, bx, &mut cp, &mut cj, &mut cx, g),
            _ => {
                let k: ValK<I, T> = match f {
                    "add" => csr_add_csr::<I, T>,
                    "sub" => csr_sub_csr::<I, T>,
                    "mul" => csr_mul_csr::<I, T>,
                    "div" => csr_div_csr::<I, T>,
                    _ => T::ord_kernel::<I>(f).unwrap(),
                };
                k(r, c, ap, aj, ax, bp, bj, bx, &mut cp, &mut cj, &mut cx)
            }
        }
        trim(&cp, &mut cj, &mut cx);
        CSR::new(r, c, cp, cj, cx).unwrap()
    } else {
        let g: fn(T, T) -> bool = match f {
            "ne" => |a, b| a != b,
            "eq" => |a, b| a == b,
            _ => T::cmp_fn(f).unwrap_or_else(|| die("unordered type")),
        };
        let mut cx = vec![true; n];
        match which {
            "general" => csr_binop_csr_general(r, c, ap, aj, ax, bp, bj, bx, &mut cp, &mut cj, &mut cx, g),
            "canonical" => csr_binop_csr_canonical(r, c, ap, aj, ax, bp, bj, bx, &mut cp, &mut cj, &mut cx, g),
            "auto" => csr_binop_csr(r, c, ap, aj, ax, bp, bj, bx, &mut cp, &mut cj, &mut cx, g),
            _ => {
                let k: CmpK<I, T> = match f {
                    "ne" => csr_ne_csr::<I, T>,
                    "eq" => csr_eq_csr::<I, T>,
                    _ => T::cmp_kernel::<I>(f).unwrap(),
                };
                k(r, c, ap, aj, ax, bp, bj, bx, &mut cp, &mut cj, &mut cx)
            }
        }
        let one = T::from_j(&if T::PAIR { parse("[1,0]") } else { parse("1") });
        let mut cx = cx.iter().map(|&t| if t { one } else { zero() }).collect();
        trim(&cp, &mut cj, &mut cx);
        CSR::new(r, c, cp, cj, cx).unwrap()
    }
}

fn is_in_place(op: &str) -> bool {
    matches!(
        op,
        "coo_push" | "coo_extend" | "coo_set_val" | "csr_set_val" | "csc_set_val" | "csr_sort" | "csr_sumdup"
            | "csc_sort" | "csc_sumdup" | "csc_prune" | "dok_set" | "dok_add" | "dok_sub" | "k_scale_rows"
            | "k_scale_cols" | "k_sort" | "k_sumdup" | "k_elim"
    )
}

fn call_in_place<I: Idx, T: Val>(op: &str, c: &J, a: &mut Mat<I, T>) -> Result<(), ()> {
    match (op, &mut *a) {
        ("coo_push", Mat::Coo(s)) => s.push(I::from_i(c.at("i").num()), I::from_i(c.at("j").num()), T::from_j(c.at("x"))),
        ("coo_extend", Mat::Coo(s)) => s.extend(&idx::<I>(c.at("i")), &idx::<I>(c.at("j")), &vals::<T>(c.at("x"))),
        ("coo_set_val", Mat::Coo(s)) => s.values_mut()[us(c.at("k"))] = T::from_j(c.at("x")),
        ("csr_set_val", Mat::Csr(s)) => s.values_mut()[us(c.at("k"))] = T::from_j(c.at("x")),
        ("csc_set_val", Mat::Csc(s)) => s.values_mut()[us(c.at("k"))] = T::from_j(c.at("x")),
        ("csr_sort", Mat::Csr(s)) => s.sort_indexes(),
        ("csr_sumdup", Mat::Csr(s)) => e(s.sum_duplicates())?,
        ("csc_sort", Mat::Csc(s)) => s.sort_indexes(),
        ("csc_sumdup", Mat::Csc(s)) => s.sum_duplicates(),
        ("csc_prune", Mat::Csc(s)) => e(s.prune())?,
        ("dok_set", Mat::Dok(s)) => e(s.set(I::from_i(c.at("i").num()), I::from_i(c.at("j").num()), T::from_j(c.at("x"))))?,
        ("dok_add", Mat::Dok(s)) => e(s.add(I::from_i(c.at("i").num()), I::from_i(c.at("j").num()), T::from_j(c.at("x"))))?,
        ("dok_sub", Mat::Dok(s)) => e(s.sub(I::from_i(c.at("i").num()), I::from_i(c.at("j").num()), T::from_j(c.at("x"))))?,
        (_, Mat::Csr(s)) if op.starts_with("k_") => {
            let (r, cc) = (s.rows(), s.cols());
            let (mut p, mut j, mut x) = (s.rowptr().to_vec(), s.colidx().to_vec(), s.values().to_vec());
            match op {
                "k_scale_rows" => csr_scale_rows(r, cc, &p, &j, &mut x, &plains::<T>(c.at("s"))),
                "k_scale_cols" => csr_scale_columns(r, cc, &p, &j, &mut x, &plains::<T>(c.at("s"))),
                "k_sort" => csr_sort_indices(r, &p, &mut j, &mut x),
                "k_sumdup" => csr_sum_duplicates(r, cc, &mut p, &mut j, &mut x),
                "k_elim" => csr_eliminate_zeros(r, cc, &mut p, &mut j, &mut x),
                _ => die("unknown in-place routine"),
            }
            trim(&p, &mut j, &mut x);
            *a = Mat::Csr(CSR::new(r, cc, p, j, x).unwrap());
        }
        _ => die(&format!("{}: format", op)),
    }
    Ok(())
}

struct Session<I, T> {
    regs: HashMap<String, (Mat<I, T>, i32)>,
}

trait Run {
    fn step(&mut self, op: &str, c: &J) -> String;
}

impl<I: Idx, T: Val> Run for Session<I, T> {
    fn step(&mut self, op: &str, c: &J) -> String {
        let names: Vec<String> = c.at("a").arr().iter().map(|n| n.str().to_string()).collect();
        if op == "same" {
            return "\"out\":\"ok\",\"post\":[]".to_string();
        }
        if let Some(n) = names.iter().find(|n| !self.regs.contains_key(*n)) {
            // an earlier call of this history failed; the specification has skipped it too
            return format!("\"out\":\"nooperand {}\",\"post\":[]", n);
        }
        let mut out;
        let mut extra = String::new();
        // Units of the scalars read and made by this call.
        let es: Vec<i32> = names.iter().map(|n| self.regs[n].1).collect();
        let unit = match op {
            "csr_matmat" | "csc_matmat" | "csr_mul" | "csc_mul" | "csc_mul_csr" | "k_csr_matmat" | "k_csc_matmat" => es.iter().sum(),
            "k_bin" if c.at("fn").str() == "mul" => es.iter().sum(),
            "k_bin" if c.at("fn").str() == "div" => es[0] - es[1],
            _ if es.is_empty() => c.get("e").map(|e| e.num() as i32).unwrap_or(0),
            _ => es[0],
        };
        if is_in_place(op) {
            let a = &mut self.regs.get_mut(&names[0]).unwrap().0;
            out = match catch_unwind(AssertUnwindSafe(|| shifted(unit, || call_in_place(op, c, a)))) {
                Ok(Ok(())) => "ok",
                Ok(Err(())) => "err",
                Err(_) => "panic",
            };
        } else {
            let ops: Vec<&Mat<I, T>> = names.iter().map(|n| &self.regs[n].0).collect();
            let r = catch_unwind(AssertUnwindSafe(|| shifted(unit, || call(op, c, &ops))));
            match r {
                Ok(Ok(R::M(x))) => {
                    out = "ok";
                    match catch_unwind(AssertUnwindSafe(|| shifted(unit, || x.project()))) {
                        Ok(p) => {
                            extra = format!(",\"m\":{}", p);
                            self.regs.insert(c.at("d").str().to_string(), (x, unit));
                        }
                        Err(_) => out = "panic",
                    }
                }
                Ok(Ok(R::V(s))) => {
                    out = "ok";
                    extra = format!(",\"v\":{}", s);
                }
                Ok(Err(())) => out = "err",
                Err(_) => out = "panic",
            }
        }
        let post = list(&names, |n| {
            let (x, e) = &self.regs[n];
            catch_unwind(AssertUnwindSafe(|| shifted(*e, || x.project()))).unwrap_or_else(|_| "0".to_string())
        });
        format!("\"out\":\"{}\",\"post\":{}{}", out, post, extra)
    }
}

fn session(ty: &str) -> Box<dyn Run> {
    macro_rules! table {
        ($($s:literal => $i:ty, $t:ty;)*) => {
            match ty {
                $($s => Box::new(Session::<$i, $t> { regs: HashMap::new() }),)*
                _ => die(&format!("unknown element types {}", ty)),
            }
        };
    }
    table! {
        "usize,f64" => usize, f64;
        "i32,f64" => i32, f64;
        "u8,f64" => u8, f64;
        "u64,f32" => u64, f32;
        "usize,i32" => usize, i32;
        "i64,i64" => i64, i64;
        "i8,i16" => i8, i16;
        "u16,i128" => u16, i128;
        "u128,isize" => u128, isize;
        "isize,usize" => isize, usize;
        "u32,u32" => u32, u32;
        "i128,f64" => i128, f64;
        "u64,u64" => u64, u64;
        "u32,u128" => u32, u128;
        "i16,i32" => i16, i32;
        "i8,f32" => i8, f32;
        "u8,u16" => u8, u16;
        "usize,c32" => usize, Complex32;
        "usize,c64" => usize, Complex64;
        "i32,c64" => i32, Complex64;
        "u8,c64" => u8, Complex64;
        "i16,c32" => i16, Complex32;
    }
}

fn now() -> u64 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_millis() as u64
}

fn main() {
    let limit: u64 = std::env::args().nth(1).map(|s| s.parse().unwrap()).unwrap_or(20_000);
    if std::env::var_os("SPARSEDRV_LOUD").is_none() { std::panic::set_hook(Box::new(|_| {})); }
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(100));
        let s = STARTED.load(Ordering::SeqCst);
        if s != 0 && now() > s + limit {
            let raw = CURRENT.lock().unwrap().clone();
            let o = std::io::stdout();
            let mut o = o.lock();
            let _ = writeln!(o, "{},\"out\":\"hang\",\"post\":[]}}", &raw[..raw.len() - 1]);
            let _ = o.flush();
            std::process::exit(78);
        }
    });
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut run: Option<Box<dyn Run>> = None;
    for line in stdin.lock().lines() {
        let raw = line.unwrap().trim().to_string();
        if raw.is_empty() {
            continue;
        }
        let c = parse(&raw);
        let op = c.at("op").str();
        if op == "reset" {
            run = Some(session(c.at("ty").str()));
            BASE.with(|b| b.set(c.get("b").map_or(1, |b| b.str().parse().unwrap_or_else(|_| die("base")))));
            IUNIT.with(|u| u.set(c.get("iu").map_or(1, |b| b.str().parse().unwrap_or_else(|_| die("index unit")))));
            NEGZERO.with(|z| z.set((0, c.get("nz").map_or(0, |z| z.num() as u32))));
            let mut o = stdout.lock();
            writeln!(o, "{}", raw).unwrap();
            continue;
        }
        *CURRENT.lock().unwrap() = raw.clone();
        STARTED.store(now(), Ordering::SeqCst);
        let res = run.as_mut().unwrap_or_else(|| die("no reset line")).step(op, &c);
        STARTED.store(0, Ordering::SeqCst);
        let mut o = stdout.lock();
        writeln!(o, "{},{}}}", &raw[..raw.len() - 1], res).unwrap();
    }
    std::io::stdout().flush().unwrap();
}
