//! Dynamic matrices and vectors: conversion to the table model, comparison of
//! any expression with a table, and random expression programs.

use crate::rings::{Mat, Node, Term, Term2};
use crate::run::Res;
use crate::ensure_eq;
use magnesia::linalg::*;
use std::cell::RefCell;
use std::fmt::Debug;

pub fn dm<T: Clone>(m: &Mat<T>) -> DMatrix<T> {
    make_matrix_expr(m.r, m.c, |i, j| m.at(i, j).clone()).eval()
}
pub fn dv<T: Clone>(v: &[T]) -> DVector<T> {
    v.eval()
}
pub fn table<T: Clone>(d: &DMatrix<T>) -> Mat<T> {
    Mat::from_fn(d.num_rows(), d.num_cols(), |i, j| d[[i, j]].clone())
}
pub fn list<T: Clone>(d: &DVector<T>) -> Vec<T> {
    (0..d.len()).map(|i| d[i].clone()).collect()
}

/// A stored matrix has exactly the shape and entries of the table.
pub fn stored<T: Clone + PartialEq + Debug>(what: &str, d: &DMatrix<T>, want: &Mat<T>) -> Res {
    ensure_eq!((d.num_rows(), d.num_cols()), (want.r, want.c), "{what}: shape");
    for i in 0..want.r {
        for j in 0..want.c {
            ensure_eq!(d[[i, j]], *want.at(i, j), "{what} indexed at ({i}, {j})");
            ensure_eq!(d.entry(i, j), *want.at(i, j), "{what} entry ({i}, {j})");
        }
    }
    Ok(())
}

/// An expression has the shape and entries of the table: read entry by entry
/// without evaluation, and after evaluation.
pub fn agree<E: MatrixExpr>(what: &str, e: E, want: &Mat<E::Entry>) -> Res
where
    E::Entry: Clone + PartialEq + Debug,
{
    ensure_eq!((e.num_rows(), e.num_cols()), (want.r, want.c), "{what}: shape");
    for i in 0..want.r {
        for j in 0..want.c {
            ensure_eq!(e.entry(i, j), *want.at(i, j), "{what}, unevaluated entry ({i}, {j})");
        }
    }
    stored(what, &e.eval(), want)
}

pub fn stored_vec<T: Clone + PartialEq + Debug>(what: &str, d: &DVector<T>, want: &[T]) -> Res {
    ensure_eq!(d.len(), want.len(), "{what}: length");
    ensure_eq!(d.is_empty(), want.is_empty(), "{what}: emptiness");
    for i in 0..want.len() {
        ensure_eq!(d[i], want[i], "{what} indexed at {i}");
        ensure_eq!(d.entry(i), want[i], "{what} entry {i}");
    }
    Ok(())
}
pub fn agree_vec<E: VectorExpr>(what: &str, e: E, want: &[E::Entry]) -> Res
where
    E::Entry: Clone + PartialEq + Debug,
{
    ensure_eq!(e.len(), want.len(), "{what}: length");
    ensure_eq!(e.is_empty(), want.is_empty(), "{what}: emptiness");
    for i in 0..want.len() {
        ensure_eq!(e.entry(i), want[i], "{what}, unevaluated entry {i}");
    }
    stored_vec(what, &e.eval(), want)
}

// ---- type-erased expressions -------------------------------------------

trait Erased<T> {
    fn entry_(&self, r: usize, c: usize) -> T;
    fn rows_(&self) -> usize;
    fn cols_(&self) -> usize;
    fn eval_(self: Box<Self>) -> DMatrix<T>;
}
impl<T, E: MatrixExpr<Entry = T>> Erased<T> for E {
    fn entry_(&self, r: usize, c: usize) -> T { self.entry(r, c) }
    fn rows_(&self) -> usize { self.num_rows() }
    fn cols_(&self) -> usize { self.num_cols() }
    fn eval_(self: Box<Self>) -> DMatrix<T> { (*self).eval() }
}
/// Any matrix expression; evaluation is passed on to it.
pub struct DynMat<'a, T>(Box<dyn Erased<T> + 'a>);
impl<'a, T> DynMat<'a, T> {
    pub fn new<E: MatrixExpr<Entry = T> + 'a>(e: E) -> Self {
        DynMat(Box::new(e))
    }
}
impl<T> MatrixExpr for DynMat<'_, T> {
    type Entry = T;
    fn entry(&self, r: usize, c: usize) -> T { self.0.entry_(r, c) }
    fn num_rows(&self) -> usize { self.0.rows_() }
    fn num_cols(&self) -> usize { self.0.cols_() }
    fn eval(self) -> DMatrix<T> { self.0.eval_() }
}
trait ErasedVec<T> {
    fn entry_(&self, i: usize) -> T;
    fn len_(&self) -> usize;
    fn eval_(self: Box<Self>) -> DVector<T>;
}
impl<T, E: VectorExpr<Entry = T>> ErasedVec<T> for E {
    fn entry_(&self, i: usize) -> T { self.entry(i) }
    fn len_(&self) -> usize { self.len() }
    fn eval_(self: Box<Self>) -> DVector<T> { (*self).eval() }
}
pub struct DynVec<'a, T>(Box<dyn ErasedVec<T> + 'a>);
impl<'a, T> DynVec<'a, T> {
    pub fn new<E: VectorExpr<Entry = T> + 'a>(e: E) -> Self {
        DynVec(Box::new(e))
    }
}
impl<T> VectorExpr for DynVec<'_, T> {
    type Entry = T;
    fn entry(&self, i: usize) -> T { self.0.entry_(i) }
    fn len(&self) -> usize { self.0.len_() }
    fn eval(self) -> DVector<T> { self.0.eval_() }
}

// ---- programs -----------------------------------------------------------

/// One step: operation, kind of the new operand, further choice.
pub type Step = (u8, u8, u8);
pub const OPS: u8 = 16;
pub const KINDS: u8 = 6;
/// Calls of user functions: (function, position or argument).
pub type Log = RefCell<Vec<(u32, String)>>;

/// Name of the entry of leaf `id` at (r, c); `f` for computed leaves.
fn leaf(id: usize, kind: u8, r: usize, c: usize) -> Term {
    Term::leaf(if kind % KINDS == 2 { 'f' } else { 'x' }, (id as i64) << 40 | (r as i64) << 20 | c as i64)
}
fn leaf_mat(id: usize, kind: u8, r: usize, c: usize) -> Mat<Term> {
    Mat::from_fn(r, c, |i, j| leaf(id, kind, i, j))
}
const MAP_NAMES: [&str; 24] = [
    "m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7", "m8", "m9", "m10", "m11", "m12", "m13", "m14", "m15", "m16", "m17",
    "m18", "m19", "m20", "m21", "m22", "m23",
];

/// The calls that computing the entry `t` must make.
pub fn calls(t: &Term, out: &mut Vec<(u32, String)>) {
    match &*t.0 {
        Node::Leaf('f', code) => out.push(((*code >> 40) as u32, format!("{}", code & ((1 << 40) - 1)))),
        Node::Leaf(..) => (),
        Node::Un(name, a) => {
            if let Some(k) = MAP_NAMES.iter().position(|n| n == name) {
                out.push((1000 + k as u32, format!("{:?}", a)));
            }
            calls(a, out);
        }
        Node::Bin(_, a, b) => {
            calls(a, out);
            calls(b, out);
        }
    }
}

fn bin<'a, L, R>(op: u8, l: MatrixExprWrapper<L>, r: R) -> DynMat<'a, Term>
where
    L: MatrixExpr + 'a,
    R: MatrixExpr + 'a,
    L::Entry: std::ops::Add<R::Entry, Output = Term> + std::ops::Sub<R::Entry, Output = Term>
        + std::ops::Mul<R::Entry, Output = Term> + std::ops::Div<R::Entry, Output = Term>,
{
    match op {
        0 => DynMat::new(l + r),
        1 => DynMat::new(l - r),
        2 => DynMat::new(l.mul_elemwise(r)),
        _ => DynMat::new(l.div_elemwise(r)),
    }
}
const SIGN: [char; 4] = ['+', '-', '*', '/'];

/// What the model run leaves for the real one: the operand of every step.
pub struct Plan {
    pub want: Mat<Term>,
    leaves: Vec<Mat<Term>>,
    mats: Vec<DMatrix<Term>>,
    mats2: Vec<DMatrix<Term2>>,
    first: (u8, usize),
    steps: Vec<Step>,
    pub done: usize,
}

fn square(m: &Mat<Term>) -> Mat<Term> {
    let n = m.r.min(m.c);
    Mat::from_fn(n, n, |i, j| if i == j { m.at(i, i).clone() } else { Term::from(0i8) })
}

/// Runs the program on tables.
pub fn plan(r: usize, c: usize, first: u8, steps: &[Step]) -> Plan {
    let mut leaves = vec![leaf_mat(0, first, r, c)];
    let mut e = leaves[0].clone();
    let mut stack: Vec<Mat<Term>> = vec![];
    let mut done = 0;
    for (k, &(op, kind, extra)) in steps.iter().enumerate() {
        let id = k + 1;
        let l = leaf_mat(id, kind, e.r, e.c);
        let sym = SIGN[extra as usize % 4];
        let before = e.clone();
        let zip = |a: &Mat<Term>, b: &Mat<Term>| a.zip(b, |x, y| Term::bin(sym, x, y));
        match op % OPS {
            0..=3 => e = zip(&e, &l),
            4 | 5 => e = zip(&l, &e),
            6 | 7 => match stack.pop() {
                Some(s) => {
                    let s = if (s.r, s.c) == (e.r, e.c) { Some(s) } else if (s.c, s.r) == (e.r, e.c) { Some(s.t()) } else { None };
                    if let Some(s) = s {
                        e = if op % OPS == 6 { zip(&s, &e) } else { zip(&e, &s) };
                    }
                }
                None => {
                    stack.push(e.clone());
                    e = l.clone();
                }
            },
            8 => e = e.map(|x| Term::un(MAP_NAMES[k % 24], x)),
            9 => e = e.zip(&l, |x, y| Term::un(MAP_NAMES[k % 24], &Term::bin('Z', x, y))),
            10 => e = e.t(),
            11 => e = e.t().map(|x| Term::un("conj", x)),
            12 => (),
            13 => e = e.zip(&l, |x, y| { let Node::Leaf(_, v) = *y.0 else { panic!() }; Term::bin(sym, x, &Term::leaf('y', v)) }),
            14 => e = e.zip(&l, |x, y| { let Node::Leaf(_, v) = *y.0 else { panic!() }; Term::bin(sym, &Term::leaf('y', v), x) }),
            _ => e = square(&e),
        }
        done += (e != before) as usize;
        leaves.push(l);
    }
    let mats = leaves.iter().map(dm).collect();
    let mats2 = leaves.iter().map(|m| dm(&m.map(|t| { let Node::Leaf(_, v) = *t.0 else { panic!() }; Term2(v) }))).collect();
    Plan { want: e, leaves, mats, mats2, first: (first, 0), steps: steps.to_vec(), done }
}

/// Binds the table as a nested array, if it is small.
macro_rules! with_array {
    ($m:expr, $x:ident, $body:expr, $else:expr, $($r:literal $c:literal),*) => {
        match ($m.r, $m.c) {
            $(($r, $c) => {
                let $x: [[Term; $c]; $r] = std::array::from_fn(|i| std::array::from_fn(|j| $m.at(i, j).clone()));
                $body
            })*
            _ => $else,
        }
    };
}
macro_rules! rhs_leaf {
    ($p:expr, $id:expr, $kind:expr, $log:expr, |$x:ident| $body:expr) => {{
        let m: &Mat<Term> = &$p.leaves[$id];
        let d: &DMatrix<Term> = &$p.mats[$id];
        let id = $id;
        match $kind % KINDS {
            0 => { let $x = d.clone(); $body }
            1 => { let $x = d; $body }
            2 => {
                let log = $log;
                let $x = make_matrix_expr(m.r, m.c, move |i, j| {
                    log.borrow_mut().push((id as u32, format!("{}", (i as i64) << 20 | j as i64)));
                    leaf(id, 2, i, j)
                });
                $body
            }
            3 => { let $x = d.wrap(); $body }
            4 => { let $x = d.clone().wrap(); $body }
            _ => with_array!(m, $x, $body, { let $x = d.t().t(); $body },
                1 1, 1 2, 2 1, 2 2, 2 3, 3 2, 1 3, 3 1, 3 3, 0 2, 4 4, 1 4, 4 1),
        }
    }};
}

impl Plan {
    /// Builds the expression of the program with the library.
    pub fn build<'a>(&'a self, log: &'a Log) -> DynMat<'a, Term> {
        let p = self;
        let mut e: DynMat<'a, Term> = rhs_leaf!(p, 0, self.first.0, log, |x| DynMat::new(x));
        let mut stack: Vec<DynMat<'a, Term>> = vec![];
        for (k, &(op, kind, extra)) in self.steps.iter().enumerate() {
            let id = k + 1;
            let sign = extra % 4;
            let map1 = move |x: Term| {
                log.borrow_mut().push((1000 + (k % 24) as u32, format!("{x:?}")));
                Term::un(MAP_NAMES[k % 24], &x)
            };
            let map2 = move |(x, y): (Term, Term)| map1(Term::bin('Z', &x, &y));
            let y = &self.mats2[id];
            e = match op % OPS {
                0..=3 => rhs_leaf!(p, id, kind, log, |x| bin(sign, e.wrap(), x)),
                4 | 5 => {
                    let d = &p.mats[id];
                    if kind % KINDS == 1 {
                        match sign {
                            0 => DynMat::new(d + e),
                            1 => DynMat::new(d - e),
                            2 => DynMat::new(d.mul_elemwise(e)),
                            _ => DynMat::new(d.div_elemwise(e)),
                        }
                    } else {
                        rhs_leaf!(p, id, kind, log, |x| bin(sign, x.wrap(), e))
                    }
                }
                6 | 7 => match stack.pop() {
                    Some(s) => {
                        let same = (s.num_rows(), s.num_cols()) == (e.num_rows(), e.num_cols());
                        let flip = (s.num_cols(), s.num_rows()) == (e.num_rows(), e.num_cols());
                        let s = if same { Some(s) } else if flip { Some(DynMat::new(s.wrap().t())) } else { None };
                        match s {
                            Some(s) => if op % OPS == 6 { bin(sign, s.wrap(), e) } else { bin(sign, e.wrap(), s) },
                            None => e,
                        }
                    }
                    None => {
                        stack.push(e);
                        rhs_leaf!(p, id, kind, log, |x| DynMat::new(x))
                    }
                },
                8 => DynMat::new(e.wrap().map(map1)),
                9 => rhs_leaf!(p, id, kind, log, |x| DynMat::new(e.wrap().zip(x).map(map2))),
                10 => DynMat::new(e.wrap().t()),
                11 => DynMat::new(e.wrap().h()),
                12 => {
                    if extra % 2 == 0 { DynMat::new(e.wrap().wrap()) } else { DynMat::new(e.eval()) }
                }
                13 => match kind % 3 { 0 => bin(sign, e.wrap(), y), 1 => bin(sign, e.wrap(), y.clone()), _ => bin(sign, e.wrap(), y.wrap()) },
                14 => bin(sign, y.wrap(), e),
                _ => DynMat::new(e.wrap().diag().diag()),
            };
        }
        e
    }
}

// ---- the same for vectors ------------------------------------------------

pub const VOPS: u8 = 14;
fn vbin<'a, L, R>(op: u8, l: VectorExprWrapper<L>, r: R) -> DynVec<'a, Term>
where
    L: VectorExpr + 'a,
    R: VectorExpr + 'a,
    L::Entry: std::ops::Add<R::Entry, Output = Term> + std::ops::Sub<R::Entry, Output = Term>
        + std::ops::Mul<R::Entry, Output = Term> + std::ops::Div<R::Entry, Output = Term>,
{
    match op {
        0 => DynVec::new(l + r),
        1 => DynVec::new(l - r),
        2 => DynVec::new(l.mul_elemwise(r)),
        _ => DynVec::new(l.div_elemwise(r)),
    }
}
pub struct VPlan {
    pub want: Vec<Term>,
    leaves: Vec<Vec<Term>>,
    vecs: Vec<DVector<Term>>,
    vecs2: Vec<DVector<Term2>>,
    first: u8,
    steps: Vec<Step>,
    pub done: usize,
}
pub fn vplan(n: usize, first: u8, steps: &[Step]) -> VPlan {
    let lf = |id: usize, kind: u8| (0..n).map(|i| leaf(id, kind, 0, i)).collect::<Vec<Term>>();
    let mut leaves = vec![lf(0, first)];
    let mut e = leaves[0].clone();
    let mut stack: Vec<Vec<Term>> = vec![];
    let mut done = 0;
    for (k, &(op, kind, extra)) in steps.iter().enumerate() {
        let l = lf(k + 1, kind);
        let sym = SIGN[extra as usize % 4];
        let before = e.clone();
        let zip = |a: &[Term], b: &[Term]| a.iter().zip(b).map(|(x, y)| Term::bin(sym, x, y)).collect::<Vec<Term>>();
        let second = |t: &Term| { let Node::Leaf(_, v) = *t.0 else { panic!() }; Term::leaf('y', v) };
        match op % VOPS {
            0..=3 => e = zip(&e, &l),
            4 | 5 => e = zip(&l, &e),
            6 | 7 => match stack.pop() {
                Some(s) => e = if op % VOPS == 6 { zip(&s, &e) } else { zip(&e, &s) },
                None => {
                    stack.push(e);
                    e = l.clone();
                }
            },
            8 => e = e.iter().map(|x| Term::un(MAP_NAMES[k % 24], x)).collect(),
            9 => e = e.iter().zip(&l).map(|(x, y)| Term::un(MAP_NAMES[k % 24], &Term::bin('Z', x, y))).collect(),
            10 => e = e.iter().map(|x| Term::un("conj", x)).collect(),
            11 => (),
            12 => e = e.iter().zip(&l).map(|(x, y)| Term::bin(sym, x, &second(y))).collect(),
            _ => e = e.iter().zip(&l).map(|(x, y)| Term::bin(sym, &second(y), x)).collect(),
        }
        done += (e != before) as usize;
        leaves.push(l);
    }
    let vecs = leaves.iter().map(|v| dv(v)).collect();
    let vecs2 = leaves.iter().map(|v| dv(&v.iter().map(|t| { let Node::Leaf(_, v) = *t.0 else { panic!() }; Term2(v) }).collect::<Vec<_>>())).collect();
    VPlan { want: e, leaves, vecs, vecs2, first, steps: steps.to_vec(), done }
}
macro_rules! vec_leaf {
    ($p:expr, $id:expr, $kind:expr, $log:expr, |$x:ident| $body:expr) => {{
        let m: &'a Vec<Term> = &$p.leaves[$id];
        let d: &'a DVector<Term> = &$p.vecs[$id];
        let id = $id;
        match $kind % KINDS {
            0 => { let $x = d.clone(); $body }
            1 => { let $x = d; $body }
            2 => {
                let log = $log;
                let $x = make_vector_expr(m.len(), move |i| {
                    log.borrow_mut().push((id as u32, format!("{}", i as i64)));
                    leaf(id, 2, 0, i)
                });
                $body
            }
            3 => { let $x = d.wrap(); $body }
            4 => { let $x = m.as_slice(); $body }
            _ => { let $x = m.as_slice().wrap(); $body }
        }
    }};
}
impl VPlan {
    pub fn build<'a>(&'a self, log: &'a Log) -> DynVec<'a, Term> {
        let p = self;
        let mut e: DynVec<'a, Term> = vec_leaf!(p, 0, self.first, log, |x| DynVec::new(x));
        let mut stack: Vec<DynVec<'a, Term>> = vec![];
        for (k, &(op, kind, extra)) in self.steps.iter().enumerate() {
            let id = k + 1;
            let sign = extra % 4;
            let map1 = move |x: Term| {
                log.borrow_mut().push((1000 + (k % 24) as u32, format!("{x:?}")));
                Term::un(MAP_NAMES[k % 24], &x)
            };
            let map2 = move |(x, y): (Term, Term)| map1(Term::bin('Z', &x, &y));
            let y = &self.vecs2[id];
            e = match op % VOPS {
                0..=3 => vec_leaf!(p, id, kind, log, |x| vbin(sign, e.wrap(), x)),
                4 | 5 => {
                    let d = &p.vecs[id];
                    if kind % KINDS == 1 {
                        match sign {
                            0 => DynVec::new(d + e),
                            1 => DynVec::new(d - e),
                            2 => DynVec::new(d.mul_elemwise(e)),
                            _ => DynVec::new(d.div_elemwise(e)),
                        }
                    } else {
                        vec_leaf!(p, id, kind, log, |x| vbin(sign, x.wrap(), e))
                    }
                }
                6 | 7 => match stack.pop() {
                    Some(s) => if op % VOPS == 6 { vbin(sign, s.wrap(), e) } else { vbin(sign, e.wrap(), s) },
                    None => {
                        stack.push(e);
                        vec_leaf!(p, id, kind, log, |x| DynVec::new(x))
                    }
                },
                8 => DynVec::new(e.wrap().map(map1)),
                9 => vec_leaf!(p, id, kind, log, |x| DynVec::new(e.wrap().zip(x).map(map2))),
                10 => DynVec::new(e.wrap().conj()),
                11 => if extra % 2 == 0 { DynVec::new(e.wrap().wrap()) } else { DynVec::new(e.eval()) },
                12 => match kind % 3 { 0 => vbin(sign, e.wrap(), y), 1 => vbin(sign, e.wrap(), y.clone()), _ => vbin(sign, e.wrap(), y.wrap()) },
                _ => vbin(sign, y.wrap(), e),
            };
        }
        e
    }
}
