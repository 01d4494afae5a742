//! C32: every entry is dropped exactly once, also when an operation on
//! entries panics half-way, and targets of in-place updates stay usable.
use pbt::prelude::*;
use std::cell::RefCell;
use std::collections::HashSet;
use std::ops::*;

#[derive(Default)]
struct Book {
    next: u64,
    live: HashSet<u64>,
    /// Existing entries without size: they have no identity and are counted.
    plain: i64,
    /// Operations on entries until one panics.
    fuse: Option<u64>,
    ops: u64,
    bad: Option<String>,
}
thread_local! {
    static BOOK: RefCell<Book> = RefCell::new(Book::default());
}
const FUSE: &str = "planned panic";

/// Every operation on entries passes here and may panic.
fn step() {
    let stop = BOOK.with(|b| {
        let mut b = b.borrow_mut();
        b.ops += 1;
        match &mut b.fuse {
            Some(0) => false,
            Some(k) => {
                *k -= 1;
                *k == 0
            }
            None => false,
        }
    });
    if stop {
        panic!("{FUSE}");
    }
}
trait Entry: 'static + Ring + Field + Conj + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self> {
    fn new(val: i64) -> Self;
    /// The value; an entry that does not exist any more is noticed.
    fn get(&self) -> i64;
}
/// An entry that is registered while it exists, with `K` further words.
#[derive(Debug)]
struct Tr<const K: usize> {
    id: u64,
    val: i64,
    more: [u64; K],
}
impl<const K: usize> Entry for Tr<K> {
    fn new(val: i64) -> Self {
        BOOK.with(|b| {
            let mut b = b.borrow_mut();
            b.next += 1;
            let id = b.next;
            b.live.insert(id);
            Tr { id, val, more: [id; K] }
        })
    }
    fn get(&self) -> i64 {
        BOOK.with(|b| {
            let mut b = b.borrow_mut();
            if b.bad.is_none() {
                if !b.live.contains(&self.id) {
                    b.bad = Some(format!("entry {} (value {}) used after it was dropped", self.id, self.val));
                } else if self.more.iter().any(|x| *x != self.id) {
                    b.bad = Some(format!("entry {} (value {}) consists of parts of different entries", self.id, self.val));
                }
            }
        });
        self.val
    }
}
impl<const K: usize> Drop for Tr<K> {
    fn drop(&mut self) {
        BOOK.with(|b| {
            let mut b = b.borrow_mut();
            if !b.live.remove(&self.id) && b.bad.is_none() {
                b.bad = Some(format!("entry {} (value {}) dropped twice", self.id, self.val));
            }
        });
    }
}
/// An entry without size: births and deaths are counted.
#[derive(Debug)]
struct Un;
impl Entry for Un {
    fn new(_: i64) -> Self {
        BOOK.with(|b| {
            let mut b = b.borrow_mut();
            b.next += 1;
            b.plain += 1;
        });
        Un
    }
    fn get(&self) -> i64 {
        0
    }
}
impl Drop for Un {
    fn drop(&mut self) {
        BOOK.with(|b| {
            let mut b = b.borrow_mut();
            b.plain -= 1;
            if b.plain < 0 && b.bad.is_none() {
                b.bad = Some("more entries dropped than made".into());
            }
        });
    }
}
/// An update in place builds a new value, drops the old one, and may panic
/// afterwards.
fn replace<T: Entry>(x: &mut T, val: i64) {
    *x = T::new(val);
    step();
}
trait Quot {
    fn quot(self, o: Self) -> Self;
}
impl Quot for i64 {
    fn quot(self, o: i64) -> i64 {
        if o == 0 { 0 } else { self.wrapping_div(o) }
    }
}
macro_rules! ops {
    ([$($g:tt)*] $t:ty: $tr:ident $f:ident $tra:ident $fa:ident $m:ident) => {
        impl<$($g)*> $tr<$t> for $t { type Output = $t; fn $f(self, o: $t) -> $t { step(); Entry::new(self.get().$m(o.get())) } }
        impl<'a, $($g)*> $tr<&'a $t> for $t { type Output = $t; fn $f(self, o: &'a $t) -> $t { step(); Entry::new(self.get().$m(o.get())) } }
        impl<'a, 'b, $($g)*> $tr<&'b $t> for &'a $t { type Output = $t; fn $f(self, o: &'b $t) -> $t { step(); Entry::new(self.get().$m(o.get())) } }
        impl<$($g)*> $tra<$t> for $t { fn $fa(&mut self, o: $t) { step(); let v = self.get().$m(o.get()); replace(self, v); } }
        impl<'a, $($g)*> $tra<&'a $t> for $t { fn $fa(&mut self, o: &'a $t) { step(); let v = self.get().$m(o.get()); replace(self, v); } }
    };
}
macro_rules! entry {
    ([$($g:tt)*] $t:ty) => {
        ops!([$($g)*] $t: Add add AddAssign add_assign wrapping_add);
        ops!([$($g)*] $t: Sub sub SubAssign sub_assign wrapping_sub);
        ops!([$($g)*] $t: Mul mul MulAssign mul_assign wrapping_mul);
        ops!([$($g)*] $t: Div div DivAssign div_assign quot);
        impl<$($g)*> Clone for $t {
            fn clone(&self) -> Self {
                step();
                Entry::new(self.get())
            }
        }
        impl<$($g)*> PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                step();
                self.get() == o.get()
            }
        }
        impl<$($g)*> From<i8> for $t {
            fn from(x: i8) -> Self {
                step();
                Entry::new(x as i64)
            }
        }
        impl<$($g)*> Neg for $t {
            type Output = Self;
            fn neg(self) -> Self {
                step();
                Entry::new(self.get().wrapping_neg())
            }
        }
        impl<$($g)*> Conj for $t {
            fn conj(self) -> Self {
                step();
                self
            }
        }
        impl<$($g)*> Ring for $t {}
        impl<$($g)*> Field for $t {}
    };
}
entry!([const K: usize] Tr<K>);
entry!([] Un);

/// Operation, rows, columns, entries, where to panic.
type Case = (u8, (usize, usize), Vec<i64>, u64);

fn judge(what: &str, panic_at: u64, f: impl Fn() -> Result<(), String>, ctx: &mut Ctx) -> Res {
    let run = |fuse: Option<u64>| {
        BOOK.with(|b| *b.borrow_mut() = Book { fuse, ..Book::default() });
        let r = catch(&f).and_then(|r| r);
        BOOK.with(|b| {
            let mut b = b.borrow_mut();
            (r, b.ops, b.live.len() as i64 + b.plain, b.bad.take(), b.next)
        })
    };
    let (r, ops, live, bad, made) = run(None);
    r.map_err(|e| format!("{what}: {e}"))?;
    ensure!(bad.is_none(), "{what}: {}", bad.unwrap());
    ensure!(live == 0, "{what}: {live} of {made} entries were never dropped");
    ctx.nontrivial(ops > 0);
    if ops > 0 {
        let k = 1 + panic_at % ops;
        let (r, _, _, bad, _) = run(Some(k));
        ensure!(bad.is_none(), "{what}, panic in operation {k} of {ops} on entries: {}", bad.unwrap());
        match r {
            // the number of operations may differ from run to run
            Ok(()) => ctx.class("the panic was not reached", true),
            Err(e) => {
                ctx.class("panic half-way", true);
                ensure!(e.contains(FUSE), "{what}, panic in operation {k} of {ops} on entries: {e}")
            }
        }
    }
    Ok(())
}
const FREE: usize = 22;
const FIXED: usize = 20;
/// The operations on one type of entries.
macro_rules! suite {
    ($name:ident: $t:ty) => {
        mod $name {
        use super::*;
        type T = $t;
        fn look<'a>(x: impl IntoIterator<Item = &'a T>) -> usize {
            x.into_iter().map(|t| t.get()).count()
        }
        fn list(v: &[i64], n: usize, k: usize) -> Vec<T> {
            (0..n).map(|i| T::new(if v.is_empty() { 1 } else { v[(i + k) % v.len()] })).collect()
        }
        fn poly(v: &[i64], n: usize, k: usize) -> Polynomial<T> {
            Polynomial::from_coefficients(list(v, n, k))
        }
        fn dvec(v: &[i64], n: usize, k: usize) -> DVector<T> {
            make_vector_expr(n, |i| T::new(v.get((i + k) % v.len().max(1)).copied().unwrap_or(2))).eval()
        }
        fn dmat(v: &[i64], r: usize, c: usize, k: usize) -> DMatrix<T> {
            make_matrix_expr(r, c, |i, j| T::new(v.get((i * c + j + k) % v.len().max(1)).copied().unwrap_or(2))).eval()
        }
        fn svec<const D: usize>(v: &[i64], k: usize) -> SVector<T, D> {
            let mut it = list(v, D, k).into_iter();
            SVector::from([(); D].map(|_| it.next().unwrap()))
        }
        fn smat<const R: usize, const C: usize>(v: &[i64], k: usize) -> SMatrix<T, R, C> {
            let mut it = list(v, R * C, k).into_iter();
            SMatrix::from([(); R].map(|_| [(); C].map(|_| it.next().unwrap())))
        }
        fn cplx(v: &[i64], k: usize) -> Complex<T> {
            let mut l = list(v, 2, k).into_iter();
            Complex::new(l.next().unwrap(), l.next().unwrap())
        }
        /// Runs an in-place update and looks at the target, whether it panicked or not.
        fn inplace<X>(x: X, f: impl FnOnce(&mut X), shown: impl FnOnce(&X) -> (usize, usize)) -> Result<(), String> {
            let mut x = x;
            let r = catch(|| f(&mut x));
            let (got, want) = shown(&x);
            if got != want {
                return Err(format!("the target of an in-place update has {got} entries instead of {want}"));
            }
            r
        }
        fn free_op(op: usize, (r, c): (usize, usize), v: &[i64]) -> Result<(), String> {
            let n = r;
            let p2 = |x: &Polynomial<T>| { let _ = x.eval(T::new(2)); };
            match op {
                0 => drop(poly(v, r, 0) + poly(v, c, 1)),
                1 => drop(poly(v, r, 0) - poly(v, c, 1)),
                2 => drop(&poly(v, r, 0) * &poly(v, c, 1)),
                3 => { let mut p = poly(v, r, 0); let f = catch(|| p += poly(v, c, 1)); BOOK.with(|b| b.borrow_mut().fuse = None); p2(&p); return f; }
                4 => { let mut p = poly(v, r, 0); let q = poly(v, c, 1); let f = catch(|| p -= &q); BOOK.with(|b| b.borrow_mut().fuse = None); p2(&p); p2(&q); return f; }
                5 => { let mut p = poly(v, r, 0); let f = catch(|| p *= poly(v, c, 1)); BOOK.with(|b| b.borrow_mut().fuse = None); p2(&p); return f; }
                6 => drop((-poly(v, r, 0)).eval_ref(&T::new(3))),
                7 => drop(poly(v, r, 0) == poly(v, c, 0)),
                8 => drop(dvec(v, n, 0).wrap().zip(dvec(v, n, 1)).map(|(x, y)| x * y).eval()),
                9 => drop((dvec(v, n, 0).wrap() - &dvec(v, n, 1)).eval()),
                10 => drop(dvec(v, n, 0) * dvec(v, n, 1)),
                11 => return inplace(dvec(v, n, 0), |x| *x += dvec(v, n, 1), |x| (look((0..x.len()).map(|i| &x[i])), n)),
                12 => return inplace(dvec(v, n, 0), |x| *x -= &dvec(v, n, 1), |x| (look((0..x.len()).map(|i| &x[i])), n)),
                13 => drop(dvec(v, n, 0).diag().eval()),
                14 => drop(dmat(v, r, c, 0).t().eval()),
                15 => drop((&dmat(v, r, c.max(1), 0) * &dmat(v, c.max(1), r, 1)).eval()),
                16 => drop((dmat(v, r, c, 0).wrap() + dmat(v, r, c, 1)).eval()),
                17 => drop(dmat(v, r, c, 0).wrap().h().map(|x| -x).eval()),
                18 => return inplace(dmat(v, r, c, 0), |x| *x += dmat(v, r, c, 1), |x| (look((0..r).flat_map(|i| (0..c).map(move |j| (i, j))).map(|(i, j)| &x[[i, j]])), r * c)),
                19 => return inplace(dmat(v, r, c, 0), |x| *x -= &dmat(v, r, c, 1), |x| (look((0..r).flat_map(|i| (0..c).map(move |j| (i, j))).map(|(i, j)| &x[[i, j]])), r * c)),
                20 => drop((dmat(v, r, c, 0).clone(), dvec(v, n, 1).clone())),
                _ => drop((dmat(v, r, c, 0) == dmat(v, r, c, 0), dvec(v, r, 0).div_elemwise(dvec(v, r, 1)).eval())),
            }
            Ok(())
        }
        fn fixed_op<const R: usize, const C: usize>(op: usize, v: &[i64]) -> Result<(), String> {
            let m = |k| smat::<R, C>(v, k);
            let s = |k| svec::<R>(v, k);
            let sq = |k| smat::<C, C>(v, k);
            let none = |_: &SMatrix<T, R, C>| (0, 0);
            match op {
                0 => drop(m(0) + m(1)),
                1 => drop(m(0) - &m(1)),
                2 => drop(&m(0) * &smat::<C, R>(v, 1)),
                3 => drop(m(0) * sq(1)),
                4 => return inplace(m(0), |x| *x *= sq(1), none),
                5 => return inplace(m(0), |x| *x *= &sq(1), none),
                6 => return inplace(m(0), |x| *x += m(1), none),
                7 => drop(-m(0)),
                8 => drop(m(0).conj()),
                9 => drop(SMatrix::<T, R, C>::zero()),
                10 => drop(SMatrix::<T, R, C>::one()),
                11 => drop(&m(0) * &svec::<C>(v, 1)),
                12 => drop(s(0) + s(1)),
                13 => return inplace(s(0), |x| *x -= s(1), |x| (look(x), R)),
                14 => drop(s(0) * s(1)),
                15 => return inplace(s(0), |x| *x *= T::new(3), |x| (look(x), R)),
                16 => drop(s(0).into_iter().skip(1).map(|x| -x).collect::<Vec<_>>()),
                17 => drop((m(0).clone(), s(0).clone(), SVector::<T, R>::zero())),
                18 => { let a: [[T; C]; R] = { let mut it = list(v, R * C, 0).into_iter(); [(); R].map(|_| [(); C].map(|_| it.next().unwrap())) }; drop(a.eval()) }
                _ => {
                    drop(cplx(v, 0) * cplx(v, 1) + cplx(v, 2) - cplx(v, 3));
                    drop(&cplx(v, 0) / &cplx(v, 1));
                    drop((-cplx(v, 0)).conj().sqr_norm());
                    drop(cplx(v, 0) * T::new(5));
                    let mut z = cplx(v, 1);
                    z *= cplx(v, 2);
                    z += &cplx(v, 3);
                }
            }
            Ok(())
        }
        pub fn free(c: &Case, ctx: &mut Ctx) -> Res {
            let op = c.0 as usize % FREE;
            judge(&format!("operation {op}, {:?}", c.1), c.3, || free_op(op, c.1, &c.2), ctx)
        }
        pub fn fixed<const R: usize, const C: usize>(c: &Case, ctx: &mut Ctx) -> Res {
            let op = c.0 as usize % FIXED;
            judge(&format!("static operation {op}, {R}x{C}"), c.3, || fixed_op::<R, C>(op, &c.2), ctx)
        }
        }
    };
}
suite!(named: Tr<0>);
suite!(unsized_: Un);
suite!(longer: Tr<23>);
suite!(page: Tr<640>);
suite!(huge: Tr<9000>);

fn main() {
    let mut c = Check::start("C32");
    let nums = || vec(-9i64..=9, 1..12);
    c.sub("dynamic types and polynomials", 12000, (any::<u8>(), (size(12), size(12)), nums(), any::<u64>()), named::free);
    c.sub("larger", 600, (any::<u8>(), (0..=40usize, 0..=40usize), nums(), any::<u64>()), named::free);
    let every = (0..FREE as u8).flat_map(|op| (0..=5usize).flat_map(move |r| (0..=5usize).map(move |k| (Just(op), Just((r, k)), vec(-9i64..=9, 1..12), any::<u64>()))));
    c.sweep("every operation, small shapes", 4, every, named::free);
    let many = (0..FREE as u8).flat_map(|op| [(300usize, 7usize), (7, 300), (1100, 1), (1, 1100)].map(|s| (Just(op), Just(s), vec(-9i64..=9, 1..12), any::<u64>())));
    c.sweep("every operation, hundreds of entries", 1, many, named::free);
    let many = (0..FREE as u8).filter(|op| ![2, 5, 13].contains(op)).map(|op| (Just(op), Just((70_003usize, 1usize)), vec(-9i64..=9, 1..12), any::<u64>()));
    c.sweep("every operation, tens of thousands of entries", 1, many, |c, ctx| if c.0 == 15 { named::free(&(c.0, (260, c.1 .1), c.2.clone(), c.3), ctx) } else { named::free(c, ctx) });
    // entries without size, and entries of a page and more
    let case = |n: usize| (any::<u8>(), (size(n), size(n)), nums(), any::<u64>());
    c.sub("entries without size", 3000, case(12), unsized_::free);
    c.sub("entries without size, larger", 200, (any::<u8>(), (0..=40usize, 0..=40usize), nums(), any::<u64>()), unsized_::free);
    c.sub("entries of 200 bytes", 1000, case(12), longer::free);
    c.sub("entries of 5 kB", 300, case(9), page::free);
    c.sub("entries of 70 kB", 30, case(6), huge::free);
    macro_rules! shapes {
        ($name:literal $t:ident, $cases:literal: $($r:literal $k:literal),*) => {$(
            c.sub(&format!("static types {}x{}, {}", $r, $k, $name), $cases, (any::<u8>(), Just(($r, $k)), nums(), any::<u64>()), $t::fixed::<$r, $k>);
        )*};
    }
    shapes!("entries without size" unsized_, 200: 0 0, 0 2, 2 0, 1 1, 1 3, 3 1, 2 2, 3 2, 5 7, 16 3);
    shapes!("entries of 200 bytes" longer, 100: 1 1, 1 3, 3 1, 2 2, 3 2, 5 7);
    shapes!("entries of 5 kB" page, 30: 1 1, 2 2, 3 2, 2 3);
    shapes!("entries of 70 kB" huge, 10: 1 1, 2 1, 1 2);
    macro_rules! shapes {
        ($($r:literal $k:literal),*) => {$(
            c.sub(&format!("static types {}x{}", $r, $k), 900, (any::<u8>(), Just(($r, $k)), nums(), any::<u64>()), named::fixed::<$r, $k>);
        )*};
    }
    shapes!(0 0, 0 2, 2 0, 1 1, 1 3, 3 1, 2 2, 2 3, 3 2, 4 4, 5 7, 8 8, 9 5, 16 3, 3 16);
    macro_rules! shapes {
        ($($r:literal $k:literal),*) => {$(
            c.sub(&format!("static types {}x{}", $r, $k), 30, (any::<u8>(), Just(($r, $k)), nums(), any::<u64>()), named::fixed::<$r, $k>);
        )*};
    }
    shapes!(33 32, 65 3, 3 65, 1 130, 130 1);
    c.finish("operations of every type over registered entries, once to the end and once with a panic at a generated operation on entries: no entry dropped twice or used after its drop, none left over when nothing panicked, targets of in-place updates complete; non-trivial: at least one operation on entries");
}
