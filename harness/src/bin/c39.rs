//! C39: histories of updates of polynomials, complex numbers, static vectors
//! and static matrices follow plain lists; values never influence each other.
use pbt::poly;
use pbt::prelude::*;
use std::fmt::Debug;
use std::mem;
use std::ops::*;

trait Elem: ModelRing + Ring + Conj + Add<Output = Self> + Sub<Output = Self> + AddAssign + SubAssign {}
impl<T: ModelRing + Ring + Conj + Add<Output = Self> + Sub<Output = Self> + AddAssign + SubAssign> Elem for T {}

/// One step: what, target, source, form or position, value.
type Op = (u8, u8, u8, u64, i64);

fn zip<T>(a: &[T], b: &[T], f: impl Fn(&T, &T) -> T) -> Vec<T> {
    assert!(a.len() == b.len());
    a.iter().zip(b).map(|(x, y)| f(x, y)).collect()
}

/// A type together with the lists that stand for its values.
trait Obj<T: Elem>: Clone + PartialEq + Debug {
    const WHAT: &'static str;
    /// The value for a list, made in one of several ways.
    fn make(m: &[T], way: u64) -> Self;
    /// Changes the value and its list.
    fn step(&mut self, m: &mut Vec<T>, y: &Self, my: &[T], op: u8, pos: u64, val: &T) -> &'static str;
    /// The value is the one of the list.
    fn is(&self, m: &[T], at: &T) -> Res;
    /// The lists stand for equal values.
    fn same(a: &[T], b: &[T]) -> bool {
        a == b
    }
    fn zero() -> Option<(Self, Vec<T>)>;
    fn one() -> Option<(Self, Vec<T>)>;
}
/// Moves the value out of its place for a moment.
fn moved<T: Elem, X: Obj<T>>(x: &mut X, m: &[T], f: impl FnOnce(X) -> X) {
    let own = mem::replace(x, X::make(m, 0));
    *x = f(own);
}
macro_rules! sums {
    ($x:expr, $m:expr, $y:expr, $my:expr, $op:expr, $pos:expr, $add:expr, $sub:expr; $($p:pat => $e:expr),* $(,)?) => {{
        let own = || Self::make($my, $pos);
        match $op {
            0 => { *$m = $add($m, $my); *$x += own(); "+= owned" }
            1 => { *$m = $add($m, $my); *$x += $y; "+= borrowed" }
            2 => { *$m = $sub($m, $my); *$x -= own(); "-= owned" }
            3 => { *$m = $sub($m, $my); *$x -= $y; "-= borrowed" }
            4 => { moved($x, $m, |x| x + own()); *$m = $add($m, $my); "x + owned" }
            5 => { moved($x, $m, |x| own() + x); *$m = $add($my, $m); "owned + x" }
            6 => { moved($x, $m, |x| x - own()); *$m = $sub($m, $my); "x - owned" }
            7 => { moved($x, $m, |x| own() - x); *$m = $sub($my, $m); "owned - x" }
            8 => { let c = $x.clone(); *$x += &c; *$m = $add($m, $m); "+= itself" }
            9 => { let c = $x.clone(); *$x -= c; *$m = $sub($m, $m); "-= itself" }
            $($p => $e,)*
        }
    }};
}

impl<T: Elem> Obj<T> for Polynomial<T> {
    const WHAT: &'static str = "polynomial";
    fn make(m: &[T], way: u64) -> Self {
        poly::with_room(m, [0, 1, 3, 8, 40, 300, m.len(), 0][way as usize % 8])
    }
    fn step(&mut self, m: &mut Vec<T>, y: &Self, my: &[T], op: u8, pos: u64, val: &T) -> &'static str {
        let x = self;
        // products are left out when they get long
        let op = if op % 18 >= 11 && m.len() + my.len() > 60 { op % 11 } else { op % 18 };
        sums!(x, m, y, my, op, pos, |a: &[T], b: &[T]| poly::add(a, b), |a: &[T], b: &[T]| poly::sub(a, b);
            10 => { moved(x, m, |x| -x); *m = poly::neg(m); "-x" },
            11 => { *x *= Self::make(my, pos); *m = poly::mul(m, my); "*= owned" },
            12 => { moved(x, m, |x| x * Self::make(my, pos)); *m = poly::mul(m, my); "x * owned" },
            13 => { moved(x, m, |x| Self::make(my, pos) * x); *m = poly::mul(my, m); "owned * x" },
            14 => { *x = &*x * y; *m = poly::mul(m, my); "borrowed * borrowed" },
            15 => { *x = y.mul_refs(&*x); *m = poly::mul(my, m); "mul_refs" },
            16 => { if m.len() > 30 { moved(x, m, |x| x - Zero::zero()) } else { *x = &*x * &*x; *m = poly::mul(m, m) } "x * x" },
            _ => {
                // times a monomial, added to a constant
                let k = (pos % 5) as usize;
                let mut q = vec![T::m_zero(); k];
                q.push(val.clone());
                *x = &*x * &Self::make(&q, pos >> 3);
                *m = poly::mul(m, &q);
                *x += Self::make(&[val.clone()], pos >> 6);
                *m = poly::add(m, &[val.clone()]);
                "times a monomial plus a constant"
            }
        )
    }
    fn is(&self, m: &[T], at: &T) -> Res {
        let want = Self::from_coefficients(m.to_vec());
        ensure!(*self == want && want == *self, "got {self:?}, expected {want:?}");
        for x in [at, &T::m_one(), &T::m_zero()] {
            ensure_eq!(self.eval_ref(x), poly::eval(m, x), "value of {self:?} at {x:?}");
        }
        if T::m_zero() != T::m_one() {
            let mut other = m.to_vec();
            other.push(T::m_one());
            ensure!(*self != Self::from_coefficients(other), "{self:?} is taken for one with a higher leading coefficient");
        }
        Ok(())
    }
    fn same(a: &[T], b: &[T]) -> bool {
        poly::trim(a.to_vec()) == poly::trim(b.to_vec())
    }
    fn zero() -> Option<(Self, Vec<T>)> {
        Some((Zero::zero(), vec![]))
    }
    fn one() -> Option<(Self, Vec<T>)> {
        Some((One::one(), vec![T::m_one()]))
    }
}

/// The product of complex numbers given as lists.
fn cmul<T: ModelRing>(a: &[T], b: &[T]) -> Vec<T> {
    vec![a[0].m_mul(&b[0]).m_sub(&a[1].m_mul(&b[1])), a[0].m_mul(&b[1]).m_add(&a[1].m_mul(&b[0]))]
}
impl<T: Elem> Obj<T> for Complex<T> {
    const WHAT: &'static str = "complex number";
    fn make(m: &[T], _: u64) -> Self {
        Complex::new(m[0].clone(), m[1].clone())
    }
    fn step(&mut self, m: &mut Vec<T>, y: &Self, my: &[T], op: u8, pos: u64, val: &T) -> &'static str {
        let x = self;
        let add = |a: &[T], b: &[T]| zip(a, b, T::m_add);
        let sub = |a: &[T], b: &[T]| zip(a, b, T::m_sub);
        sums!(x, m, y, my, op % 21, pos, add, sub;
            10 => { moved(x, m, |x| -x); *m = m.iter().map(T::m_neg).collect(); "-x" },
            11 => { moved(x, m, |x| Conj::conj(x)); m[1] = m[1].m_neg(); "conj" },
            12 => { *x *= Self::make(my, pos); *m = cmul(m, my); "*= owned" },
            13 => { moved(x, m, |x| x * Self::make(my, pos)); *m = cmul(m, my); "x * owned" },
            14 => { moved(x, m, |x| Self::make(my, pos) * x); *m = cmul(my, m); "owned * x" },
            15 => { *x = &*x * y; *m = cmul(m, my); "borrowed * borrowed" },
            16 => { moved(x, m, |x| x * val.clone()); *m = m.iter().map(|a| a.m_mul(val)).collect(); "times a scalar" },
            17 => { if pos % 2 == 0 { x.re = val.clone() } else { x.im = val.clone() }; m[pos as usize % 2] = val.clone(); "written part" },
            18 => { mem::swap(&mut x.re, &mut x.im); m.swap(0, 1); "swapped parts" },
            19 => { let c = x.clone(); *x *= c; *m = cmul(m, m); "*= itself" },
            _ => { x.re += val; x.im -= val; m[0] = m[0].m_add(val); m[1] = m[1].m_sub(val); "updated parts" }
        )
    }
    fn is(&self, m: &[T], _: &T) -> Res {
        ensure!(self.re == m[0] && self.im == m[1], "got {self:?}, expected {m:?}");
        ensure_eq!(self.sqr_norm(), m[0].m_mul(&m[0]).m_add(&m[1].m_mul(&m[1])), "square of the modulus of {self:?}");
        Ok(())
    }
    fn zero() -> Option<(Self, Vec<T>)> {
        Some((Zero::zero(), vec![T::m_zero(); 2]))
    }
    fn one() -> Option<(Self, Vec<T>)> {
        Some((One::one(), vec![T::m_one(), T::m_zero()]))
    }
}

fn square<T: Elem, const N: usize>(my: &[T], pos: u64) -> (SMatrix<T, N, N>, Mat<T>) {
    let m = Mat::from_fn(N, N, |i, j| {
        let k = (i * 7 + j * 3).wrapping_add(pos as usize) % (my.len() + 1);
        my.get(k).cloned().unwrap_or_else(T::m_one)
    });
    (matrix(&m.d), m)
}
fn matrix<T: Elem, const R: usize, const C: usize>(m: &[T]) -> SMatrix<T, R, C> {
    let mut it = m.iter().cloned();
    SMatrix::from([(); R].map(|_| [(); C].map(|_| it.next().unwrap())))
}
impl<T: Elem, const D: usize> Obj<T> for SVector<T, D> {
    const WHAT: &'static str = "static vector";
    fn make(m: &[T], _: u64) -> Self {
        let Ok(a) = <[T; D]>::try_from(m.to_vec()) else { panic!("length of the list") };
        SVector::from(a)
    }
    fn step(&mut self, m: &mut Vec<T>, y: &Self, my: &[T], op: u8, pos: u64, val: &T) -> &'static str {
        let x = self;
        let add = |a: &[T], b: &[T]| zip(a, b, T::m_add);
        let sub = |a: &[T], b: &[T]| zip(a, b, T::m_sub);
        sums!(x, m, y, my, op % 19, pos, add, sub;
            10 => { moved(x, m, |x| x + y); *m = add(m, my); "x + borrowed" },
            11 => { moved(x, m, |x| x - y); *m = sub(m, my); "x - borrowed" },
            12 => { *x *= val.clone(); *m = m.iter().map(|a| a.m_mul(val)).collect(); "*= owned scalar" },
            13 => { *x *= val; *m = m.iter().map(|a| a.m_mul(val)).collect(); "*= borrowed scalar" },
            14 => {
                moved(x, m, |x| if pos % 2 == 0 { x * val } else { x * val.clone() });
                *m = m.iter().map(|a| a.m_mul(val)).collect();
                "times a scalar"
            },
            15 => { if D > 0 { let k = pos as usize % D; x[k] = val.clone(); m[k] = val.clone() } "written component" },
            16 => {
                for (i, e) in (&mut *x).into_iter().enumerate() {
                    if i % 2 == pos as usize % 2 { *e += val }
                }
                for (i, e) in m.iter_mut().enumerate() {
                    if i % 2 == pos as usize % 2 { *e = e.m_add(val) }
                }
                "updated through iterator"
            },
            17 => {
                if D > 0 {
                    let (a, ma) = square::<T, D>(my, pos);
                    *x = &a * &*x;
                    *m = ma.mul(&Mat { r: D, c: 1, d: m.clone() }).d;
                }
                "matrix times x"
            },
            _ => {
                // the components, moved out and in again in another order
                let k = if D == 0 { 0 } else { pos as usize % D };
                moved(x, m, |x| {
                    let mut v: Vec<T> = x.into_iter().collect();
                    v.rotate_left(k);
                    Self::make(&v, 0)
                });
                m.rotate_left(k);
                "moved components"
            }
        )
    }
    fn is(&self, m: &[T], _: &T) -> Res {
        ensure!(self.into_iter().eq(m.iter()), "got {self:?}, expected {m:?}");
        for (i, want) in m.iter().enumerate() {
            ensure!(self[i] == *want, "component {i} of {self:?}, expected {m:?}");
        }
        let sum = m.iter().fold(T::m_zero(), |s, a| s.m_add(&a.m_mul(a)));
        ensure_eq!(self.clone() * self, sum, "product of {self:?} with itself");
        Ok(())
    }
    fn zero() -> Option<(Self, Vec<T>)> {
        Some((Zero::zero(), vec![T::m_zero(); D]))
    }
    fn one() -> Option<(Self, Vec<T>)> {
        None
    }
}

impl<T: Elem, const R: usize, const C: usize> Obj<T> for SMatrix<T, R, C> {
    const WHAT: &'static str = "static matrix";
    fn make(m: &[T], _: u64) -> Self {
        matrix(m)
    }
    fn step(&mut self, m: &mut Vec<T>, y: &Self, my: &[T], op: u8, pos: u64, val: &T) -> &'static str {
        let x = self;
        let add = |a: &[T], b: &[T]| zip(a, b, T::m_add);
        let sub = |a: &[T], b: &[T]| zip(a, b, T::m_sub);
        let op = if R * C == 0 { op % 14 } else { op % 20 };
        let table = |m: &[T]| Mat { r: R, c: C, d: m.to_vec() };
        sums!(x, m, y, my, op, pos, add, sub;
            10 => { moved(x, m, |x| x + y); *m = add(m, my); "x + borrowed" },
            11 => { moved(x, m, |x| x - y); *m = sub(m, my); "x - borrowed" },
            12 => { moved(x, m, |x| -x); *m = m.iter().map(T::m_neg).collect(); "-x" },
            13 => { moved(x, m, |x| x.conj()); *m = m.iter().map(T::m_conj).collect(); "conj" },
            14 => { let (a, ma) = square::<T, C>(my, pos); *x *= a; *m = table(m).mul(&ma).d; "*= owned" },
            15 => { let (a, ma) = square::<T, C>(my, pos); *x *= &a; *m = table(m).mul(&ma).d; "*= borrowed" },
            16 => { let (a, ma) = square::<T, C>(my, pos); moved(x, m, |x| x * a); *m = table(m).mul(&ma).d; "x * owned" },
            17 => { let (a, ma) = square::<T, R>(my, pos); *x = &a * &*x; *m = ma.mul(&table(m)).d; "borrowed * borrowed" },
            18 => { let (a, ma) = square::<T, R>(my, pos); moved(x, m, |x| a * x); *m = ma.mul(&table(m)).d; "owned * x" },
            _ => {
                // a single entry, as the product of a column and a row
                let (i, j) = (pos as usize % R, (pos >> 8) as usize % C);
                let mut col = vec![T::m_zero(); R];
                col[i] = val.clone();
                let mut row = vec![T::m_zero(); C];
                row[j] = T::m_one();
                *x += matrix::<T, R, 1>(&col) * matrix::<T, 1, C>(&row);
                m[i * C + j] = m[i * C + j].m_add(val);
                "updated entry"
            }
        )
    }
    fn is(&self, m: &[T], _: &T) -> Res {
        let want: Self = matrix(m);
        ensure!(*self == want && want == *self, "got {self:?}, expected {want:?}");
        // the columns, by products
        for j in 0..C.min(4) {
            let unit: Vec<T> = (0..C).map(|k| if k == j { T::m_one() } else { T::m_zero() }).collect();
            let v = self * &SVector::<T, C>::make(&unit, 0);
            for i in 0..R {
                ensure!(v[i] == m[i * C + j], "entry ({i}, {j}) of {self:?}, expected {want:?}");
            }
        }
        Ok(())
    }
    fn zero() -> Option<(Self, Vec<T>)> {
        Some((Zero::zero(), vec![T::m_zero(); R * C]))
    }
    fn one() -> Option<(Self, Vec<T>)> {
        Some((One::one(), (0..R * C).map(|k| if k / C == k % C { T::m_one() } else { T::m_zero() }).collect()))
    }
}

/// First lists (of any length for polynomials, of length `n` otherwise), steps.
type Case = (Vec<Vec<i64>>, Vec<Op>);
fn history<T: Elem, X: Obj<T>>(c: &Case, ctx: &mut Ctx) -> Res {
    let lists: Vec<Vec<T>> = c.0.iter().map(|l| dec_all(l)).collect();
    let mut pool: Vec<(X, Vec<T>)> = lists.iter().take(2).enumerate().map(|(i, l)| (X::make(l, i as u64 * 5), l.clone())).collect();
    let (mut updates, mut clones) = (0, 0);
    let at = T::dec(c.1.first().map_or(1, |o| o.4));
    for (step, &(op, to, from, pos, val)) in c.1.iter().enumerate() {
        let (to, from) = (to as usize % pool.len(), from as usize % pool.len());
        let put = |pool: &mut Vec<(X, Vec<T>)>, x: (X, Vec<T>)| if pool.len() < 5 { pool.push(x) } else { pool[to] = x };
        let what = match op % 16 {
            0 => {
                let l = &lists[pos as usize % lists.len()];
                put(&mut pool, (X::make(l, pos >> 8), l.clone()));
                "new"
            }
            1 => {
                clones += 1;
                let x = pool[from].clone();
                put(&mut pool, x);
                "clone"
            }
            2 => {
                clones += 1;
                let (x, m) = (pool[from].0.clone(), pool[from].1.clone());
                let source = if pos % 2 == 0 { &pool[from].0 } else { &x };
                let mut y = pool[to].0.clone();
                if pos % 3 == 0 { y = X::make(&pool[to].1, pos >> 8) }
                y.clone_from(source);
                if pos % 5 < 3 { pool[to].0.clone_from(&x) } else { pool[to].0 = y }
                pool[to].1 = m;
                "clone_from"
            }
            3 => {
                if to != from {
                    let (a, b) = (to.min(from), to.max(from));
                    let (left, right) = pool.split_at_mut(b);
                    mem::swap(&mut left[a].0, &mut right[0].0);
                    mem::swap(&mut left[a].1, &mut right[0].1);
                }
                "swap"
            }
            4 => {
                if let Some(x) = if pos % 2 == 0 { X::zero() } else { X::one() } {
                    put(&mut pool, x);
                }
                "zero or one"
            }
            _ => {
                updates += 1;
                let val = T::dec(val);
                // the target leaves the pool, so that the source can be borrowed
                let (mut x, mut m) = mem::replace(&mut pool[to], (X::make(&lists[0], 0), lists[0].clone()));
                let (own, own_m);
                let (y, my) = if from == to {
                    (own, own_m) = (x.clone(), m.clone());
                    (&own, &own_m)
                } else {
                    (&pool[from].0, &pool[from].1)
                };
                let what = x.step(&mut m, y, my, (to as u8 * 5 + op / 16).wrapping_add((pos >> 40) as u8), pos, &val);
                pool[to] = (x, m);
                what
            }
        };
        for (i, (x, m)) in pool.iter().enumerate() {
            x.is(m, &at).map_err(|e| format!("{} over {}, step {step} ({what}), value {i}: {e}", X::WHAT, T::NAME))?;
            for (j, (y, n)) in pool.iter().enumerate() {
                let want = X::same(m, n);
                ensure!((x == y) == want && (x != y) != want, "{} over {}, step {step} ({what}): equality of values {i} and {j}, {x:?} and {y:?}, expected {want}", X::WHAT, T::NAME);
            }
        }
    }
    ctx.nontrivial(updates >= 2 && lists.iter().any(|l| l.iter().any(|x| *x != T::m_zero())));
    ctx.class("at least 5 updates", updates >= 5);
    ctx.class("updates and clones", updates >= 2 && clones >= 1);
    Ok(())
}

fn ops(n: usize) -> impl Strategy<Value = Vec<Op>> + Clone {
    vec((any::<u8>(), any::<u8>(), any::<u8>(), any::<u64>(), elem()), 0..n)
}
fn lists(n: usize) -> impl Strategy<Value = Vec<Vec<i64>>> {
    vec(elems(n), 2..5)
}

/// Long polynomials: additions, subtractions, clones and products that do not
/// get too long, some entries.
fn long(c: &(usize, usize, Seed, Seed, Vec<(u8, bool, u64)>), ctx: &mut Ctx) -> Res {
    let lists: [Vec<Zp>; 2] = [dec_all(&expand(c.2 .0, c.2 .1, c.0)), dec_all(&expand(c.3 .0, c.3 .1, c.1))];
    let mut pool: Vec<(Polynomial<Zp>, Vec<Zp>)> = lists.iter().map(|l| (Polynomial::from_coefficients(l.clone()), l.clone())).collect();
    ctx.nontrivial(c.4.len() > 1);
    let at = Zp::dec(c.2 .0 as i64);
    for (step, &(op, to, pos)) in c.4.iter().enumerate() {
        let (l, r) = pool.split_at_mut(1);
        let ((x, m), (y, n)) = if to { (&mut l[0], &mut r[0]) } else { (&mut r[0], &mut l[0]) };
        let room = [0, 1, 1000, 1 << 17][pos as usize % 4];
        let own = || poly::with_room(n, room);
        let op = op % 14;
        // products that would take too long become sums
        let op = if op >= 9 && m.len() * n.len() > 1_000_000 { op % 4 } else { op };
        match op {
            0 => { *m = poly::add(m, n); *x += &*y }
            1 => { *m = poly::add(m, n); *x += own() }
            2 => { *m = poly::sub(m, n); *x -= &*y }
            3 => { moved(x, &[], |x| x + own()); *m = poly::add(m, n) }
            4 => { moved(x, &[], |x| own() - x); *m = poly::sub(n, m) }
            5 => { x.clone_from(y); *m = n.clone() }
            6 => { let k = (pos as usize).min(m.len() / 2); m.truncate(k); *x = poly::with_room(m, room) }
            7 => { moved(x, &[], |x| -x); *m = poly::neg(m) }
            8 => { mem::swap(x, y); mem::swap(m, n) }
            9 => { *m = poly::mul(m, n); *x *= own() }
            10 => { *m = poly::mul(m, n); *x = &*x * &*y }
            11 => { moved(x, &[], |x| own() * x); *m = poly::mul(n, m) }
            12 => { *x = y.mul_refs(x); *m = poly::mul(n, m) }
            _ => { moved(x, &[], |x| x * own()); *m = poly::mul(m, n) }
        }
        for (i, (x, m)) in pool.iter().enumerate() {
            ensure!(*x == Polynomial::from_coefficients(m.clone()), "step {step} ({op}): value {i} of {} coefficients", m.len());
            ensure!(x.eval_ref(&at) == poly::eval(m, &at), "step {step} ({op}): value at a point of value {i} of {} coefficients", m.len());
        }
        let want = poly::trim(pool[0].1.clone()) == poly::trim(pool[1].1.clone());
        ensure!((pool[0].0 == pool[1].0) == want, "step {step} ({op}): equality, expected {want}");
    }
    Ok(())
}

fn main() {
    let mut c = Check::start("C39");
    macro_rules! polynomials {
        ($($t:ty, $cases:literal, $max:literal, $n:literal);*) => {$(
            c.sub(&format!("polynomials {}", <$t as El>::NAME), $cases, (vec(vecs($max), 2..5), ops($n)), history::<$t, Polynomial<$t>>);
        )*};
    }
    polynomials!(Zp, 1500, 12, 24; Quat, 600, 8, 16; Z2, 1000, 8, 20; Z6, 1000, 8, 20; M2, 600, 6, 14; B2, 1000, 10, 20; Nil, 300, 12, 20; Wide<1>, 100, 8, 12; Wide<20>, 20, 6, 8; Wide<70>, 8, 5, 6; Complex<Zp>, 600, 8, 16);
    c.sub("polynomials of few values", 1000, (vec(vec(-1i64..=1, 0..6), 2..5), ops(30)), history::<Zp, Polynomial<Zp>>);
    macro_rules! complex {
        ($($t:ty, $cases:literal);*) => {$(
            c.sub(&format!("complex {}", <$t as El>::NAME), $cases, (lists(2), ops(24)), history::<$t, Complex<$t>>);
        )*};
    }
    complex!(Zp, 2000; Quat, 1000; Z6, 1000; M2, 1000; B2, 1000; Nil, 100; Wide<1>, 300; Wide<20>, 40; Wide<70>, 12; Complex<Zp>, 1000);
    macro_rules! vectors {
        ($t:ty, $cases:literal: $($d:literal)*) => {$(
            c.sub(&format!("static vectors {} {}", <$t as El>::NAME, $d), $cases, (lists($d), ops(20)), history::<$t, SVector<$t, $d>>);
        )*};
    }
    vectors!(Zp, 300: 0 1 2 3 4 5 6 7 8 9 11 16 17);
    vectors!(Quat, 200: 1 2 3 4 5 8);
    vectors!(B2, 150: 1 2 3 4 8);
    vectors!(M2, 150: 1 2 3 4);
    vectors!(Nil, 40: 0 1 2 3 9);
    vectors!(Wide<1>, 60: 1 2 3 4);
    vectors!(Wide<20>, 12: 1 2 3);
    vectors!(Zp, 20: 32 33 64 65 100);
    macro_rules! matrices {
        ($t:ty, $cases:literal: $($r:literal $k:literal),*) => {$(
            c.sub(&format!("static matrices {} {}x{}", <$t as El>::NAME, $r, $k), $cases, (lists($r * $k), ops(20)), history::<$t, SMatrix<$t, $r, $k>>);
        )*};
    }
    matrices!(Zp, 200: 0 0, 0 2, 2 0, 1 1, 1 2, 2 1, 2 2, 2 3, 3 2, 3 3, 1 4, 4 1, 3 4, 4 3, 4 4, 5 5, 2 6, 6 2, 1 9, 9 1, 8 8, 9 9);
    matrices!(Quat, 150: 1 1, 1 2, 2 1, 2 2, 2 3, 3 2, 3 3, 4 4);
    matrices!(B2, 100: 1 1, 2 2, 3 2, 4 4);
    matrices!(M2, 100: 1 1, 2 2, 3 2);
    matrices!(Complex<Zp>, 100: 1 1, 2 2, 2 3, 3 3);
    matrices!(Nil, 40: 1 1, 2 3, 3 3);
    matrices!(Wide<1>, 40: 1 1, 2 2, 2 3);
    matrices!(Wide<20>, 8: 1 1, 2 2);
    matrices!(Zp, 8: 16 16, 17 17, 1 33, 33 1);
    let len = || prop_oneof![0..300usize, large(12), large(15)];
    c.sub("long polynomials", 60, (len(), len(), seed(), seed(), vec((any::<u8>(), any::<bool>(), any::<u64>()), 2..12)), long);
    let len = || prop_oneof![2 => medium(), 1 => 0usize..40, 1 => large(11)];
    c.sub("long polynomials, products", 120, (len(), len(), seed(), seed(), vec((any::<u8>(), any::<bool>(), any::<u64>()), 2..9)), long);
    matrices!(Zp, 3: 33 33, 20 40, 64 12);
    matrices!(Quat, 6: 10 10, 9 21);
    c.finish("histories of up to 30 steps (new values with and without room to grow, clone, clone_from, swaps, zero and one, every in-place and by-value operation in its owned and borrowed forms, writes to parts, iterators) on pools of up to five values of one type; after every step every value is compared with its list and every pair for equality; non-trivial: at least two updates and some non-zero element");
}
