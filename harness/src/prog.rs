//! Programs: sequences of groups of operations of all structures over any ring.
use crate::prelude::*;
use std::fmt::Debug;
use std::ops::*;

/// What programs need of the elements.
pub trait Elem: Ring + Debug + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + AddAssign + SubAssign {}
impl<T: Ring + Debug + Add<Output = T> + Sub<Output = T> + Mul<Output = T> + AddAssign + SubAssign> Elem for T {}

/// Where operands come from, and where results go.
pub struct Io<T> {
    /// Given elements, and (when results are used again) the results.
    pub pool: Vec<T>,
    at: usize,
    pub out: Vec<T>,
    /// Results of comparisons.
    pub eq: Vec<bool>,
}
impl<T: Elem> Io<T> {
    fn next(&mut self) -> T {
        let n = self.pool.len();
        self.at += 1;
        self.pool[(self.at * self.at + self.at) / 2 % n].clone()
    }
    fn many(&mut self, n: usize) -> Vec<T> {
        (0..n).map(|_| self.next()).collect()
    }
    fn array<const N: usize>(&mut self) -> [T; N] {
        [(); N].map(|_| self.next())
    }
    fn put(&mut self, x: T) {
        self.out.push(x);
    }
    fn complex(&mut self) -> Complex<T> {
        let re = self.next();
        Complex::new(re, self.next())
    }
    fn put_c(&mut self, x: Complex<T>) {
        self.put(x.re);
        self.put(x.im);
    }
    fn poly(&mut self, n: usize) -> Polynomial<T> {
        Polynomial::from_coefficients(self.many(n))
    }
    fn svec<const N: usize>(&mut self) -> SVector<T, N> {
        SVector::from(self.array())
    }
    fn put_v<const N: usize>(&mut self, v: SVector<T, N>) {
        v.into_iter().for_each(|x| self.put(x));
    }
    fn smat<const R: usize, const C: usize>(&mut self) -> SMatrix<T, R, C> {
        SMatrix::from([(); R].map(|_| self.array()))
    }
    fn put_m<const R: usize, const C: usize>(&mut self, m: SMatrix<T, R, C>) {
        for j in 0..C {
            let unit = SVector::from(std::array::from_fn::<T, C, _>(|k| if k == j { T::one() } else { T::zero() }));
            self.put_v(&m * &unit);
        }
    }
    fn dmat(&mut self, r: usize, c: usize) -> DMatrix<T> {
        let d = self.many(r * c);
        make_matrix_expr(r, c, |i, j| d[i * c + j].clone()).eval()
    }
    fn dvec(&mut self, n: usize) -> DVector<T> {
        let d = self.many(n);
        make_vector_expr(n, |i| d[i].clone()).eval()
    }
    fn put_d(&mut self, m: DMatrix<T>) {
        for i in 0..m.num_rows() {
            for j in 0..m.num_cols() {
                self.put(m[[i, j]].clone());
            }
        }
    }
    fn put_l(&mut self, v: DVector<T>) {
        (0..v.len()).for_each(|i| self.put(v[i].clone()));
    }
}

/// One group of operations; `s` gives small sizes.
pub const GROUPS: u8 = 12;
pub fn group<T: Elem>(io: &mut Io<T>, op: u8, s: [usize; 3]) {
    let [r, k, c] = s;
    match op % GROUPS {
        0 => {
            let (x, y, a) = (io.complex(), io.complex(), io.next());
            io.put_c(x.clone() + y.clone());
            io.put_c(x.clone() - y.clone());
            io.put_c(x.clone() * y.clone());
            io.put_c(&y * &x);
            io.put_c(-x.clone());
            io.put_c(x.clone().conj());
            io.put_c(x.clone() * a);
            io.put(x.sqr_norm());
            let mut z = x.clone();
            z *= y.clone();
            z += &x;
            z -= y.clone();
            io.put_c(z);
            io.eq.push(x == y);
            io.eq.push(x == Complex::zero());
            io.put_c(Complex::one());
        }
        1 => {
            let (p, q, x) = (io.poly(r), io.poly(k), io.next());
            io.put(p.eval_ref(&x));
            io.put((p.clone() + q.clone()).eval_ref(&x));
            io.put((p.clone() - q.clone()).eval_ref(&x));
            io.put((&p * &q).eval_ref(&x));
            io.put((-p.clone()).eval(x.clone()));
            io.put((q.clone() * q.clone()).eval(T::one()));
            io.eq.push(p == q);
            io.eq.push(p.clone() + q.clone() == q.clone() + p.clone());
            io.eq.push(p.clone() - q.clone() == Polynomial::zero());
            let mut z = p.clone();
            z += &q;
            z *= p;
            z -= q;
            io.put(z.eval_ref(&x));
        }
        2 => {
            let (u, v, a) = (io.svec::<3>(), io.svec::<3>(), io.next());
            io.put_v(u.clone() + &v);
            io.put_v(u.clone() - v.clone());
            io.put(u.clone() * v.clone());
            io.put(v.clone() * &u);
            io.put_v(u.clone() * a.clone());
            let mut w = u.clone();
            w *= &a;
            w += v.clone();
            w -= &u;
            io.put_v(w);
            io.eq.push(u == v);
            let (u, v) = (io.svec::<8>(), io.svec::<8>());
            io.put(u * v);
        }
        3 => {
            let (a, b, q, v) = (io.smat::<2, 3>(), io.smat::<3, 2>(), io.smat::<2, 2>(), io.svec::<3>());
            io.put_m(&a * &b);
            io.put_m(b.clone() * a.clone());
            io.put_v(&a * &v);
            let mut z = b.clone();
            z *= &q;
            z += b.clone();
            z -= &b;
            io.put_m(z);
            io.put_m(-a.clone());
            io.put_m(a.clone() + &a);
            io.put_m(SMatrix::<T, 2, 2>::one());
            io.put_m(SMatrix::<T, 2, 2>::zero());
            io.eq.push(&a * &b == q);
            io.eq.push(a.clone() == a);
        }
        4 => {
            let (a, b) = (io.dmat(r, k), io.dmat(k, c));
            if k > 0 {
                io.put_d((&a * &b).eval());
            }
            let d = io.dmat(r, k);
            io.put_d((&a + &d).eval());
            io.put_d((&a - &d).eval());
            io.put_d(a.t().eval());
            io.put_l(a.diag().eval());
            io.put_d(a.mul_elemwise(&d).eval());
            io.eq.push(a == d);
            let mut z = a.clone();
            z += &d;
            z -= a.t().t();
            io.eq.push(z == d);
            io.put_d(z);
            io.put_d(DMatrix::<T>::eye(r).eval());
            io.put_d(DMatrix::<T>::ones(1, k).eval());
            io.put_d(DMatrix::<T>::zeros(c, 1).eval());
        }
        5 => {
            let (u, v) = (io.dvec(r + k), io.dvec(r + k));
            io.put_l((&u + &v).eval());
            io.put_l((&u - &v).eval());
            io.put_l(u.mul_elemwise(&v).eval());
            io.put_d(u.diag().eval());
            io.eq.push(u == v);
            let mut w = u.clone();
            w -= &v;
            w += v.mul_elemwise(&u);
            io.put_l(w);
            io.put_l(DVector::<T>::ones(2).eval());
            io.put_l(DVector::<T>::zeros(1).eval());
        }
        // structures of structures
        6 => {
            let c = |io: &mut Io<T>, n: usize| Polynomial::from_coefficients((0..n).map(|_| io.complex()).collect());
            let (p, q, x) = (c(io, r), c(io, k), io.complex());
            io.put_c((&p * &q).eval_ref(&x));
            io.put_c((p.clone() - q.clone()).eval(x));
            io.eq.push(p == q);
        }
        7 => {
            let (p, q, x) = (Complex::new(io.poly(r), io.poly(k)), Complex::new(io.poly(k), io.poly(c)), io.next());
            let z = &p * &q;
            io.put(z.re.eval_ref(&x));
            io.put(z.im.eval_ref(&x));
            io.put((p.clone() - q.clone()).im.eval(x));
            io.eq.push(p == q);
        }
        8 => {
            let m = |io: &mut Io<T>| SMatrix::<Complex<T>, 2, 2>::from([(); 2].map(|_| [(); 2].map(|_| io.complex())));
            let (a, b, v) = (m(io), m(io), SVector::<Complex<T>, 2>::from([(); 2].map(|_| io.complex())));
            let w = &(&a * &b) * &v;
            w.into_iter().for_each(|x| io.put_c(x));
            io.put_c(v.clone() * v);
            io.eq.push(a == b);
        }
        9 => {
            let m = |io: &mut Io<T>| SMatrix::<Polynomial<T>, 2, 2>::from([(); 2].map(|_| [r, k].map(|n| io.poly(n))));
            let (a, b, x) = (m(io), m(io), io.next());
            let p = &a * &b;
            for j in 0..2 {
                let unit = SVector::from(std::array::from_fn::<Polynomial<T>, 2, _>(|k| if k == j { Polynomial::one() } else { Polynomial::zero() }));
                (&p * &unit).into_iter().for_each(|y| io.put(y.eval_ref(&x)));
            }
            io.eq.push(a == b);
        }
        10 => {
            // a polynomial of matrices, at a matrix
            let p: Polynomial<SMatrix<T, 2, 2>> = Polynomial::from_coefficients((0..r).map(|_| io.smat()).collect());
            let x = io.smat::<2, 2>();
            let y = p.eval_ref(&x);
            io.put_m(y);
            io.put_m((&p * &p).eval(x));
        }
        _ => {
            // a polynomial of polynomials, at a polynomial and then at a point
            let p = Polynomial::from_coefficients((0..r).map(|_| io.poly(k)).collect());
            let (x, y) = (io.poly(c), io.next());
            io.put((p.clone() + p.clone()).eval_ref(&x).eval_ref(&y));
            io.put(p.eval(x).eval(y));
        }
    }
}
/// Operations that conjugate entries.
pub fn conjugations<T: Elem + Conj>(io: &mut Io<T>, s: [usize; 3]) {
    let [r, k, c] = s;
    let (u, v) = (io.dvec(r + c), io.dvec(r + c));
    io.put(&u * &v);
    io.put_l(u.conj().eval());
    io.put(u * v);
    let a = io.dmat(r, k);
    io.put_d(a.h().eval());
    let m = io.smat::<2, 3>();
    io.put_m(m.conj());
}
pub type Conjugations<T> = fn(&mut Io<T>, [usize; 3]);

/// Steps: group and sizes.
pub type Prog = Vec<(u8, u8, u8, u8)>;
pub fn run_prog<T: Elem>(pool: Vec<T>, prog: &Prog, again: bool, large: bool, conj: Option<Conjugations<T>>) -> Io<T> {
    let mut io = Io { pool, at: 0, out: vec![], eq: vec![] };
    for &(op, r, k, c) in prog {
        let from = io.out.len();
        // now and then something larger where one structure is made of entries
        let large = large && matches!(op % GROUPS, 1 | 4 | 5 | 6);
        let s = [r, k, c].map(|x| if large && x >= 216 { (x as usize - 200) / 2 } else { x as usize % 4 });
        match conj {
            Some(f) if op % (GROUPS + 1) == GROUPS => f(&mut io, s),
            _ => group(&mut io, op, s),
        }
        if again {
            // some results become operands
            let n = io.out.len();
            for i in (from..n).step_by(1 + (n - from) / 6) {
                io.pool.push(io.out[i].clone());
            }
        }
    }
    io
}
