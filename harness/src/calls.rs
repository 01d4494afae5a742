//! Calls of all functions on operands made from a seed, with results as bits.
use crate::prelude::*;
use magnesia::functions::*;
use magnesia::optimize::test_functions::ackley;

/// A call: which function, which operands.
pub type Call = (u8, u64, u8);
pub const CALLS: u8 = 34;

pub struct Bits(pub Vec<u64>);
pub trait Out {
    fn out(&self, b: &mut Bits);
}
impl Out for f64 {
    fn out(&self, b: &mut Bits) { b.0.push(if self.is_nan() { 0x7ff8 << 48 } else { self.to_bits() }); }
}
impl Out for f32 {
    fn out(&self, b: &mut Bits) { b.0.push(if self.is_nan() { 0x7fc0 << 16 } else { self.to_bits() as u64 }); }
}
impl Out for i64 {
    fn out(&self, b: &mut Bits) { b.0.push(*self as u64); }
}
impl Out for Zp {
    fn out(&self, b: &mut Bits) { b.0.push(self.0 as u64); }
}
impl<T: Out> Out for Complex<T> {
    fn out(&self, b: &mut Bits) { self.re.out(b); self.im.out(b); }
}
impl<T: Out + Clone> Out for DMatrix<T> {
    fn out(&self, b: &mut Bits) {
        b.0.extend([self.num_rows() as u64, self.num_cols() as u64]);
        for i in 0..self.num_rows() { for j in 0..self.num_cols() { self[[i, j]].out(b); } }
    }
}
impl<T: Out + Clone> Out for DVector<T> {
    fn out(&self, b: &mut Bits) {
        b.0.push(self.len() as u64);
        for i in 0..self.len() { self[i].out(b); }
    }
}
impl<T: Out, const N: usize> Out for SVector<T, N> {
    fn out(&self, b: &mut Bits) { for i in 0..N { self[i].out(b); } }
}
impl<T: Out, const N: usize> Out for [T; N] {
    fn out(&self, b: &mut Bits) { for x in self { x.out(b); } }
}

pub fn real(s: &mut u64) -> f64 {
    let x = splitmix(s);
    match x % 8 {
        0 => ((x >> 8) % 7) as f64 - 3.0,
        1 => (x >> 11) as f64 / (1u64 << 53) as f64 * 1e3,
        _ => ((x >> 11) as f64 / (1u64 << 53) as f64 - 0.5) * 8.0,
    }
}
pub fn cx(s: &mut u64) -> Complex<f64> {
    Complex::new(real(s), real(s))
}
fn mat_<T: Clone>(r: usize, c: usize, mut f: impl FnMut() -> T) -> DMatrix<T> {
    dm(&Mat { r, c, d: (0..r * c).map(|_| f()).collect() })
}
fn poly<T: Ring>(n: usize, mut f: impl FnMut() -> T) -> Polynomial<T> {
    Polynomial::from_coefficients((0..n).map(|_| f()).collect())
}

/// Runs one call on operands made from the seed.
pub fn call(c: &Call) -> Vec<u64> {
    let (op, seed, size) = *c;
    let mut seed = seed % 6;
    let s = &mut seed;
    let n = size as usize % 6 + 1;
    let mut b = Bits(vec![]);
    match op % CALLS {
        0 => { let x = real(s); [Sin::sin(x), Cos::cos(x), Exp::exp(x), Ln::ln(x), Sqrt::sqrt(&x), Tan::tan(x)].out(&mut b) }
        1 => { let x = real(s) as f32; [Sin::sin(x), Cos::cos(x), Exp::exp(x), Ln::ln(x), Sqrt::sqrt(&x), Tan::tan(x), Sinh::sinh(x), Cosh::cosh(x), Asin::asin(x)].out(&mut b) }
        2 => { let (x, y) = (real(s), real(s)); [Atan2::atan2(x, y), Abs::abs(x), Asin::asin(x / 10.0), Sinh::sinh(x), Cosh::cosh(x)].out(&mut b) }
        3 => cx(s).exp().out(&mut b),
        4 => cx(s).ln().out(&mut b),
        5 => cx(s).sqrt().out(&mut b),
        6 => cx(s).sin().out(&mut b),
        7 => cx(s).cos().out(&mut b),
        8 => cx(s).tan().out(&mut b),
        9 => cx(s).sinh().out(&mut b),
        10 => cx(s).cosh().out(&mut b),
        11 => { let z = cx(s); [z.clone().abs(), z.clone().arg(), z.sqr_norm()].out(&mut b) }
        12 => { let (z, w) = (cx(s), cx(s)); [z.clone() * w.clone(), z.clone() / w.clone(), &z / &w, z.clone() + w.clone(), z - w].out(&mut b) }
        13 => { let p = poly(n, || real(s)); [p.eval(real(s)), p.eval_ref(&real(s)), p.eval(real(s))].out(&mut b) }
        14 => { let (p, q) = (poly(n, || real(s)), poly(4, || real(s))); [(&p * &q).eval(1.25), (p.clone() + q.clone()).eval(0.5), (p - q).eval(2.0)].out(&mut b) }
        15 => { let (p, q) = (poly(n, || Zp(real(s).abs() as u32 + 1)), poly(n, || Zp(real(s).abs() as u32 + 2))); (p * q).eval(Zp(1234567)).out(&mut b) }
        16 => { let (x, y) = (mat_(n, 3, || real(s)), mat_(3, n, || real(s))); (&x * &y).eval().out(&mut b) }
        17 => { let (x, y) = (mat_(n, 2, || cx(s)), mat_(2, n, || cx(s))); (&x * &y).eval().out(&mut b) }
        18 => { let (x, y) = (mat_(n, n, || real(s)), mat_(n, n, || real(s))); (&x + &y - x.t()).eval().out(&mut b) }
        19 => { let (x, y) = (mat_(n, n, || cx(s)), mat_(n, n, || cx(s))); x.h().mul_elemwise(&y).eval().out(&mut b) }
        20 => { let (x, y) = (mat_(n, 5, || real(s)), mat_(n, 5, || real(s))); x.div_elemwise(&y).eval().out(&mut b) }
        21 => { let (mut x, y) = (mat_(n, 4, || real(s)), mat_(n, 4, || real(s))); x += &y; x -= y.wrap().map(|v| v * 3.0); x.out(&mut b) }
        22 => { let mut f = || (0..n).map(|_| cx(s)).collect::<Vec<_>>(); let (u, v) = (dv(&f()), dv(&f())); (&u * &v).out(&mut b) }
        23 => { let mut f = || (0..n).map(|_| real(s)).collect::<Vec<_>>(); let (u, v) = (dv(&f()), dv(&f())); (&u + &v).eval().out(&mut b); (u * v).out(&mut b) }
        24 => { let mut f = || (0..n).map(|_| real(s)).collect::<Vec<_>>(); let (u, v) = (dv(&f()), dv(&f())); u.diag().eval().out(&mut b); v.mul_elemwise(&u).eval().out(&mut b) }
        25 => { let m = mat_(n, n, || real(s)); m.diag().eval().out(&mut b); m.t().eval().out(&mut b) }
        26 => { let mut f = || [(); 3].map(|_| [(); 3].map(|_| real(s))); let (x, y) = (SMatrix::from(f()), SMatrix::from(f())); (&(x * y) * &SVector::from([1.0, 0.5, -2.0])).out(&mut b) }
        27 => { let mut f = || SMatrix::from([(); 2].map(|_| [(); 2].map(|_| cx(s)))); let (x, y, z) = (f(), f(), f()); let m = x.clone() * y + z - x.conj(); dm(&Mat { r: 0, c: 0, d: Vec::<i64>::new() }).out(&mut b); (&m * &SVector::from([Complex::new(1.0, 0.0), Complex::new(0.0, 1.0)])).out(&mut b) }
        28 => { let mut f = || SVector::from([(); 5].map(|_| real(s))); let (u, v) = (f(), f()); (u.clone() + v.clone()).out(&mut b); (u.clone() * 3.0).out(&mut b); (u * v).out(&mut b) }
        29 => { DMatrix::<i64>::eye(n).eval().out(&mut b); DMatrix::<i64>::zeros(n, 2).eval().out(&mut b); DMatrix::<i64>::same(2, n, real(s) as i64).eval().out(&mut b); DVector::<i64>::ones(n).eval().out(&mut b) }
        30 => { let x = real(s) as f32; let y = real(s) as f32; [ackley(x, y), ackley(0.0, 0.0)].out(&mut b) }
        31 => {
            let mut g = Gen::new(splitmix(s), false, 100_000);
            let c = real(s);
            let f = |p: &[f64; 2]| (p[0] - c) * (p[0] - c) + p[1] * p[1];
            let x = magnesia::optimize::differential_evolution(&[(-5.0, 5.0), (0.0, 2.0)], 4 + n, 0.5, 0.7, 40, &mut g, |p, q| f(p) < f(q));
            x.out(&mut b);
            b.0.push(g.next_word());
        }
        32 => {
            let mut g = Gen::new(splitmix(s), false, 100_000);
            let x = magnesia::optimize::differential_evolution(&[(-5.0f32, 5.0)], 4 + n, 0.9, 0.5, 30, &mut g, |p, q| ackley(p[0], 1.0) < ackley(q[0], 1.0));
            x.out(&mut b);
        }
        _ => {
            // a lazy expression, read twice and evaluated
            let (x, y) = (mat_(n, 3, || real(s)), mat_(n, 3, || real(s)));
            let e = x.wrap() - y.wrap().map(|v| v * v);
            for _ in 0..2 { for i in 0..n { for j in 0..3 { e.entry(i, j).out(&mut b); } } }
            e.eval().out(&mut b);
        }
    }
    b.0
}
