//! Floating-point comparison and generators.

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use std::fmt::Debug;

/// What the checks need to be generic in the float type.
pub trait Fl:
    Copy + PartialOrd + Debug + 'static + crate::wire::Wire
    + std::ops::Add<Output = Self> + std::ops::Sub<Output = Self> + std::ops::Mul<Output = Self>
    + std::ops::Div<Output = Self> + std::ops::Neg<Output = Self>
{
    const NAME: &'static str;
    const EPS: f64;
    /// Exponents (base 2) such that squares and products of two numbers of
    /// that size stay well inside the normal range.
    const SAFE_EXP: i32;
    fn f(self) -> f64;
    fn of(x: f64) -> Self;
    /// Position on the ordered line of all floats; -0 and +0 coincide.
    fn ord(self) -> i128;
    fn is_nan_(self) -> bool;
    fn from_raw(bits: u64) -> Self;
    fn sign_neg(self) -> bool;
}
impl Fl for f32 {
    const NAME: &'static str = "f32";
    const EPS: f64 = f32::EPSILON as f64;
    const SAFE_EXP: i32 = 24;
    fn f(self) -> f64 { self as f64 }
    fn of(x: f64) -> Self { x as f32 }
    fn ord(self) -> i128 {
        let b = self.to_bits() as i128;
        if b >> 31 == 1 { -(b & 0x7fff_ffff) } else { b }
    }
    fn is_nan_(self) -> bool { self.is_nan() }
    fn from_raw(bits: u64) -> Self { f32::from_bits(bits as u32) }
    fn sign_neg(self) -> bool { self.is_sign_negative() }
}
impl Fl for f64 {
    const NAME: &'static str = "f64";
    const EPS: f64 = f64::EPSILON;
    const SAFE_EXP: i32 = 220;
    fn f(self) -> f64 { self }
    fn of(x: f64) -> Self { x }
    fn ord(self) -> i128 {
        let b = self.to_bits() as i128;
        if b >> 63 == 1 { -(b & 0x7fff_ffff_ffff_ffff) } else { b }
    }
    fn is_nan_(self) -> bool { self.is_nan() }
    fn from_raw(bits: u64) -> Self { f64::from_bits(bits) }
    fn sign_neg(self) -> bool { self.is_sign_negative() }
}

/// |a - b| <= tol, and neither is NaN.
pub fn near(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol
}

/// Any sign, magnitude 2^-e .. 2^e with log-uniform size.
pub fn magnitude(e: i32) -> BoxedStrategy<f64> {
    (any::<bool>(), -e..e, 1.0f64..2.0)
        .prop_map(|(s, e, m)| if s { -m } else { m } * (e as f64).exp2())
        .boxed()
}

/// A real part or imaginary part: zeros of both signs, ones, small integers,
/// moderate numbers, and magnitudes 2^-e .. 2^e.
pub fn part(e: i32) -> BoxedStrategy<f64> {
    prop_oneof![
        2 => Just(0.0f64),
        1 => Just(-0.0f64),
        2 => (-4i32..=4).prop_map(|x| x as f64),
        4 => -2.0f64..2.0,
        4 => -10.0f64..10.0,
        4 => magnitude(e),
        2 => magnitude(6),
    ]
    .boxed()
}

/// A point of the plane with modulus inside 2^-e .. 2^e: independent parts,
/// points at a given angle (also very close to the axes and diagonals), the
/// axes, and the line |re| = 2|im|.
pub fn point(e: i32) -> BoxedStrategy<(f64, f64)> {
    let pi = std::f64::consts::PI;
    prop_oneof![
        4 => (-5.0f64..5.0, -5.0f64..5.0),
        4 => (part(e), part(e)),
        4 => (magnitude(e), -pi..pi).prop_map(|(r, a)| (r * a.cos(), r * a.sin())),
        // close to a multiple of 45 degrees
        3 => (magnitude(e), 0i32..8, magnitude(30)).prop_map(move |(r, k, d)| {
            let a = k as f64 * pi / 4.0 + if d.abs() < 0.5 { d } else { d.signum() / (2.0 * d.abs()) };
            (r * a.cos(), r * a.sin())
        }),
        // exactly on an axis or a diagonal
        2 => (magnitude(e), 0u8..8).prop_map(|(r, k)| match k {
            0 => (r, 0.0), 1 => (r, -0.0), 2 => (0.0, r), 3 => (-0.0, r),
            4 => (r, r), 5 => (r, -r), 6 => (r, r * 1e-3), _ => (r * 1e-3, r),
        }),
        // huge ratio of the parts
        3 => (magnitude(e.min(60)), magnitude(e)).prop_map(|(a, b)| (a, b)),
        // around |re| = 2|im|
        3 => (magnitude(e - 2), any::<bool>(), -4i32..=4, any::<bool>()).prop_map(|(y, s, d, u)| {
            let x = 2.0 * y * (1.0 + d as f64 * if u { 6e-8 } else { 2.3e-16 });
            (if s { -x } else { x }, y)
        }),
    ]
    .boxed()
}

/// Is the modulus inside the safe range of the type (or the point zero)?
pub fn safe<F: Fl>(re: F, im: F) -> bool {
    let m = re.f().hypot(im.f());
    let lim = (F::SAFE_EXP as f64).exp2();
    m == 0.0 || (m >= 1.0 / lim && m <= lim)
}

/// Is the squared modulus in the normal range (or zero)?
pub fn normal<F: Fl>(re: F, im: F) -> bool {
    within::<F>(re.f().hypot(im.f()), 1.0)
}
/// Zero or within 2^-k(emax/2 - 2) .. 2^k(emax/2 - 2).
pub fn within<F: Fl>(m: f64, k: f64) -> bool {
    let e = k * if F::EPS > 1e-10 { 61.0 } else { 506.0 };
    m == 0.0 || (m >= (-e).exp2() && m <= e.exp2())
}

// ---- elements that compare like a test ----------------------------------

/// A float whose arithmetic is the native one. What a computation gives has
/// `tol` -2 and compares natively; an expected value says how close a result
/// must be to count as equal: to the bit (`tol` -1, NaNs alike) or within
/// `tol`. So matrices and polynomials that only offer `==` can be compared
/// with expected entries of limited accuracy.
#[derive(Clone, Copy)]
pub struct Fx<F> {
    pub v: F,
    pub tol: f64,
}
impl<F: Fl> Fx<F> {
    pub fn res(v: F) -> Self { Fx { v, tol: -2.0 } }
    pub fn exactly(v: F) -> Self { Fx { v, tol: -1.0 } }
    pub fn near(v: f64, tol: f64) -> Self { Fx { v: F::of(v), tol: tol + v.abs() * F::EPS } }
}
impl<F: Fl> Debug for Fx<F> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", self.v)?;
        if self.tol >= 0.0 { write!(f, "±{:e}", self.tol) } else { Ok(()) }
    }
}
/// The same float: equal with the same sign of zero, or both NaN.
pub fn same_float<F: Fl>(a: F, b: F) -> bool {
    a.is_nan_() && b.is_nan_() || a == b && a.sign_neg() == b.sign_neg()
}
impl<F: Fl> PartialEq for Fx<F> {
    fn eq(&self, o: &Self) -> bool {
        let t = self.tol.max(o.tol);
        if t < -1.0 {
            self.v == o.v
        } else if t < 0.0 {
            same_float(self.v, o.v)
        } else {
            self.v.is_nan_() && o.v.is_nan_() || self.v == o.v || (self.v.f() - o.v.f()).abs() <= t
        }
    }
}
macro_rules! ops_fx {
    ($($tr:ident $f:ident $tra:ident $fa:ident $op:tt),*) => {$(
        impl<F: Fl> std::ops::$tr<Fx<F>> for Fx<F> { type Output = Fx<F>; fn $f(self, o: Fx<F>) -> Fx<F> { Fx::res(self.v $op o.v) } }
        impl<'a, F: Fl> std::ops::$tr<&'a Fx<F>> for Fx<F> { type Output = Fx<F>; fn $f(self, o: &'a Fx<F>) -> Fx<F> { Fx::res(self.v $op o.v) } }
        impl<'a, F: Fl> std::ops::$tr<Fx<F>> for &'a Fx<F> { type Output = Fx<F>; fn $f(self, o: Fx<F>) -> Fx<F> { Fx::res(self.v $op o.v) } }
        impl<'a, 'b, F: Fl> std::ops::$tr<&'b Fx<F>> for &'a Fx<F> { type Output = Fx<F>; fn $f(self, o: &'b Fx<F>) -> Fx<F> { Fx::res(self.v $op o.v) } }
        impl<F: Fl> std::ops::$tra<Fx<F>> for Fx<F> { fn $fa(&mut self, o: Fx<F>) { *self = Fx::res(self.v $op o.v); } }
        impl<'a, F: Fl> std::ops::$tra<&'a Fx<F>> for Fx<F> { fn $fa(&mut self, o: &'a Fx<F>) { *self = Fx::res(self.v $op o.v); } }
    )*};
}
ops_fx!(Add add AddAssign add_assign +, Sub sub SubAssign sub_assign -, Mul mul MulAssign mul_assign *, Div div DivAssign div_assign /);
impl<F: Fl> std::ops::Neg for Fx<F> {
    type Output = Fx<F>;
    fn neg(self) -> Fx<F> { Fx::res(-self.v) }
}
impl<F: Fl> From<i8> for Fx<F> {
    fn from(x: i8) -> Fx<F> { Fx::res(F::of(x as f64)) }
}
impl<F: Fl> magnesia::algebra::Conj for Fx<F> {
    fn conj(self) -> Fx<F> { self }
}
impl<F: Fl> magnesia::algebra::Ring for Fx<F> {}
impl<F: Fl> magnesia::algebra::Field for Fx<F> {}

/// A sum in twice the precision of f64.
#[derive(Clone, Copy, Default)]
pub struct Dd(pub f64, pub f64);
impl Dd {
    pub fn add(&mut self, x: f64) {
        let s = self.0 + x;
        let b = s - self.0;
        self.1 += (self.0 - (s - b)) + (x - b);
        self.0 = s;
    }
    /// Adds the product of two floats without losing its low part.
    pub fn add_product(&mut self, a: f64, b: f64) {
        let p = a * b;
        self.add(p);
        self.add(a.mul_add(b, -p));
    }
    pub fn value(&self) -> f64 {
        self.0 + self.1
    }
}
