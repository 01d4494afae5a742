//! Number types of a user on which the functions of complex numbers work:
//! numbers of twice the precision, numbers with a derivative, power series.
use crate::rings::{Zp, P};
use magnesia::algebra::{Conj, Field, Ring};
use magnesia::functions::*;
use std::cmp::Ordering;
use std::ops::*;

macro_rules! scalar {
    (@ $t:ty, $($tr:ident $f:ident $tra:ident $fa:ident $m:ident),*) => {$(
        impl $tr<$t> for $t { type Output = $t; fn $f(self, o: $t) -> $t { self.$m(&o) } }
        impl<'a> $tr<&'a $t> for $t { type Output = $t; fn $f(self, o: &'a $t) -> $t { (&self).$m(o) } }
        impl<'a> $tr<$t> for &'a $t { type Output = $t; fn $f(self, o: $t) -> $t { self.$m(&o) } }
        impl<'a, 'b> $tr<&'b $t> for &'a $t { type Output = $t; fn $f(self, o: &'b $t) -> $t { self.$m(o) } }
        impl $tra<$t> for $t { fn $fa(&mut self, o: $t) { *self = (&*self).$m(&o); } }
        impl<'a> $tra<&'a $t> for $t { fn $fa(&mut self, o: &'a $t) { *self = (&*self).$m(o); } }
    )*};
    (# $t:ty, $($tr:ident $f:ident $m:ident),*) => {$(
        impl $tr for $t { fn $f(self) -> $t { self.$m() } }
    )*};
    ($t:ty) => {
        scalar!(@ $t, Add add AddAssign add_assign add_, Sub sub SubAssign sub_assign sub_,
            Mul mul MulAssign mul_assign mul_, Div div DivAssign div_assign div_);
        scalar!(# $t, Exp exp exp_, Sin sin sin_, Cos cos cos_, Sinh sinh sinh_, Cosh cosh cosh_, Tan tan tan_, Ln ln ln_, Asin asin asin_);
        impl Neg for $t { type Output = $t; fn neg(self) -> $t { self.neg_() } }
        impl<'a> Neg for &'a $t { type Output = $t; fn neg(self) -> $t { self.neg_() } }
        impl Sqrt for $t { fn sqrt(&self) -> $t { self.sqrt_() } }
        impl Atan2 for $t { fn atan2(self, x: $t) -> $t { self.atan2_(&x) } }
        impl Abs for $t { type Output = $t; fn abs(self) -> $t { self.abs_() } }
        impl<'a> Abs for &'a $t { type Output = $t; fn abs(self) -> $t { self.abs_() } }
        impl Conj for $t { fn conj(self) -> $t { self } }
        impl Ring for $t {}
        impl Field for $t {}
    };
}

// ---- twice the precision -------------------------------------------------

/// The unevaluated sum of two floats, the second below half a unit of the
/// last place of the first: about 106 bits.
#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct Twin(pub f64, pub f64);
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let c = s - a;
    (s, (a - (s - c)) + (b - c))
}
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    (p, a.mul_add(b, -p))
}
fn norm(a: f64, b: f64) -> Twin {
    let s = a + b;
    Twin(s, b - (s - a))
}
impl Twin {
    pub const LN2: Twin = Twin(0.6931471805599453, 2.3190468138462996e-17);
    pub const PI: Twin = Twin(3.141592653589793, 1.2246467991473532e-16);
    pub fn of(x: f64) -> Twin { Twin(x, 0.0) }
    fn add_(&self, o: &Twin) -> Twin {
        let (s, e) = two_sum(self.0, o.0);
        let (t, f) = two_sum(self.1, o.1);
        let r = norm(s, e + t);
        norm(r.0, r.1 + f)
    }
    fn neg_(&self) -> Twin { Twin(-self.0, -self.1) }
    fn sub_(&self, o: &Twin) -> Twin { self.add_(&o.neg_()) }
    fn mul_(&self, o: &Twin) -> Twin {
        let (p, e) = two_prod(self.0, o.0);
        norm(p, e + (self.0 * o.1 + self.1 * o.0))
    }
    fn div_(&self, o: &Twin) -> Twin {
        let mut q = Twin::of(self.0 / o.0);
        if !q.0.is_finite() || q.0 == 0.0 {
            return q;
        }
        for _ in 0..2 {
            let r = self.sub_(&o.mul_(&q));
            q = q.add_(&Twin::of(r.0 / o.0));
        }
        q
    }
    fn sqrt_(&self) -> Twin {
        let mut q = Twin::of(self.0.sqrt());
        if q.0 == 0.0 || !q.0.is_finite() {
            return q;
        }
        for _ in 0..2 {
            let r = self.sub_(&q.mul_(&q));
            q = q.add_(&Twin::of(r.0 / (2.0 * q.0)));
        }
        q
    }
    pub fn scaled(&self, f: f64) -> Twin { Twin(self.0 * f, self.1 * f) } // f a power of two
    /// exp(x) - 1 for small x.
    fn expm1_small(x: Twin) -> Twin {
        let (mut t, mut s, mut k) = (x, x, 1.0);
        while t.0 != 0.0 && t.0.abs() > s.0.abs() * 1e-34 {
            k += 1.0;
            t = t.mul_(&x).div_(&Twin::of(k));
            s = s.add_(&t);
        }
        s
    }
    fn exp_(&self) -> Twin {
        let k = (self.0 / Self::LN2.0).round();
        if !(k.abs() < 1000.0) {
            return Twin::of(self.0.exp());
        }
        let r = self.sub_(&Self::LN2.mul_(&Twin::of(k)));
        Twin::of(1.0).add_(&Self::expm1_small(r)).scaled(k.exp2())
    }
    /// Sine and cosine.
    fn sin_cos(&self) -> (Twin, Twin) {
        let quarter = Self::PI.scaled(0.5);
        let k = (self.0 / quarter.0).round();
        let x = self.sub_(&quarter.mul_(&Twin::of(k)));
        let y = x.mul_(&x).neg_();
        let series = |first: Twin, mut n: f64| {
            let (mut t, mut s) = (first, first);
            while t.0 != 0.0 && t.0.abs() > s.0.abs() * 1e-34 {
                t = t.mul_(&y).div_(&Twin::of((n + 1.0) * (n + 2.0)));
                s = s.add_(&t);
                n += 2.0;
            }
            s
        };
        let (s, c) = (series(x, 1.0), series(Twin::of(1.0), 0.0));
        match (k as i64).rem_euclid(4) {
            0 => (s, c),
            1 => (c, s.neg_()),
            2 => (s.neg_(), c.neg_()),
            _ => (c.neg_(), s),
        }
    }
    fn sin_(&self) -> Twin { self.sin_cos().0 }
    fn cos_(&self) -> Twin { self.sin_cos().1 }
    fn tan_(&self) -> Twin {
        let (s, c) = self.sin_cos();
        s.div_(&c)
    }
    fn sinh_(&self) -> Twin {
        if self.0.abs() < 0.4 {
            // (e - 1) (e + 1) / 2 e
            let m = Self::expm1_small(*self);
            let e = m.add_(&Twin::of(1.0));
            return m.mul_(&m.add_(&Twin::of(2.0))).div_(&e).scaled(0.5);
        }
        self.exp_().sub_(&self.neg_().exp_()).scaled(0.5)
    }
    fn cosh_(&self) -> Twin { self.exp_().add_(&self.neg_().exp_()).scaled(0.5) }
    fn ln_(&self) -> Twin {
        let mut y = Twin::of(self.0.ln());
        if !y.0.is_finite() {
            return y;
        }
        for _ in 0..2 {
            // y + (x e^-y - 1)
            y = y.add_(&self.mul_(&y.neg_().exp_()).sub_(&Twin::of(1.0)));
        }
        y
    }
    fn atan2_(&self, x: &Twin) -> Twin {
        let mut a = Twin::of(self.0.atan2(x.0));
        let r = self.0.hypot(x.0);
        if r == 0.0 || !r.is_finite() {
            return a;
        }
        for _ in 0..2 {
            let (s, c) = a.sin_cos();
            let d = self.mul_(&c).sub_(&x.mul_(&s)).div_(&x.mul_(&c).add_(&self.mul_(&s)));
            a = a.add_(&d);
        }
        a
    }
    fn asin_(&self) -> Twin {
        let c = Twin::of(1.0).sub_(&self.mul_(self)).sqrt_();
        self.atan2_(&c)
    }
    fn abs_(&self) -> Twin { if self.0 < 0.0 { self.neg_() } else if self.0 == 0.0 { Twin(0.0, 0.0) } else { *self } }
}
impl PartialOrd for Twin {
    fn partial_cmp(&self, o: &Twin) -> Option<Ordering> {
        match self.0.partial_cmp(&o.0) {
            Some(Ordering::Equal) => self.1.partial_cmp(&o.1),
            c => c,
        }
    }
}
impl From<i8> for Twin {
    fn from(x: i8) -> Twin { Twin::of(x as f64) }
}
impl From<f32> for Twin {
    fn from(x: f32) -> Twin { Twin::of(x as f64) }
}
impl From<f64> for Twin {
    fn from(x: f64) -> Twin { Twin::of(x) }
}
scalar!(Twin);

// ---- a number and its derivative -----------------------------------------

/// A value and the derivative along some direction, ordered like a value and
/// something infinitely small: an ordered ring.
#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct Dual(pub f64, pub f64);
impl Dual {
    fn chain(&self, f: f64, df: f64) -> Dual { Dual(f, df * self.1) }
    fn add_(&self, o: &Dual) -> Dual { Dual(self.0 + o.0, self.1 + o.1) }
    fn neg_(&self) -> Dual { Dual(-self.0, -self.1) }
    fn sub_(&self, o: &Dual) -> Dual { Dual(self.0 - o.0, self.1 - o.1) }
    fn mul_(&self, o: &Dual) -> Dual { Dual(self.0 * o.0, self.1 * o.0 + self.0 * o.1) }
    fn div_(&self, o: &Dual) -> Dual {
        let q = self.0 / o.0;
        Dual(q, (self.1 - q * o.1) / o.0)
    }
    fn sqrt_(&self) -> Dual {
        let r = self.0.sqrt();
        self.chain(r, 0.5 / r)
    }
    fn exp_(&self) -> Dual { self.chain(self.0.exp(), self.0.exp()) }
    fn sin_(&self) -> Dual { self.chain(self.0.sin(), self.0.cos()) }
    fn cos_(&self) -> Dual { self.chain(self.0.cos(), -self.0.sin()) }
    fn tan_(&self) -> Dual {
        let t = self.0.tan();
        self.chain(t, 1.0 + t * t)
    }
    fn sinh_(&self) -> Dual { self.chain(self.0.sinh(), self.0.cosh()) }
    fn cosh_(&self) -> Dual { self.chain(self.0.cosh(), self.0.sinh()) }
    fn ln_(&self) -> Dual { self.chain(self.0.ln(), 1.0 / self.0) }
    fn atan2_(&self, x: &Dual) -> Dual {
        let r = self.0 * self.0 + x.0 * x.0;
        Dual(self.0.atan2(x.0), (self.1 * x.0 - self.0 * x.1) / r)
    }
    fn asin_(&self) -> Dual { self.chain(self.0.asin(), 1.0 / (1.0 - self.0 * self.0).sqrt()) }
    fn abs_(&self) -> Dual { if *self < Dual(0.0, 0.0) { self.neg_() } else { *self } }
}
impl PartialOrd for Dual {
    fn partial_cmp(&self, o: &Dual) -> Option<Ordering> {
        match self.0.partial_cmp(&o.0) {
            Some(Ordering::Equal) => self.1.partial_cmp(&o.1),
            c => c,
        }
    }
}
impl From<i8> for Dual {
    fn from(x: i8) -> Dual { Dual(x as f64, 0.0) }
}
impl From<f32> for Dual {
    fn from(x: f32) -> Dual { Dual(x as f64, 0.0) }
}
impl From<f64> for Dual {
    fn from(x: f64) -> Dual { Dual(x, 0.0) }
}
scalar!(Dual);

// ---- formal power series ---------------------------------------------------

/// Number of coefficients that are kept.
pub const TERMS: usize = 12;
/// A formal power series over `Zp`, cut off after `TERMS` coefficients. The
/// functions are those of formal series: `exp`, `sin` ... for series without
/// constant term, `ln` for series that start with one, `sqrt` for series that
/// start with a square. Everywhere else they are undefined (`None`), and so is
/// what is computed from such a value.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Series(pub Option<[Zp; TERMS]>);
impl Series {
    pub fn constant(c: Zp) -> Series {
        let mut a = [Zp(0); TERMS];
        a[0] = c;
        Series(Some(a))
    }
    fn both(&self, o: &Series, f: impl FnOnce([Zp; TERMS], [Zp; TERMS]) -> Option<[Zp; TERMS]>) -> Series {
        Series(self.0.and_then(|a| o.0.and_then(|b| f(a, b))))
    }
    fn one(&self, f: impl FnOnce([Zp; TERMS]) -> Option<[Zp; TERMS]>) -> Series { Series(self.0.and_then(f)) }
    fn add_(&self, o: &Series) -> Series { self.both(o, |a, b| Some(std::array::from_fn(|i| a[i] + b[i]))) }
    fn neg_(&self) -> Series { self.one(|a| Some(a.map(|x| -x))) }
    fn sub_(&self, o: &Series) -> Series { self.add_(&o.neg_()) }
    fn mul_(&self, o: &Series) -> Series {
        self.both(o, |x, y| {
            let mut a = [Zp(0); TERMS];
            for i in 0..TERMS {
                for j in 0..TERMS - i {
                    a[i + j] += x[i] * y[j];
                }
            }
            Some(a)
        })
    }
    fn div_(&self, o: &Series) -> Series {
        self.both(o, |x, y| {
            if y[0] == Zp(0) {
                return None;
            }
            let inv = y[0].inv();
            let mut q = [Zp(0); TERMS];
            for i in 0..TERMS {
                let mut r = x[i];
                for j in 0..i {
                    r -= q[j] * y[i - j];
                }
                q[i] = r * inv;
            }
            Some(q)
        })
    }
    fn derivative(&self) -> Series {
        self.one(|a| Some(std::array::from_fn(|i| if i + 1 < TERMS { a[i + 1] * Zp(i as u32 + 1) } else { Zp(0) })))
    }
    fn integral(&self) -> Series {
        self.one(|a| Some(std::array::from_fn(|i| if i > 0 { a[i - 1] * Zp(i as u32).inv() } else { Zp(0) })))
    }
    fn starts(&self, c: u32) -> Series { self.one(|a| if a[0] == Zp(c) { Some(a) } else { None }) }
    /// sum of c(k) x^k / k!
    fn sum(&self, c: impl Fn(usize) -> i64) -> Series {
        let x = self.starts(0);
        let mut power = Series::constant(Zp(1));
        let mut s = x.sub_(&x);
        for k in 0..TERMS {
            s = s.add_(&power.mul_(&Series::constant(Zp::new(c(k)))));
            power = power.mul_(&x).div_(&Series::constant(Zp(k as u32 + 1)));
        }
        s
    }
    fn exp_(&self) -> Series { self.sum(|_| 1) }
    fn sin_(&self) -> Series { self.sum(|k| [0, 1, 0, -1][k % 4]) }
    fn cos_(&self) -> Series { self.sum(|k| [1, 0, -1, 0][k % 4]) }
    fn sinh_(&self) -> Series { self.sum(|k| k as i64 % 2) }
    fn cosh_(&self) -> Series { self.sum(|k| 1 - k as i64 % 2) }
    fn tan_(&self) -> Series { self.sin_().div_(&self.cos_()) }
    fn ln_(&self) -> Series {
        let x = self.starts(1);
        x.derivative().div_(&x).integral()
    }
    fn sqrt_(&self) -> Series {
        self.one(|a| {
            let root = (1..200u32).find(|c| Zp(c * c) == a[0])?;
            let half = Zp(2 * root).inv();
            let mut r = [Zp(0); TERMS];
            r[0] = Zp(root);
            for i in 1..TERMS {
                let mut x = a[i];
                for j in 1..i {
                    x -= r[j] * r[i - j];
                }
                r[i] = x * half;
            }
            Some(r)
        })
    }
    /// For y without constant term and x that starts with a positive number.
    fn atan2_(&self, x: &Series) -> Series {
        let x = x.one(|a| if a[0] == Zp(0) || a[0].0 as u64 > P / 2 { None } else { Some(a) });
        let q = self.starts(0).div_(&x);
        q.derivative().div_(&Series::constant(Zp(1)).add_(&q.mul_(&q))).integral()
    }
    fn asin_(&self) -> Series {
        let x = self.starts(0);
        let r = Series::constant(Zp(1)).sub_(&x.mul_(&x)).sqrt_();
        x.derivative().div_(&r).integral()
    }
    fn abs_(&self) -> Series { if *self < Series::constant(Zp(0)) { self.neg_() } else { *self } }
}
impl PartialOrd for Series {
    /// By the first different coefficient, between -P/2 and P/2.
    fn partial_cmp(&self, o: &Series) -> Option<Ordering> {
        let d = self.sub_(o).0?;
        match d.iter().find(|x| x.0 != 0) {
            None => Some(Ordering::Equal),
            Some(x) if x.0 as u64 > P / 2 => Some(Ordering::Less),
            Some(_) => Some(Ordering::Greater),
        }
    }
}
impl From<i8> for Series {
    fn from(x: i8) -> Series { Series::constant(Zp::from(x)) }
}
scalar!(Series);

// ---- complex numbers as scalars ---------------------------------------------

/// A complex number of the user, ordered by its parts one after the other.
#[derive(Clone, Copy, PartialEq, PartialOrd, Debug, Default)]
pub struct Plane(pub f64, pub f64);
impl Plane {
    fn add_(&self, o: &Plane) -> Plane { Plane(self.0 + o.0, self.1 + o.1) }
    fn neg_(&self) -> Plane { Plane(-self.0, -self.1) }
    fn sub_(&self, o: &Plane) -> Plane { Plane(self.0 - o.0, self.1 - o.1) }
    fn mul_(&self, o: &Plane) -> Plane { Plane(self.0 * o.0 - self.1 * o.1, self.0 * o.1 + self.1 * o.0) }
    fn div_(&self, o: &Plane) -> Plane {
        let n = o.0 * o.0 + o.1 * o.1;
        Plane((self.0 * o.0 + self.1 * o.1) / n, (self.1 * o.0 - self.0 * o.1) / n)
    }
    pub fn exp_(&self) -> Plane { Plane(self.0.exp() * self.1.cos(), self.0.exp() * self.1.sin()) }
    pub fn sin_(&self) -> Plane { Plane(self.0.sin() * self.1.cosh(), self.0.cos() * self.1.sinh()) }
    pub fn cos_(&self) -> Plane { Plane(self.0.cos() * self.1.cosh(), -self.0.sin() * self.1.sinh()) }
    pub fn sinh_(&self) -> Plane { Plane(self.0.sinh() * self.1.cos(), self.0.cosh() * self.1.sin()) }
    pub fn cosh_(&self) -> Plane { Plane(self.0.cosh() * self.1.cos(), self.0.sinh() * self.1.sin()) }
    pub fn tan_(&self) -> Plane { self.sin_().div_(&self.cos_()) }
    fn ln_(&self) -> Plane { Plane(self.0.hypot(self.1).ln(), self.1.atan2(self.0)) }
    fn sqrt_(&self) -> Plane {
        let (r, a) = (self.0.hypot(self.1).sqrt(), self.1.atan2(self.0) / 2.0);
        Plane(r * a.cos(), r * a.sin())
    }
    fn atan2_(&self, x: &Plane) -> Plane {
        // -i ln((x + i y) / sqrt(x^2 + y^2))
        let (u, v) = (Plane(x.0 - self.1, x.1 + self.0), self.mul_(self).add_(&x.mul_(x)).sqrt_());
        let l = u.div_(&v).ln_();
        Plane(l.1, -l.0)
    }
    fn asin_(&self) -> Plane { self.atan2_(&Plane(1.0, 0.0).sub_(&self.mul_(self)).sqrt_()) }
    fn abs_(&self) -> Plane { if *self < Plane(0.0, 0.0) { self.neg_() } else { *self } }
}
impl From<i8> for Plane {
    fn from(x: i8) -> Plane { Plane(x as f64, 0.0) }
}
impl From<f32> for Plane {
    fn from(x: f32) -> Plane { Plane(x as f64, 0.0) }
}
impl From<f64> for Plane {
    fn from(x: f64) -> Plane { Plane(x, 0.0) }
}
scalar!(Plane);
