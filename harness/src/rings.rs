//! Element types with exact arithmetic, used to instantiate the library.

use magnesia::algebra::{Complex, Conj, Field, Ring};
use std::fmt::Debug;
use std::ops::*;
use std::rc::Rc;

/// Splits a generated number into four small signed lanes.
pub fn lanes(raw: i64) -> [i16; 4] {
    [raw as i16, (raw >> 16) as i16, (raw >> 32) as i16, (raw >> 48) as i16]
}
/// Inverse of [`lanes`].
pub fn pack(l: [i16; 4]) -> i64 {
    (l[0] as u16 as u64
        | (l[1] as u16 as u64) << 16
        | (l[2] as u16 as u64) << 32
        | (l[3] as u16 as u64) << 48) as i64
}

/// An element type that can be made from a generated number.
pub trait El: Clone + PartialEq + Debug + 'static {
    const NAME: &'static str;
    fn dec(raw: i64) -> Self;
}
pub fn dec_all<T: El>(raw: &[i64]) -> Vec<T> {
    raw.iter().map(|x| T::dec(*x)).collect()
}

/// What the models need from a ring: plain by-value arithmetic that is
/// independent of the library (`Complex` is the exception where noted).
pub trait ModelRing: El {
    fn m_zero() -> Self;
    fn m_one() -> Self;
    fn m_add(&self, o: &Self) -> Self;
    fn m_sub(&self, o: &Self) -> Self;
    fn m_mul(&self, o: &Self) -> Self;
    fn m_neg(&self) -> Self;
    fn m_conj(&self) -> Self;
}

macro_rules! ops {
    ($t:ident, $($tr:ident $f:ident $tra:ident $fa:ident $m:ident),*) => {$(
        impl $tr<$t> for $t { type Output = $t; fn $f(self, o: $t) -> $t { self.$m(&o) } }
        impl<'a> $tr<&'a $t> for $t { type Output = $t; fn $f(self, o: &'a $t) -> $t { (&self).$m(o) } }
        impl<'a> $tr<$t> for &'a $t { type Output = $t; fn $f(self, o: $t) -> $t { self.$m(&o) } }
        impl<'a, 'b> $tr<&'b $t> for &'a $t { type Output = $t; fn $f(self, o: &'b $t) -> $t { self.$m(o) } }
        impl $tra<$t> for $t { fn $fa(&mut self, o: $t) { *self = (&*self).$m(&o); } }
        impl<'a> $tra<&'a $t> for $t { fn $fa(&mut self, o: &'a $t) { *self = (&*self).$m(o); } }
    )*};
}

/// The prime 2^31-1; it is 3 modulo 4, so -1 is not a square and the complex
/// numbers over the field are a field.
pub const P: u64 = 2147483647;

/// The field of integers modulo `P`.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord, Default)]
pub struct Zp(pub u32);
impl Zp {
    pub fn new(x: i64) -> Zp {
        Zp(x.rem_euclid(P as i64) as u32)
    }
    fn add_(&self, o: &Zp) -> Zp {
        Zp(((self.0 as u64 + o.0 as u64) % P) as u32)
    }
    fn sub_(&self, o: &Zp) -> Zp {
        Zp(((self.0 as u64 + P - o.0 as u64) % P) as u32)
    }
    fn mul_(&self, o: &Zp) -> Zp {
        Zp((self.0 as u64 * o.0 as u64 % P) as u32)
    }
    pub fn inv(&self) -> Zp {
        assert!(self.0 != 0, "inverse of zero");
        let (mut r, mut b, mut e) = (Zp(1), *self, P - 2);
        while e > 0 {
            if e & 1 == 1 {
                r = r.mul_(&b);
            }
            b = b.mul_(&b);
            e >>= 1;
        }
        r
    }
    fn div_(&self, o: &Zp) -> Zp {
        self.mul_(&o.inv())
    }
}
ops!(Zp, Add add AddAssign add_assign add_, Sub sub SubAssign sub_assign sub_,
     Mul mul MulAssign mul_assign mul_, Div div DivAssign div_assign div_);
impl Neg for Zp {
    type Output = Zp;
    fn neg(self) -> Zp {
        Zp(0).sub_(&self)
    }
}
impl From<i8> for Zp {
    fn from(x: i8) -> Zp {
        Zp::new(x as i64)
    }
}
impl Conj for Zp {
    fn conj(self) -> Zp {
        self
    }
}
impl Ring for Zp {}
impl Field for Zp {}
impl El for Zp {
    const NAME: &'static str = "Zp";
    fn dec(raw: i64) -> Zp {
        // small lanes stay small, so 0, 1 and -1 are frequent
        let l = lanes(raw);
        Zp::new(l[0] as i64 + l[1] as i64 * 65536 + l[2] as i64 * 1_000_003 + l[3] as i64 * 77_777)
    }
}
impl ModelRing for Zp {
    fn m_zero() -> Self { Zp(0) }
    fn m_one() -> Self { Zp(1) }
    fn m_add(&self, o: &Self) -> Self { self.add_(o) }
    fn m_sub(&self, o: &Self) -> Self { self.sub_(o) }
    fn m_mul(&self, o: &Self) -> Self { self.mul_(o) }
    fn m_neg(&self) -> Self { Zp(0).sub_(self) }
    fn m_conj(&self) -> Self { *self }
}

/// Quaternions over `Zp`: a non-commutative ring with conjugation (an
/// anti-automorphism). Not `Copy`, on purpose.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Quat(pub [Zp; 4]);
impl Quat {
    fn add_(&self, o: &Quat) -> Quat {
        Quat([0, 1, 2, 3].map(|i| self.0[i] + o.0[i]))
    }
    fn sub_(&self, o: &Quat) -> Quat {
        Quat([0, 1, 2, 3].map(|i| self.0[i] - o.0[i]))
    }
    fn mul_(&self, o: &Quat) -> Quat {
        let [a, b, c, d] = self.0;
        let [e, f, g, h] = o.0;
        Quat([
            a * e - b * f - c * g - d * h,
            a * f + b * e + c * h - d * g,
            a * g - b * h + c * e + d * f,
            a * h + b * g - c * f + d * e,
        ])
    }
}
ops!(Quat, Add add AddAssign add_assign add_, Sub sub SubAssign sub_assign sub_, Mul mul MulAssign mul_assign mul_);
impl Neg for Quat {
    type Output = Quat;
    fn neg(self) -> Quat {
        Quat(self.0.map(|x| -x))
    }
}
impl From<i8> for Quat {
    fn from(x: i8) -> Quat {
        Quat([Zp::from(x), Zp(0), Zp(0), Zp(0)])
    }
}
impl Conj for Quat {
    fn conj(self) -> Quat {
        let [a, b, c, d] = self.0;
        Quat([a, -b, -c, -d])
    }
}
impl Ring for Quat {}
impl El for Quat {
    const NAME: &'static str = "Quat";
    fn dec(raw: i64) -> Quat {
        Quat(lanes(raw).map(|x| Zp::new(x as i64)))
    }
}
impl ModelRing for Quat {
    fn m_zero() -> Self { Quat::from(0) }
    fn m_one() -> Self { Quat::from(1) }
    fn m_add(&self, o: &Self) -> Self { self.add_(o) }
    fn m_sub(&self, o: &Self) -> Self { self.sub_(o) }
    fn m_mul(&self, o: &Self) -> Self { self.mul_(o) }
    fn m_neg(&self) -> Self { self.clone().neg() }
    fn m_conj(&self) -> Self { self.clone().conj() }
}

/// 2x2 matrices over `Zp`: non-commutative with zero divisors.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct M2(pub [Zp; 4]);
impl M2 {
    fn add_(&self, o: &M2) -> M2 {
        M2([0, 1, 2, 3].map(|i| self.0[i] + o.0[i]))
    }
    fn sub_(&self, o: &M2) -> M2 {
        M2([0, 1, 2, 3].map(|i| self.0[i] - o.0[i]))
    }
    fn mul_(&self, o: &M2) -> M2 {
        let [a, b, c, d] = self.0;
        let [e, f, g, h] = o.0;
        M2([a * e + b * g, a * f + b * h, c * e + d * g, c * f + d * h])
    }
}
ops!(M2, Add add AddAssign add_assign add_, Sub sub SubAssign sub_assign sub_, Mul mul MulAssign mul_assign mul_);
impl Neg for M2 {
    type Output = M2;
    fn neg(self) -> M2 {
        M2(self.0.map(|x| -x))
    }
}
impl From<i8> for M2 {
    fn from(x: i8) -> M2 {
        M2([Zp::from(x), Zp(0), Zp(0), Zp::from(x)])
    }
}
impl Conj for M2 {
    fn conj(self) -> M2 {
        let [a, b, c, d] = self.0;
        M2([a, c, b, d])
    }
}
impl Ring for M2 {}
impl El for M2 {
    const NAME: &'static str = "M2";
    fn dec(raw: i64) -> M2 {
        M2(lanes(raw).map(|x| Zp::new(x as i64)))
    }
}
impl ModelRing for M2 {
    fn m_zero() -> Self { M2::from(0) }
    fn m_one() -> Self { M2::from(1) }
    fn m_add(&self, o: &Self) -> Self { self.add_(o) }
    fn m_sub(&self, o: &Self) -> Self { self.sub_(o) }
    fn m_mul(&self, o: &Self) -> Self { self.mul_(o) }
    fn m_neg(&self) -> Self { self.clone().neg() }
    fn m_conj(&self) -> Self { self.clone().conj() }
}

/// 2x2 matrices over the field of two elements: non-commutative, where each
/// value is its own negative and sixteen values make coincidences frequent.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct B2(pub [Z2; 4]);
impl B2 {
    fn add_(&self, o: &B2) -> B2 {
        B2([0, 1, 2, 3].map(|i| self.0[i] + o.0[i]))
    }
    fn sub_(&self, o: &B2) -> B2 {
        B2([0, 1, 2, 3].map(|i| self.0[i] - o.0[i]))
    }
    fn mul_(&self, o: &B2) -> B2 {
        let [a, b, c, d] = self.0;
        let [e, f, g, h] = o.0;
        B2([a * e + b * g, a * f + b * h, c * e + d * g, c * f + d * h])
    }
}
ops!(B2, Add add AddAssign add_assign add_, Sub sub SubAssign sub_assign sub_, Mul mul MulAssign mul_assign mul_);
impl Neg for B2 {
    type Output = B2;
    fn neg(self) -> B2 {
        B2(self.0.map(|x| -x))
    }
}
impl From<i8> for B2 {
    fn from(x: i8) -> B2 {
        B2([Z2::from(x), Zm(0), Zm(0), Z2::from(x)])
    }
}
impl Conj for B2 {
    fn conj(self) -> B2 {
        let [a, b, c, d] = self.0;
        B2([a, c, b, d])
    }
}
impl Ring for B2 {}
impl El for B2 {
    const NAME: &'static str = "B2";
    fn dec(raw: i64) -> B2 {
        B2(lanes(raw).map(|x| Zm((x as u16 & 1) as u32)))
    }
}
impl ModelRing for B2 {
    fn m_zero() -> Self { B2::from(0) }
    fn m_one() -> Self { B2::from(1) }
    fn m_add(&self, o: &Self) -> Self { self.add_(o) }
    fn m_sub(&self, o: &Self) -> Self { self.sub_(o) }
    fn m_mul(&self, o: &Self) -> Self { self.mul_(o) }
    fn m_neg(&self) -> Self { self.clone().neg() }
    fn m_conj(&self) -> Self { self.clone().conj() }
}

pub type Z2 = Zm<2>;
pub type Z4 = Zm<4>;
pub type Z6 = Zm<6>;
/// Integers modulo a small number `M`: finite characteristic, and zero
/// divisors when `M` is composite.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Zm<const M: u32>(pub u32);
impl<const M: u32> Zm<M> {
    fn add_(&self, o: &Self) -> Self { Zm((self.0 + o.0) % M) }
    fn sub_(&self, o: &Self) -> Self { Zm((self.0 + M - o.0) % M) }
    fn mul_(&self, o: &Self) -> Self { Zm(self.0 * o.0 % M) }
}
macro_rules! ops_m {
    ($($tr:ident $f:ident $tra:ident $fa:ident $m:ident),*) => {$(
        impl<const M: u32> $tr<Zm<M>> for Zm<M> { type Output = Zm<M>; fn $f(self, o: Zm<M>) -> Zm<M> { self.$m(&o) } }
        impl<'a, const M: u32> $tr<&'a Zm<M>> for Zm<M> { type Output = Zm<M>; fn $f(self, o: &'a Zm<M>) -> Zm<M> { self.$m(o) } }
        impl<'a, const M: u32> $tr<Zm<M>> for &'a Zm<M> { type Output = Zm<M>; fn $f(self, o: Zm<M>) -> Zm<M> { self.$m(&o) } }
        impl<'a, 'b, const M: u32> $tr<&'b Zm<M>> for &'a Zm<M> { type Output = Zm<M>; fn $f(self, o: &'b Zm<M>) -> Zm<M> { self.$m(o) } }
        impl<const M: u32> $tra<Zm<M>> for Zm<M> { fn $fa(&mut self, o: Zm<M>) { *self = self.$m(&o); } }
        impl<'a, const M: u32> $tra<&'a Zm<M>> for Zm<M> { fn $fa(&mut self, o: &'a Zm<M>) { *self = self.$m(o); } }
    )*};
}
ops_m!(Add add AddAssign add_assign add_, Sub sub SubAssign sub_assign sub_, Mul mul MulAssign mul_assign mul_);
impl<const M: u32> Neg for Zm<M> {
    type Output = Zm<M>;
    fn neg(self) -> Zm<M> { Zm(0).sub_(&self) }
}
impl<const M: u32> From<i8> for Zm<M> {
    fn from(x: i8) -> Zm<M> { Zm((x as i64).rem_euclid(M as i64) as u32) }
}
impl<const M: u32> Conj for Zm<M> {
    fn conj(self) -> Zm<M> { self }
}
impl<const M: u32> Ring for Zm<M> {}
impl<const M: u32> El for Zm<M> {
    const NAME: &'static str = match M { 2 => "Z2", 3 => "Z3", 4 => "Z4", 6 => "Z6", _ => "Zm" };
    fn dec(raw: i64) -> Zm<M> { Zm((lanes(raw)[0] as i64).rem_euclid(M as i64) as u32) }
}
impl<const M: u32> ModelRing for Zm<M> {
    fn m_zero() -> Self { Zm(0) }
    fn m_one() -> Self { Zm(1 % M) }
    fn m_add(&self, o: &Self) -> Self { self.add_(o) }
    fn m_sub(&self, o: &Self) -> Self { self.sub_(o) }
    fn m_mul(&self, o: &Self) -> Self { self.mul_(o) }
    fn m_neg(&self) -> Self { Zm(0).sub_(self) }
    fn m_conj(&self) -> Self { *self }
}

/// The ring with a single element, a type without size.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Nil;
impl Nil {
    fn op_(&self, _: &Nil) -> Nil { Nil }
}
ops!(Nil, Add add AddAssign add_assign op_, Sub sub SubAssign sub_assign op_, Mul mul MulAssign mul_assign op_, Div div DivAssign div_assign op_);
impl Neg for Nil {
    type Output = Nil;
    fn neg(self) -> Nil { Nil }
}
impl From<i8> for Nil {
    fn from(_: i8) -> Nil { Nil }
}
impl Conj for Nil {
    fn conj(self) -> Nil { self }
}
impl Ring for Nil {}
impl Field for Nil {}
impl El for Nil {
    const NAME: &'static str = "Nil";
    fn dec(_: i64) -> Nil { Nil }
}
impl ModelRing for Nil {
    fn m_zero() -> Self { Nil }
    fn m_one() -> Self { Nil }
    fn m_add(&self, _: &Self) -> Self { Nil }
    fn m_sub(&self, _: &Self) -> Self { Nil }
    fn m_mul(&self, _: &Self) -> Self { Nil }
    fn m_neg(&self) -> Self { Nil }
    fn m_conj(&self) -> Self { Nil }
}

/// Quaternions that fill `K` times 64 bytes with strict alignment. Every
/// block repeats the value, so that a value which was only partly copied shows.
#[derive(Clone, PartialEq, Eq)]
#[repr(C, align(64))]
pub struct Wide<const K: usize>([Block; K]);
#[derive(Clone, PartialEq, Eq, Debug)]
#[repr(C, align(64))]
struct Block(Quat, u32);
impl<const K: usize> Wide<K> {
    pub fn of(q: Quat) -> Self {
        let mut k = 0;
        Wide([(); K].map(|_| {
            k += 1;
            Block(q.clone(), k)
        }))
    }
    fn q(&self) -> &Quat {
        assert!(std::ptr::from_ref(self) as usize % 64 == 0, "an entry is not aligned");
        for (k, b) in self.0.iter().enumerate() {
            assert!(b.0 == self.0[0].0 && b.1 as usize == k + 1, "an entry consists of parts of different values");
        }
        &self.0[0].0
    }
    fn add_(&self, o: &Self) -> Self { Self::of(self.q().m_add(o.q())) }
    fn sub_(&self, o: &Self) -> Self { Self::of(self.q().m_sub(o.q())) }
    fn mul_(&self, o: &Self) -> Self { Self::of(self.q().m_mul(o.q())) }
}
impl<const K: usize> Debug for Wide<K> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Wide {:?}", self.0[0].0)
    }
}
macro_rules! ops_w {
    ($($tr:ident $f:ident $tra:ident $fa:ident $m:ident),*) => {$(
        impl<const M: usize> $tr<Wide<M>> for Wide<M> { type Output = Wide<M>; fn $f(self, o: Wide<M>) -> Wide<M> { self.$m(&o) } }
        impl<'a, const M: usize> $tr<&'a Wide<M>> for Wide<M> { type Output = Wide<M>; fn $f(self, o: &'a Wide<M>) -> Wide<M> { self.$m(o) } }
        impl<'a, const M: usize> $tr<Wide<M>> for &'a Wide<M> { type Output = Wide<M>; fn $f(self, o: Wide<M>) -> Wide<M> { self.$m(&o) } }
        impl<'a, 'b, const M: usize> $tr<&'b Wide<M>> for &'a Wide<M> { type Output = Wide<M>; fn $f(self, o: &'b Wide<M>) -> Wide<M> { self.$m(o) } }
        impl<const M: usize> $tra<Wide<M>> for Wide<M> { fn $fa(&mut self, o: Wide<M>) { *self = self.$m(&o); } }
        impl<'a, const M: usize> $tra<&'a Wide<M>> for Wide<M> { fn $fa(&mut self, o: &'a Wide<M>) { *self = self.$m(o); } }
    )*};
}
ops_w!(Add add AddAssign add_assign add_, Sub sub SubAssign sub_assign sub_, Mul mul MulAssign mul_assign mul_);
impl<const K: usize> Neg for Wide<K> {
    type Output = Wide<K>;
    fn neg(self) -> Wide<K> { Wide::of(self.q().m_neg()) }
}
impl<const K: usize> From<i8> for Wide<K> {
    fn from(x: i8) -> Wide<K> { Wide::of(Quat::from(x)) }
}
impl<const K: usize> Conj for Wide<K> {
    fn conj(self) -> Wide<K> { Wide::of(self.q().m_conj()) }
}
impl<const K: usize> Ring for Wide<K> {}
impl<const K: usize> El for Wide<K> {
    const NAME: &'static str = match K { 1 => "Wide<1>", 20 => "Wide<20>", 70 => "Wide<70>", 1100 => "Wide<1100>", _ => "Wide" };
    fn dec(raw: i64) -> Wide<K> { Wide::of(Quat::dec(raw)) }
}
impl<const K: usize> ModelRing for Wide<K> {
    fn m_zero() -> Self { Wide::of(Quat::m_zero()) }
    fn m_one() -> Self { Wide::of(Quat::m_one()) }
    fn m_add(&self, o: &Self) -> Self { self.add_(o) }
    fn m_sub(&self, o: &Self) -> Self { self.sub_(o) }
    fn m_mul(&self, o: &Self) -> Self { self.mul_(o) }
    fn m_neg(&self) -> Self { Wide::of(self.q().m_neg()) }
    fn m_conj(&self) -> Self { Wide::of(self.q().m_conj()) }
}

macro_rules! el_num {
    ($($t:ident $name:literal),*) => {$(
        impl El for $t {
            const NAME: &'static str = $name;
            fn dec(raw: i64) -> $t { lanes(raw)[0] as $t }
        }
        impl ModelRing for $t {
            fn m_zero() -> Self { 0 as $t }
            fn m_one() -> Self { 1 as $t }
            fn m_add(&self, o: &Self) -> Self { *self + *o }
            fn m_sub(&self, o: &Self) -> Self { *self - *o }
            fn m_mul(&self, o: &Self) -> Self { *self * *o }
            fn m_neg(&self) -> Self { -*self }
            fn m_conj(&self) -> Self { *self }
        }
    )*};
}
el_num!(i64 "i64", i128 "i128", isize "isize", f64 "f64");

/// f32 values are kept small, so that sums of products stay exact.
impl El for f32 {
    const NAME: &'static str = "f32";
    fn dec(raw: i64) -> f32 {
        (lanes(raw)[0] % 64) as f32
    }
}
impl ModelRing for f32 {
    fn m_zero() -> Self { 0.0 }
    fn m_one() -> Self { 1.0 }
    fn m_add(&self, o: &Self) -> Self { *self + *o }
    fn m_sub(&self, o: &Self) -> Self { *self - *o }
    fn m_mul(&self, o: &Self) -> Self { *self * *o }
    fn m_neg(&self) -> Self { -*self }
    fn m_conj(&self) -> Self { *self }
}
impl El for i32 {
    const NAME: &'static str = "i32";
    fn dec(raw: i64) -> i32 {
        (lanes(raw)[0] % 1000) as i32
    }
}
impl ModelRing for i32 {
    fn m_zero() -> Self { 0 }
    fn m_one() -> Self { 1 }
    fn m_add(&self, o: &Self) -> Self { *self + *o }
    fn m_sub(&self, o: &Self) -> Self { *self - *o }
    fn m_mul(&self, o: &Self) -> Self { *self * *o }
    fn m_neg(&self) -> Self { -*self }
    fn m_conj(&self) -> Self { *self }
}

/// Complex numbers as entries: the model works on the public parts only.
macro_rules! el_complex {
    ($($t:ident $name:literal $dec:expr),*) => {$(
        impl El for Complex<$t> {
            const NAME: &'static str = $name;
            fn dec(raw: i64) -> Self { let f: fn(i64) -> Self = $dec; f(raw) }
        }
        impl ModelRing for Complex<$t> {
            fn m_zero() -> Self { Complex { re: $t::m_zero(), im: $t::m_zero() } }
            fn m_one() -> Self { Complex { re: $t::m_one(), im: $t::m_zero() } }
            fn m_add(&self, o: &Self) -> Self { Complex { re: self.re.m_add(&o.re), im: self.im.m_add(&o.im) } }
            fn m_sub(&self, o: &Self) -> Self { Complex { re: self.re.m_sub(&o.re), im: self.im.m_sub(&o.im) } }
            fn m_mul(&self, o: &Self) -> Self {
                Complex {
                    re: self.re.m_mul(&o.re).m_sub(&self.im.m_mul(&o.im)),
                    im: self.re.m_mul(&o.im).m_add(&self.im.m_mul(&o.re)),
                }
            }
            fn m_neg(&self) -> Self { Complex { re: self.re.m_neg(), im: self.im.m_neg() } }
            fn m_conj(&self) -> Self { Complex { re: self.re.clone(), im: self.im.m_neg() } }
        }
    )*};
}
el_complex!(
    Zp "Complex<Zp>" |raw| { let l = lanes(raw); Complex {
        re: Zp::new(l[0] as i64 + l[2] as i64 * 65536), im: Zp::new(l[1] as i64 + l[3] as i64 * 65536) } },
    i64 "Complex<i64>" |raw| { let l = lanes(raw); Complex { re: l[0] as i64, im: l[1] as i64 } },
    f64 "Complex<f64>" |raw| { let l = lanes(raw); Complex { re: l[0] as f64, im: l[1] as f64 } },
    Z2 "Complex<Z2>" |raw| { let l = lanes(raw); Complex { re: Z2::dec(l[0] as i64), im: Z2::dec(l[1] as i64) } },
    Z4 "Complex<Z4>" |raw| { let l = lanes(raw); Complex { re: Z4::dec(l[0] as i64), im: Z4::dec(l[1] as i64) } },
    Z6 "Complex<Z6>" |raw| { let l = lanes(raw); Complex { re: Z6::dec(l[0] as i64), im: Z6::dec(l[1] as i64) } },
    Quat "Complex<Quat>" |raw| { let l = lanes(raw).map(|x| x as i64); Complex {
        re: Quat([l[0], l[1], l[2], l[3]].map(Zp::new)),
        im: Quat([l[3], l[0] - l[2], l[1], l[0] + l[1]].map(Zp::new)) } }
);

/// Two sorts of elements and symbolic terms over them: the value of an
/// operator is the record of its application, so a term tells exactly which
/// operations were applied to which elements in which order.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Term(pub Rc<Node>);
#[derive(PartialEq, Eq, Debug, Hash)]
pub enum Node {
    Leaf(char, i64),
    Un(&'static str, Term),
    Bin(char, Term, Term),
}
impl Term {
    pub fn leaf(sort: char, x: i64) -> Term {
        Term(Rc::new(Node::Leaf(sort, x)))
    }
    pub fn un(op: &'static str, a: &Term) -> Term {
        Term(Rc::new(Node::Un(op, a.clone())))
    }
    pub fn bin(op: char, a: &Term, b: &Term) -> Term {
        Term(Rc::new(Node::Bin(op, a.clone(), b.clone())))
    }
}
/// A second symbolic sort; operators between `Term` and `Term2` give `Term`.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Term2(pub i64);
impl Term2 {
    pub fn term(&self) -> Term {
        Term::leaf('y', self.0)
    }
}
macro_rules! term_ops {
    ($($tr:ident $f:ident $c:literal),*) => {$(
        impl $tr<Term> for Term { type Output = Term; fn $f(self, o: Term) -> Term { Term::bin($c, &self, &o) } }
        impl $tr<Term2> for Term { type Output = Term; fn $f(self, o: Term2) -> Term { Term::bin($c, &self, &o.term()) } }
        impl $tr<Term> for Term2 { type Output = Term; fn $f(self, o: Term) -> Term { Term::bin($c, &self.term(), &o) } }
    )*};
}
term_ops!(Add add '+', Sub sub '-', Mul mul '*', Div div '/');
impl AddAssign<Term> for Term {
    fn add_assign(&mut self, o: Term) {
        *self = Term::bin('+', self, &o);
    }
}
impl SubAssign<Term> for Term {
    fn sub_assign(&mut self, o: Term) {
        *self = Term::bin('-', self, &o);
    }
}
impl AddAssign<Term2> for Term {
    fn add_assign(&mut self, o: Term2) {
        *self = Term::bin('+', self, &o.term());
    }
}
impl SubAssign<Term2> for Term {
    fn sub_assign(&mut self, o: Term2) {
        *self = Term::bin('-', self, &o.term());
    }
}
impl Conj for Term {
    fn conj(self) -> Term {
        Term::un("conj", &self)
    }
}
impl Neg for Term {
    type Output = Term;
    fn neg(self) -> Term {
        Term::un("-", &self)
    }
}
impl El for Term {
    const NAME: &'static str = "Term";
    fn dec(raw: i64) -> Term {
        Term::leaf('x', raw)
    }
}
impl From<i8> for Term {
    fn from(x: i8) -> Term {
        Term::leaf('c', x as i64)
    }
}

/// Plain row-major matrix used as the model.
#[derive(Clone, PartialEq, Debug)]
pub struct Mat<T> {
    pub r: usize,
    pub c: usize,
    pub d: Vec<T>,
}
impl<T: Clone> Mat<T> {
    pub fn from_fn(r: usize, c: usize, mut f: impl FnMut(usize, usize) -> T) -> Mat<T> {
        let mut d = Vec::with_capacity(r * c);
        for i in 0..r {
            for j in 0..c {
                d.push(f(i, j));
            }
        }
        Mat { r, c, d }
    }
    pub fn at(&self, i: usize, j: usize) -> &T {
        assert!(i < self.r && j < self.c);
        &self.d[i * self.c + j]
    }
    pub fn at_mut(&mut self, i: usize, j: usize) -> &mut T {
        assert!(i < self.r && j < self.c);
        &mut self.d[i * self.c + j]
    }
    pub fn t(&self) -> Mat<T> {
        Mat::from_fn(self.c, self.r, |i, j| self.at(j, i).clone())
    }
    pub fn map<U: Clone>(&self, mut f: impl FnMut(&T) -> U) -> Mat<U> {
        Mat { r: self.r, c: self.c, d: self.d.iter().map(|x| f(x)).collect() }
    }
    pub fn zip<U: Clone, V: Clone>(&self, o: &Mat<U>, mut f: impl FnMut(&T, &U) -> V) -> Mat<V> {
        assert!(self.r == o.r && self.c == o.c);
        Mat { r: self.r, c: self.c, d: self.d.iter().zip(&o.d).map(|(a, b)| f(a, b)).collect() }
    }
}
impl<T: ModelRing> Mat<T> {
    pub fn mul(&self, o: &Mat<T>) -> Mat<T> {
        assert!(self.c == o.r);
        Mat::from_fn(self.r, o.c, |i, j| {
            let mut s = T::m_zero();
            for k in 0..self.c {
                s = s.m_add(&self.at(i, k).m_mul(o.at(k, j)));
            }
            s
        })
    }
    pub fn eye(n: usize) -> Mat<T> {
        Mat::from_fn(n, n, |i, j| if i == j { T::m_one() } else { T::m_zero() })
    }
}
