//! C12: every ring type satisfies the ring laws, including nested types.
use pbt::prelude::*;
use std::fmt::Debug;

/// Values made from a stream of generated words.
struct Src<'a>(&'a [i64], usize);
impl Src<'_> {
    fn next(&mut self) -> i64 {
        let n = self.0.len();
        let i = self.1;
        self.1 += 1;
        // every further round through the words changes them
        self.0[i % n].wrapping_mul(1 + 2 * (i / n) as i64)
    }
}
trait Build: Ring + Debug {
    /// Whether the ring has a single element.
    const TRIVIAL: bool = false;
    fn build(s: &mut Src) -> Self;
}
macro_rules! build_el {
    ($($t:ty),*) => {$( impl Build for $t { fn build(s: &mut Src) -> Self { <$t>::dec(s.next()) } } )*};
}
build_el!(Zp, Quat, M2, B2, Z2, Z4, Z6, Wide<1>, Wide<20>, Wide<70>, Wide<1100>);
impl Build for Nil {
    const TRIVIAL: bool = true;
    fn build(_: &mut Src) -> Self { Nil }
}
/// Machine numbers stay small enough that no law can overflow.
macro_rules! build_num {
    ($($t:ident $m:literal),*) => {$( impl Build for $t { fn build(s: &mut Src) -> Self { (lanes(s.next())[0] % $m) as $t } } )*};
}
build_num!(i8 4, i16 16, i32 200, i64 20000, i128 30000, isize 20000, f32 60, f64 2000);
impl<T: Build> Build for Complex<T> {
    const TRIVIAL: bool = T::TRIVIAL;
    fn build(s: &mut Src) -> Self {
        let re = T::build(s);
        Complex::new(re, T::build(s))
    }
}
impl<T: Build> Build for Polynomial<T> {
    const TRIVIAL: bool = T::TRIVIAL;
    fn build(s: &mut Src) -> Self {
        let n = s.next().rem_euclid(5) as usize;
        Polynomial::from_coefficients((0..n).map(|_| T::build(s)).collect())
    }
}
impl<T: Build, const N: usize> Build for SMatrix<T, N, N> {
    const TRIVIAL: bool = N == 0 || T::TRIVIAL;
    fn build(s: &mut Src) -> Self {
        SMatrix::from([(); N].map(|_| [(); N].map(|_| T::build(s))))
    }
}

fn add<T: Ring>(a: &T, b: &T) -> T {
    let mut r = a.clone();
    r += b;
    r
}
fn sub<T: Ring>(a: &T, b: &T) -> T {
    let mut r = a.clone();
    r -= b;
    r
}
fn mul<T: Ring>(a: &T, b: &T) -> T {
    a.mul_refs(b)
}

fn laws<T: Build>(c: &Vec<i64>, ctx: &mut Ctx) -> Res {
    let mut s = Src(c, 0);
    let (a, b, c) = (T::build(&mut s), T::build(&mut s), T::build(&mut s));
    laws_of(a, b, c, ctx)
}

/// Long polynomials: the lengths and the coefficients of the three are generated.
fn laws_long<T: Build>(c: &((usize, Seed), (usize, Seed), (usize, Seed)), ctx: &mut Ctx) -> Res {
    let p = |(n, s): (usize, Seed)| {
        let words = expand(s.0, s.1, n.max(1));
        let mut src = Src(&words, 0);
        Polynomial::from_coefficients((0..n).map(|_| T::build(&mut src)).collect())
    };
    laws_of::<Polynomial<T>>(p(c.0), p(c.1), p(c.2), ctx)
}

fn laws_of<T: Build>(a: T, b: T, c: T, ctx: &mut Ctx) -> Res {
    let (zero, one) = (T::zero(), T::one());
    ctx.nontrivial(a != zero && b != zero && c != zero && a != b);
    ctx.class("some element is zero", a == zero || b == zero || c == zero);
    ctx.class("commuting elements", mul(&a, &b) == mul(&b, &a));
    let kept = (a.clone(), b.clone(), c.clone());
    let law = |name: &str, x: T, y: T| -> Res {
        if x != y {
            // long elements are printed in part
            let show = |v: &T| { let s = format!("{v:?}"); if s.len() > 2000 { format!("{}…", s.chars().take(2000).collect::<String>()) } else { s } };
            return Err(format!("{}: {name} fails for {}, {}, {}: {} and {}", std::any::type_name::<T>(), show(&a), show(&b), show(&c), show(&x), show(&y)).into());
        }
        ensure!(y == x && !(x != y), "{}: {name}: equality is not symmetric", std::any::type_name::<T>());
        Ok(())
    };
    law("a + b = b + a", add(&a, &b), add(&b, &a))?;
    law("(a + b) + c = a + (b + c)", add(&add(&a, &b), &c), add(&a, &add(&b, &c)))?;
    law("a + 0 = a", add(&a, &zero), a.clone())?;
    law("0 + a = a", add(&zero, &a), a.clone())?;
    law("a + (-a) = 0", add(&a, &-a.clone()), zero.clone())?;
    law("a - a = 0", sub(&a, &a), zero.clone())?;
    law("a - b = a + (-b)", sub(&a, &b), add(&a, &-b.clone()))?;
    law("(a - b) + b = a", add(&sub(&a, &b), &b), a.clone())?;
    law("-(-a) = a", -(-a.clone()), a.clone())?;
    law("0 - a = -a", sub(&zero, &a), -a.clone())?;
    law("a - 0 = a", sub(&a, &zero), a.clone())?;
    law("(ab)c = a(bc)", mul(&mul(&a, &b), &c), mul(&a, &mul(&b, &c)))?;
    law("1a = a", mul(&one, &a), a.clone())?;
    law("a1 = a", mul(&a, &one), a.clone())?;
    law("0a = 0", mul(&zero, &a), zero.clone())?;
    law("a0 = 0", mul(&a, &zero), zero.clone())?;
    law("a(b + c) = ab + ac", mul(&a, &add(&b, &c)), add(&mul(&a, &b), &mul(&a, &c)))?;
    law("(a + b)c = ac + bc", mul(&add(&a, &b), &c), add(&mul(&a, &c), &mul(&b, &c)))?;
    law("a(b - c) = ab - ac", mul(&a, &sub(&b, &c)), sub(&mul(&a, &b), &mul(&a, &c)))?;
    law("(a - b)c = ac - bc", mul(&sub(&a, &b), &c), sub(&mul(&a, &c), &mul(&b, &c)))?;
    law("(-a)b = -(ab)", mul(&-a.clone(), &b), -mul(&a, &b))?;
    law("a(-b) = -(ab)", mul(&a, &-b.clone()), -mul(&a, &b))?;
    law("(-1)a = -a", mul(&-one.clone(), &a), -a.clone())?;
    law("(a - 1)(a + 1) = aa - 1", mul(&sub(&a, &one), &add(&a, &one)), sub(&mul(&a, &a), &one))?;
    law("a unchanged", a.clone(), kept.0.clone())?;
    law("b unchanged", b.clone(), kept.1.clone())?;
    law("c unchanged", c.clone(), kept.2.clone())?;
    // the laws would also hold if everything were equal
    if T::TRIVIAL {
        ensure!(one == zero && a == zero, "{}: the only element is not zero", std::any::type_name::<T>());
    } else {
        ensure!(one != zero, "one equals zero");
        ensure!(add(&a, &one) != a, "a + 1 equals a for {a:?}");
        ensure!((a == b) == (sub(&a, &b) == zero), "equality of {a:?} and {b:?} against their difference");
    }
    Ok(())
}

fn main() {
    let mut c = Check::start("C12");
    let words = |n: usize| vec(elem(), 1..=n);
    macro_rules! rings {
        ($cases:literal, $words:literal: $($t:ty),* $(,)?) => {$(
            c.sub(stringify!($t), $cases, words($words), laws::<$t>);
        )*};
    }
    rings!(4000, 3: i8, i16, i32, i64, i128, isize, f32, f64);
    rings!(4000, 6: Zp, Quat, M2, B2, Z2, Z4, Z6);
    rings!(300, 6: Nil, Complex<Nil>, Polynomial<Nil>, SMatrix<Nil, 2, 2>, SMatrix<Nil, 5, 5>, Polynomial<SMatrix<Zp, 0, 0>>, Complex<SMatrix<Zp, 0, 0>>, SMatrix<SMatrix<Zp, 0, 0>, 3, 3>, SMatrix<Polynomial<Nil>, 2, 2>);
    rings!(300, 9: Wide<1>, Complex<Wide<1>>, Polynomial<Wide<1>>, SMatrix<Wide<1>, 2, 2>, SMatrix<Wide<1>, 3, 3>, Polynomial<SMatrix<Wide<1>, 2, 2>>);
    rings!(100, 9: Wide<20>, Complex<Wide<20>>, Polynomial<Wide<20>>, SMatrix<Wide<20>, 2, 2>, SMatrix<Wide<20>, 4, 4>);
    rings!(50, 9: Wide<70>, Complex<Wide<70>>, Polynomial<Wide<70>>, SMatrix<Wide<70>, 2, 2>, SMatrix<Wide<70>, 3, 3>);
    rings!(10, 9: Wide<1100>, Polynomial<Wide<1100>>);
    rings!(3000, 12: Complex<Z2>, Complex<Z4>, Complex<Z6>, Polynomial<Z2>, Polynomial<Z4>, Polynomial<Z6>, SMatrix<Z2, 2, 2>, SMatrix<Z6, 3, 3>, Polynomial<Complex<Z2>>, Complex<Polynomial<Z4>>, Polynomial<SMatrix<Z2, 2, 2>>, Polynomial<B2>, Complex<B2>, SMatrix<B2, 2, 2>);
    rings!(4000, 9: Complex<Zp>, Complex<i64>, Complex<f64>, Complex<Quat>, Complex<Complex<Zp>>, Complex<i8>);
    rings!(4000, 20: Polynomial<Zp>, Polynomial<i64>, Polynomial<Quat>, Polynomial<M2>, Polynomial<f64>);
    rings!(3000, 30: Polynomial<Complex<Zp>>, Complex<Polynomial<Zp>>, Polynomial<Polynomial<Zp>>, Complex<Polynomial<Quat>>, Polynomial<Complex<i64>>);
    rings!(2000, 40: Polynomial<Polynomial<Complex<Zp>>>, Polynomial<SMatrix<Zp, 2, 2>>, Polynomial<SMatrix<Complex<Zp>, 2, 2>>, Polynomial<SMatrix<Quat, 3, 3>>, Complex<Polynomial<Complex<Zp>>>);
    rings!(2000, 40: SMatrix<Zp, 0, 0>, SMatrix<Zp, 1, 1>, SMatrix<Zp, 2, 2>, SMatrix<Zp, 3, 3>, SMatrix<Zp, 4, 4>, SMatrix<Zp, 5, 5>, SMatrix<Quat, 1, 1>, SMatrix<Quat, 2, 2>, SMatrix<Quat, 3, 3>, SMatrix<Quat, 4, 4>, SMatrix<i64, 2, 2>, SMatrix<i64, 3, 3>, SMatrix<i32, 2, 2>);
    rings!(1000, 40: SMatrix<Zp, 6, 6>, SMatrix<Quat, 7, 7>, SMatrix<Zp, 8, 8>, SMatrix<Zp, 9, 9>, SMatrix<Zp, 10, 10>, SMatrix<Zp, 12, 12>);
    rings!(200, 40: SMatrix<Zp, 16, 16>, SMatrix<Zp, 17, 17>, SMatrix<Quat, 20, 20>);
    rings!(20, 40: SMatrix<Zp, 32, 32>, SMatrix<Zp, 33, 33>);
    rings!(2000, 40: SMatrix<Complex<Zp>, 2, 2>, SMatrix<Complex<Zp>, 3, 3>, Complex<SMatrix<Zp, 2, 2>>, Complex<SMatrix<Quat, 2, 2>>, SMatrix<Polynomial<Zp>, 2, 2>, SMatrix<Polynomial<Zp>, 3, 3>, SMatrix<SMatrix<Zp, 2, 2>, 2, 2>, SMatrix<SMatrix<Quat, 2, 2>, 3, 3>, SMatrix<Complex<Polynomial<Zp>>, 2, 2>, SMatrix<Polynomial<Complex<Zp>>, 2, 2>, Complex<SMatrix<Complex<Zp>, 3, 3>>, Complex<SMatrix<Polynomial<Zp>, 2, 2>>);
    let l = |cap: usize| {
        let n = move || prop_oneof![3 => medium(), 1 => 0usize..8].prop_map(move |n| n.min(cap));
        ((n(), seed()), (n(), seed()), (n(), seed()))
    };
    c.sub("long polynomials, Zp", 200, l(512), laws_long::<Zp>);
    c.sub("long polynomials, Quat", 120, l(400), laws_long::<Quat>);
    c.sub("long polynomials, Z6", 100, l(400), laws_long::<Z6>);
    c.sub("long polynomials, Complex<Zp>", 80, l(300), laws_long::<Complex<Zp>>);
    c.sub("long polynomials, M2", 80, l(200), laws_long::<M2>);
    c.sub("long polynomials, SMatrix<Zp, 2, 2>", 60, l(100), laws_long::<SMatrix<Zp, 2, 2>>);
    c.sub("long polynomials, Polynomial<Zp>", 60, l(100), laws_long::<Polynomial<Zp>>);
    c.sweep(
        "very long polynomials, Zp",
        1,
        [(1000usize, 1100usize, 900usize), (2049, 5, 1025), (3, 4100, 60), (300, 2, 3000), (1500, 300, 4)].into_iter().map(|(a, b, c)| ((Just(a), seed()), (Just(b), seed()), (Just(c), seed()))),
        laws_long::<Zp>,
    );
    c.sweep(
        "very long polynomials, Quat",
        1,
        [(800usize, 900usize, 70usize), (3, 2100, 60)].into_iter().map(|(a, b, c)| ((Just(a), seed()), (Just(b), seed()), (Just(c), seed()))),
        laws_long::<Quat>,
    );
    rings!(8, 40: SMatrix<Zp, 48, 48>, SMatrix<Quat, 40, 40>);
    c.finish("triples of elements of every declared ring and of nestings of complex numbers, polynomials and square matrices up to depth three over exact rings; non-trivial: three non-zero elements, the first two different");
}
