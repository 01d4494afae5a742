//! C01: complex arithmetic is exact over every coefficient ring.
use pbt::prelude::*;
use std::ops::{Add, AddAssign, Sub, SubAssign};

fn cx<T: Clone>(m: &(T, T)) -> Complex<T> {
    Complex { re: m.0.clone(), im: m.1.clone() }
}
fn parts<T>(z: Complex<T>) -> (T, T) {
    (z.re, z.im)
}

type Case = (i64, i64, i64, i64, i64);

fn label(c: &Case, ctx: &mut Ctx) {
    let nz = [c.0, c.1, c.2, c.3].iter().filter(|x| **x != 0).count();
    ctx.nontrivial(nz >= 2);
    ctx.class("some part is zero", nz < 4);
    ctx.class("equal operands", c.0 == c.2 && c.1 == c.3);
    ctx.class("all parts non-zero", nz == 4);
}

fn ring<T>(case: &Case, ctx: &mut Ctx) -> Res
where
    T: ModelRing + Ring + Conj + Add<T, Output = T> + Sub<T, Output = T> + AddAssign<T> + SubAssign<T>,
{
    label(case, ctx);
    let (a, b) = (T::dec(case.0), T::dec(case.1));
    let (c, d) = (T::dec(case.2), T::dec(case.3));
    let s = T::dec(case.4);
    let (x, y) = ((a.clone(), b.clone()), (c.clone(), d.clone()));
    let n = T::NAME;

    let sum = (a.m_add(&c), b.m_add(&d));
    ensure_eq!(parts(cx(&x) + cx(&y)), sum, "{n} a + b");
    let mut z = cx(&x);
    z += cx(&y);
    ensure_eq!(parts(z), sum, "{n} a += b");
    let (mut z, w) = (cx(&x), cx(&y));
    z += &w;
    ensure_eq!(parts(z), sum, "{n} a += &b");
    ensure_eq!(parts(w), y, "{n} operand of += &b");

    let dif = (a.m_sub(&c), b.m_sub(&d));
    ensure_eq!(parts(cx(&x) - cx(&y)), dif, "{n} a - b");
    let mut z = cx(&x);
    z -= cx(&y);
    ensure_eq!(parts(z), dif, "{n} a -= b");
    let (mut z, w) = (cx(&x), cx(&y));
    z -= &w;
    ensure_eq!(parts(z), dif, "{n} a -= &b");
    ensure_eq!(parts(w), y, "{n} operand of -= &b");

    let prod = (a.m_mul(&c).m_sub(&b.m_mul(&d)), a.m_mul(&d).m_add(&b.m_mul(&c)));
    ensure_eq!(parts(cx(&x) * cx(&y)), prod, "{n} a * b");
    let (z, w) = (cx(&x), cx(&y));
    ensure_eq!(parts(&z * &w), prod, "{n} &a * &b");
    ensure_eq!(parts(z.mul_refs(&w)), prod, "{n} mul_refs");
    ensure_eq!((parts(z.clone()), parts(w)), (x.clone(), y.clone()), "{n} operands of &a * &b");
    let mut z = z;
    z *= cx(&y);
    ensure_eq!(parts(z), prod, "{n} a *= b");
    let sq = (a.m_mul(&a).m_sub(&b.m_mul(&b)), a.m_mul(&b).m_add(&b.m_mul(&a)));
    let z = cx(&x);
    ensure_eq!(parts(&z * &z), sq, "{n} &a * &a");

    ensure_eq!(parts(cx(&x) * s.clone()), (a.m_mul(&s), b.m_mul(&s)), "{n} a * scalar");
    ensure_eq!(parts(-cx(&x)), (a.m_neg(), b.m_neg()), "{n} -a");
    ensure_eq!(parts(cx(&x).conj()), (a.clone(), b.m_neg()), "{n} conj a");
    ensure_eq!(cx(&x).sqr_norm(), a.m_mul(&a).m_add(&b.m_mul(&b)), "{n} sqr_norm");
    ensure_eq!(parts(Complex::<T>::zero()), (T::m_zero(), T::m_zero()), "{n} zero");
    ensure_eq!(parts(Complex::<T>::one()), (T::m_one(), T::m_zero()), "{n} one");
    ensure_eq!(parts(Complex::new(a.clone(), b.clone())), x, "{n} new");
    ensure_eq!(cx(&x) == cx(&y), a == c && b == d, "{n} ==");
    ensure_eq!(cx(&x) != cx(&y), a != c || b != d, "{n} !=");
    ensure!(cx(&x) == cx(&x).clone(), "{n} a == a");
    // mixed pairs share one part
    let (p, q) = ((a.clone(), d.clone()), (c.clone(), b.clone()));
    ensure_eq!(cx(&x) == cx(&p), b == d, "{n} == with the same real part");
    ensure_eq!(cx(&x) == cx(&q), a == c, "{n} == with the same imaginary part");
    Ok(())
}

/// Component-wise operators between different symbolic types.
fn terms(case: &Case, ctx: &mut Ctx) -> Res {
    ctx.nontrivial(true);
    let (a, b) = (Term::dec(case.0), Term::dec(case.1));
    let (c, d) = (Term2(case.2), Term2(case.3));
    let (tc, td) = (c.term(), d.term());
    let x = || Complex::new(a.clone(), b.clone());
    let y = || Complex::new(c.clone(), d.clone());
    ensure_eq!(parts(x() + y()), (Term::bin('+', &a, &tc), Term::bin('+', &b, &td)), "x + y");
    ensure_eq!(parts(x() - y()), (Term::bin('-', &a, &tc), Term::bin('-', &b, &td)), "x - y");
    ensure_eq!(parts(y() - x()), (Term::bin('-', &tc, &a), Term::bin('-', &td, &b)), "y - x");
    let mut z = x();
    z += y();
    ensure_eq!(parts(z), (Term::bin('+', &a, &tc), Term::bin('+', &b, &td)), "x += y");
    let mut z = x();
    z -= y();
    ensure_eq!(parts(z), (Term::bin('-', &a, &tc), Term::bin('-', &b, &td)), "x -= y");
    ensure_eq!(parts(-x()), (Term::un("-", &a), Term::un("-", &b)), "-x");
    ensure_eq!(parts(x().conj()), (a.clone(), Term::un("-", &b)), "conj x");
    Ok(())
}

/// Machine integers over their whole range: every result that the component
/// formula reaches without overflow must come out.
macro_rules! machine {
    ($t:ident, $w:ident) => {
        |case: &($w, $w, $w, $w, $w), ctx: &mut Ctx| -> Res {
            let (a, b, c, d, s) = (case.0 as $t, case.1 as $t, case.2 as $t, case.3 as $t, case.4 as $t);
            let x = Complex::new(a, b);
            let y = Complex::new(c, d);
            let two = |p: Option<$t>, q: Option<$t>| Some((p?, q?));
            let mut any = false;
            let mut same = |name: &str, want: Option<($t, $t)>, forms: &[&dyn Fn() -> Complex<$t>]| -> Res {
                if let Some(w) = want {
                    any = true;
                    for (i, f) in forms.iter().enumerate() {
                        ensure_eq!(parts(f()), w, "{} {name} form {i}", stringify!($t));
                    }
                }
                Ok(())
            };
            same("+", two(a.checked_add(c), b.checked_add(d)), &[&|| x + y, &|| { let mut z = x; z += y; z }, &|| { let mut z = x; z += &y; z }])?;
            same("-", two(a.checked_sub(c), b.checked_sub(d)), &[&|| x - y, &|| { let mut z = x; z -= y; z }, &|| { let mut z = x; z -= &y; z }])?;
            let re = a.checked_mul(c).and_then(|p| p.checked_sub(b.checked_mul(d)?));
            let im = a.checked_mul(d).and_then(|p| p.checked_add(b.checked_mul(c)?));
            same("*", two(re, im), &[&|| x * y, &|| &x * &y, &|| { let mut z = x; z *= y; z }])?;
            same("scalar", two(a.checked_mul(s), b.checked_mul(s)), &[&|| x * s])?;
            same("neg", two(a.checked_neg(), b.checked_neg()), &[&|| -x])?;
            same("conj", two(Some(a), b.checked_neg()), &[&|| x.conj()])?;
            if let Some(n) = a.checked_mul(a).and_then(|p| p.checked_add(b.checked_mul(b)?)) {
                ensure_eq!(x.sqr_norm(), n, "{} sqr_norm", stringify!($t));
            }
            ctx.nontrivial(any && (a != 0 || b != 0) && (c != 0 || d != 0));
            ctx.class("product representable", re.is_some() && im.is_some());
            Ok(())
        }
    };
}

/// General floats: sums exact to one rounding, products to a few.
fn floats<F: Fl + Ring + AddAssign<F> + SubAssign<F>>(c: &(f64, f64, f64, f64), ctx: &mut Ctx) -> Res {
    let (a, b, c, d) = (F::of(c.0), F::of(c.1), F::of(c.2), F::of(c.3));
    ctx.nontrivial(a.f() != 0.0 && d.f() != 0.0);
    let (x, y) = (Complex::new(a, b), Complex::new(c, d));
    let eq = |p: F, q: F| p.ord() == q.ord() || (p.is_nan_() && q.is_nan_());
    let pair = |name: &str, z: Complex<F>, re: F, im: F| -> Res {
        ensure!(eq(z.re, re) && eq(z.im, im), "{} {name} of {x:?}, {y:?}: got {z:?}, expected {re:?}, {im:?}", F::NAME);
        Ok(())
    };
    pair("+", x.clone() + y.clone(), a + c, b + d)?;
    pair("-", x.clone() - y.clone(), a - c, b - d)?;
    let mut z = x.clone();
    z += &y;
    pair("+= &", z, a + c, b + d)?;
    let mut z = x.clone();
    z -= &y;
    pair("-= &", z, a - c, b - d)?;
    pair("neg", -x.clone(), -a, -b)?;
    let z = &x * &y;
    let fin = [a, b, c, d].iter().all(|v| v.f().abs() < 1e15);
    if fin {
        let (re, im) = (a.f() * c.f() - b.f() * d.f(), a.f() * d.f() + b.f() * c.f());
        let tr = 4.0 * F::EPS * ((a.f() * c.f()).abs() + (b.f() * d.f()).abs()) + 1e-43;
        let ti = 4.0 * F::EPS * ((a.f() * d.f()).abs() + (b.f() * c.f()).abs()) + 1e-43;
        ensure!(near(z.re.f(), re, tr) && near(z.im.f(), im, ti), "{} product of {x:?} and {y:?}: {z:?}, expected {re:?}, {im:?}", F::NAME);
    }
    ctx.class("finite", fin);
    Ok(())
}

fn main() {
    let mut c = Check::start("C01");
    let s = || (elem(), elem(), elem(), elem(), elem());
    c.sub("ring Zp", 20000, s(), ring::<Zp>);
    c.sub("ring Quat", 20000, s(), ring::<Quat>);
    c.sub("ring Z2", 20000, s(), ring::<Z2>);
    c.sub("ring Z6", 20000, s(), ring::<Z6>);
    c.sub("ring i64", 20000, s(), ring::<i64>);
    c.sub("ring f64", 20000, s(), ring::<f64>);
    c.sub("ring f32", 10000, s(), ring::<f32>);
    c.sub("ring i128", 10000, s(), ring::<i128>);
    c.sub("ring Complex<Zp>", 10000, s(), ring::<Complex<Zp>>);
    c.sub("ring Complex<Quat>", 10000, s(), ring::<Complex<Quat>>);
    c.sub("ring Complex<Z2>", 10000, s(), ring::<Complex<Z2>>);
    c.sub("ring Complex<Z6>", 10000, s(), ring::<Complex<Z6>>);
    // equal or related operands
    c.sub("ring Quat, equal operands", 5000, (elem(), elem(), elem()).prop_map(|(a, b, s)| (a, b, a, b, s)), ring::<Quat>);
    c.sub("ring Zp, conjugate operands", 5000, (lane(), lane(), elem()).prop_map(|(a, b, s)| (a as i64 & 0xffff, b as i64 & 0xffff, a as i64 & 0xffff, (-(b.max(-32767))) as i64 & 0xffff, s)), ring::<Zp>);
    c.sub("mixed symbolic types", 5000, s(), terms);
    let small = |m: i64| prop_oneof![3 => -11i64..=11, 2 => -m..=m, 1 => Just(0i64), 1 => Just(-m - 1), 1 => Just(m)];
    let ms = |m: i64| (small(m), small(m), small(m), small(m), small(m));
    c.sub("machine i8", 20000, ms(127), machine!(i8, i64));
    c.sub("machine i16", 20000, ms(32767), machine!(i16, i64));
    c.sub("machine i32", 10000, ms(i32::MAX as i64), machine!(i32, i64));
    c.sub("machine i64", 10000, ms(i64::MAX), machine!(i64, i64));
    let wild = || prop_oneof![6 => part(40), 1 => any::<f64>(), 1 => Just(f64::INFINITY), 1 => Just(f64::NAN), 1 => Just(f64::NEG_INFINITY)];
    let fs = || (wild(), wild(), wild(), wild());
    c.sub("floats f32", 20000, fs(), floats::<f32>);
    c.sub("floats f64", 20000, fs(), floats::<f64>);
    c.finish("pairs of complex numbers over exact fields, quaternions, machine integers over their whole range, floats and symbolic types; non-trivial: at least two of the four parts are non-zero (machine integers: both operands non-zero and some result representable)");
}
