//! C10: polynomial evaluation is the power sum and a ring homomorphism.
use pbt::poly::{self, pl};
use pbt::prelude::*;

type P<T> = Polynomial<T>;

fn exact<T: ModelRing + Ring>(c: &(Vec<i64>, i64), ctx: &mut Ctx) -> Res {
    let a: Vec<T> = dec_all(&c.0);
    let x = T::dec(c.1);
    ctx.nontrivial(a.len() > 1 && x != T::m_zero());
    ctx.class("empty", a.is_empty());
    ctx.class("at zero", x == T::m_zero());
    ctx.class("long", a.len() > 30);
    let want = poly::eval(&a, &x);
    let p = pl(&a);
    ensure_eq!(p.eval_ref(&x), want, "{} eval_ref of {a:?} at {x:?}", T::NAME);
    ensure_eq!(p.eval(x.clone()), want, "{} eval of {a:?} at {x:?}", T::NAME);
    ensure_eq!(p.eval(T::m_zero()), a.first().cloned().unwrap_or(T::m_zero()), "{} value at zero of {a:?}", T::NAME);
    let total = a.iter().fold(T::m_zero(), |s, y| s.m_add(y));
    ensure_eq!(p.eval_ref(&T::m_one()), total, "{} value at one of {a:?}", T::NAME);
    Ok(())
}

/// Over commutative rings evaluation is a homomorphism.
fn homomorphism<T: ModelRing + Ring>(c: &(Vec<i64>, Vec<i64>, i64), ctx: &mut Ctx) -> Res {
    let (a, b): (Vec<T>, Vec<T>) = (dec_all(&c.0), dec_all(&c.1));
    let x = T::dec(c.2);
    ctx.nontrivial(a.len() > 1 && b.len() > 1 && x != T::m_zero());
    let (p, q) = (pl(&a), pl(&b));
    let (u, v) = (p.eval_ref(&x), q.eval_ref(&x));
    let n = T::NAME;
    ensure_eq!((p.clone() + q.clone()).eval_ref(&x), u.m_add(&v), "{n} value of p + q");
    ensure_eq!((p.clone() - q.clone()).eval_ref(&x), u.m_sub(&v), "{n} value of p - q");
    ensure_eq!((-p.clone()).eval_ref(&x), u.m_neg(), "{n} value of -p");
    ensure_eq!((&p * &q).eval(x.clone()), u.m_mul(&v), "{n} value of p * q");
    ensure_eq!(P::<T>::zero().eval(x.clone()), T::m_zero(), "{n} value of the zero polynomial");
    ensure_eq!(P::<T>::one().eval(x.clone()), T::m_one(), "{n} value of the one polynomial");
    Ok(())
}

/// Floating point: the error bound of n multiplications and additions.
fn floats<F: Fl + Ring>(c: &(Vec<f64>, f64), ctx: &mut Ctx) -> Res {
    let a: Vec<F> = c.0.iter().map(|x| F::of(*x)).collect();
    let x = F::of(c.1);
    ctx.nontrivial(a.len() > 1 && x.f() != 0.0);
    let (mut want, mut size, mut pow) = (0.0f64, 0.0f64, 1.0f64);
    // error-free sums and products, so that the reference is accurate for f64 too
    let mut low = 0.0f64;
    let mut pow_low = 0.0f64;
    for ai in &a {
        let t = ai.f() * pow;
        let te = libm::fma(ai.f(), pow, -t) + ai.f() * pow_low;
        let s = want + t;
        let z = s - want;
        low += (want - (s - z)) + (t - z) + te;
        want = s;
        size += t.abs();
        let p = pow * x.f();
        pow_low = libm::fma(pow, x.f(), -p) + pow_low * x.f();
        pow = p;
    }
    want += low;
    let lim = if F::NAME == "f32" { 1e30 } else { 1e280 };
    if !(size < lim) || pow.abs() > lim {
        return Ok(());
    }
    let tol = 4.0 * (a.len() as f64 + 1.0) * F::EPS * size + if F::NAME == "f32" { 1e-40 } else { 1e-300 };
    let p = pl(&a);
    for (form, y) in [("eval", p.eval(x)), ("eval_ref", p.eval_ref(&x))] {
        ensure!(near(y.f(), want, tol), "{} {form} of {a:?} at {x:?}: got {y:?}, expected {want:?}", F::NAME);
    }
    Ok(())
}

/// Machine integers: whenever no term or partial sum can overflow.
macro_rules! machine {
    ($t:ident) => {
        |c: &(Vec<$t>, $t), ctx: &mut Ctx| -> Res {
            let (a, x) = (&c.0, c.1);
            let (mut size, mut want, mut pow) = (0i128, 0i128, 1i128);
            for y in a {
                size = size.saturating_add((*y as i128).saturating_mul(pow).saturating_abs());
                want = want.saturating_add((*y as i128).saturating_mul(pow));
                pow = pow.saturating_mul(x as i128);
            }
            let max = $t::MAX as i128;
            if size > max || pow.saturating_abs() > max {
                return Ok(());
            }
            ctx.nontrivial(a.len() > 1 && x != 0);
            ensure_eq!(pl(a).eval(x), want as $t, "{} eval of {a:?} at {x}", stringify!($t));
            ensure_eq!(pl(a).eval_ref(&x), want as $t, "{} eval_ref of {a:?} at {x}", stringify!($t));
            Ok(())
        }
    };
}

/// Very many coefficients.
fn long<T: ModelRing + Ring>(c: &(usize, Seed, i64), ctx: &mut Ctx) -> Res {
    ctx.nontrivial(true);
    let a: Vec<T> = dec_all(&expand(c.1 .0, c.1 .1, c.0));
    let x = T::dec(c.2);
    let want = poly::eval(&a, &x);
    let p = pl(&a);
    ensure_eq!(p.eval_ref(&x), want, "{} eval_ref of {} coefficients at {x:?}", T::NAME, c.0);
    ensure_eq!(p.eval(x.clone()), want, "{} eval of {} coefficients at {x:?}", T::NAME, c.0);
    let total = a.iter().fold(T::m_zero(), |s, y| s.m_add(y));
    ensure_eq!(p.eval_ref(&T::m_one()), total, "{} value at one of {} coefficients", T::NAME, c.0);
    Ok(())
}

/// The same with long polynomials.
fn homomorphism_long<T: ModelRing + Ring>(c: &((usize, Seed), (usize, Seed), i64), ctx: &mut Ctx) -> Res {
    let words = |(n, s): (usize, Seed)| expand(s.0, s.1, n);
    homomorphism::<T>(&(words(c.0), words(c.1), c.2), ctx)
}

fn main() {
    let mut c = Check::start("C10");
    let s = |max| (vecs(max), elem());
    c.sub("Zp", 20000, s(30), exact::<Zp>);
    c.sub("Quat", 20000, s(16), exact::<Quat>);
    c.sub("Z2", 20000, s(16), exact::<Z2>);
    c.sub("Z6", 20000, s(16), exact::<Z6>);
    c.sub("M2", 10000, s(16), exact::<M2>);
    c.sub("B2", 10000, s(20), exact::<B2>);
    c.sub("Complex<Zp>", 10000, s(16), exact::<Complex<Zp>>);
    c.sub("Complex<Quat>", 5000, s(10), exact::<Complex<Quat>>);
    c.sub("Complex<Z2>", 5000, s(10), exact::<Complex<Z2>>);
    c.sub("Complex<Z6>", 5000, s(10), exact::<Complex<Z6>>);
    c.sub("Nil", 1000, s(40), exact::<Nil>);
    c.sub("Wide<1>", 2000, s(40), exact::<Wide<1>>);
    c.sub("Wide<20>", 500, s(40), exact::<Wide<20>>);
    c.sub("Wide<70>", 200, s(40), exact::<Wide<70>>);
    c.sub("Wide<1100>", 20, s(20), exact::<Wide<1100>>);
    let h = |max| (vecs(max), vecs(max), elem());
    c.sub("homomorphism Zp", 10000, h(12), homomorphism::<Zp>);
    c.sub("homomorphism Complex<Zp>", 10000, h(12), homomorphism::<Complex<Zp>>);
    // lengths of all proportions, and a few very long ones
    let hl = || ((medium(), seed()), (medium(), seed()), elem());
    c.sub("homomorphism Zp, any lengths", 400, hl(), homomorphism_long::<Zp>);
    c.sub("homomorphism Complex<Zp>, any lengths", 150, hl(), homomorphism_long::<Complex<Zp>>);
    c.sub("homomorphism Z6, any lengths", 150, hl(), homomorphism_long::<Z6>);
    c.sweep("homomorphism Zp, very long", 2, [(1000usize, 1100usize), (2049, 700), (1025, 1025), (5, 5000), (4097, 3), (1500, 64)].into_iter().map(|(n, k)| ((Just(n), seed()), (Just(k), seed()), elem())), homomorphism_long::<Zp>);
    c.sweep("homomorphism Complex<Zp>, very long", 1, [(1000usize, 1100usize), (5, 5000), (4097, 3)].into_iter().map(|(n, k)| ((Just(n), seed()), (Just(k), seed()), elem())), homomorphism_long::<Complex<Zp>>);
    c.sub("machine i8", 20000, (vec(-9i8..10, 0..6), prop_oneof![-5i8..6, any::<i8>()]), machine!(i8));
    c.sub("machine i32", 10000, (vec(any::<i16>().prop_map(|x| x as i32), 0..6), prop_oneof![3 => -12i32..13, 1 => any::<i32>()]), machine!(i32));
    c.sub("machine i64", 10000, (vec(prop_oneof![any::<i32>().prop_map(|x| x as i64), any::<i64>()], 0..6), prop_oneof![3 => -12i64..13, 1 => any::<i64>()]), machine!(i64));
    let f = || (vec(part(12), 0..14), prop_oneof![2 => -1.5f64..1.5, 1 => part(8)]);
    c.sub("floats f32", 20000, f(), floats::<f32>);
    c.sub("floats f64", 20000, f(), floats::<f64>);
    // every length up to 80 and some beyond
    c.sweep("all lengths, Quat", 8, (0..=80usize).chain([100, 127, 128, 129, 255, 256, 257, 300, 500]).map(|n| (elems_fast(n), any::<i64>())), exact::<Quat>);
    c.sweep("long, Zp", 3, [511usize, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097].into_iter().map(|n| (elems_fast(n), any::<i64>())), exact::<Zp>);
    c.sweep("very many coefficients, Zp", 2, HUGE.into_iter().map(|n| (Just(n), seed(), any::<i64>())), long::<Zp>);
    c.sweep("very many coefficients, Quat", 1, HUGE.into_iter().map(|n| (Just(n), seed(), any::<i64>())), long::<Quat>);
    c.sub("many coefficients, Zp", 100, (large(17), seed(), any::<i64>()), long::<Zp>);
    c.sub("many coefficients, Quat", 100, (large(17), seed(), any::<i64>()), long::<Quat>);
    c.finish("coefficient lists (random, sparse, constant, every length up to 80, some up to 4097) and points over commutative and non-commutative exact rings, machine integers and floats; non-trivial: at least two coefficients and a non-zero point");
}
