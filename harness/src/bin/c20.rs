//! C20: the product of dynamic vectors is the sesquilinear inner product.
use pbt::prelude::*;

type Case = (Vec<i64>, Vec<i64>, Vec<i64>, i64);

fn dot<T: ModelRing>(u: &[T], v: &[T]) -> T {
    u.iter().zip(v).fold(T::m_zero(), |s, (x, y)| s.m_add(&x.m_conj().m_mul(y)))
}
fn check<T: ModelRing + Ring + Conj>(c: &Case, ctx: &mut Ctx) -> Res
where
    T: std::ops::Add<Output = T> + std::ops::Mul<Output = T>,
{
    let u: Vec<T> = dec_all(&c.0);
    let n = u.len();
    let pad = |v: &[i64]| (0..n).map(|i| T::dec(v.get(i).copied().unwrap_or(c.3 ^ (i as i64 * 3)))).collect::<Vec<T>>();
    let (v, w) = (pad(&c.1), pad(&c.2));
    let s = T::dec(c.3);
    ctx.nontrivial(n > 0 && dot(&u, &v) != T::m_zero());
    ctx.class("empty", n == 0);
    ctx.class("conjugation matters", u.iter().any(|x| x.m_conj() != *x));
    let name = |x: &str| format!("{} length {n}: {x}", T::NAME);
    let (du, dv_, dw) = (dv(&u), dv(&v), dv(&w));
    let want = dot(&u, &v);
    ensure_eq!(&du * &dv_, want, "{}", name("&u * &v"));
    ensure_eq!(du.clone() * dv_.clone(), want, "{}", name("u * v"));
    ensure_eq!(&dv_ * &du, dot(&v, &u), "{}", name("&v * &u"));
    ensure_eq!(&du * &du, dot(&u, &u), "{}", name("&u * &u"));
    ensure_eq!(dv_.clone() * dv_.clone(), dot(&v, &v), "{}", name("v * v"));
    stored_vec(&name("u"), &du, &u)?;
    stored_vec(&name("v"), &dv_, &v)?;
    // relations
    let vw = (&dv_ + &dw).eval();
    ensure_eq!(&du * &vw, (&du * &dv_).m_add(&(&du * &dw)), "{}", name("u (v + w)"));
    ensure_eq!(&vw * &du, (&dv_ * &du).m_add(&(&dw * &du)), "{}", name("(v + w) u"));
    let vs = (&dv_).wrap().map(|x| x.m_mul(&s)).eval();
    ensure_eq!(&du * &vs, (&du * &dv_).m_mul(&s), "{}", name("u (v s) = (u v) s"));
    // one component at a time: the product with a unit vector selects it
    for i in (0..n).filter(|i| n < 40 || n < 2000 && i % 13 == c.3.unsigned_abs() as usize % 13 || *i == n / 2 || *i == n - 1) {
        let e = make_vector_expr(n, |j| if i == j { T::m_one() } else { T::m_zero() }).eval();
        ensure_eq!(&e * &dv_, v[i], "{} at {i}", name("unit vector on the left"));
        ensure_eq!(&du * &e, u[i].m_conj(), "{} at {i}", name("unit vector on the right"));
    }
    Ok(())
}
fn symmetric<T: ModelRing + Ring + Conj>(c: &Case, ctx: &mut Ctx) -> Res
where
    T: std::ops::Add<Output = T> + std::ops::Mul<Output = T>,
{
    check::<T>(c, ctx)?;
    let n = c.0.len().min(c.1.len());
    let (u, v) = (dv(&dec_all::<T>(&c.0[..n])), dv(&dec_all::<T>(&c.1[..n])));
    ensure_eq!(&v * &u, (&u * &v).m_conj(), "{} length {n}: conjugate symmetry", T::NAME);
    ensure_eq!(&u * &u, (&u * &u).m_conj(), "{} length {n}: u u is its own conjugate", T::NAME);
    Ok(())
}
/// Complex vectors: the norm.
fn norm(c: &Case, ctx: &mut Ctx) -> Res {
    let u: Vec<Complex<i64>> = dec_all(&c.0);
    ctx.nontrivial(u.len() > 1 && u.iter().any(|z| z.im != 0));
    let d = dv(&u);
    let want: i64 = u.iter().map(|z| z.re * z.re + z.im * z.im).sum();
    for p in [&d * &d, d.clone() * d.clone()] {
        ensure_eq!(p.im, 0, "imaginary part of u u");
        ensure_eq!(p.re, want, "real part of u u");
    }
    let f: Vec<Complex<f64>> = u.iter().map(|z| Complex { re: (z.re % 1024) as f64, im: (z.im % 1024) as f64 }).collect();
    let want: f64 = f.iter().map(|z| z.re * z.re + z.im * z.im).sum();
    let p = &dv(&f) * &dv(&f);
    ensure_eq!((p.re, p.im), (want, 0.0), "float norm");
    Ok(())
}

fn main() {
    let mut c = Check::start("C20");
    let case = |max| (vecs(max), vecs(max), vecs(max), elem());
    let of = |n: usize| (elems(n), elems(n), elems(n), any::<i64>());
    c.sub("Quat", 5000, case(40), check::<Quat>);
    c.sub("Z2", 5000, case(40), check::<Z2>);
    c.sub("Z6", 5000, case(40), check::<Z6>);
    c.sub("B2", 3000, case(40), check::<B2>);
    c.sub("M2", 3000, case(40), check::<M2>);
    c.sub("Nil", 500, case(70), check::<Nil>);
    c.sub("Wide<1>", 500, case(40), check::<Wide<1>>);
    c.sub("Wide<20>", 150, case(30), check::<Wide<20>>);
    c.sub("Wide<70>", 60, case(24), check::<Wide<70>>);
    c.sub("Wide<1100>", 10, case(8), check::<Wide<1100>>);
    c.sub("Complex<Quat>", 3000, case(40), check::<Complex<Quat>>);
    c.sub("Complex<Zp>", 5000, case(40), symmetric::<Complex<Zp>>);
    c.sub("i128", 2000, case(40), symmetric::<i128>);
    let lens = || (0..=140usize).chain([199, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4097, 65537]);
    c.sweep("every length, Quat", 3, lens().map(of), check::<Quat>);
    c.sweep("every length, Complex<Zp>", 3, lens().map(of), symmetric::<Complex<Zp>>);
    c.sub("norm", 3000, case(30), norm);
    fn expanded<T>(c: &(usize, Seed, Seed), ctx: &mut Ctx) -> Res
    where
        T: ModelRing + Ring + Conj + std::ops::Add<Output = T> + std::ops::Mul<Output = T>,
    {
        check::<T>(&(expand(c.1 .0, c.1 .1, c.0), expand(c.2 .0, c.2 .1, c.0), expand(c.1 .0 ^ 9, 0, c.0), c.2 .0 as i64), ctx)
    }
    c.sweep("very long, Complex<Zp>", 1, HUGE.into_iter().map(|n| (Just(n), seed(), seed())), expanded::<Complex<Zp>>);
    c.sweep("very long, Quat", 1, HUGE.into_iter().take(5).map(|n| (Just(n), seed(), seed())), expanded::<Quat>);
    c.sub("long, Complex<Zp>", 60, (large(17), seed(), seed()), expanded::<Complex<Zp>>);
    c.finish("pairs of vectors of equal length over rings with conjugation and non-commutative products, at every length up to 140 and some larger ones; the product against the definition and against additivity, scaling, conjugate symmetry and unit vectors; non-trivial: the product is not zero");
}
