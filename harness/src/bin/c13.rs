//! C13: static vector arithmetic is component-wise and its product is the dot
//! product.
use pbt::prelude::*;

type Case = (Vec<i64>, Vec<i64>, i64);

fn arr<T: Clone + std::fmt::Debug, const D: usize>(v: &[T]) -> [T; D] {
    v.to_vec().try_into().unwrap()
}

fn check<T: ModelRing + Ring, const D: usize>(c: &Case, ctx: &mut Ctx) -> Res {
    let (a, b): (Vec<T>, Vec<T>) = (dec_all(&c.0), dec_all(&c.1));
    let s = T::dec(c.2);
    let n = format!("{} dimension {D}", T::NAME);
    ctx.nontrivial(a != b && a.iter().any(|x| *x != T::m_zero()) && b.iter().any(|x| *x != T::m_zero()));
    ctx.class("dimension 0", D == 0);
    ctx.class("equal operands", a == b);
    let u = || SVector::<T, D>::from(arr(&a));
    let v = || SVector::<T, D>::from(arr(&b));
    let list = |w: SVector<T, D>| w.0.to_vec();
    let (ur, vr) = (u(), v());

    let sum: Vec<T> = a.iter().zip(&b).map(|(x, y)| x.m_add(y)).collect();
    ensure_eq!(list(u() + v()), sum, "{n} u + v");
    ensure_eq!(list(u() + &vr), sum, "{n} u + &v");
    let mut w = u();
    w += v();
    ensure_eq!(list(w), sum, "{n} u += v");
    let mut w = u();
    w += &vr;
    ensure_eq!(list(w), sum, "{n} u += &v");
    let dif: Vec<T> = a.iter().zip(&b).map(|(x, y)| x.m_sub(y)).collect();
    ensure_eq!(list(u() - v()), dif, "{n} u - v");
    ensure_eq!(list(u() - &vr), dif, "{n} u - &v");
    let mut w = u();
    w -= v();
    ensure_eq!(list(w), dif, "{n} u -= v");
    let mut w = u();
    w -= &vr;
    ensure_eq!(list(w), dif, "{n} u -= &v");
    let dot = |a: &[T], b: &[T]| a.iter().zip(b).fold(T::m_zero(), |t, (x, y)| t.m_add(&x.m_mul(y)));
    ensure_eq!(u() * v(), dot(&a, &b), "{n} u * v");
    ensure_eq!(u() * &vr, dot(&a, &b), "{n} u * &v");
    ensure_eq!(v() * &ur, dot(&b, &a), "{n} v * &u");
    ensure_eq!(u() * &ur, dot(&a, &a), "{n} u * &u");
    let scaled: Vec<T> = a.iter().map(|x| x.m_mul(&s)).collect();
    ensure_eq!(list(u() * s.clone()), scaled, "{n} u * s");
    ensure_eq!(list(u() * &s), scaled, "{n} u * &s");
    let mut w = u();
    w *= s.clone();
    ensure_eq!(list(w), scaled, "{n} u *= s");
    let mut w = u();
    w *= &s;
    ensure_eq!(list(w), scaled, "{n} u *= &s");
    ensure_eq!(list(SVector::<T, D>::zero()), vec![T::m_zero(); D], "{n} zero");
    ensure!(vr == v() && ur == u(), "{n}: an operand passed by reference changed");
    ensure_eq!(ur == vr, a == b, "{n} equality");

    // iteration and indexing
    ensure_eq!(u().into_iter().collect::<Vec<T>>(), a, "{n} iteration by value");
    ensure_eq!((&ur).into_iter().cloned().collect::<Vec<T>>(), a, "{n} iteration by reference");
    let mut w = u();
    for (k, x) in (&mut w).into_iter().enumerate() {
        *x = x.m_add(&b[k]);
    }
    ensure_eq!(list(w), sum, "{n} iteration by mutable reference");
    let mut seen = vec![];
    let mut it = (&ur).into_iter();
    while let Some(x) = it.next() {
        seen.push(x.clone());
        ensure!(it.len() == D - seen.len(), "{n}: length of the iterator");
    }
    ensure_eq!(seen, a, "{n} iteration step by step");
    let ks: Vec<usize> = if D <= 40 { (0..D).collect() } else { vec![0, 1, D / 2, D - 2, D - 1, (c.2 as u64 % D as u64) as usize] };
    for k in ks {
        ensure_eq!(ur[k], a[k], "{n} [{k}]");
        let mut w = u();
        w[k] = s.clone();
        let mut m = a.clone();
        m[k] = s.clone();
        ensure_eq!(list(w.clone()), m, "{n} write to [{k}]");
        ensure_eq!(w == ur, m == a, "{n} equality after a write to [{k}]");
    }
    Ok(())
}

fn out_of_range<const D: usize>(k: &usize, ctx: &mut Ctx) -> Res {
    ctx.nontrivial(true);
    let i = D.saturating_add(*k);
    let mut v = SVector::<Zp, D>::from([(); D].map(|_| Zp(7)));
    ensure!(catch(|| v[i]).is_err(), "dimension {D}: reading [{i}] does not panic");
    ensure!(catch(|| v[i] = Zp(3)).is_err(), "dimension {D}: writing [{i}] does not panic");
    ensure!(v.0.iter().all(|x| *x == Zp(7)), "dimension {D}: writing [{i}] changed the vector");
    Ok(())
}

fn main() {
    let mut c = Check::start("C13");
    macro_rules! dims {
        ($t:ty, $cases:literal: $($d:literal)*) => {$(
            c.sub(&format!("{} dimension {}", <$t as El>::NAME, $d), $cases, (elems($d), elems($d), elem()), check::<$t, $d>);
        )*};
    }
    dims!(Quat, 800: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20);
    dims!(Zp, 800: 0 1 2 3 4 5 6 7 8 9);
    dims!(i64, 500: 1 2 3 4 8);
    dims!(f64, 500: 1 2 3 4 8);
    dims!(Complex<Zp>, 500: 1 2 3 4 6);
    dims!(Complex<Quat>, 300: 2 3 5);
    dims!(Complex<Z2>, 300: 2 3 5);
    dims!(Complex<Z6>, 300: 2 3 5);
    dims!(B2, 300: 1 2 3 4 5 8 13);
    dims!(M2, 300: 2 3 4 5);
    dims!(Nil, 60: 0 1 2 3 8 17 64 200);
    dims!(Wide<1>, 60: 0 1 2 3 4 5 8 16 17 33);
    dims!(Wide<20>, 30: 1 2 3 4 7 12);
    dims!(Wide<70>, 20: 1 2 3 5 9);
    dims!(Quat, 60: 21 22 23 24 25 28 31 32 33 40 47 48 49 63 64 65 66 72 80 96 100 127 128 129);
    dims!(Zp, 40: 130 150 192 200 255 256 257 300 333 400 511 512 513);
    macro_rules! big {
        ($t:ty, $cases:literal: $($d:literal)*) => {$(
            c.sub(&format!("{} dimension {}", <$t as El>::NAME, $d), $cases, (seed(), seed(), elem()), |raw, ctx| {
                big_stack(|| check::<$t, $d>(&(expand(raw.0 .0, raw.0 .1, $d), expand(raw.1 .0, raw.1 .1, $d), raw.2), ctx))
            });
        )*};
    }
    big!(Zp, 8: 777 1000 1023 1024 1025 2000 2049 4095 4097 8193);
    big!(Zp, 2: 16385 65537);
    big!(Z2, 4: 1025 65537);
    macro_rules! oor {
        ($($d:literal)*) => {$(
            c.sub(&format!("out of range, dimension {}", $d), 60, prop_oneof![0usize..5, 0usize..300, Just(usize::MAX / 2), any::<usize>()], out_of_range::<$d>);
        )*};
    }
    oor!(0 1 2 3 4 5 7 8 16 17 33 64 65 256);
    c.finish("pairs of vectors and a scalar for dimensions 0 to 33 and a list up to 65537 over non-commutative, complex and machine rings, and indices beyond the end; non-trivial: different operands, neither zero");
}
