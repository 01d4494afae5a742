//! C15: static matrix products follow the definition for every shape.
use pbt::prelude::*;

type Case = (Vec<i64>, Vec<i64>, Vec<i64>, (Vec<i64>, Vec<i64>));

fn sm<T: Clone, const R: usize, const C: usize>(m: &Mat<T>) -> SMatrix<T, R, C> {
    SMatrix::from(std::array::from_fn(|i| std::array::from_fn(|j| m.at(i, j).clone())))
}
fn mat<T: El>(r: usize, c: usize, raw: &[i64]) -> Mat<T> {
    Mat { r, c, d: dec_all(raw) }
}
fn sv<T: Clone + std::fmt::Debug, const N: usize>(v: &[T]) -> SVector<T, N> {
    SVector::from(<[T; N]>::try_from(v.to_vec()).unwrap())
}
fn apply<T: ModelRing>(m: &Mat<T>, v: &[T]) -> Vec<T> {
    (0..m.r).map(|i| (0..m.c).fold(T::m_zero(), |s, k| s.m_add(&m.at(i, k).m_mul(&v[k])))).collect()
}

/// (L x M) * (M x N), (M x N) * (N x N) in place, (L x M) applied to a vector.
fn check<T: ModelRing + Ring, const L: usize, const M: usize, const N: usize>(c: &Case, ctx: &mut Ctx) -> Res {
    let a: Mat<T> = mat(L, M, &c.0);
    let b: Mat<T> = mat(M, N, &c.1);
    let q: Mat<T> = mat(N, N, &c.2);
    let (v, w): (Vec<T>, Vec<T>) = (dec_all(&c.3 .0), dec_all(&c.3 .1));
    let n = format!("{} {L}x{M} * {M}x{N}", T::NAME);
    let nz = |m: &Mat<T>| m.d.iter().any(|x| *x != T::m_zero());
    ctx.nontrivial(nz(&a) && nz(&b));
    ctx.class("inner dimension 0", M == 0);
    ctx.class("empty result", L * N == 0);
    let (sa, sb, sq) = (sm::<T, L, M>(&a), sm::<T, M, N>(&b), sm::<T, N, N>(&q));
    let ab = a.mul(&b);
    ensure_eq!(&sa * &sb, sm::<T, L, N>(&ab), "{n} &a * &b");
    ensure_eq!(sa.clone() * sb.clone(), sm::<T, L, N>(&ab), "{n} a * b");
    let bq = b.mul(&q);
    let want = sm::<T, M, N>(&bq);
    ensure_eq!(&sb * &sq, want, "{n} &b * &q");
    let mut z = sb.clone();
    z *= &sq;
    ensure_eq!(z, want, "{n} b *= &q");
    let mut z = sb.clone();
    z *= sq.clone();
    ensure_eq!(z, want, "{n} b *= q");
    ensure!(sa == sm(&a) && sb == sm(&b) && sq == sm(&q), "{n}: an operand changed");
    // matrix times vector
    let sv_m = sv::<T, M>(&v);
    ensure_eq!(&sa * &sv_m, sv::<T, L>(&apply(&a, &v)), "{n} a * v");
    let sv_n = sv::<T, N>(&w);
    ensure_eq!(&(&sa * &sb) * &sv_n, &sa * &(&sb * &sv_n), "{n} (a*b)*w = a*(b*w)");
    // laws
    ensure_eq!(&(&sa * &sb) * &sq, &sa * &(&sb * &sq), "{n} associativity");
    ensure_eq!(&SMatrix::<T, L, L>::one() * &sa, sa, "{n} one from the left");
    ensure_eq!(&sa * &SMatrix::<T, M, M>::one(), sa, "{n} one from the right");
    ensure_eq!(&sa * &SMatrix::<T, M, N>::zero(), SMatrix::<T, L, N>::zero(), "{n} a * 0");
    let s2 = sb.clone() + &want;
    ensure_eq!(&sa * &s2, &sa * &sb + &(&sa * &want), "{n} distributivity");
    Ok(())
}

/// Large shapes: the products alone.
fn few<T: ModelRing + Ring, const L: usize, const M: usize, const N: usize>(a: &Mat<T>, b: &Mat<T>, q: &Mat<T>) -> Res {
    let n = format!("{} {L}x{M} * {M}x{N}", T::NAME);
    let (sa, sb, sq) = (sm::<T, L, M>(a), sm::<T, M, N>(b), sm::<T, N, N>(q));
    let ab = a.mul(b);
    ensure!(&sa * &sb == sm::<T, L, N>(&ab), "{n} &a * &b");
    ensure!(sa.clone() * sb.clone() == sm::<T, L, N>(&ab), "{n} a * b");
    let bq = b.mul(q);
    let mut z = sb.clone();
    z *= &sq;
    ensure!(z == sm::<T, M, N>(&bq), "{n} b *= &q");
    let mut z = sb.clone();
    z *= sq.clone();
    ensure!(z == sm::<T, M, N>(&bq), "{n} b *= q");
    let v: Vec<T> = (0..M).map(|i| q.d.get(i).or(b.d.get(i)).cloned().unwrap_or_else(T::m_one)).collect();
    ensure!(&sa * &sv::<T, M>(&v) == sv::<T, L>(&apply(a, &v)), "{n} a * v");
    ensure!(sa == sm(a) && sb == sm(b) && sq == sm(q), "{n}: an operand changed");
    Ok(())
}

fn main() {
    let mut c = Check::start("C15");
    macro_rules! shapes {
        ($t:ty, $cases:literal: $($l:literal $m:literal $n:literal),* $(,)?) => {$(
            c.sub(&format!("{} {}x{}x{}", <$t as El>::NAME, $l, $m, $n), $cases, (elems($l * $m), elems($m * $n), elems($n * $n), (elems($m), elems($n))), check::<$t, $l, $m, $n>);
        )*};
    }
    shapes!(Quat, 100:
        0 0 0, 0 0 1, 0 1 0, 1 0 0, 0 1 2, 1 0 1, 1 0 3, 2 0 2, 3 0 1, 2 1 0, 0 3 3, 3 3 0,
        1 1 1, 1 1 2, 1 1 3, 1 1 4, 1 2 1, 1 2 2, 1 2 3, 1 2 4, 1 3 1, 1 3 2, 1 3 3, 1 3 4, 1 4 1, 1 4 2, 1 4 3, 1 4 4,
        2 1 1, 2 1 2, 2 1 3, 2 1 4, 2 2 1, 2 2 2, 2 2 3, 2 2 4, 2 3 1, 2 3 2, 2 3 3, 2 3 4, 2 4 1, 2 4 2, 2 4 3, 2 4 4,
        3 1 1, 3 1 2, 3 1 3, 3 1 4, 3 2 1, 3 2 2, 3 2 3, 3 2 4, 3 3 1, 3 3 2, 3 3 3, 3 3 4, 3 4 1, 3 4 2, 3 4 3, 3 4 4,
        4 1 1, 4 1 2, 4 1 3, 4 1 4, 4 2 1, 4 2 2, 4 2 3, 4 2 4, 4 3 1, 4 3 2, 4 3 3, 4 3 4, 4 4 1, 4 4 2, 4 4 3, 4 4 4);
    shapes!(Quat, 40:
        1 5 1, 5 1 5, 5 5 5, 2 5 3, 5 2 4, 1 6 2, 6 6 6, 3 6 2, 6 1 1, 1 1 6, 7 7 7, 2 7 3, 7 3 1, 1 3 7, 8 8 8, 2 8 2, 8 2 3, 3 2 8,
        1 9 1, 2 9 2, 9 9 9, 1 10 1, 2 11 2, 1 12 3, 12 1 1, 1 1 12, 2 13 1, 1 14 2, 2 15 2, 2 16 2, 16 2 2, 2 2 16, 2 17 2, 17 2 2, 2 2 17, 1 20 1);
    shapes!(Complex<Zp>, 60: 2 2 2, 2 3 2, 3 3 3, 1 4 1, 3 2 3, 4 4 4);
    shapes!(Z2, 60: 1 1 1, 2 2 2, 2 3 2, 3 3 3, 4 4 4, 5 5 5, 8 8 8);
    shapes!(Z6, 60: 2 2 2, 2 3 2, 3 3 3);
    shapes!(B2, 60: 1 1 1, 2 2 2, 3 2 3, 1 3 2, 3 3 3, 4 4 4, 5 6 7, 8 8 8);
    shapes!(M2, 60: 2 2 2, 3 2 3, 1 3 2, 3 3 3);
    shapes!(Nil, 40: 0 0 0, 1 0 1, 1 1 1, 2 2 2, 2 3 4, 5 5 5, 9 8 7, 16 17 16);
    shapes!(Wide<1>, 40: 1 0 2, 1 1 1, 1 2 1, 2 1 2, 2 2 2, 2 3 4, 3 3 3, 4 4 4, 5 5 5, 1 9 2);
    shapes!(Wide<20>, 20: 1 1 1, 1 2 1, 2 2 2, 2 3 2, 3 3 3, 1 7 1);
    shapes!(Wide<70>, 10: 1 1 1, 1 3 1, 2 2 2, 2 3 1, 3 3 3);
    shapes!(Complex<Quat>, 60: 2 2 2, 2 3 1);
    shapes!(i64, 60: 1 1 1, 2 2 2, 2 3 4, 3 3 3, 4 4 4);
    shapes!(f64, 60: 2 2 2, 3 2 3, 3 3 3, 4 4 4);
    shapes!(f32, 60: 2 2 2, 3 3 3);
    shapes!(Zp, 12: 10 10 10, 12 12 12, 15 15 15, 16 16 16, 17 17 17, 3 31 3, 3 32 3, 3 33 3, 1 48 1, 1 63 1, 2 64 2, 2 65 2, 1 100 1, 33 1 1, 1 1 33, 64 1 1, 65 2 1, 1 2 65, 1 1 64, 2 128 1, 2 129 1, 1 256 1, 1 257 1, 32 32 32, 33 33 33, 24 24 24, 31 8 17);
    macro_rules! big {
        ($t:ty, $cases:literal: $($l:literal $m:literal $n:literal),* $(,)?) => {$(
            c.sub(&format!("{} {}x{}x{}", <$t as El>::NAME, $l, $m, $n), $cases, (seed(), seed(), seed()), |raw, ctx| {
                ctx.nontrivial(true);
                let (a, b, q): (Mat<$t>, Mat<$t>, Mat<$t>) = (mat($l, $m, &expand(raw.0 .0, raw.0 .1, $l * $m)), mat($m, $n, &expand(raw.1 .0, raw.1 .1, $m * $n)), mat($n, $n, &expand(raw.2 .0, raw.2 .1, $n * $n)));
                big_stack(|| few::<$t, $l, $m, $n>(&a, &b, &q))
            });
        )*};
    }
    big!(Zp, 4: 48 48 48, 63 64 65, 64 64 64, 65 65 65, 100 100 100, 3 257 3, 1 1025 1, 1025 1 2, 2 1 600, 2 513 2, 65 17 33, 17 65 3, 3 129 65);
    big!(Zp, 1: 129 129 129, 1 4097 1, 1 65537 1);
    big!(Quat, 2: 34 35 36, 65 65 65);
    c.finish("matrices of all shapes L x M x N up to 4 and a list of larger and empty ones over non-commutative, complex and machine rings; non-trivial: both factors non-zero");
}
