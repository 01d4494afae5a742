//! C25: static and dynamic linear algebra agree.
use pbt::prelude::*;

type Case = (Vec<i64>, Vec<i64>, Vec<i64>, (Vec<i64>, Vec<i64>, Vec<i64>));

fn sm<T: Clone + std::fmt::Debug, const R: usize, const C: usize>(m: &Mat<T>) -> SMatrix<T, R, C> {
    let mut it = m.d.iter().cloned();
    SMatrix::from([(); R].map(|_| [(); C].map(|_| it.next().unwrap())))
}
fn sv<T: Clone + std::fmt::Debug, const N: usize>(v: &[T]) -> SVector<T, N> {
    SVector::from(<[T; N]>::try_from(v.to_vec()).unwrap())
}
/// The dynamic matrix has the entries of the static one.
fn same<T: ModelRing, const R: usize, const C: usize>(what: &str, d: DMatrix<T>, s: SMatrix<T, R, C>) -> Res {
    ensure_eq!((d.num_rows(), d.num_cols()), (R, C), "{} {R}x{C} {what}: shape", T::NAME);
    let t: SMatrix<T, R, C> = sm(&table(&d));
    ensure!(t == s, "{} {R}x{C} {what}: dynamic {t:?}, static {s:?}", T::NAME);
    Ok(())
}
fn same_vec<T: ModelRing, const N: usize>(what: &str, d: DVector<T>, s: SVector<T, N>) -> Res {
    ensure_eq!(d.len(), N, "{} length {N} {what}: length", T::NAME);
    for i in 0..N {
        ensure_eq!(d[i], s[i], "{} length {N} {what}: dynamic and static component {i}", T::NAME);
    }
    Ok(())
}

fn check<T: ModelRing + Ring + Conj, const L: usize, const M: usize, const N: usize>(c: &Case, ctx: &mut Ctx) -> Res
where
    T: std::ops::Add<Output = T> + std::ops::Sub<Output = T> + std::ops::Mul<Output = T> + std::ops::AddAssign + std::ops::SubAssign,
{
    let mat = |raw: &[i64], r: usize, c: usize| Mat::<T> { r, c, d: dec_all(&raw[..r * c]) };
    let (a, a2, b) = (mat(&c.0, L, M), mat(&c.1, L, M), mat(&c.2, M, N));
    ctx.nontrivial(a.d.iter().any(|x| *x != T::m_zero()) && b.d.iter().any(|x| *x != T::m_zero()));
    ctx.class("empty", L * M == 0 || M * N == 0);
    let (da, da2, db) = (dm(&a), dm(&a2), dm(&b));
    let s = || sm::<T, L, M>(&a);
    let s2 = || sm::<T, L, M>(&a2);
    let sb = || sm::<T, M, N>(&b);
    same("a", da.clone(), s())?;
    same("a + b", (&da + &da2).eval(), s() + s2())?;
    same("a - b", (&da - &da2).eval(), s() - s2())?;
    same("b - a", (&da2 - &da).eval(), s2() - s())?;
    let (mut d, mut t) = (da.clone(), s());
    d += &da2;
    t += s2();
    same("a += b", d.clone(), t.clone())?;
    d -= &da;
    t -= &s();
    same("a += b; -= a", d, t)?;
    same("conj", (&da).wrap().map(|x| x.conj()).eval(), s().conj())?;
    same("h of t", da.t().h().eval(), s().conj())?;
    same("zeros", DMatrix::<T>::zeros(L, M).eval(), SMatrix::<T, L, M>::zero())?;
    same("eye", DMatrix::<T>::eye(M).eval(), SMatrix::<T, M, M>::one())?;
    same("-a", (DMatrix::<T>::zeros(L, M) - &da).eval(), -s())?;
    if M > 0 {
        same("a * b", (&da * &db).eval(), s() * sb())?;
        same("a * b by reference", (&da * &db).eval(), &s() * &sb())?;
        same("a * 1", (&da * &DMatrix::<T>::eye(M).eval()).eval(), s() * SMatrix::<T, M, M>::one())?;
    }
    // vectors
    let [u, v, w]: [Vec<T>; 3] = [&c.3 .0, &c.3 .1, &c.3 .2].map(|r| dec_all(&r[..M]));
    let (du, dv_) = (dv(&u), dv(&v));
    let su = || sv::<T, M>(&u);
    let svv = || sv::<T, M>(&v);
    same_vec("u + v", (&du + &dv_).eval(), su() + svv())?;
    same_vec("u - v", (&du - &dv_).eval(), su() - svv())?;
    let (mut d, mut t) = (du.clone(), su());
    d += &dv_;
    t += svv();
    d -= dv(&w);
    t -= sv::<T, M>(&w);
    same_vec("u += v; -= w", d, t)?;
    same_vec("zeros", DVector::<T>::zeros(M).eval(), SVector::<T, M>::zero())?;
    let x = w.first().cloned().unwrap_or_else(T::m_one);
    same_vec("u * scalar", (&du).wrap().map(|y| y.m_mul(&x)).eval(), su() * x.clone())?;
    if M > 0 {
        // matrix times vector, the vector as a column
        let col = make_matrix_expr(M, 1, |i, _| u[i].clone()).eval();
        let p = &s() * &su();
        let q = (&da * &col).eval();
        ensure_eq!((q.num_rows(), q.num_cols()), (L, 1), "shape of matrix times column");
        for i in 0..L {
            ensure_eq!(q[[i, 0]], p[i], "{} {L}x{M} times vector, component {i}: dynamic and static", T::NAME);
        }
        // conj(u) v in four ways
        let row = make_matrix_expr(1, M, |_, i| u[i].conj_()).eval();
        let col = make_matrix_expr(M, 1, |i, _| v[i].clone()).eval();
        let want = &du * &dv_;
        let cu: Vec<T> = u.iter().map(|x| x.conj_()).collect();
        let got = [
            ("static dot product of conj u and v", sv::<T, M>(&cu) * svv()),
            ("static dot product of conj u and v by reference", sv::<T, M>(&cu) * &svv()),
            ("row times column", (&row * &col).eval()[[0, 0]].clone()),
            ("column^H times column", (&make_matrix_expr(M, 1, |i, _| u[i].clone()).h().eval() * &col).entry(0, 0)),
        ];
        for (what, g) in got {
            ensure_eq!(g, want, "{} length {M}: {what} against the dynamic vector product", T::NAME);
        }
        let p = sm::<T, 1, M>(&table(&row)) * sm::<T, M, 1>(&table(&col));
        ensure!(p == SMatrix::from([[want.clone()]]), "{} length {M}: static row times column {p:?} against the dynamic vector product {want:?}", T::NAME);
    }
    Ok(())
}
trait ConjRef: Sized {
    fn conj_(&self) -> Self;
}
impl<T: Clone + Conj> ConjRef for T {
    fn conj_(&self) -> T {
        self.clone().conj()
    }
}

fn main() {
    let mut c = Check::start("C25");
    macro_rules! shapes {
        ($t:ty, $cases:literal: $($l:literal $m:literal $n:literal),* $(,)?) => {$(
            c.sub(&format!("{} {}x{}x{}", <$t as El>::NAME, $l, $m, $n), $cases, (elems($l * $m), elems($l * $m), elems($m * $n), (elems($m), elems($m), elems($m))), check::<$t, $l, $m, $n>);
        )*};
    }
    shapes!(Quat, 80:
        0 0 0, 0 1 2, 1 0 1, 2 0 3, 2 1 0, 0 3 0,
        1 1 1, 1 1 2, 1 2 1, 2 1 1, 1 2 2, 2 1 2, 2 2 1, 2 2 2, 1 3 1, 3 1 3, 2 3 2, 3 2 3, 3 3 3, 1 4 1, 4 1 4, 2 4 3, 3 4 2, 4 3 2, 4 4 4,
        1 5 2, 5 1 5, 2 5 3, 3 5 2, 5 5 5, 1 6 1, 6 2 3, 2 6 2, 6 6 6, 1 7 1, 2 7 2, 7 1 1, 7 7 7);
    shapes!(Complex<Zp>, 60: 1 1 1, 2 2 2, 1 3 2, 3 2 1, 3 3 3, 2 5 2, 4 4 4, 1 8 1, 8 8 8, 2 9 3);
    shapes!(B2, 40: 2 2 2, 3 2 3, 4 4 4);
    shapes!(M2, 60: 2 2 2, 3 2 3);
    shapes!(Nil, 40: 1 1 1, 2 2 2, 2 3 4, 1 9 1);
    shapes!(Wide<1>, 40: 1 1 1, 1 4 2, 2 2 2, 3 2 3, 3 3 3);
    shapes!(Wide<20>, 20: 1 2 1, 2 2 2, 3 2 3);
    shapes!(i64, 80: 1 1 1, 2 3 4, 3 3 3, 4 4 4, 1 10 1);
    shapes!(f64, 80: 2 2 2, 3 4 2, 4 4 4, 1 10 1);
    shapes!(f32, 80: 2 2 2, 3 3 3);
    shapes!(Zp, 12: 10 10 10, 12 3 2, 2 12 2, 15 15 15, 16 16 16, 17 17 17, 1 16 1, 1 17 1, 2 20 2, 1 31 1, 1 32 1, 1 33 1, 2 48 1, 1 64 1, 1 65 1, 1 100 1, 1 128 2, 1 129 1, 2 256 1, 1 257 1, 33 1 1, 65 1 1, 1 1 33, 1 1 65, 32 32 32, 33 33 33);
    shapes!(Zp, 4: 20 131 3, 35 66 19, 129 17 2, 3 150 33, 67 67 5, 18 257 2);
    c.finish("the same entries in static and dynamic matrices and vectors over a grid of shapes and non-commutative, complex and machine rings; all operations the two families share are compared entry by entry; non-trivial: both matrices are non-zero");
}
