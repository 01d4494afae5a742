//! C14: static matrix addition, negation, conjugation, zero and identity are
//! entry-wise.
use pbt::prelude::*;

type Case = (Vec<i64>, Vec<i64>, i64);

pub fn arr<T: Clone + std::fmt::Debug, const R: usize, const C: usize>(m: &[T]) -> [[T; C]; R] {
    let mut it = m.iter().cloned();
    [(); R].map(|_| [(); C].map(|_| it.next().unwrap()))
}

fn check<T: ModelRing + Ring + Conj, const R: usize, const C: usize>(c: &Case, ctx: &mut Ctx) -> Res {
    type M<T, const R: usize, const C: usize> = SMatrix<T, R, C>;
    let (a, b): (Vec<T>, Vec<T>) = (dec_all(&c.0), dec_all(&c.1));
    let n = format!("{} {R}x{C}", T::NAME);
    ctx.nontrivial(a != b && a.iter().any(|x| *x != T::m_zero()) && b.iter().any(|x| *x != T::m_zero()));
    ctx.class("empty", R * C == 0);
    ctx.class("not square", R != C);
    let m = |v: &[T]| M::<T, R, C>::from(arr(v));
    let (x, y) = (m(&a), m(&b));
    let same = |what: &str, got: M<T, R, C>, want: &[T]| -> Res {
        ensure!(got == m(want), "{n} {what}: got {got:?}, expected {want:?}");
        Ok(())
    };
    let sum: Vec<T> = a.iter().zip(&b).map(|(x, y)| x.m_add(y)).collect();
    same("a + b", x.clone() + y.clone(), &sum)?;
    same("a + &b", x.clone() + &y, &sum)?;
    let mut z = x.clone();
    z += y.clone();
    same("a += b", z, &sum)?;
    let mut z = x.clone();
    z += &y;
    same("a += &b", z, &sum)?;
    let dif: Vec<T> = a.iter().zip(&b).map(|(x, y)| x.m_sub(y)).collect();
    same("a - b", x.clone() - y.clone(), &dif)?;
    same("a - &b", x.clone() - &y, &dif)?;
    let mut z = x.clone();
    z -= y.clone();
    same("a -= b", z, &dif)?;
    let mut z = x.clone();
    z -= &y;
    same("a -= &b", z, &dif)?;
    same("-a", -x.clone(), &a.iter().map(|x| x.m_neg()).collect::<Vec<T>>())?;
    same("conj a", x.clone().conj(), &a.iter().map(|x| x.m_conj()).collect::<Vec<T>>())?;
    same("zero", M::zero(), &vec![T::m_zero(); R * C])?;
    let eye: Vec<T> = (0..R * C).map(|k| if k / C == k % C { T::m_one() } else { T::m_zero() }).collect();
    same("one", M::one(), &eye)?;
    same("first operand", x.clone(), &a)?;
    same("second operand", y.clone(), &b)?;
    // equality: exactly when all entries agree
    ensure_eq!(x == y, a == b, "{n} equality");
    ensure_eq!(x != y, a != b, "{n} inequality");
    if R * C > 0 && T::m_zero() != T::m_one() {
        let d = { let d = T::dec(c.2); if d == T::m_zero() { T::m_one() } else { d } };
        let ks: Vec<usize> = if R * C <= 64 { (0..R * C).collect() } else { vec![0, C - 1, (R - 1) * C, R * C - 1, (c.2 as u64 % (R * C) as u64) as usize] };
        for k in ks {
            let mut e = a.clone();
            e[k] = e[k].m_add(&d);
            ensure!(m(&e) != x, "{n} equality ignores entry ({}, {})", k / C, k % C);
            // one entry of the sum at a time: the only difference is there
            let mut one = vec![T::m_zero(); R * C];
            one[k] = d.clone();
            let mut z = x.clone();
            z += &m(&one);
            same("a plus a single entry", z, &e)?;
        }
    }
    Ok(())
}

fn main() {
    let mut c = Check::start("C14");
    macro_rules! shapes {
        ($t:ty, $cases:literal: $($r:literal $c:literal),*) => {$(
            c.sub(&format!("{} {}x{}", <$t as El>::NAME, $r, $c), $cases, (elems($r * $c), elems($r * $c), elem()), check::<$t, $r, $c>);
        )*};
    }
    shapes!(Quat, 300: 0 0, 0 1, 1 0, 0 3, 3 0, 1 1, 1 2, 2 1, 2 2, 1 3, 3 1, 2 3, 3 2, 3 3, 1 4, 4 1, 2 4, 4 2, 3 4, 4 3, 4 4,
        1 5, 5 1, 2 5, 5 2, 3 5, 5 3, 4 5, 5 4, 5 5, 6 2, 2 6, 6 6, 7 3, 3 7, 7 7, 8 8, 1 9, 9 1, 8 3, 3 8);
    shapes!(Complex<Zp>, 300: 1 1, 2 2, 2 3, 3 2, 3 3, 4 4, 1 6, 6 1, 5 4);
    shapes!(Complex<Quat>, 200: 2 2, 2 3, 3 2);
    shapes!(Z2, 60: 1 1, 2 2, 2 3, 3 3, 4 4, 8 8);
    shapes!(Z6, 60: 1 1, 2 2, 2 3, 3 3);
    shapes!(B2, 100: 1 1, 2 2, 3 2, 2 3, 3 3, 4 5, 8 8);
    shapes!(M2, 200: 2 2, 3 2, 2 3, 3 3);
    shapes!(Nil, 60: 0 0, 0 2, 1 1, 1 3, 3 1, 2 2, 2 3, 5 4, 9 9, 17 3);
    shapes!(Wide<1>, 60: 0 2, 1 1, 1 3, 3 1, 2 2, 2 3, 3 2, 3 3, 5 4, 8 8);
    shapes!(Wide<20>, 20: 1 1, 1 3, 3 1, 2 2, 2 3, 3 2, 4 4);
    shapes!(Wide<70>, 10: 1 1, 2 2, 2 3, 3 2, 3 3);
    shapes!(i64, 200: 1 1, 2 2, 2 3, 3 3, 4 4);
    shapes!(f64, 200: 2 2, 3 2, 3 3, 4 4);
    shapes!(Complex<Zp>, 30: 1 16, 16 1, 1 17, 17 1, 9 9, 10 10, 12 12, 15 15, 16 16, 17 17, 16 3, 3 16, 20 20, 8 17, 17 8, 1 33, 33 1, 1 64, 64 1, 1 65, 65 1, 32 32, 33 33, 1 128, 128 1, 2 100, 100 2);
    macro_rules! big {
        ($t:ty, $cases:literal: $($r:literal $c:literal),*) => {$(
            c.sub(&format!("{} {}x{}", <$t as El>::NAME, $r, $c), $cases, (seed(), seed(), elem()), |raw, ctx| {
                big_stack(|| check::<$t, $r, $c>(&(expand(raw.0 .0, raw.0 .1, $r * $c), expand(raw.1 .0, raw.1 .1, $r * $c), raw.2), ctx))
            });
        )*};
    }
    big!(Zp, 8: 48 48, 63 63, 64 64, 65 65, 64 65, 65 64, 100 100, 127 3, 3 127, 1 256, 1 257, 257 1, 1 1025, 1025 1, 2 600, 600 2);
    big!(Zp, 2: 128 128, 129 129, 1 65537, 65537 1, 257 257);
    big!(Z2, 4: 129 127, 257 255);
    c.finish("pairs of static matrices of every shape of a grid up to 33x33 and a list up to 257x257 (with empty, single-row and single-column shapes up to 65537) over non-commutative, complex and machine rings; non-trivial: different operands, neither zero");
}
