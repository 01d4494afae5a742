//! C43: structures that represent each other compute alike. Every relation is
//! between results of the library for two structures; no model of the
//! operations is involved.
use pbt::poly::pl;
use pbt::prelude::*;
use pbt::prog::Elem as Base;

trait Elem: ModelRing + Base + Conj {}
impl<T: ModelRing + Base + Conj> Elem for T {}

macro_rules! same {
    ($got:expr, $want:expr, $($what:tt)*) => {{
        let (g, w) = (&$got, &$want);
        if !(*g == *w) || !(*w == *g) || *g != *w {
            let show = |s: String| if s.len() > 1500 { format!("{}…", s.chars().take(1500).collect::<String>()) } else { s };
            return Err(format!("{}: {} and {}", format!($($what)*), show(format!("{g:?}")), show(format!("{w:?}"))));
        }
    }};
}

type Words = (usize, Seed);
/// Modes above those of `expand` leave a single entry, a half, or every other one.
fn words<T: El>(c: &Words) -> Vec<T> {
    let (n, (s, mode)) = *c;
    let keep = |i: usize| match mode {
        6 => i + 1 == n,
        7 => i >= n / 2,
        8 => i < (n + 1) / 2,
        9 => i % 2 == (s >> 60) as usize % 2,
        10 => i == s as usize % n,
        _ => true,
    };
    let all = expand(s, if mode < 6 { mode } else { (s >> 32) as u8 }, n);
    all.into_iter().enumerate().map(|(i, x)| T::dec(if keep(i) { x } else { 0 })).collect()
}
fn seed() -> impl Strategy<Value = Seed> + Clone {
    (any::<u64>(), 0u8..11)
}
fn zeros<T: ModelRing>(n: usize) -> Vec<T> {
    vec![T::m_zero(); n]
}
fn column<T: Clone>(a: &[T]) -> DMatrix<T> {
    dm(&Mat { r: a.len(), c: 1, d: a.to_vec() })
}
fn entries<T: Clone>(m: &DMatrix<T>) -> Vec<T> {
    table(m).d
}

// ---- complex numbers and matrices ----------------------------------------

fn rotation<T: Elem>(z: &Complex<T>) -> SMatrix<T, 2, 2> {
    SMatrix::from([[z.re.clone(), -z.im.clone()], [z.im.clone(), z.re.clone()]])
}
fn complex_numbers<T: Elem>(c: &Vec<i64>, ctx: &mut Ctx) -> Res {
    let n = T::NAME;
    let x: Vec<T> = dec_all(c);
    let (u, v) = (Complex::new(x[0].clone(), x[1].clone()), Complex::new(x[2].clone(), x[3].clone()));
    ctx.nontrivial(x.iter().all(|a| *a != T::m_zero()));
    let (a, b) = (rotation(&u), rotation(&v));
    same!(rotation(&(u.clone() + v.clone())), a.clone() + b.clone(), "{n} sum of {u:?} and {v:?}");
    same!(rotation(&(u.clone() - v.clone())), a.clone() - b.clone(), "{n} difference of {u:?} and {v:?}");
    same!(rotation(&(u.clone() * v.clone())), &a * &b, "{n} product of {u:?} and {v:?}");
    same!(rotation(&(&v * &u)), b.clone() * a.clone(), "{n} product of {v:?} and {u:?}");
    same!(rotation(&-u.clone()), -a.clone(), "{n} negative of {u:?}");
    same!(rotation::<T>(&Complex::one()), SMatrix::<T, 2, 2>::one(), "{n} one");
    same!(rotation::<T>(&Complex::zero()), SMatrix::<T, 2, 2>::zero(), "{n} zero");
    let (mut z, mut m) = (u.clone(), a.clone());
    for step in 0..6 {
        match (c[4] >> (4 * step)) & 3 {
            0 => { z *= v.clone(); m *= &b }
            1 => { z += &v; m += b.clone() }
            2 => { z -= v.clone(); m -= &b }
            _ => { z = z.mul_refs(&u); m = m.mul_refs(&a) }
        }
        same!(rotation(&z), m, "{n} step {step} of updates with {u:?} and {v:?}");
    }
    // the column of the number, multiplied by the matrix of the factor
    let col = SVector::from([v.re.clone(), v.im.clone()]);
    let p = &u * &v;
    same!(&a * &col, SVector::from([p.re.clone(), p.im.clone()]), "{n} matrix of {u:?} times column of {v:?}");
    // the square of the modulus is the dot product of the column with itself
    same!(v.sqr_norm(), col.clone() * &col, "{n} square of the modulus of {v:?}");
    same!(u == v, a == b, "{n} equality of {u:?} and {v:?}");
    Ok(())
}
/// Complex matrices and vectors as real ones of twice the size.
fn complex_matrices<T: Elem>(c: &((usize, usize, usize), Seed, Seed), ctx: &mut Ctx) -> Res
where
    Complex<T>: Elem,
{
    let ((r, k, s), p, q) = *c;
    let n = T::NAME;
    let get = |r: usize, k: usize, s: Seed| {
        let w: Vec<T> = words(&(2 * r * k, s));
        Mat::from_fn(r, k, |i, j| Complex::new(w[2 * (i * k + j)].clone(), w[2 * (i * k + j) + 1].clone()))
    };
    let (a, b) = (get(r, k, p), get(k, s, q));
    ctx.nontrivial(r * k * s > 1);
    let (a, b) = (dm(&a), dm(&b));
    let real = |m: &DMatrix<Complex<T>>| {
        let (r, k) = (m.num_rows(), m.num_cols());
        make_matrix_expr(2 * r, 2 * k, |i, j| {
            let z = m[[i % r, j % k]].clone();
            match (i < r, j < k) {
                (true, true) | (false, false) => z.re,
                (true, false) => -z.im,
                (false, true) => z.im,
            }
        })
        .eval()
    };
    let (x, y) = (real(&a), real(&b));
    same!(real(&(&a * &b).eval()), (&x * &y).eval(), "{n} product of complex {r}x{k} and {k}x{s} matrices");
    same!(real(&a.h().eval()), x.h().map(|t| t.conj()).eval(), "{n} Hermitian transpose of a complex {r}x{k} matrix");
    let a2 = get(r, k, q);
    let a2 = dm(&a2);
    same!(real(&(&a + &a2).eval()), (&x + &real(&a2)).eval(), "{n} sum of complex {r}x{k} matrices");
    same!(real(&(&a - &a2).eval()), (&x - &real(&a2)).eval(), "{n} difference of complex {r}x{k} matrices");
    let (mut z, mut w) = (a.clone(), x.clone());
    z -= &a2;
    w -= &real(&a2);
    z += a.t().t();
    w += &x;
    same!(real(&z), w, "{n} updates of a complex {r}x{k} matrix");
    // inner products
    let (u, v) = (a, a2);
    let (u, v) = (entries(&u), entries(&v));
    let z = dv(&u) * dv(&v);
    // the library conjugates the left factor: real entries as they are
    let re = |v: &[Complex<T>]| v.iter().map(|z| z.re.clone()).collect::<Vec<T>>();
    let im = |v: &[Complex<T>]| v.iter().map(|z| z.im.clone()).collect::<Vec<T>>();
    let cat = |a: Vec<T>, b: Vec<T>| dv(&a.into_iter().chain(b).collect::<Vec<T>>());
    let neg = |v: Vec<T>| v.into_iter().map(|x| -x).collect::<Vec<T>>();
    if T::NAME != "Quat" {
        same!(z.re, cat(re(&u), im(&u)) * cat(re(&v), im(&v)), "{n} real part of an inner product of {} components", u.len());
        same!(z.im, cat(re(&u), im(&u)) * cat(im(&v), neg(re(&v))), "{n} imaginary part of an inner product of {} components", u.len());
    }
    // as the product of a row and a column
    let row = (&column(&u).h().eval() * &column(&v)).eval();
    same!((row.num_rows(), row.num_cols()), (1, 1), "{n} shape of row times column");
    same!(row[[0, 0]], z, "{n} inner product of {} components as a product of matrices", u.len());
    Ok(())
}

// ---- polynomials and matrices --------------------------------------------

/// The matrix of the multiplication by a polynomial (from the left).
fn toeplitz<T: Elem>(a: &[T], cols: usize) -> DMatrix<T> {
    make_matrix_expr(a.len() + cols - 1, cols, |i, j| if i >= j && i - j < a.len() { a[i - j].clone() } else { T::m_zero() }).eval()
}
fn products<T: Elem>(c: &(Words, Words, Words), ctx: &mut Ctx) -> Res {
    let n = T::NAME;
    let (a, b, d): (Vec<T>, Vec<T>, Vec<T>) = (words(&c.0), words(&c.1), words(&c.2));
    let (la, lb, ld) = (a.len(), b.len(), d.len());
    ctx.nontrivial(la > 1 && lb > 1);
    let what = format!("{n} factors of {la}, {lb} and {ld} coefficients");
    let (p, q, r) = (pl(&a), pl(&b), pl(&d));
    let prod = (&toeplitz(&a, lb) * &column(&b)).eval();
    same!(&p * &q, pl(&entries(&prod)), "{what}: product and matrix times column");
    same!(p.clone() * q.clone(), pl(&entries(&prod)), "{what}: product by value");
    let three = (&(&toeplitz(&a, lb + ld - 1) * &toeplitz(&b, ld)).eval() * &column(&d)).eval();
    same!(&(&p * &q) * &r, pl(&entries(&three)), "{what}: product of three");
    same!(&p * &(&q * &r), pl(&entries(&three)), "{what}: product of three, right to left");
    let mut z = p.clone();
    z *= q.clone();
    z *= r.clone();
    same!(z, pl(&entries(&three)), "{what}: products in place");
    // sums are sums of vectors
    let m = la.max(lb);
    let pad = |v: &[T]| v.iter().cloned().chain(zeros(m)).take(m).collect::<Vec<T>>();
    let (u, v) = (dv(&pad(&a)), dv(&pad(&b)));
    same!(p.clone() + q.clone(), pl(&list(&(&u + &v).eval())), "{what}: sum");
    same!(p.clone() - q.clone(), pl(&list(&(&u - &v).eval())), "{what}: difference");
    same!(q.clone() - p.clone(), pl(&list(&(&v - &u).eval())), "{what}: difference, exchanged");
    same!(p == q, u == v, "{what}: equality");
    let mut z = p.clone();
    z += &q;
    z += q.clone();
    let mut w = u.clone();
    w += &v;
    w += &v;
    same!(z, pl(&list(&w)), "{what}: sums in place");
    let mut z = q.clone();
    z -= &p;
    z -= p.clone();
    let mut w = v.clone();
    w -= &u;
    w -= &u;
    same!(z, pl(&list(&w)), "{what}: differences in place");
    // values at many points are the row of coefficients times a matrix of powers
    let points: Vec<T> = b.iter().take(8).cloned().collect();
    let powers: Vec<Vec<T>> = points.iter().map(|x| std::iter::successors(Some(T::m_one()), |y| Some(y.mul_refs(x))).take(la).collect()).collect();
    if !points.is_empty() {
        let vander = make_matrix_expr(la, points.len(), |i, j| powers[j][i].clone()).eval();
        let values = (&column(&a).t().eval() * &vander).eval();
        for (j, x) in points.iter().enumerate() {
            same!(p.eval_ref(x), values[[0, j]], "{what}: value at {x:?} and row times matrix of powers");
            same!(p.eval(x.clone()), values[[0, j]], "{what}: value at {x:?}, by value");
        }
    }
    Ok(())
}
/// Static matrices of powers, dot products of coefficients and powers.
fn static_products<T: Elem, const N: usize>(c: &(Vec<i64>, Vec<i64>), ctx: &mut Ctx) -> Res {
    let n = T::NAME;
    let (a, b): (Vec<T>, Vec<T>) = (dec_all(&c.0), dec_all(&c.1));
    ctx.nontrivial(N > 1 && a.iter().any(|x| *x != T::m_zero()));
    // N coefficients of the right factor, the first N of the product
    let m: SMatrix<T, N, N> = SMatrix::from(std::array::from_fn(|i| std::array::from_fn(|j| if i >= j { a[i - j].clone() } else { T::m_zero() })));
    let w: SMatrix<T, N, N> = SMatrix::from(std::array::from_fn(|i| std::array::from_fn(|j| if i >= j { b[i - j].clone() } else { T::m_zero() })));
    let col = SVector::<T, N>::from(std::array::from_fn(|i| b[i].clone()));
    let head = &m * &col;
    let low: Vec<T> = head.into_iter().collect();
    // the rest of the product is a multiple of x^N
    let tail = toeplitz(&a[..N], N);
    let all = entries(&(&tail * &column(&b[..N])).eval());
    same!(low, all[..N].to_vec(), "{n} first {N} coefficients of a product, static and dynamic");
    same!(&pl(&a[..N]) * &pl(&b[..N]), pl(&all), "{n} product of two polynomials with {N} coefficients");
    // truncated products form a ring of triangular matrices
    let mut first = SVector::<T, N>::zero();
    first[0] = T::m_one();
    same!(&(&m * &w) * &first, SVector::from(<[T; N]>::try_from(low.clone()).unwrap()), "{n} product of triangular {N}x{N} matrices");
    same!((m.clone() - w.clone()) * (m.clone() + w.clone()), &m * &m + &m * &w - &w * &m - &w * &w, "{n} difference times sum of {N}x{N} matrices");
    let x = &a[N];
    let powers: Vec<T> = std::iter::successors(Some(T::m_one()), |y| Some(y.mul_refs(x))).take(N).collect();
    let dot = SVector::<T, N>::from(std::array::from_fn(|i| b[i].clone())) * SVector::from(<[T; N]>::try_from(powers).unwrap());
    same!(pl(&b[..N]).eval_ref(x), dot, "{n} value at {x:?} and dot product with {N} powers");
    Ok(())
}
/// A monic polynomial vanishes at its companion matrix, and the matrix goes on
/// with the linear recurrence.
fn companion<T: Elem, const N: usize>(c: &(Vec<i64>, Vec<i64>), ctx: &mut Ctx) -> Res {
    let n = T::NAME;
    let (a, start): (Vec<T>, Vec<T>) = (dec_all(&c.0), dec_all(&c.1));
    let (a, start) = (&a[..N], &start[..N]);
    ctx.nontrivial(N > 1 && a.iter().any(|x| *x != T::m_zero()));
    let m: SMatrix<T, N, N> = SMatrix::from(std::array::from_fn(|i| {
        std::array::from_fn(|j| if i + 1 == j { T::m_one() } else if i + 1 == N { -a[j].clone() } else { T::m_zero() })
    }));
    let scalar = |x: &T| SMatrix::<T, N, N>::from(std::array::from_fn(|i| std::array::from_fn(|j| if i == j { x.clone() } else { T::m_zero() })));
    let coefs: Vec<SMatrix<T, N, N>> = a.iter().map(scalar).chain([SMatrix::one()]).collect();
    let f = Polynomial::from_coefficients(coefs.clone());
    same!(f.eval_ref(&m), SMatrix::zero(), "{n} value of x^{N} + {a:?} at its companion matrix");
    same!(f.clone().eval(m.clone()), SMatrix::zero(), "{n} value of x^{N} + {a:?} at its companion matrix, by value");
    // multiples vanish too, over commutative rings
    let g = Polynomial::from_coefficients(start.iter().map(scalar).collect());
    same!((&f * &g).eval_ref(&m), SMatrix::zero(), "{n} value of a multiple of x^{N} + {a:?} at the companion matrix");
    same!((&f * &g + g.clone()).eval_ref(&m), g.eval_ref(&m), "{n} value of a residue");
    // the recurrence
    let mut s = start.to_vec();
    let mut v = SVector::<T, N>::from(<[T; N]>::try_from(start.to_vec()).unwrap());
    for _ in 0..2 * N {
        v = &m * &v;
        let k = s.len();
        let y = (0..N).fold(T::m_zero(), |y, j| y - a[j].mul_refs(&s[k - N + j]));
        s.push(y);
        let got: Vec<T> = (&v).into_iter().cloned().collect();
        same!(got, s[k + 1 - N..].to_vec(), "{n} linear recurrence of {a:?} from {start:?}");
    }
    // dynamic powers
    let d = make_matrix_expr(N, N, |i, j| if i + 1 == j { T::m_one() } else if i + 1 == N { -a[j].clone() } else { T::m_zero() }).eval();
    let mut power = DMatrix::<T>::eye(N).eval();
    let mut sum = DMatrix::<T>::zeros(N, N).eval();
    for x in a.iter().chain([&T::m_one()]) {
        sum += power.clone().wrap().map(|y| x.mul_refs(&y));
        power = (&power * &d).eval();
    }
    same!(sum, DMatrix::<T>::zeros(N, N).eval(), "{n} x^{N} + {a:?} at its companion matrix, dynamic");
    Ok(())
}

// ---- blocks ---------------------------------------------------------------

fn entry<T: Elem, const R: usize, const C: usize>(m: &SMatrix<T, R, C>) -> Mat<T> {
    let cols: Vec<SVector<T, R>> = (0..C).map(|j| m * &SVector::from(std::array::from_fn::<T, C, _>(|k| if k == j { T::m_one() } else { T::m_zero() }))).collect();
    Mat::from_fn(R, C, |i, j| cols[j][i].clone())
}
fn blocks<T: Elem, const N: usize, const B: usize, const F: usize>(c: &(Vec<i64>, Vec<i64>), ctx: &mut Ctx) -> Res
where
    SMatrix<T, B, B>: Base + Conj,
{
    assert!(N * B == F);
    let n = T::NAME;
    ctx.nontrivial(F > 1);
    let (x, y): (Vec<T>, Vec<T>) = (dec_all(&c.0), dec_all(&c.1));
    let nest = |x: &[T]| SMatrix::<SMatrix<T, B, B>, N, N>::from(std::array::from_fn(|i| std::array::from_fn(|j| SMatrix::from(std::array::from_fn(|k| std::array::from_fn(|l| x[(i * B + k) * F + j * B + l].clone()))))));
    let flat = |x: &[T]| SMatrix::<T, F, F>::from(std::array::from_fn(|i| std::array::from_fn(|j| x[i * F + j].clone())));
    let dynamic = |x: &[T]| make_matrix_expr(N, N, |i, j| SMatrix::<T, B, B>::from(std::array::from_fn(|k| std::array::from_fn(|l| x[(i * B + k) * F + j * B + l].clone())))).eval();
    let back = |m: &SMatrix<T, F, F>| entry(m).d;
    let (a, b, p, q, d, e) = (nest(&x), nest(&y), flat(&x), flat(&y), dynamic(&x), dynamic(&y));
    let what = format!("{n} {N}x{N} matrices of {B}x{B} blocks");
    let prod = back(&(&p * &q));
    same!(&a * &b, nest(&prod), "{what}: product");
    same!((&d * &e).eval(), dynamic(&prod), "{what}: dynamic product");
    let other = back(&(q.clone() * p.clone()));
    same!(b.clone() * a.clone(), nest(&other), "{what}: product exchanged");
    same!(a.clone() + &b, nest(&back(&(p.clone() + &q))), "{what}: sum");
    same!(a.clone() - &b, nest(&back(&(p.clone() - &q))), "{what}: difference");
    same!(-a.clone(), nest(&back(&-p.clone())), "{what}: negative");
    same!((&d - &e).eval(), dynamic(&back(&(p.clone() - &q))), "{what}: dynamic difference");
    same!(SMatrix::<SMatrix<T, B, B>, N, N>::one(), nest(&entry(&SMatrix::<T, F, F>::one()).d), "{what}: one");
    let (mut z, mut w, mut v) = (a.clone(), p.clone(), d.clone());
    z *= &b;
    w *= &q;
    z += &a;
    w += &p;
    z -= b.clone();
    w -= q.clone();
    v = (&v * &e).eval();
    v += &d;
    v -= &e;
    same!(z, nest(&back(&w)), "{what}: updates");
    same!(v, dynamic(&back(&w)), "{what}: dynamic updates");
    same!(a == b, p == q, "{what}: equality");
    // a polynomial with blocks as coefficients at a block
    let coefs: Vec<SMatrix<T, F, F>> = vec![p.clone(), q.clone(), &p * &q];
    let f = Polynomial::from_coefficients(coefs).eval_ref(&q);
    let g = Polynomial::from_coefficients(vec![a.clone(), b.clone(), &a * &b]).eval_ref(&b);
    same!(g, nest(&back(&f)), "{what}: value of a polynomial");
    Ok(())
}

// ---- exchanged nesting ------------------------------------------------------

/// Points that commute with everything.
fn central<T: Elem>(n: usize) -> Vec<T> {
    std::iter::successors(Some(T::m_one()), |x| Some(x.m_add(&T::m_one()))).take(n).collect()
}
/// Complex polynomials and polynomials over complex numbers.
fn complex_polynomials<T: Elem>(c: &(Words, Words), ctx: &mut Ctx) -> Res
where
    Complex<T>: Elem,
    Polynomial<T>: Base,
{
    let n = T::NAME;
    let (a, b): (Vec<T>, Vec<T>) = (words(&(2 * c.0 .0, c.0 .1)), words(&(2 * c.1 .0, c.1 .1)));
    ctx.nontrivial(a.len() > 2 && b.len() > 2);
    let outer = |a: &[T]| Complex::new(pl(&a.iter().step_by(2).cloned().collect::<Vec<T>>()), pl(&a.iter().skip(1).step_by(2).cloned().collect::<Vec<T>>()));
    let inner = |a: &[T]| pl(&a.chunks(2).map(|z| Complex::new(z[0].clone(), z[1].clone())).collect::<Vec<_>>());
    let (u, v, p, q) = (outer(&a), outer(&b), inner(&a), inner(&b));
    let results = [
        ("sum", u.clone() + v.clone(), p.clone() + q.clone()),
        ("difference", u.clone() - v.clone(), p.clone() - q.clone()),
        ("product", &u * &v, &p * &q),
        ("product by value", v.clone() * u.clone(), q.clone() * p.clone()),
        ("negative", -u.clone(), -p.clone()),
    ];
    // as many points as there are coefficients (up to a limit) decide
    let points = central::<T>((a.len() + b.len()) / 2 + 1);
    for (what, z, f) in results {
        for x in points.iter().take(300) {
            let w = f.eval_ref(&Complex::new(x.clone(), T::m_zero()));
            same!(z.re.eval_ref(x), w.re, "{n} {what}: real part at {x:?}, {} and {} coefficients", a.len() / 2, b.len() / 2);
            same!(z.im.eval_ref(x), w.im, "{n} {what}: imaginary part at {x:?}, {} and {} coefficients", a.len() / 2, b.len() / 2);
        }
    }
    same!(u == v, p == q, "{n} equality");
    Ok(())
}
/// Matrices of polynomials and polynomials over matrices.
fn polynomial_matrices<T: Elem, const N: usize>(c: &(Words, Words), ctx: &mut Ctx) -> Res
where
    Polynomial<T>: Base,
{
    let n = T::NAME;
    let s = N * N;
    let (a, b): (Vec<T>, Vec<T>) = (words(&(s * c.0 .0, c.0 .1)), words(&(s * c.1 .0, c.1 .1)));
    ctx.nontrivial(c.0 .0 > 1 && c.1 .0 > 1);
    let outer = |a: &[T]| SMatrix::<Polynomial<T>, N, N>::from(std::array::from_fn(|i| std::array::from_fn(|j| pl(&a.iter().skip(i * N + j).step_by(s).cloned().collect::<Vec<T>>()))));
    let inner = |a: &[T]| Polynomial::from_coefficients(a.chunks(s).map(|m| SMatrix::<T, N, N>::from(std::array::from_fn(|i| std::array::from_fn(|j| m[i * N + j].clone())))).collect());
    let scalar = |x: &T| SMatrix::<T, N, N>::from(std::array::from_fn(|i| std::array::from_fn(|j| if i == j { x.clone() } else { T::m_zero() })));
    let (u, v, p, q) = (outer(&a), outer(&b), inner(&a), inner(&b));
    let results = [
        ("sum", u.clone() + &v, p.clone() + q.clone()),
        ("difference", u.clone() - &v, p.clone() - q.clone()),
        ("product", &u * &v, &p * &q),
        ("product by value", v.clone() * u.clone(), q.clone() * p.clone()),
        ("negative", -u.clone(), -p.clone()),
        ("square", &u * &u, &p * &p),
    ];
    let points = central::<T>(c.0 .0 * 2 + c.1 .0 + 1);
    for (what, z, f) in results {
        let columns: Vec<SVector<Polynomial<T>, N>> = (0..N).map(|j| &z * &SVector::from(std::array::from_fn::<Polynomial<T>, N, _>(|k| if k == j { Polynomial::one() } else { Polynomial::zero() }))).collect();
        for x in points.iter().take(60) {
            let w = entry(&f.eval_ref(&scalar(x)));
            for (j, col) in columns.iter().enumerate() {
                for i in 0..N {
                    same!(col[i].eval_ref(x), *w.at(i, j), "{n} {N}x{N} {what}: entry ({i}, {j}) at {x:?}");
                }
            }
        }
    }
    same!(u == v, p == q, "{n} {N}x{N} equality");
    Ok(())
}
/// Polynomials in two variables, and their values at a power of the first one.
fn kronecker<T: Elem>(c: &(usize, Words, Words), ctx: &mut Ctx) -> Res
where
    Polynomial<T>: Base,
{
    let n = T::NAME;
    let w = c.0;
    let (a, b): (Vec<T>, Vec<T>) = (words(&(w * c.1 .0, c.1 .1)), words(&(w * c.2 .0, c.2 .1)));
    ctx.nontrivial(w > 1 && c.1 .0 > 1 && c.2 .0 > 1);
    let nest = |a: &[T]| Polynomial::from_coefficients(a.chunks(w).map(|x| pl(x)).collect::<Vec<Polynomial<T>>>());
    // rows with room for the coefficients of products
    let flat = |a: &[T]| pl(&a.chunks(w).flat_map(|x| x.iter().cloned().chain(zeros(w))).collect::<Vec<T>>());
    let mut step = zeros::<T>(2 * w);
    step.push(T::m_one());
    let step = pl(&step);
    let (p, q, f, g) = (nest(&a), nest(&b), flat(&a), flat(&b));
    same!(p.eval_ref(&step), f, "{n} {} rows of {w} coefficients", c.1 .0);
    same!((&p * &q).eval_ref(&step), &f * &g, "{n} product, {} and {} rows of {w} coefficients", c.1 .0, c.2 .0);
    same!((q.clone() * p.clone()).eval(step.clone()), g.clone() * f.clone(), "{n} product exchanged");
    same!((p.clone() + q.clone()).eval_ref(&step), f.clone() + g.clone(), "{n} sum");
    same!((p.clone() - q.clone()).eval(step.clone()), f.clone() - g.clone(), "{n} difference");
    same!((-p.clone()).eval_ref(&step), -f.clone(), "{n} negative");
    same!(p == q, f == g, "{n} equality");
    Ok(())
}

// ---- vectors and diagonal or thin matrices ----------------------------------

fn diagonals<T: Elem>(c: &((usize, usize), Seed, Seed, Seed), ctx: &mut Ctx) -> Res {
    let n = T::NAME;
    let ((r, k), s, t, m) = *c;
    let (u, v, w): (Vec<T>, Vec<T>, Vec<T>) = (words(&(r, s)), words(&(r, t)), words(&(k, m)));
    let a: Vec<T> = words(&(r * k, m));
    ctx.nontrivial(r > 1 && k > 1);
    let (du, dv_, dw, da) = (dv(&u), dv(&v), dv(&w), dm(&Mat { r, c: k, d: a.clone() }));
    let what = format!("{n} {r}x{k}");
    let diag_u = du.diag().eval();
    let scaled = (&diag_u * &da).eval();
    same!(scaled, make_matrix_expr(r, k, |i, _| u[i].clone()).mul_elemwise(&da).eval(), "{what} diagonal times matrix");
    same!((&da * &dw.diag().eval()).eval(), da.mul_elemwise(make_matrix_expr(r, k, |_, j| w[j].clone())).eval(), "{what} matrix times diagonal");
    same!((&diag_u * &dv_.diag().eval()).eval(), du.mul_elemwise(&dv_).diag().eval(), "{what} product of diagonals");
    same!((&diag_u + &dv_.diag().eval()).eval(), (&du + &dv_).diag().eval(), "{what} sum of diagonals");
    same!(diag_u.diag().eval(), du, "{what} diagonal of a diagonal matrix");
    same!((&DMatrix::<T>::eye(r).eval() * &da).eval(), da, "{what} identity times matrix");
    same!((&da * &DMatrix::<T>::eye(k).eval()).eval(), da, "{what} matrix times identity");
    // a column and a row
    let outer = (&column(&u) * &column(&w).t().eval()).eval();
    same!(outer, make_matrix_expr(r, k, |i, j| u[i].mul_refs(&w[j])).eval(), "{what} column times row");
    same!((&da * &column(&w)).eval(), column(&list(&(0..r).map(|i| DVector::<T>::ones(k).map(|x| x).eval() * dv(&a[i * k..(i + 1) * k]).mul_elemwise(&dw).eval()).collect::<Vec<T>>().eval())), "{what} matrix times column");
    // sums of thin matrices and of vectors
    same!(entries(&(&column(&u) - &column(&v)).eval()), list(&(&du - &dv_).eval()), "{what} columns and vectors, difference");
    same!(entries(&(&column(&u).t().eval() + &column(&v).t().eval()).eval()), list(&(&du + &dv_).eval()), "{what} rows and vectors, sum");
    // the inner product is the product of the Hermitian row and the column
    let row = (&column(&u).h().eval() * &column(&v)).eval();
    same!(row[[0, 0]], &du * &dv_, "{what} inner product as a product of matrices");
    // all products of columns of a matrix at once
    let gram = (&da.h().eval() * &da).eval();
    for (i, j) in [(0, 0), (0, k - 1), (k / 2, k / 3), (k - 1, k / 2)] {
        let col = |j: usize| (0..r).map(|i| a[i * k + j].clone()).collect::<Vec<T>>();
        same!(gram[[i, j]], dv(&col(i)) * dv(&col(j)), "{what} product of columns {i} and {j}");
    }
    Ok(())
}

fn main() {
    let mut c = Check::start("C43");
    macro_rules! each { ($f:ident($arg:expr): $($t:ty, $cases:literal);*) => {$(
        c.sub(&format!("{} {}", stringify!($f).replace('_', " "), <$t as El>::NAME), $cases, $arg, $f::<$t>);
    )*}; }
    each!(complex_numbers(vec(elem(), 5)): Zp, 6000; Quat, 4000; Z6, 3000; M2, 3000; B2, 3000; Z2, 1000; Complex<Zp>, 3000; Wide<20>, 100);
    let small = || ((1usize..6, 1usize..8, 1usize..6), seed(), seed());
    each!(complex_matrices(small()): Zp, 2000; Z6, 800; Quat, 600);
    let shape = || ((rect(2000), medium()).prop_map(|((a, b), l)| (a, b, l.min(30_000 / (a * b)).max(1))), seed(), seed());
    c.sub("complex matrices Zp, shapes of all proportions", 60, shape(), complex_matrices::<Zp>);
    c.sub("complex matrices Quat, shapes of all proportions", 30, shape(), complex_matrices::<Quat>);
    let w = |n: usize| (1usize..n, seed());
    each!(products((w(12), w(12), w(8))): Zp, 2500; Quat, 1500; Z6, 1000; M2, 1000; B2, 1500; Complex<Zp>, 800; Wide<20>, 20);
    let long = |n: usize| (medium().prop_map(move |x| x.min(n)), seed());
    c.sub("long products Zp", 60, (long(300), long(300), w(8)), products::<Zp>);
    c.sub("long products Quat", 30, (long(200), long(200), w(8)), products::<Quat>);
    c.sub("long products Z6", 30, (long(200), long(200), w(8)), products::<Z6>);
    c.sweep("very long products Zp", 1, [(1500usize, 40usize), (30, 1800), (700, 720)].into_iter().map(|(a, b)| ((Just(a), seed()), (Just(b), seed()), (Just(2usize), seed()))), products::<Zp>);
    macro_rules! fixed { ($f:ident $cases:literal $t:ty: $($n:literal)*) => {$(
        c.sub(&format!("{} {} {}", stringify!($f).replace('_', " "), <$t as El>::NAME, $n), $cases, (elems($n + 1), elems($n + 1)), $f::<$t, $n>);
    )*}; }
    fixed!(static_products 400 Zp: 1 2 3 4 5 6 7 8 9 12 16 17);
    fixed!(static_products 300 Quat: 1 2 3 4 5 8 9);
    fixed!(static_products 300 B2: 2 3 4 8);
    fixed!(static_products 300 Z6: 2 3 4 8);
    fixed!(static_products 20 Zp: 32 33 48);
    fixed!(companion 300 Zp: 1 2 3 4 5 6 7 8 9);
    fixed!(companion 300 Z6: 1 2 3 4 5);
    fixed!(companion 200 Complex<Zp>: 1 2 3 4);
    fixed!(companion 300 Z2: 2 3 4 8);
    fixed!(companion 10 Zp: 12 16 17 24);
    macro_rules! block { ($cases:literal $t:ty: $($n:literal $b:literal $f:literal),*) => {$(
        c.sub(&format!("blocks {} {}x{}", <$t as El>::NAME, $n, $b), $cases, (elems($f * $f), elems($f * $f)), blocks::<$t, $n, $b, $f>);
    )*}; }
    block!(300 Zp: 1 1 1, 1 2 2, 2 1 2, 2 2 4, 2 3 6, 3 2 6, 4 2 8, 2 4 8, 3 3 9, 1 5 5, 5 1 5);
    block!(200 Quat: 2 2 4, 3 2 6, 2 3 6);
    block!(200 B2: 2 2 4, 2 3 6);
    block!(200 M2: 2 2 4);
    block!(20 Zp: 4 4 16, 8 2 16, 2 8 16, 3 6 18, 10 3 30, 3 11 33);
    each!(complex_polynomials((w(9), w(9))): Zp, 1500; Quat, 800; Z6, 500);
    c.sub("long complex polynomials Zp", 30, (long(130), long(130)), complex_polynomials::<Zp>);
    c.sub("long complex polynomials Quat", 10, (long(100), long(100)), complex_polynomials::<Quat>);
    macro_rules! square { ($cases:literal $t:ty: $($n:literal)*) => {$(
        c.sub(&format!("polynomial matrices {} {}", <$t as El>::NAME, $n), $cases, (w(6), w(6)), polynomial_matrices::<$t, $n>);
    )*}; }
    square!(300 Zp: 1 2 3 4);
    square!(150 Quat: 1 2 3);
    square!(200 Z6: 2 3);
    square!(20 Zp: 5 7 9);
    c.sub("long polynomial matrices Zp", 15, (long(80), long(80)), polynomial_matrices::<Zp, 2>);
    let rows = |n: usize| (1usize..n, seed());
    each!(kronecker((1usize..7, rows(7), rows(7))): Zp, 1500; Quat, 600; Z6, 800; M2, 500; B2, 800);
    c.sub("long kronecker Zp", 30, (medium().prop_map(|n| n.min(60)), rows(24), rows(24)), kronecker::<Zp>);
    let side = || ((1usize..9, 1usize..9), seed(), seed(), seed());
    each!(diagonals(side()): Zp, 2000; Quat, 1000; Z6, 600; M2, 800; B2, 600; Complex<Zp>, 800; Wide<20>, 20);
    c.sub("diagonals Zp, shapes of all proportions", 60, (rect(1500), seed(), seed(), seed()).prop_map(|((r, k), s, t, m)| ((r.min(150), k.min(150)), s, t, m)), diagonals::<Zp>);
    c.sub("diagonals Quat, shapes of all proportions", 30, (rect(800), seed(), seed(), seed()).prop_map(|((r, k), s, t, m)| ((r.min(90), k.min(90)), s, t, m)), diagonals::<Quat>);
    c.finish("relations between results for two structures (complex numbers and 2x2 matrices, complex and real matrices, polynomials and Toeplitz, Vandermonde, companion matrices, blocks and flat matrices, exchanged nestings, polynomials in two variables and in one, vectors and diagonal or thin matrices) over commutative and non-commutative rings; non-trivial: sizes above one and operands that are not zero");
}
