//! C33: floating-point vectors, matrices and polynomials are as accurate as
//! their definition.
use pbt::prelude::*;

// ---- entry-wise operations ----------------------------------------------

fn same<F: Fl>(what: &str, got: F, want: F) -> Res {
    ensure!(same_float(got, want), "{} {what}: got {got:?}, expected {want:?}", F::NAME);
    Ok(())
}
fn all<F: Fl>(what: &str, got: &[F], want: &[F]) -> Res {
    ensure_eq!(got.len(), want.len(), "{} {what}: number of entries", F::NAME);
    for i in 0..want.len() {
        same(&format!("{what} at {i}"), got[i], want[i])?;
    }
    Ok(())
}
type Bits = (usize, usize, Vec<u64>, Vec<u64>, u64);

macro_rules! real {
    ($($name:ident)*) => {
        trait Real: Fl + Ring + Conj + std::ops::AddAssign + std::ops::SubAssign + PartialEq {}
        $(impl Real for $name {})*
    };
}
real!(f32 f64);

/// Every entry-wise operation rounds once, as the native operation does.
fn entrywise<F: Real>(c: &Bits, ctx: &mut Ctx) -> Res {
    let (r, k) = (c.0, c.1);
    let n = r * k;
    let get = |v: &[u64]| (0..n).map(|i| F::from_raw(v[i % v.len()])).collect::<Vec<F>>();
    let (a, b) = (get(&c.2), get(&c.3));
    let odd = |x: &F| x.is_nan_() || !x.f().is_finite() || x.f() == 0.0;
    ctx.nontrivial(n > 1 && a != b);
    ctx.class("some entry is NaN, infinite or zero", a.iter().chain(&b).any(odd));
    let z = |f: fn(F, F) -> F| a.iter().zip(&b).map(|(x, y)| f(*x, *y)).collect::<Vec<F>>();
    let (add, sub, mul, div) = (z(|x, y| x + y), z(|x, y| x - y), z(|x, y| x * y), z(|x, y| x / y));
    let rsub = z(|x, y| y - x);
    // vectors
    let (u, v) = (dv(&a), dv(&b));
    all("u + v", &list(&(&u + &v).eval()), &add)?;
    all("u - v", &list(&(&u - &v).eval()), &sub)?;
    all("v - u", &list(&(v.clone().wrap() - &u).eval()), &rsub)?;
    all("u .* v", &list(&u.mul_elemwise(&v).eval()), &mul)?;
    all("u ./ v", &list(&u.div_elemwise(&v).eval()), &div)?;
    all("wrapped u .* v", &list(&u.wrap_().mul_elemwise(&v).eval()), &mul)?;
    all("wrapped u ./ v", &list(&u.wrap_().div_elemwise(&v).eval()), &div)?;
    all("conj u", &list(&u.conj().eval()), &a)?;
    let mut w = u.clone();
    w += &v;
    all("u += v", &list(&w), &add)?;
    let mut w = u.clone();
    w -= &v;
    all("u -= v", &list(&w), &sub)?;
    ensure_eq!(u == v, a == b, "{} equality of vectors", F::NAME);
    ensure_eq!(u == u.clone(), a.iter().all(|x| *x == *x), "{} equality of a vector with itself", F::NAME);
    // matrices
    let m = |d: &[F]| Mat { r, c: k, d: d.to_vec() };
    let (s, t) = (dm(&m(&a)), dm(&m(&b)));
    all("s + t", &table(&(&s + &t).eval()).d, &add)?;
    all("s - t", &table(&(&s - &t).eval()).d, &sub)?;
    all("s^T + t^T", &table(&(s.t() + t.t()).eval()).d, &m(&add).t().d)?;
    all("t^T - s^H", &table(&(t.t() - s.h()).eval()).d, &m(&rsub).t().d)?;
    all("s .* t", &table(&s.mul_elemwise(&t).eval()).d, &mul)?;
    all("s ./ t", &table(&s.div_elemwise(&t).eval()).d, &div)?;
    all("wrapped s^T ./ t^T", &table(&s.t().div_elemwise(t.t()).eval()).d, &m(&div).t().d)?;
    let mut w = s.clone();
    w += &t;
    all("s += t", &table(&w).d, &add)?;
    let mut w = s.clone();
    w -= &t;
    all("s -= t", &table(&w).d, &sub)?;
    ensure_eq!(s == t, a == b, "{} equality of matrices", F::NAME);
    ensure_eq!(s == s.clone(), a.iter().all(|x| *x == *x), "{} equality of a matrix with itself", F::NAME);
    // polynomials: the same up to the sign of zeros
    let p = |d: &[F]| Polynomial::from_coefficients(d.iter().map(|x| Fx::res(*x)).collect());
    let q = |d: &[F]| Polynomial::from_coefficients(d.iter().map(|x| Fx { v: *x, tol: 0.0 }).collect());
    let neg: Vec<F> = a.iter().map(|x| -*x).collect();
    for (what, got, want) in [("p + q", p(&a) + p(&b), &add), ("p - q", p(&a) - p(&b), &sub), ("-p", -p(&a), &neg)] {
        ensure!(got == q(want), "{} {what}: got {got:?}, expected {want:?}", F::NAME);
    }
    let mut w = p(&a);
    w += &p(&b);
    ensure!(w == q(&add), "{} p += &q: got {w:?}, expected {add:?}", F::NAME);
    let mut w = p(&a);
    w += p(&b);
    ensure!(w == q(&add), "{} p += q: got {w:?}, expected {add:?}", F::NAME);
    let mut w = p(&a);
    w -= &p(&b);
    ensure!(w == q(&sub), "{} p -= &q: got {w:?}, expected {sub:?}", F::NAME);
    Ok(())
}
trait WrapRef {
    type W;
    fn wrap_(self) -> Self::W;
}
impl<'a, T: Clone> WrapRef for &'a DVector<T> {
    type W = VectorExprWrapper<&'a DVector<T>>;
    fn wrap_(self) -> Self::W { self.wrap() }
}

fn arr<T: Clone + std::fmt::Debug, const R: usize, const C: usize>(m: &[T]) -> [[T; C]; R] {
    let mut it = m.iter().cloned();
    [(); R].map(|_| [(); C].map(|_| it.next().unwrap()))
}
fn entrywise_static<F: Real, const R: usize, const C: usize, const N: usize>(c: &(Vec<u64>, Vec<u64>, u64), ctx: &mut Ctx) -> Res {
    let get = |v: &[u64]| (0..N).map(|i| F::from_raw(v[i % v.len()])).collect::<Vec<F>>();
    let (a, b, s) = (get(&c.0), get(&c.1), F::from_raw(c.2));
    ctx.nontrivial(N > 1 && a != b);
    let z = |f: &dyn Fn(F, F) -> F| a.iter().zip(&b).map(|(x, y)| f(*x, *y)).collect::<Vec<F>>();
    let (add, sub, scaled) = (z(&|x, y| x + y), z(&|x, y| x - y), z(&|x, _| x * s));
    // matrices
    let m = |d: &[F]| SMatrix::<Fx<F>, R, C>::from(arr(&d.iter().map(|x| Fx::res(*x)).collect::<Vec<_>>()));
    let e = |d: &[F]| SMatrix::<Fx<F>, R, C>::from(arr(&d.iter().map(|x| Fx::exactly(*x)).collect::<Vec<_>>()));
    let neg: Vec<F> = a.iter().map(|x| -*x).collect();
    let (mut x, mut y) = (m(&a), m(&a));
    x += &m(&b);
    y -= &m(&b);
    let (mut x2, mut y2) = (m(&a), m(&a));
    x2 += m(&b);
    y2 -= m(&b);
    for (what, got, want) in [
        ("a + b", m(&a) + m(&b), &add), ("a + &b", m(&a) + &m(&b), &add), ("a += &b", x, &add), ("a += b", x2, &add),
        ("a - b", m(&a) - m(&b), &sub), ("a - &b", m(&a) - &m(&b), &sub), ("a -= &b", y, &sub), ("a -= b", y2, &sub),
        ("-a", -m(&a), &neg), ("conj a", m(&a).conj(), &a),
    ] {
        ensure!(got == e(want), "{} {R}x{C} {what}: got {got:?}, expected {want:?}", F::NAME);
    }
    let f = |d: &[F]| SMatrix::<F, R, C>::from(arr(d));
    ensure_eq!(f(&a) == f(&b), a == b, "{} {R}x{C} equality", F::NAME);
    ensure_eq!(f(&a) == f(&a), a.iter().all(|x| *x == *x), "{} {R}x{C} equality with itself", F::NAME);
    // vectors
    let v = |d: &[F]| SVector::<F, N>::from(<[F; N]>::try_from(d.to_vec()).unwrap());
    let l = |v: SVector<F, N>| (0..N).map(|i| v[i]).collect::<Vec<F>>();
    let (mut x, mut y, mut w) = (v(&a), v(&a), v(&a));
    x += &v(&b);
    y -= &v(&b);
    w *= &s;
    all("u + v", &l(v(&a) + v(&b)), &add)?;
    all("u += &v", &l(x), &add)?;
    all("u - v", &l(v(&a) - v(&b)), &sub)?;
    all("u -= &v", &l(y), &sub)?;
    all("u * s", &l(v(&a) * s), &scaled)?;
    all("u *= &s", &l(w), &scaled)
}

// ---- products -------------------------------------------------------------

/// Exact value of sum of a_i b_i and the size of its terms.
fn dot(t: impl Iterator<Item = (f64, f64)>) -> (f64, f64, usize) {
    let (mut s, mut size, mut n) = (Dd::default(), 0.0, 0);
    for (a, b) in t {
        s.add_product(a, b);
        size += (a * b).abs();
        n += 1;
    }
    (s.value(), size, n)
}
/// Rounding n products and adding them in any order.
fn bound<F: Fl>(size: f64, n: usize) -> f64 {
    (n as f64 + 2.0) * (F::EPS * size + if F::EPS > 1e-10 { 2e-45 } else { 5e-324 })
}
fn within<F: Fl>(what: &str, got: F, (want, size, n): (f64, f64, usize)) -> Res {
    let tol = bound::<F>(size, n) + want.abs() * F::EPS;
    ensure!(near(got.f(), want, tol), "{} {what}: got {got:?}, expected {want:?} within {tol:e} ({n} terms, {} of the size of the terms off)", F::NAME, (got.f() - want).abs() / size);
    Ok(())
}
fn expected<F: Fl>((want, size, n): (f64, f64, usize)) -> Fx<F> {
    Fx::near(want, bound::<F>(size, n))
}

/// Values for a product: a list of parts, or a seed for larger ones.
type Vals = (Vec<f64>, u64, u8);
fn vals<F: Fl>(v: &Vals, n: usize) -> Vec<F> {
    let mut s = v.1;
    let e = F::SAFE_EXP as f64;
    (0..n)
        .map(|i| {
            if i < v.0.len() {
                return F::of(v.0[i]);
            }
            let u = splitmix(&mut s) as f64 / 2f64.powi(64);
            let sign = if splitmix(&mut s) & 1 == 0 { 1.0 } else { -1.0 };
            F::of(match v.2 % 6 {
                0 => sign * (1.0 + u),
                1 => sign * u,
                2 => sign * ((u - 0.5) * 2.0 * e).exp2(),
                3 => 1.0 + u,
                // large entries that cancel
                4 => (1.0 + (i / 2) as f64) * if i % 2 == 0 { 1e4 } else { -1e4 } + u * 1e-3,
                _ => if u < 0.8 { 0.0 } else { sign * u },
            })
        })
        .collect()
}
type Prod = ((usize, usize, usize), Vals, Vals);

fn products<F: Real>(c: &Prod, ctx: &mut Ctx) -> Res {
    let (l, m, n) = c.0;
    let a: Mat<F> = Mat { r: l, c: m, d: vals(&c.1, l * m) };
    let b: Mat<F> = Mat { r: m, c: n, d: vals(&c.2, m * n) };
    ctx.nontrivial(m > 1 && a.d.iter().any(|x| x.f().fract() != 0.0) && b.d.iter().any(|x| x.f() != 0.0));
    ctx.class("more than 100 terms", m > 100);
    let want = |i: usize, j: usize| dot((0..m).map(|k| (a.at(i, k).f(), b.at(k, j).f())));
    ctx.class("cancellation", l * n > 0 && { let w = want(0, 0); w.0.abs() < w.1 * 1e-3 });
    let (da, db) = (dm(&a), dm(&b));
    if m > 0 {
        let p = (&da * &db).eval();
        ensure_eq!((p.num_rows(), p.num_cols()), (l, n), "shape of the product");
        for i in 0..l {
            for j in 0..n {
                within(&format!("{l}x{m} times {m}x{n}, entry ({i}, {j})"), p[[i, j]], want(i, j))?;
            }
        }
        // the transposed product
        let (ta, tb) = (da.t().eval(), db.t().eval());
        let q = (&tb * &ta).eval();
        for i in 0..l {
            for j in 0..n {
                within(&format!("transposed product, entry ({j}, {i})"), q[[j, i]], want(i, j))?;
            }
        }
    }
    // first row with first column
    if l > 0 && n > 0 {
        let u: Vec<F> = (0..m).map(|k| *a.at(0, k)).collect();
        let v: Vec<F> = (0..m).map(|k| *b.at(k, 0)).collect();
        within("u * v", &dv(&u) * &dv(&v), want(0, 0))?;
        within("v * u", dv(&v) * dv(&u), want(0, 0))?;
        let sq = dot(u.iter().map(|x| (x.f(), x.f())));
        let uu = &dv(&u) * &dv(&u);
        within("u * u", uu, sq)?;
        ensure!(uu.f() >= 0.0, "{} u * u is {uu:?}", F::NAME);
    }
    Ok(())
}
fn products_static<F: Real, const L: usize, const M: usize, const N: usize>(c: &(Vals, Vals), ctx: &mut Ctx) -> Res {
    let a: Mat<F> = Mat { r: L, c: M, d: vals(&c.0, L * M) };
    let b: Mat<F> = Mat { r: M, c: N, d: vals(&c.1, M * N) };
    ctx.nontrivial(M > 1 && a.d.iter().any(|x| x.f().fract() != 0.0) && b.d.iter().any(|x| x.f() != 0.0));
    let fx = |m: &Mat<F>| m.d.iter().map(|x| Fx::res(*x)).collect::<Vec<_>>();
    let sa = || SMatrix::<Fx<F>, L, M>::from(arr(&fx(&a)));
    let sb = || SMatrix::<Fx<F>, M, N>::from(arr(&fx(&b)));
    let want = |i: usize, j: usize| dot((0..M).map(|k| (a.at(i, k).f(), b.at(k, j).f())));
    let w: Vec<Fx<F>> = (0..L * N).map(|p| expected(want(p / N, p % N))).collect();
    let w = SMatrix::<Fx<F>, L, N>::from(arr(&w));
    for (what, got) in [("a * b", sa() * sb()), ("&a * &b", &sa() * &sb())] {
        ensure!(got == w, "{} {L}x{M}x{N} {what}: got {got:?}, expected {w:?}", F::NAME);
    }
    if L > 0 && N > 0 {
        // matrix and vector, vector and vector
        let col: Vec<F> = (0..M).map(|k| *b.at(k, 0)).collect();
        let row: Vec<F> = (0..M).map(|k| *a.at(0, k)).collect();
        let v = |d: &[F]| SVector::<F, M>::from(<[F; M]>::try_from(d.to_vec()).unwrap());
        let p = &SMatrix::<F, L, M>::from(arr(&a.d)) * &v(&col);
        for i in 0..L {
            within(&format!("{L}x{M} times vector, component {i}"), p[i], want(i, 0))?;
        }
        within("u * v", v(&row) * v(&col), want(0, 0))?;
        within("u * &v", v(&row) * &v(&col), want(0, 0))?;
    }
    Ok(())
}

/// Complex entries: both components, each within the size of its own terms.
fn complex<F: Real>(c: &Prod, ctx: &mut Ctx) -> Res {
    let (l, m, n) = c.0;
    let cx = |v: Vec<F>| v.chunks(2).map(|z| Complex { re: z[0], im: z[1] }).collect::<Vec<_>>();
    let a = Mat { r: l, c: m, d: cx(vals(&c.1, 2 * l * m)) };
    let b = Mat { r: m, c: n, d: cx(vals(&c.2, 2 * m * n)) };
    ctx.nontrivial(m > 1 && l * n > 0);
    let want = |x: &[Complex<F>], y: &[Complex<F>], s: f64| {
        let t = |f: fn(&Complex<F>, &Complex<F>) -> [(f64, f64); 2]| {
            let mut v = vec![];
            for (x, y) in x.iter().zip(y) {
                v.extend(f(&Complex { re: x.re, im: F::of(s * x.im.f()) }, y));
            }
            dot(v.into_iter())
        };
        (t(|x, y| [(x.re.f(), y.re.f()), (-x.im.f(), y.im.f())]), t(|x, y| [(x.re.f(), y.im.f()), (x.im.f(), y.re.f())]))
    };
    let row = |i: usize| (0..m).map(|k| a.at(i, k).clone()).collect::<Vec<_>>();
    let col = |j: usize| (0..m).map(|k| b.at(k, j).clone()).collect::<Vec<_>>();
    if m > 0 {
        let p = (&dm(&a) * &dm(&b)).eval();
        for i in 0..l {
            for j in 0..n {
                let (re, im) = want(&row(i), &col(j), 1.0);
                within(&format!("complex product, real part of ({i}, {j})"), p[[i, j]].re, re)?;
                within(&format!("complex product, imaginary part of ({i}, {j})"), p[[i, j]].im, im)?;
            }
        }
    }
    if l * n > 0 {
        let (re, im) = want(&row(0), &col(0), -1.0);
        for p in [&dv(&row(0)) * &dv(&col(0)), dv(&row(0)) * dv(&col(0))] {
            within("complex u * v, real part", p.re, re)?;
            within("complex u * v, imaginary part", p.im, im)?;
        }
    }
    Ok(())
}

fn coefficients<F: Real>(a: &[F], b: &[F]) -> Vec<(f64, f64, usize)> {
    let n = (a.len() + b.len()).saturating_sub(1);
    (0..n).map(|k| dot((0..=k).filter(|i| *i < a.len() && k - i < b.len()).map(|i| (a[i].f(), b[k - i].f())))).collect()
}
fn polynomials<F: Real>(c: &(usize, usize, Vals, Vals), ctx: &mut Ctx) -> Res {
    let (a, b): (Vec<F>, Vec<F>) = (vals(&c.2, c.0), vals(&c.3, c.1));
    ctx.nontrivial(c.0 > 1 && c.1 > 1);
    let p = |d: &[F]| Polynomial::from_coefficients(d.iter().map(|x| Fx::res(*x)).collect());
    let w = if c.0 * c.1 == 0 { vec![] } else { coefficients(&a, &b).into_iter().map(expected).collect::<Vec<Fx<F>>>() };
    let want = Polynomial::from_coefficients(w);
    let mut x = p(&a);
    x *= p(&b);
    for (what, got) in [("p * q", p(&a) * p(&b)), ("q * p", p(&b) * p(&a)), ("&p * &q", &p(&a) * &p(&b)), ("p *= q", x)] {
        ensure!(got == want, "{} {what}: got {got:?}, expected {want:?}", F::NAME);
    }
    Ok(())
}

// ---- infinities and NaN ---------------------------------------------------

/// What the sum of these terms is, in any order of summation.
fn kind(t: impl Iterator<Item = (f64, f64)>) -> (f64, f64) {
    let (mut s, mut pos, mut neg, mut nan) = (0.0, false, false, false);
    for (a, b) in t {
        let p = a * b;
        nan |= p.is_nan();
        pos |= p == f64::INFINITY;
        neg |= p == f64::NEG_INFINITY;
        if p.is_finite() { s += p; }
    }
    let v = if nan || pos && neg { f64::NAN } else if pos { f64::INFINITY } else if neg { f64::NEG_INFINITY } else { s };
    (v, 0.0)
}
const ODD: [f64; 12] = [0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 0.5, 3.0, 4.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
fn odd<F: Fl>(v: &[u8], n: usize) -> Vec<F> {
    (0..n).map(|i| F::of(ODD[v[i] as usize % 12])).collect()
}
fn nonfinite<F: Real>(c: &((usize, usize, usize), Vec<u8>, Vec<u8>), ctx: &mut Ctx) -> Res {
    let (l, m, n) = c.0;
    let a: Mat<F> = Mat { r: l, c: m, d: odd(&c.1, l * m) };
    let b: Mat<F> = Mat { r: m, c: n, d: odd(&c.2, m * n) };
    let want = |i: usize, j: usize| kind((0..m).map(|k| (a.at(i, k).f(), b.at(k, j).f()))).0;
    let all_: Vec<f64> = (0..l * n).map(|p| want(p / n, p % n)).collect();
    ctx.nontrivial(all_.iter().any(|x| !x.is_finite()) && m > 1);
    ctx.class("infinite", all_.iter().any(|x| x.is_infinite()));
    ctx.class("zero times infinity", (0..l * n * m).any(|q| { let (x, y) = (a.at(q / n / m, q % m).f(), b.at(q % m, q / m % n).f()); x == 0.0 && y.is_infinite() || y == 0.0 && x.is_infinite() }));
    let ok = |what: &str, got: F, want: f64| -> Res {
        ensure!(got.is_nan_() && want.is_nan() || got.f() == want, "{} {what}: got {got:?}, expected {want:?} from {a:?} and {b:?}", F::NAME);
        Ok(())
    };
    if m > 0 {
        let p = (&dm(&a) * &dm(&b)).eval();
        for i in 0..l {
            for j in 0..n {
                ok(&format!("entry ({i}, {j}) of the product"), p[[i, j]], want(i, j))?;
            }
        }
    }
    if l * n > 0 {
        let u: Vec<F> = (0..m).map(|k| *a.at(0, k)).collect();
        let v: Vec<F> = (0..m).map(|k| *b.at(k, 0)).collect();
        ok("u * v", &dv(&u) * &dv(&v), want(0, 0))?;
        // polynomials without zeros at the top
        let top = |mut d: Vec<F>| { while d.last().is_some_and(|x| x.f() == 0.0) { d.pop(); } d };
        let (x, y) = (top(u), top(v));
        if !x.is_empty() && !y.is_empty() {
            let p = |d: &[F]| Polynomial::from_coefficients(d.iter().map(|x| Fx::res(*x)).collect());
            let w = (0..x.len() + y.len() - 1).map(|k| {
                let v = kind((0..=k).filter(|i| *i < x.len() && k - i < y.len()).map(|i| (x[i].f(), y[k - i].f()))).0;
                Fx { v: F::of(v), tol: 0.0 }
            }).collect::<Vec<Fx<F>>>();
            let w = Polynomial::from_coefficients(w);
            for got in [&p(&x) * &p(&y), p(&x) * p(&y)] {
                ensure!(got == w, "{} product of {x:?} and {y:?}: got {got:?}, expected {w:?}", F::NAME);
            }
        }
    }
    Ok(())
}
fn nonfinite_static<F: Real, const L: usize, const M: usize, const N: usize>(c: &(Vec<u8>, Vec<u8>), ctx: &mut Ctx) -> Res {
    let a: Mat<F> = Mat { r: L, c: M, d: odd(&c.0, L * M) };
    let b: Mat<F> = Mat { r: M, c: N, d: odd(&c.1, M * N) };
    let want = |i: usize, j: usize| kind((0..M).map(|k| (a.at(i, k).f(), b.at(k, j).f()))).0;
    ctx.nontrivial(!want(0, 0).is_finite());
    let fx = |m: &Mat<F>| m.d.iter().map(|x| Fx::res(*x)).collect::<Vec<_>>();
    let sa = || SMatrix::<Fx<F>, L, M>::from(arr(&fx(&a)));
    let sb = || SMatrix::<Fx<F>, M, N>::from(arr(&fx(&b)));
    let w: Vec<Fx<F>> = (0..L * N).map(|p| Fx { v: F::of(want(p / N, p % N)), tol: 0.0 }).collect();
    let w = SMatrix::<Fx<F>, L, N>::from(arr(&w));
    for (what, got) in [("a * b", sa() * sb()), ("&a * &b", &sa() * &sb())] {
        ensure!(got == w, "{} {L}x{M}x{N} {what}: got {got:?}, expected {w:?}", F::NAME);
    }
    let col: Vec<F> = (0..M).map(|k| *b.at(k, 0)).collect();
    let row: Vec<F> = (0..M).map(|k| *a.at(0, k)).collect();
    let v = |d: &[F]| SVector::<F, M>::from(<[F; M]>::try_from(d.to_vec()).unwrap());
    let p = &SMatrix::<F, L, M>::from(arr(&a.d)) * &v(&col);
    let ok = |what: &str, got: F, want: f64| -> Res {
        ensure!(got.is_nan_() && want.is_nan() || got.f() == want, "{} {what}: got {got:?}, expected {want:?} from {a:?} and {b:?}", F::NAME);
        Ok(())
    };
    for i in 0..L {
        ok(&format!("component {i} of matrix times vector"), p[i], want(i, 0))?;
    }
    ok("u * v", v(&row) * v(&col), want(0, 0))
}

fn main() {
    let mut c = Check::start("C33");
    fn bits<F: Fl>() -> BoxedStrategy<u64> {
        let specials = move |k: u8| {
            let x = [0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1.0, -1.0, 3.0, 1.0 / 3.0, 1e-3][k as usize];
            if F::EPS > 1e-10 { (x as f32).to_bits() as u64 } else { x.to_bits() }
        };
        let e = F::SAFE_EXP;
        prop_oneof![
            2 => any::<u64>().prop_map(|b| if F::EPS > 1e-10 { b & 0xffff_ffff } else { b }),
            4 => part(e).prop_map(|x| if F::EPS > 1e-10 { (x as f32).to_bits() as u64 } else { x.to_bits() }),
            2 => (0u8..10).prop_map(specials),
        ].boxed()
    }
    macro_rules! floats {
        ($($f:ident)*) => {$({
            let n = stringify!($f);
            let b = || vec(bits::<$f>(), 1..50);
            c.sub(&format!("entry-wise {n}"), 12000, (0..7usize, 0..7usize, b(), b(), bits::<$f>()), entrywise::<$f>);
            c.sub(&format!("entry-wise {n}, larger"), 300, (0..40usize, 0..40usize, b(), b(), bits::<$f>()), entrywise::<$f>);
            c.sub(&format!("entry-wise {n}, shapes of all proportions"), 40, (rect(10_000), b(), b(), bits::<$f>()).prop_map(|((r, k), x, y, s)| (r, k, x, y, s)), entrywise::<$f>);
            c.sub(&format!("entry-wise static {n} 2x3"), 3000, (b(), b(), bits::<$f>()), entrywise_static::<$f, 2, 3, 6>);
            c.sub(&format!("entry-wise static {n} 4x4"), 3000, (b(), b(), bits::<$f>()), entrywise_static::<$f, 4, 4, 16>);
            c.sub(&format!("entry-wise static {n} 1x9"), 2000, (b(), b(), bits::<$f>()), entrywise_static::<$f, 1, 9, 9>);
            c.sub(&format!("entry-wise static {n} 5x1"), 2000, (b(), b(), bits::<$f>()), entrywise_static::<$f, 5, 1, 5>);
            let v = || (prop_oneof![2 => vec(part(<$f as Fl>::SAFE_EXP / 2), 0..40), 1 => Just(vec![])], any::<u64>(), 0u8..6);
            c.sub(&format!("products {n}"), 8000, ((0..6usize, 0..9usize, 0..6usize), v(), v()), products::<$f>);
            c.sub(&format!("products {n}, larger"), 200, ((0..24usize, 0..60usize, 0..24usize), v(), v()), products::<$f>);
            c.sub(&format!("products {n}, shapes of all proportions"), 60, ((rect(4000), medium()).prop_map(|((m, k), l)| (m, k, l.min(100_000 / (m * k)).max(1))), v(), v()), products::<$f>);
            c.sweep(&format!("products {n}, every inner dimension"), 2, (0..=140usize).chain([200, 255, 256, 257, 500, 1000, 1024, 4096, 10000]).map(|m| ((Just(2usize), Just(m), Just(2usize)), v(), v())), products::<$f>);
            macro_rules! shapes { ($l:literal $m:literal $k:literal) => {
                c.sub(&format!("static products {n} {}x{}x{}", $l, $m, $k), 2500, (v(), v()), products_static::<$f, $l, $m, $k>);
            };}
            shapes!(1 1 1); shapes!(2 2 2); shapes!(3 3 3); shapes!(4 4 4); shapes!(2 3 4); shapes!(3 7 1); shapes!(1 16 2); shapes!(8 8 8);
            c.sub(&format!("complex products {n}"), 6000, ((0..5usize, 0..7usize, 0..5usize), v(), v()), complex::<$f>);
            c.sub(&format!("polynomial products {n}"), 6000, (0..12usize, 0..12usize, v(), v()), polynomials::<$f>);
            c.sub(&format!("polynomial products {n}, longer"), 150, (0..150usize, 0..150usize, v(), v()), polynomials::<$f>);
            c.sub(&format!("polynomial products {n}, lengths of all proportions"), 50, (medium(), medium(), v(), v()), polynomials::<$f>);
            c.sweep(&format!("polynomial products {n}, very long"), 1, [(1000usize, 1100usize), (4, 5000), (2100, 30), (1025, 1024)].into_iter().map(|(a, b)| (Just(a), Just(b), v(), v())), polynomials::<$f>);
            macro_rules! shapes { ($l:literal $m:literal $k:literal) => {
                c.sub(&format!("static products {n} {}x{}x{}", $l, $m, $k), 40, (v(), v()), products_static::<$f, $l, $m, $k>);
            };}
            shapes!(16 16 16); shapes!(2 100 2); shapes!(33 20 9); shapes!(1 33 1); shapes!(1 300 1); shapes!(40 3 40); shapes!(34 34 34);
            c.sub(&format!("entry-wise static {n} 17x9"), 100, (b(), b(), bits::<$f>()), entrywise_static::<$f, 17, 9, 153>);
            c.sub(&format!("entry-wise static {n} 1x130"), 100, (b(), b(), bits::<$f>()), entrywise_static::<$f, 1, 130, 130>);
            c.sub(&format!("entry-wise static {n} 34x34"), 20, (b(), b(), bits::<$f>()), entrywise_static::<$f, 34, 34, 1156>);
            let o = |n: usize| vec(prop_oneof![9 => 0u8..9, 1 => 9u8..12, 2 => 0u8..2], n);
            c.sub(&format!("infinities and NaN {n}"), 12000, (0..4usize, 0..8usize, 0..4usize).prop_flat_map(move |d| (Just(d), o(d.0 * d.1), o(d.1 * d.2))), nonfinite::<$f>);
            macro_rules! shapes { ($l:literal $m:literal $k:literal) => {
                c.sub(&format!("infinities and NaN, static {n} {}x{}x{}", $l, $m, $k), 1500, (o($l * $m), o($m * $k)), nonfinite_static::<$f, $l, $m, $k>);
            };}
            shapes!(1 1 1); shapes!(2 2 2); shapes!(3 3 3); shapes!(4 4 4); shapes!(2 3 4); shapes!(3 7 1);
        })*};
    }
    floats!(f32 f64);
    c.finish("f32 and f64 vectors, matrices (dynamic and static) and polynomials: entry-wise operations on all floats against the native operation, sign of zero included; products against a sum of twice the precision, within the rounding of the terms; products with zeros, infinities and NaN; non-trivial: several entries, operands that differ, a non-finite result where that is tested");
}
