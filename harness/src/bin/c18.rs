//! C18: the dynamic matrix product follows its definition.
use pbt::prelude::*;

type Case = ((usize, usize, usize, usize), Vec<i64>, Vec<i64>, Vec<i64>, Vec<i64>);

fn take<T: El>(raw: &[i64], r: usize, c: usize) -> Mat<T> {
    Mat { r, c, d: dec_all(&raw[..r * c]) }
}
/// Compares a product with its table. For inner dimension 0 a panic is the
/// known finding; a value must be right all the same.
fn same<T: ModelRing>(what: &str, inner: usize, e: impl MatrixExpr<Entry = T>, want: &Mat<T>) -> Res {
    ensure_eq!((e.num_rows(), e.num_cols()), (want.r, want.c), "{what}: shape");
    if inner == 0 && want.r * want.c > 0 {
        return match catch(|| agree(what, e, want)) {
            Ok(r) => r,
            Err(_) => Ok(()),
        };
    }
    agree(what, e, want)
}

fn check<T: ModelRing + Ring + Conj>(case: &Case, ctx: &mut Ctx) -> Res
where
    T: std::ops::Add<Output = T> + std::ops::Mul<Output = T> + std::ops::AddAssign,
{
    let (m, k, l, n) = case.0;
    let (a, a2) = (take::<T>(&case.1, m, k), take::<T>(&case.2, m, k));
    let (b, x) = (take::<T>(&case.3, k, l), take::<T>(&case.4, l, n));
    let b2 = Mat { r: k, c: l, d: b.d.iter().rev().cloned().collect() };
    ctx.nontrivial(m * k * l > 1 && a.d.iter().any(|x| *x != T::m_zero()) && b.d.iter().any(|x| *x != T::m_zero()));
    ctx.class("single row, column or inner dimension", m == 1 || k == 1 || l == 1);
    ctx.class("empty", m * l == 0);
    ctx.class("inner dimension 0", k == 0);
    let name = |x: &str| format!("{} {m}x{k} by {k}x{l}: {x}", T::NAME);
    let (da, da2, db, db2, dx) = (dm(&a), dm(&a2), dm(&b), dm(&b2), dm(&x));
    let p = a.mul(&b);
    same(&name("a * b"), k, &da * &db, &p)?;
    if m == k && m * m * m <= 1 << 25 {
        same(&name("a * a"), k, &da * &da, &a.mul(&a))?;
    }
    stored(&name("left factor"), &da, &a)?;
    stored(&name("right factor"), &db, &b)?;
    if k == 0 {
        return Ok(());
    }
    // identity on both sides, zero
    let eval = |x: &DMatrix<T>, y: &DMatrix<T>| (x * y).eval();
    if m.max(k) <= 1100 && m * k * m.max(k) <= 1 << 25 {
        same(&name("1 * a"), m, &DMatrix::<T>::eye(m).eval() * &da, &a)?;
        same(&name("a * 1"), k, &da * &DMatrix::<T>::eye(k).eval(), &a)?;
    }
    same(&name("0 * b"), k, &DMatrix::<T>::zeros(m, k).eval() * &db, &p.map(|_| T::m_zero()))?;
    // distributivity (relations within the library)
    let sum = (&da + &da2).eval();
    let (u, v) = (eval(&da, &db), eval(&da2, &db));
    ensure_eq!(eval(&sum, &db), (&u + &v).eval(), "{}", name("(a + a2) b = a b + a2 b"));
    let sum = (&db + &db2).eval();
    let w = eval(&da, &db2);
    ensure_eq!(eval(&da, &sum), (&u + &w).eval(), "{}", name("a (b + b2) = a b + a b2"));
    // associativity
    if l > 0 {
        ensure_eq!(eval(&u, &dx), eval(&da, &eval(&db, &dx)), "{} x {l}x{n}", name("(a b) x = a (b x)"));
    }
    Ok(())
}
/// Over commutative rings the transpose reverses the product.
fn commutative<T: ModelRing + Ring + Conj>(case: &Case, ctx: &mut Ctx) -> Res
where
    T: std::ops::Add<Output = T> + std::ops::Mul<Output = T> + std::ops::AddAssign,
{
    check::<T>(case, ctx)?;
    let (m, k, l, _) = case.0;
    if k == 0 {
        return Ok(());
    }
    let (da, db) = (dm(&take::<T>(&case.1, m, k)), dm(&take::<T>(&case.3, k, l)));
    let (at, bt) = (da.t().eval(), db.t().eval());
    let u = (&da * &db).eval();
    ensure_eq!((&bt * &at).eval(), u.t().eval(), "{} (ab)^T = b^T a^T, {m}x{k} by {k}x{l}", T::NAME);
    let (ah, bh) = (da.h().eval(), db.h().eval());
    ensure_eq!((&bh * &ah).eval(), u.h().eval(), "{} (ab)^H = b^H a^H, {m}x{k} by {k}x{l}", T::NAME);
    Ok(())
}

/// Against the static product.
macro_rules! fixed {
    ($c:ident: $($m:literal $k:literal $n:literal),*) => {$(
        $c.sub(&format!("static {}x{}x{}", $m, $k, $n), 40, (elems($m * $k), elems($k * $n)), |raw, ctx| {
            let (a, b) = (take::<Quat>(&raw.0, $m, $k), take::<Quat>(&raw.1, $k, $n));
            ctx.nontrivial(true);
            let mut it = a.d.iter().cloned();
            let sa = SMatrix::<Quat, $m, $k>::from([(); $m].map(|_| [(); $k].map(|_| it.next().unwrap())));
            let mut it = b.d.iter().cloned();
            let sb = SMatrix::<Quat, $k, $n>::from([(); $k].map(|_| [(); $n].map(|_| it.next().unwrap())));
            let p = (&dm(&a) * &dm(&b)).eval();
            let q: SMatrix<Quat, $m, $n> = sa * sb;
            let mut it = table(&p).d.into_iter();
            let p = SMatrix::<Quat, $m, $n>::from([(); $m].map(|_| [(); $n].map(|_| it.next().unwrap())));
            ensure!(p == q, "dynamic product {p:?}, static product {q:?}");
            Ok(())
        });
    )*};
}

fn shapes(d: (usize, usize, usize, usize)) -> BoxedStrategy<Case> {
    let (m, k, l, n) = d;
    (Just(d), elems(m * k), elems(m * k), elems(k * l), elems(l * n)).boxed()
}
fn any_shape(max: usize) -> BoxedStrategy<Case> {
    (size(max), size(max), size(max), size(max)).prop_flat_map(shapes).boxed()
}

fn main() {
    let mut c = Check::start("C18");
    let probe = || {
        let (a, b) = (make_matrix_expr(2, 0, |_, _| 1i64).eval(), make_matrix_expr(0, 3, |_, _| 1i64).eval());
        catch(|| (&a * &b).eval()).is_err()
    };
    c.known_finding(
        "inner-dimension-0",
        "the product of an m x 0 and a 0 x n dynamic matrix with m, n > 0 panics when it is evaluated, instead of being the zero matrix",
        probe(),
    );
    c.sub("random shapes, Quat", 2500, any_shape(20), check::<Quat>);
    c.sub("random shapes, Z2", 2500, any_shape(20), check::<Z2>);
    c.sub("random shapes, Z6", 2500, any_shape(20), check::<Z6>);
    c.sub("random shapes, B2", 1000, any_shape(20), check::<B2>);
    c.sub("random shapes, M2", 1500, any_shape(20), check::<M2>);
    c.sub("random shapes, Nil", 300, any_shape(20), check::<Nil>);
    c.sub("random shapes, Wide<1>", 300, any_shape(16), check::<Wide<1>>);
    c.sub("random shapes, Wide<20>", 60, any_shape(12), check::<Wide<20>>);
    c.sub("random shapes, Wide<70>", 40, any_shape(10), check::<Wide<70>>);
    c.sub("random shapes, Wide<1100>", 6, any_shape(5), check::<Wide<1100>>);
    c.sub("random shapes, Complex<Zp>", 2500, any_shape(20), commutative::<Complex<Zp>>);
    c.sub("random shapes, i128", 1000, any_shape(12), commutative::<i128>);
    let mut all = vec![];
    for m in 0..=8usize {
        for k in 0..=8usize {
            for l in 0..=8usize {
                all.push((m, k, l, (m + 2 * k + l) % 4 + 1));
            }
        }
    }
    let mut wide = vec![];
    for n in (9..=70usize).chain([100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025]) {
        wide.extend([(1, n, 1, 1), (2, n, 3, 1), (n, 1, 2, 2), (1, 2, n, 1)]);
    }
    for n in [9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 48, 63, 64, 65] {
        wide.extend([(n, n, n, 1), (n, n - 1, n + 1, 1), (n + 1, n, n - 1, 2)]);
    }
    wide.extend([(1, 65537, 1, 1), (65537, 1, 1, 1), (1, 1, 65537, 1), (257, 2, 256, 1)]);
    c.sweep("every small shape, Quat", 2, all.clone().into_iter().map(shapes), check::<Quat>);
    c.sweep("every small shape, Complex<Zp>", 1, all.into_iter().map(shapes), commutative::<Complex<Zp>>);
    c.sweep("larger shapes, Complex<Zp>", 1, wide.into_iter().map(shapes), commutative::<Complex<Zp>>);
    fixed!(c: 1 1 1, 1 4 1, 2 3 2, 3 2 4, 4 4 4, 1 5 3, 5 1 2, 6 7 5, 8 8 8, 9 8 7, 16 17 3);
    let big = [(1usize, 1_100_003usize, 1usize, 1usize), (2, 131_073, 3, 1), (129, 129, 129, 2), (1025, 3, 1023, 1), (1, 1025, 1025, 1), (1025, 1025, 1, 1), (600, 1, 600, 1), (70_003, 2, 3, 1), (3, 2, 70_003, 1)];
    let expanded = |c: &((usize, usize, usize, usize), Seed, Seed), ctx: &mut Ctx| {
        let (m, k, l, n) = c.0;
        let e = |s: u64, mode: u8, n: usize| expand(s, mode, n);
        commutative::<Complex<Zp>>(&(c.0, e(c.1 .0, c.1 .1, m * k), e(c.1 .0 ^ 5, 0, m * k), e(c.2 .0, c.2 .1, k * l), e(c.2 .0 ^ 5, 0, l * n)), ctx)
    };
    c.sweep("products of very large matrices", 1, [(200usize, 190usize, 210usize), (257, 256, 255), (256, 257, 257), (300, 300, 300), (513, 511, 512), (1025, 65, 1024), (65, 1025, 63), (65, 63, 1025)].into_iter().map(|d| (Just(d), seed(), seed())), |c, ctx| {
        let (m, k, l) = c.0;
        ctx.nontrivial(true);
        let (a, b) = (take::<Zp>(&expand(c.1 .0, c.1 .1, m * k), m, k), take::<Zp>(&expand(c.2 .0, c.2 .1, k * l), k, l));
        let (da, db) = (dm(&a), dm(&b));
        let p = &da * &db;
        let want = a.mul(&b);
        for i in 0..l.min(m) {
            ensure_eq!(p.entry(i, l - 1 - i), *want.at(i, l - 1 - i), "entry ({i}, {}) of {m}x{k} by {k}x{l}", l - 1 - i);
        }
        stored(&format!("product {m}x{k} by {k}x{l}"), &p.eval(), &want)
    });
    c.sweep("very large shapes, Complex<Zp>", 1, big.into_iter().map(|d| (Just(d), seed(), seed())), expanded);
    c.sub("shapes of all proportions, Complex<Zp>", 100, ((rect(4000), medium(), 1usize..3), seed(), seed()).prop_map(|(((m, k), l, n), a, b)| ((m, k, l.min(200_000 / (m * k)).max(1), n), a, b)), expanded);
    let quats = |c: &((usize, usize, usize, usize), Seed, Seed), ctx: &mut Ctx| {
        let (m, k, l, n) = c.0;
        check::<Quat>(&(c.0, expand(c.1 .0, c.1 .1, m * k), expand(c.1 .0 ^ 5, 0, m * k), expand(c.2 .0, c.2 .1, k * l), expand(c.2 .0 ^ 5, 0, l * n)), ctx)
    };
    c.sub("shapes of all proportions, Quat", 60, ((rect(4000), medium(), 1usize..3), seed(), seed()).prop_map(|(((m, k), l, n), a, b)| ((m, k, l.min(50_000 / (m * k)).max(1), n), a, b)), quats);
    c.sweep("larger shapes, Quat", 1, [(1usize, 1025usize, 1usize, 1usize), (2, 4097, 3, 1), (3, 600, 1, 2), (1, 70_003, 1, 1), (600, 2, 3, 1), (3, 2, 600, 1), (33, 35, 34, 2), (65, 64, 63, 1)].into_iter().map(|d| (Just(d), seed(), seed())), quats);
    c.sub("large shapes, Complex<Zp>", 6, ((large(9), large(9), large(9), 1usize..3), seed(), seed()).prop_map(|((m, k, l, n), a, b)| ((m / 4, k / 4, l / 4, n), a, b)), expanded);
    c.finish("matrices of random and swept shapes over rings with non-commutative products, zero divisors and conjugation; product against the definition, read by entry and evaluated, static product, identity, zero, distributivity, associativity, transposes; non-trivial: both factors are non-zero and the triple of sizes is not 1x1x1");
}
