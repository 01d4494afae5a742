//! C16: constructors and structural views denote the stated matrices.
use pbt::prelude::*;

fn check<T: ModelRing + Ring + Conj>(raw: &RawMat, ctx: &mut Ctx) -> Res {
    let (r, c) = (raw.0, raw.1);
    let m: Mat<T> = Mat { r, c, d: dec_all(&raw.2) };
    ctx.nontrivial(r * c > 1 && m.d.iter().any(|x| *x != m.d[0]));
    ctx.class("empty", r * c == 0);
    ctx.class("not square", r != c);
    let name = |x: &str| format!("{} {r}x{c}: {x}", T::NAME);
    let f = |i: usize, j: usize| m.d[i * c + j].clone();
    agree(&name("function"), make_matrix_expr(r, c, f), &m)?;
    let d = make_matrix_expr(r, c, f).eval();
    agree(&name("owned"), d.clone(), &m)?;
    agree(&name("borrowed"), &d, &m)?;
    agree(&name("wrapped"), d.clone().wrap(), &m)?;
    agree(&name("wrapped twice"), (&d).wrap().wrap(), &m)?;
    // constants
    let z = T::m_zero();
    let v = m.d.last().cloned().unwrap_or_else(|| T::dec(5));
    agree(&name("same"), DMatrix::same(r, c, v.clone()), &m.map(|_| v.clone()))?;
    agree(&name("zeros"), DMatrix::<T>::zeros(r, c), &m.map(|_| z.clone()))?;
    agree(&name("ones"), DMatrix::<T>::ones(r, c), &m.map(|_| T::m_one()))?;
    if r <= 1100 {
        agree(&name("eye"), DMatrix::<T>::eye(r), &Mat::eye(r))?;
    }
    // views
    let t = m.t();
    let h = t.map(|x| x.m_conj());
    agree(&name("t"), d.t(), &t)?;
    agree(&name("t of expression"), make_matrix_expr(r, c, f).t(), &t)?;
    agree(&name("t of t"), d.t().t(), &m)?;
    agree(&name("h"), d.h(), &h)?;
    agree(&name("h of expression"), make_matrix_expr(r, c, f).h(), &h)?;
    agree(&name("h of h"), d.h().h(), &m)?;
    agree(&name("t of h"), d.h().t(), &m.map(|x| x.m_conj()))?;
    agree(&name("h of t"), d.t().h(), &m.map(|x| x.m_conj()))?;
    agree(&name("t of eval of t"), d.t().eval().t(), &m)?;
    let diag: Vec<T> = (0..r.min(c)).map(|i| m.at(i, i).clone()).collect();
    agree_vec(&name("diag"), d.diag(), &diag)?;
    agree_vec(&name("diag of expression"), make_matrix_expr(r, c, f).diag(), &diag)?;
    agree_vec(&name("diag of t"), d.t().diag(), &diag)?;
    let n = diag.len();
    let dd = Mat::from_fn(n, n, |i, j| if i == j { diag[i].clone() } else { z.clone() });
    agree(&name("diag of diag"), d.diag().diag(), &dd)?;
    agree(&name("diag of stored diag"), d.diag().eval().diag(), &dd)?;
    agree_vec(&name("diag of diag of diag"), d.diag().diag().diag(), &diag)?;
    agree(&name("t of diag of diag"), d.diag().diag().t(), &dd)?;
    // map and zip
    let g = |x: &T| x.m_mul(x).m_sub(&v);
    agree(&name("map"), (&d).wrap().map(|x| g(&x)), &m.map(g))?;
    agree(&name("map to another type"), (&d).wrap().map(|x| Some((1u8, x))), &m.map(|x| Some((1u8, x.clone()))))?;
    let o = Mat::from_fn(r, c, |i, j| (i, j));
    agree(&name("zip"), (&d).wrap().zip(make_matrix_expr(r, c, |i, j| (i, j))), &m.zip(&o, |x, y| (x.clone(), *y)))?;
    agree(&name("zip with t"), d.t().zip(d.h()), &t.zip(&h, |x, y| (x.clone(), y.clone())))?;
    stored(&name("source"), &d, &m)?;
    // a stored matrix is the same whatever it was made from
    ensure_eq!(d.t().t().eval(), d, "{}", name("equality with t of t"));
    ensure_eq!(d.t().eval() == d, r == c && t.d == m.d, "{}", name("equality with t"));
    Ok(())
}

/// Shapes with very many entries, expanded from seeds.
fn large_shape<T: ModelRing + Ring + Conj>(c: &(usize, usize, Seed), ctx: &mut Ctx) -> Res {
    check::<T>(&(c.0, c.1, expand(c.2 .0, c.2 .1, c.0 * c.1)), ctx)
}

/// Vectors as diagonals.
fn vector(raw: &Vec<i64>, ctx: &mut Ctx) -> Res {
    let v: Vec<Quat> = dec_all(raw);
    let n = v.len();
    ctx.nontrivial(n > 1);
    let want = Mat::from_fn(n, n, |i, j| if i == j { v[i].clone() } else { Quat::m_zero() });
    let d = dv(&v);
    agree("diag of stored vector", d.diag(), &want)?;
    agree("diag of slice", v.as_slice().wrap().diag(), &want)?;
    agree("diag of function", make_vector_expr(n, |i| v[i].clone()).diag(), &want)?;
    agree("diag of conj", d.conj().diag(), &want.map(|x| x.m_conj()))?;
    agree_vec("diag of diag", d.diag().diag(), &v)?;
    stored_vec("source", &d, &v)
}

/// Diagonal matrices of vectors too long to be evaluated: some entries.
fn long(c: &(usize, u64), ctx: &mut Ctx) -> Res {
    let (n, mut s) = *c;
    ctx.nontrivial(true);
    let f = move |i: usize| (i as i64).wrapping_mul(3) + 1;
    let d = make_vector_expr(n, f).eval();
    let m = d.diag();
    ensure_eq!((m.num_rows(), m.num_cols()), (n, n), "shape of the diagonal matrix");
    let mut picks = vec![(n - 1, n - 1), (0, 0), (0, n - 1), (n - 1, 0)];
    for e in [8u32, 16] {
        let k = 1usize << e;
        for i in [0, 1, k - 1] {
            picks.extend([(i, i + k), (i + k, i), (i + k, i + k), (i + k, i + k + 1)]);
        }
    }
    for _ in 0..40 {
        let (i, j) = (splitmix(&mut s) as usize % n, splitmix(&mut s) as usize % n);
        picks.extend([(i, j), (i, i), (i, (i + 1) % n), ((i + 1) % n, i)]);
    }
    for (i, j) in picks {
        if i < n && j < n {
            ensure_eq!(m.entry(i, j), if i == j { f(i) } else { 0 }, "entry ({i}, {j}) of the diagonal matrix of a vector of length {n}");
        }
    }
    agree_vec("diagonal of the diagonal matrix", d.diag().diag(), &(0..n).map(f).collect::<Vec<_>>())?;
    // tall and wide matrices
    let g = |i: usize, j: usize| (i * 5 + j) as i64;
    let m = Mat::from_fn(n, 2, g);
    agree("transpose of a tall matrix", make_matrix_expr(n, 2, g).t(), &m.t())?;
    agree("transpose of a wide matrix", make_matrix_expr(2, n, |i, j| g(j, i)).t(), &m)
}

macro_rules! arrays {
    ($c:ident $t:ty, $cases:literal: $($r:literal $k:literal),*) => {$(
        $c.sub(&format!("array {} {}x{}", <$t as El>::NAME, $r, $k), $cases, elems($r * $k), |raw, ctx| {
            let m: Mat<$t> = Mat { r: $r, c: $k, d: dec_all(raw) };
            let mut it = m.d.iter().cloned();
            let a: [[$t; $k]; $r] = [(); $r].map(|_| [(); $k].map(|_| it.next().unwrap()));
            ctx.nontrivial(m.d.len() > 1);
            agree("nested array", a.clone(), &m)?;
            agree("wrapped nested array", a.clone().wrap(), &m)?;
            agree("t of nested array", a.clone().wrap().t(), &m.t())?;
            agree("h of nested array", a.clone().wrap().h(), &m.t().map(|x| x.m_conj()))?;
            agree_vec("diag of nested array", a.clone().wrap().diag(), &(0..$r.min($k)).map(|i| m.at(i, i).clone()).collect::<Vec<_>>())?;
            agree("map of nested array", a.clone().wrap().map(|x| -x), &m.map(|x| x.m_neg()))?;
            agree("zip of nested arrays", a.clone().wrap().zip(a.clone()), &m.map(|x| (x.clone(), x.clone())))?;
            agree("nested array evaluated twice", a.eval().eval(), &m)
        });
    )*};
}

fn main() {
    let mut c = Check::start("C16");
    c.sub("random shapes, Quat", 1500, mat(24), check::<Quat>);
    c.sub("random shapes, Z2", 1500, mat(24), check::<Z2>);
    c.sub("random shapes, Complex<Zp>", 1500, mat(24), check::<Complex<Zp>>);
    c.sub("random shapes, i64", 500, mat(24), check::<i64>);
    c.sub("random shapes, Nil", 300, mat(24), check::<Nil>);
    c.sub("random shapes, Wide<1>", 200, mat(24), check::<Wide<1>>);
    c.sub("random shapes, Wide<20>", 50, mat(16), check::<Wide<20>>);
    c.sub("random shapes, Wide<70>", 30, mat(12), check::<Wide<70>>);
    c.sub("random shapes, Wide<1100>", 6, mat(6), check::<Wide<1100>>);
    let mut all: Vec<(usize, usize)> = (0..=12).flat_map(|r| (0..=12).map(move |k| (r, k))).collect();
    all.extend((13..=70).flat_map(|n| [(n, 1), (1, n), (n, n.min(20)), (n.min(20), n)]));
    all.extend([(63, 63), (64, 64), (65, 65), (64, 65), (65, 64), (100, 100), (128, 3), (3, 128), (1, 255), (1, 256), (1, 257), (256, 1), (257, 1), (255, 2), (2, 300), (300, 2), (1, 1000), (1025, 1), (1, 1025), (4097, 1), (1, 4097), (0, 300), (300, 0), (257, 257), (256, 258), (65537, 1), (1, 65537)]);
    let l = all.clone();
    c.sweep("every shape, Complex<Zp>", 2, l.into_iter().map(|(r, k)| mat_of(r, k)), check::<Complex<Zp>>);
    c.sweep("every shape, Quat", 1, all.into_iter().map(|(r, k)| mat_of(r, k)), check::<Quat>);
    c.sub("views of long vectors, some entries", 40, (300..200_000usize, any::<u64>()), long);
    c.sub("vectors", 1500, vecs(40), vector);
    c.sweep("vectors, every length", 2, (0..=70usize).chain([100, 127, 128, 129, 200, 255, 256, 257]).map(elems), vector);
    let big = |l: &[(usize, usize)]| l.iter().map(|&(r, k)| (Just(r), Just(k), seed())).collect::<Vec<_>>().into_iter();
    c.sweep("very large shapes, Complex<Zp>", 1, big(&[(513, 511), (511, 513), (1024, 1024), (1025, 1023), (1023, 1026), (1_048_577, 1), (1, 1_048_577), (2, 70_003), (70_003, 2), (100, 1300), (1300, 100)]), large_shape::<Complex<Zp>>);
    c.sub("shapes of all proportions", 100, (rect(20_000), seed()).prop_map(|((r, k), s)| (r, k, s)), large_shape::<Complex<Zp>>);
    c.sub("large shapes of any size", 8, (large(10), large(10), seed()), large_shape::<Complex<Zp>>);
    arrays!(c Nil, 10: 0 0, 0 3, 3 0, 1 1, 2 3, 3 2, 1 7, 7 1, 8 9, 33 17);
    arrays!(c Wide<1>, 20: 0 0, 0 3, 3 0, 1 1, 2 3, 3 2, 3 3, 1 7, 7 1, 8 9);
    arrays!(c Wide<20>, 10: 1 1, 2 3, 3 2, 3 3, 1 7, 7 1);
    arrays!(c Wide<70>, 5: 1 1, 2 3, 3 2, 2 2);
    arrays!(c Complex<Zp>, 60: 1 1, 2 3, 3 2, 3 3, 8 9, 65 3, 3 65, 40 40);
    arrays!(c Zp, 30: 64 64, 65 65, 1 257, 257 1);
    arrays!(c Quat, 60: 0 0, 0 3, 3 0, 1 1, 1 2, 2 1, 2 2, 2 3, 3 2, 3 3, 1 5, 5 1, 4 4, 4 5, 5 4, 1 9, 9 1, 7 8, 8 8, 9 8, 16 3, 3 16, 17 17, 1 33, 33 1);
    c.finish("matrices of random and swept shapes given by a function and by arrays; every constructor and view (transposes, diagonals, map, zip, and their combinations) is compared entry by entry with a table, unevaluated and evaluated; non-trivial: at least two different entries");
}
