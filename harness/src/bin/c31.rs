//! C31: equality is equality of shape and entries; clones are equal and
//! independent.
use pbt::poly;
use pbt::prelude::*;

/// An entry with an equality of its own: the low bits only.
#[derive(Clone, Copy, Debug)]
struct Low(i64);
impl PartialEq for Low {
    fn eq(&self, o: &Low) -> bool {
        self.0 & 3 == o.0 & 3
    }
}
impl El for Low {
    const NAME: &'static str = "Low";
    fn dec(raw: i64) -> Low {
        Low(raw)
    }
}
/// Floats with NaN, both zeros, infinities, neighbours.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Fl(f64);
impl El for Fl {
    const NAME: &'static str = "Fl";
    fn dec(raw: i64) -> Fl {
        let l = lanes(raw);
        Fl(match l[0] % 8 {
            0 => 0.0,
            1 => -0.0,
            2 => 1.0,
            3 => 1.0f64.next_up(),
            4 => f64::NAN,
            5 => f64::INFINITY,
            6 => f64::MIN_POSITIVE,
            _ => l[1] as f64,
        })
    }
}
/// How the second operand is made from the first one.
type How = (u8, u64, u64, i64);
fn second(a: &[i64], b: &[i64], how: &How) -> Vec<i64> {
    let n = a.len();
    let mut v = a.to_vec();
    if n == 0 {
        return v;
    }
    let (i, j) = ((how.1 % n as u64) as usize, (how.2 % n as u64) as usize);
    match how.0 % 10 {
        0 | 1 => (),
        2 => v[i] = how.3,
        3 => v[n - 1] = v[n - 1].wrapping_add(how.3),
        4 => v[i] ^= 1 << (how.2 % 64),
        5 => v.swap(i, j),
        6 => v[i] = v[i].wrapping_neg(),
        7 => v.reverse(),
        8 => {
            v[i] = how.3;
            v[j] = how.3;
        }
        _ => v = b.to_vec(),
    }
    v
}
fn how() -> impl Strategy<Value = How> + Clone {
    (any::<u8>(), any::<u64>(), any::<u64>(), elem())
}
/// The laws of `==` and `!=` for one pair of values with known equality.
fn pair<X: PartialEq + std::fmt::Debug>(what: &str, x: &X, y: &X, want: bool) -> Res {
    ensure!((x == y) == want, "{what}: {x:?} == {y:?} gave {}", x == y);
    ensure!((y == x) == want, "{what}: {y:?} == {x:?} gave {}", y == x);
    ensure!((x != y) != want, "{what}: {x:?} != {y:?} gave {}", x != y);
    Ok(())
}
fn classes(ctx: &mut Ctx, diff: usize) {
    ctx.nontrivial(true);
    ctx.class("equal", diff == 0);
    ctx.class("one entry differs", diff == 1);
    ctx.class("more entries differ", diff > 1);
}
fn differ<T: PartialEq>(a: &[T], b: &[T]) -> usize {
    a.iter().zip(b).filter(|(x, y)| !(x == y)).count()
}

/// A value that takes over another one by `clone_from` is equal to it, and
/// the other one stays as it is.
fn taken<X: PartialEq + Clone + std::fmt::Debug>(what: &str, x: &X, target: &X, own: bool) -> Res {
    let keep = x.clone();
    let mut z = target.clone();
    z.clone_from(x);
    pair(&format!("{what}: target of clone_from"), &z, x, own)?;
    pair(&format!("{what}: source of clone_from"), x, &keep, own)?;
    // and back
    let mut y = x.clone();
    y.clone_from(target);
    z.clone_from(&y);
    pair(&format!("{what}: clone_from of a target"), &y, &z, y == *target)
}

type Case = (Vec<i64>, Vec<i64>, How);
fn complex<T: El>(c: &Case, ctx: &mut Ctx) -> Res {
    let a: Vec<T> = dec_all(&c.0);
    let b: Vec<T> = dec_all(&second(&c.0, &c.1, &c.2));
    let d = differ(&a, &b);
    classes(ctx, d);
    let (x, y) = (Complex::new(a[0].clone(), a[1].clone()), Complex::new(b[0].clone(), b[1].clone()));
    pair(&format!("Complex<{}>", T::NAME), &x, &y, d == 0)?;
    pair("a value and itself", &x, &x, differ(&a, &a) == 0)?;
    pair("clone of a complex number", &x, &x.clone(), differ(&a, &a) == 0)?;
    taken("complex number", &x, &y, differ(&a, &a) == 0)?;
    taken("complex number", &y, &x, differ(&b, &b) == 0)
}
fn svector<T: El, const D: usize>(c: &Case, ctx: &mut Ctx) -> Res {
    let a: Vec<T> = dec_all(&c.0);
    let b: Vec<T> = dec_all(&second(&c.0, &c.1, &c.2));
    let d = differ(&a, &b);
    classes(ctx, d);
    let v = |a: &[T]| SVector::<T, D>::from(<[T; D]>::try_from(a.to_vec()).unwrap());
    let (x, y) = (v(&a), v(&b));
    pair(&format!("SVector<{}, {D}>", T::NAME), &x, &y, d == 0)?;
    pair("a value and itself", &x, &x, differ(&a, &a) == 0)?;
    pair("clone of a static vector", &x, &x.clone(), differ(&a, &a) == 0)?;
    taken("static vector", &x, &y, differ(&a, &a) == 0)?;
    taken("static vector", &y, &x, differ(&b, &b) == 0)
}
fn smatrix<T: El, const R: usize, const C: usize>(c: &Case, ctx: &mut Ctx) -> Res {
    let a: Vec<T> = dec_all(&c.0);
    let b: Vec<T> = dec_all(&second(&c.0, &c.1, &c.2));
    let d = differ(&a, &b);
    classes(ctx, d);
    let m = |a: &[T]| {
        let mut it = a.iter().cloned();
        SMatrix::<T, R, C>::from([(); R].map(|_| [(); C].map(|_| it.next().unwrap())))
    };
    let (x, y) = (m(&a), m(&b));
    pair(&format!("SMatrix<{}, {R}, {C}>", T::NAME), &x, &y, d == 0)?;
    pair("a value and itself", &x, &x, differ(&a, &a) == 0)?;
    pair("clone of a static matrix", &x, &x.clone(), differ(&a, &a) == 0)?;
    taken("static matrix", &x, &y, differ(&a, &a) == 0)?;
    taken("static matrix", &y, &x, differ(&b, &b) == 0)
}
fn dmat<T: El>(r: usize, c: usize, d: &[T]) -> DMatrix<T> {
    make_matrix_expr(r, c, |i, j| d[i * c + j].clone()).eval()
}
fn dmatrix<T: El>(c: &((usize, usize), Vec<i64>, Vec<i64>, How), ctx: &mut Ctx) -> Res {
    let ((r, k), a, b, how) = c;
    let w = second(a, b, how);
    let (a, b): (Vec<T>, Vec<T>) = (dec_all(a), dec_all(&w));
    let d = differ(&a, &b);
    classes(ctx, d);
    let what = format!("DMatrix<{}> {r}x{k}", T::NAME);
    let (x, y) = (dmat(*r, *k, &a), dmat(*r, *k, &b));
    pair(&what, &x, &y, d == 0)?;
    pair("a value and itself", &x, &x, differ(&a, &a) == 0)?;
    // the clone, and writes to it
    let own = differ(&a, &a) == 0;
    let mut z = x.clone();
    pair(&format!("{what}, clone"), &x, &z, own)?;
    for i in 0..*r {
        for j in 0..*k {
            z[[i, j]] = b[i * k + j].clone();
        }
    }
    pair(&format!("{what}, overwritten clone"), &z, &y, differ(&b, &b) == 0)?;
    pair(&format!("{what}, overwritten clone and its origin"), &x, &z, d == 0)?;
    pair(&format!("{what}, origin of an overwritten clone"), &x, &dmat(*r, *k, &a), own)?;
    taken(&what, &x, &y, own)?;
    // the same entries in the same order in other shapes
    for (s, t) in [(*k, *r), (1, r * k), (r * k, 1), (r * 2, k / 2), (r / 2, k * 2), (0, 0), (0, *k), (*r, 0), (r + 1, *k), (*r, k + 1)] {
        if (s, t) != (*r, *k) {
            let v: Vec<T> = (0..s * t).map(|q| if a.is_empty() { T::dec(1) } else { a[q % a.len()].clone() }).collect();
            let y = dmat(s, t, &v);
            pair(&format!("matrices of shapes {r}x{k} and {s}x{t}"), &x, &y, false)?;
            if s * t <= 10_000 && s.min(t) + 1 >= (*r).min(*k) {
                taken(&format!("matrices of shapes {r}x{k} and {s}x{t}"), &x, &y, own)?;
                let mut z = y;
                z.clone_from(&x);
                ensure_eq!((z.num_rows(), z.num_cols()), (*r, *k), "shape of the target of clone_from");
                for (i, want) in a.iter().enumerate() {
                    ensure!(z[[i / k, i % k]] == *want || want != want, "entry {i} of the {r}x{k} target of clone_from, {s}x{t} before");
                }
            }
        }
    }
    Ok(())
}
fn dvector<T: El>(c: &Case, ctx: &mut Ctx) -> Res {
    let a: Vec<T> = dec_all(&c.0);
    let b: Vec<T> = dec_all(&second(&c.0, &c.1, &c.2));
    let d = differ(&a, &b);
    classes(ctx, d);
    let v = |a: &[T]| make_vector_expr(a.len(), |i| a[i].clone()).eval();
    let what = format!("DVector<{}> of length {}", T::NAME, a.len());
    let (x, y) = (v(&a), v(&b));
    pair(&what, &x, &y, d == 0)?;
    pair("a value and itself", &x, &x, differ(&a, &a) == 0)?;
    pair(&format!("{what}, from a slice"), &x, &a[..].eval(), differ(&a, &a) == 0)?;
    let own = differ(&a, &a) == 0;
    let mut z = x.clone();
    pair(&format!("{what}, clone"), &x, &z, own)?;
    for i in 0..a.len() {
        z[i] = b[i].clone();
    }
    pair(&format!("{what}, overwritten clone"), &z, &y, differ(&b, &b) == 0)?;
    pair(&format!("{what}, overwritten clone and its origin"), &x, &z, d == 0)?;
    taken(&what, &x, &y, own)?;
    // prefixes and extensions
    let n = a.len();
    for m in [0, n / 2, n.saturating_sub(1), n + 1, 2 * n] {
        if m != n {
            let w: Vec<T> = (0..m).map(|q| if q < n { a[q].clone() } else { T::dec(0) }).collect();
            let y = v(&w);
            pair(&format!("vectors of lengths {n} and {m}"), &x, &y, false)?;
            taken(&format!("vectors of lengths {n} and {m}"), &x, &y, own)?;
            let mut z = y;
            z.clone_from(&x);
            ensure_eq!(z.len(), n, "length of the target of clone_from, {m} before");
            for i in 0..n {
                ensure!(z[i] == a[i] || a[i] != a[i], "component {i} of the target of clone_from, {m} before");
            }
        }
    }
    Ok(())
}

/// Clones of polynomials; lists of any two lengths.
fn polynomial<T: ModelRing + Ring>(c: &((Vec<i64>, u8), (Vec<i64>, u8), i64), ctx: &mut Ctx) -> Res {
    let (mut a, mut b): (Vec<T>, Vec<T>) = (dec_all(&c.0 .0), dec_all(&c.1 .0));
    a.resize(a.len() + c.0 .1 as usize % 4, T::m_zero());
    b.resize(b.len() + c.1 .1 as usize % 4, T::m_zero());
    ctx.nontrivial(!a.is_empty() || !b.is_empty());
    ctx.class("longer than the target", a.len() > b.len());
    ctx.class("shorter than the target", a.len() < b.len());
    let room = |x: u8| [0, 1, 7, 64][x as usize / 4 % 4];
    let (p, q) = (poly::with_room(&a, room(c.0 .1)), poly::with_room(&b, room(c.1 .1)));
    let x = T::dec(c.2);
    let is = |what: &str, p: &Polynomial<T>, a: &[T]| -> Res {
        pair(&format!("{} {what}", T::NAME), p, &Polynomial::from_coefficients(a.to_vec()), true)?;
        for x in [T::m_one(), T::m_zero(), x.clone()] {
            ensure_eq!(p.eval_ref(&x), poly::eval(a, &x), "{} {what}: value of {p:?} at {x:?}", T::NAME);
        }
        Ok(())
    };
    is("clone", &p.clone(), &a)?;
    taken(&format!("polynomials over {}", T::NAME), &p, &q, true)?;
    let mut z = poly::with_room(&b, room(c.1 .1));
    z.clone_from(&p);
    is("target of clone_from", &z, &a)?;
    is("source of clone_from", &p, &a)?;
    // independent of its origin, and a full polynomial again
    z += &q;
    is("target after clone_from and +=", &z, &poly::add(&a, &b))?;
    is("source after a change of the target", &p, &a)?;
    z.clone_from(&q);
    is("target of the second clone_from", &z, &b)?;
    is("its square", &(&z * &z), &poly::mul(&b, &b))?;
    let mut y = p.clone();
    y -= &p;
    is("changed clone", &y, &[])?;
    is("origin of a changed clone", &p, &a)
}

fn main() {
    let mut c = Check::start("C31");
    let case = |n: usize| (elems(n), elems(n), how());
    macro_rules! types {
        ($f:ident $what:literal $n:expr, $cases:literal: $($t:ty),*) => {$(
            c.sub(&format!("{} {}", $what, <$t as El>::NAME), $cases, case($n), $f::<$t>);
        )*};
    }
    types!(complex "complex" 2, 4000: Zp, Quat, Low, Fl, Term, Nil, Wide<1>, Wide<20>, Wide<70>);
    macro_rules! vectors {
        ($t:ty, $cases:literal: $($d:literal)*) => {$(
            c.sub(&format!("static vectors {} {}", <$t as El>::NAME, $d), $cases, case($d), svector::<$t, $d>);
        )*};
    }
    vectors!(Zp, 400: 0 1 2 3 4 5 6 7 8 9 12 15 16 17 24 31 32 33 48 63 64 65 100 128 129 256 257);
    vectors!(Low, 400: 1 2 3 8);
    vectors!(Fl, 400: 1 2 3 8);
    vectors!(Nil, 60: 0 1 2 3 8 65);
    vectors!(Wide<1>, 60: 1 2 3 8 17);
    vectors!(Wide<20>, 60: 1 2 3 8);
    vectors!(Wide<70>, 30: 1 2 5);
    macro_rules! matrices {
        ($t:ty, $cases:literal: $($r:literal $k:literal),*) => {$(
            c.sub(&format!("static matrices {} {}x{}", <$t as El>::NAME, $r, $k), $cases, case($r * $k), smatrix::<$t, $r, $k>);
        )*};
    }
    matrices!(Zp, 300: 0 0, 0 3, 3 0, 1 1, 1 2, 2 1, 2 2, 2 3, 3 2, 3 3, 1 5, 5 1, 4 4, 3 5, 5 3, 6 6, 8 8, 1 17, 17 1, 9 16, 16 9, 33 2, 2 33);
    matrices!(Low, 300: 1 1, 2 2, 3 2, 2 3);
    matrices!(Fl, 300: 1 1, 2 2, 3 2, 2 3);
    matrices!(Nil, 60: 1 1, 2 2, 3 2, 2 3, 0 2, 8 9);
    matrices!(Wide<1>, 60: 1 1, 2 2, 3 2, 2 3, 5 5);
    matrices!(Wide<20>, 30: 1 1, 2 2, 3 2, 2 3);
    matrices!(Wide<70>, 20: 1 1, 2 2, 3 2, 2 3);
    macro_rules! dynamic {
        ($cases:literal: $($t:ty),*) => {$(
            let shape = (size(40), size(40)).prop_flat_map(|(r, k)| (Just((r, k)), elems(r * k), elems(r * k), how()));
            c.sub(&format!("matrices {}", <$t as El>::NAME), $cases, shape, dmatrix::<$t>);
            c.sub(&format!("vectors {}", <$t as El>::NAME), $cases, size(300).prop_flat_map(case), dvector::<$t>);
        )*};
    }
    dynamic!(1500: Zp, Quat, Low, Fl);
    dynamic!(150: Nil, Wide<1>);
    dynamic!(30: Wide<20>);
    dynamic!(15: Wide<70>);
    macro_rules! polynomials {
        ($($t:ty, $cases:literal, $max:literal);*) => {$(
            c.sub(&format!("polynomials {}", <$t as El>::NAME), $cases, ((vecs($max), any::<u8>()), (vecs($max), any::<u8>()), elem()), polynomial::<$t>);
        )*};
    }
    polynomials!(Zp, 3000, 40; Quat, 1500, 12; Z2, 1000, 12; M2, 600, 8; B2, 1000, 12; Nil, 300, 40; Wide<1>, 100, 12; Wide<20>, 30, 8; Wide<70>, 10, 6);
    let pairs = (0..=20usize).flat_map(|m| (0..=20usize).map(move |n| ((elems_fast(m), any::<u8>()), (elems_fast(n), any::<u8>()), elem())));
    c.sweep("polynomials, all pairs of lengths", 2, pairs, polynomial::<Zp>);
    let grid = (0..=12usize).flat_map(|r| (0..=12usize).map(move |k| (Just((r, k)), elems(r * k), elems(r * k), how())));
    c.sweep("all shapes up to 12x12", 6, grid, dmatrix::<Zp>);
    c.sweep("all lengths up to 260", 6, (0..=260usize).map(case), dvector::<Zp>);
    let big = [(129usize, 127usize), (256, 257), (513, 511), (1025, 1024), (1, 65_537), (65_537, 1), (1_048_577, 1), (1, 1_048_577)];
    c.sweep("very large shapes", 4, big.into_iter().map(|(r, k)| ((Just(r), Just(k)), seed(), seed(), how())), |c, ctx| {
        let n = c.0 .0 * c.0 .1;
        dmatrix::<Zp>(&(c.0, expand(c.1 .0, c.1 .1, n), expand(c.2 .0, c.2 .1, n), c.3), ctx)
    });
    c.sub("shapes of all proportions", 80, (rect(20_000), seed(), seed(), how()), |c, ctx| {
        let n = c.0 .0 * c.0 .1;
        dmatrix::<Zp>(&(c.0, expand(c.1 .0, c.1 .1, n), expand(c.2 .0, c.2 .1, n), c.3), ctx)
    });
    c.sweep("very long vectors", 4, HUGE.into_iter().map(|n| (Just(n), seed(), seed(), how())), |c, ctx| dvector::<Zp>(&(expand(c.1 .0, c.1 .1, c.0), expand(c.2 .0, c.2 .1, c.0), c.3), ctx));
    c.sub("long vectors", 60, (large(17), seed(), seed(), how()), |c, ctx| dvector::<Zp>(&(expand(c.1 .0, c.1 .1, c.0), expand(c.2 .0, c.2 .1, c.0), c.3), ctx));
    macro_rules! big {
        ($($d:literal)*) => {$(
            c.sub(&format!("static vectors of dimension {}", $d), 8, (seed(), seed(), how()), |c, ctx| big_stack(|| svector::<Zp, $d>(&(expand(c.0 .0, c.0 .1, $d), expand(c.1 .0, c.1 .1, $d), c.2), ctx)));
        )*};
    }
    big!(511 513 1025 4097 65537);
    macro_rules! big {
        ($($r:literal $k:literal),*) => {$(
            c.sub(&format!("static matrices {}x{}", $r, $k), 8, (seed(), seed(), how()), |c, ctx| big_stack(|| smatrix::<Zp, $r, $k>(&(expand(c.0 .0, c.0 .1, $r * $k), expand(c.1 .0, c.1 .1, $r * $k), c.2), ctx)));
        )*};
    }
    big!(64 64, 65 65, 100 90, 129 127, 257 257, 1 65537, 65537 1);
    c.finish("pairs of complex numbers, vectors and matrices, the second one equal to the first, different in one entry, permuted or unrelated, of the same and of other shapes, with entries that have an equality of their own or are not reflexive; non-trivial: every pair");
}
