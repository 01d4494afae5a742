//! C22: an index inside the shape means exactly that entry, any other panics.
use pbt::prelude::*;

/// Indices outside `0..n`, among them ones whose product with `w` overflows
/// to a small number.
fn outside(n: usize, w: usize, x: u64) -> Vec<usize> {
    let x = x as usize;
    let mut v = vec![n, n + 1, n + 2, 2 * n, 2 * n + 1, n * w, n * w + 1, n + 255, n + 256, 1 << 16, 1 << 31, 1 << 32, (1 << 32) + 1, usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1, (1 << 32) + x % (n + 1), (1 << 63) + x % (n + 1), x];
    if w > 0 {
        let q = (u128::pow(2, 64) / w as u128) as usize;
        v.extend([q, q.wrapping_add(1), q / 2, q / 2 + 1, q.wrapping_add(x % (n + 1)), usize::MAX - w, usize::MAX - n]);
    }
    v.retain(|i| *i >= n);
    v
}
/// Pairs outside an r x c shape.
fn bad_pairs(r: usize, c: usize, x: u64) -> Vec<[usize; 2]> {
    let mut v = vec![];
    let (rs, cs) = (outside(r, c, x), outside(c, r, x >> 7));
    let inside = |n: usize| (0..n).filter(move |i| n <= 5 || *i < 1 || *i + 2 >= n || *i % 5 == x as usize % 5 && n < 40);
    for i in inside(r) {
        v.extend(cs.iter().map(|j| [i, *j]));
    }
    for j in inside(c) {
        v.extend(rs.iter().map(|i| [*i, j]));
    }
    for (n, i) in rs.iter().enumerate() {
        v.extend(cs.iter().skip(n % 6).step_by(6).map(|j| [*i, *j]));
    }
    v
}

type Case = (RawMat, u64);
fn matrix<T: ModelRing + Ring + Conj>(case: &Case, ctx: &mut Ctx) -> Res {
    let ((r, c, raw), x) = (&case.0, case.1);
    let (r, c) = (*r, *c);
    ctx.nontrivial(r * c > 1);
    ctx.class("empty", r * c == 0);
    ctx.class("not square", r != c);
    let m: Mat<T> = Mat { r, c, d: dec_all(raw) };
    let mut d = dm(&m);
    for i in 0..r {
        for j in 0..c {
            let want = m.at(i, j);
            ensure_eq!(d[[i, j]], *want, "index ({i}, {j}) of {r}x{c}");
            ensure_eq!(d.entry(i, j), *want, "entry ({i}, {j}) of {r}x{c}");
            ensure_eq!((&d).entry(i, j), *want, "entry ({i}, {j}) of a reference");
            ensure_eq!((&d).wrap().entry(i, j), *want, "entry ({i}, {j}) of a wrapped reference");
        }
    }
    // writes touch one entry only
    let mut model = m.clone();
    let mark = T::dec(x as i64 & 0xffff_ffff_ffff);
    let step = if r * c <= 150 { 1 } else { r * c / 40 };
    for k in (0..r * c).step_by(step).chain(if r * c > 150 { Some(r * c - 1) } else { None }) {
        let (i, j) = (k / c, k % c);
        let v = mark.m_add(&T::dec(k as i64));
        d[[i, j]] = v.clone();
        *model.at_mut(i, j) = v.clone();
        ensure_eq!(d[[i, j]], v, "read after write at ({i}, {j})");
        if r * c <= 36 {
            stored(&format!("after a write at ({i}, {j})"), &d, &model)?;
        }
    }
    stored("after all writes", &d, &model)?;
    // outside: every access panics
    for p in bad_pairs(r, c, x) {
        let what = format!("{r}x{c} matrix at {p:?}");
        ensure!(catch(|| d[p].clone()).is_err(), "reading {what} did not panic, gave {:?}", catch(|| d[p].clone()));
        let e = catch(|| d.entry(p[0], p[1]));
        ensure!(e.is_err(), "entry of {what} did not panic, gave {e:?}");
        let e = catch(|| (&d).entry(p[0], p[1]));
        ensure!(e.is_err(), "entry of a reference to {what} did not panic, gave {e:?}");
        let e = catch(|| (&d).wrap().entry(p[0], p[1]));
        ensure!(e.is_err(), "entry of a wrapped {what} did not panic, gave {e:?}");
        let e = catch(|| d[p] = mark.clone());
        ensure!(e.is_err(), "writing {what} did not panic");
    }
    stored("after rejected accesses", &d, &model)?;
    let e = model.clone();
    let dw = d.clone().wrap();
    for p in bad_pairs(r, c, x).into_iter().step_by(7) {
        let v = catch(|| dw.entry(p[0], p[1]));
        ensure!(v.is_err(), "entry of an owned wrapped {r}x{c} matrix at {p:?} gave {v:?}");
    }
    stored("evaluated wrapper", &dw.eval(), &e)
}
fn vector<T: ModelRing + Ring + Conj>(case: &(Vec<i64>, u64), ctx: &mut Ctx) -> Res {
    let v: Vec<T> = dec_all(&case.0);
    let n = v.len();
    ctx.nontrivial(n > 1);
    ctx.class("empty", n == 0);
    let mut d = dv(&v);
    let mut model = v.clone();
    stored_vec("vector", &d, &v)?;
    let s: &[T] = &v;
    for i in 0..n {
        ensure_eq!((&d).entry(i), v[i], "entry {i} of a reference");
        ensure_eq!((&d).wrap().entry(i), v[i], "entry {i} of a wrapped reference");
        ensure_eq!(VectorExpr::entry(&s, i), v[i], "entry {i} of a slice");
    }
    for i in 0..n {
        let x = T::dec(case.1 as i64 ^ i as i64);
        d[i] = x.clone();
        model[i] = x;
        if n <= 40 {
            stored_vec(&format!("after a write at {i}"), &d, &model)?;
        }
    }
    stored_vec("after all writes", &d, &model)?;
    for i in outside(n, 1, case.1).into_iter().chain(outside(n, 16, case.1)) {
        let e = catch(|| d[i].clone());
        ensure!(e.is_err(), "reading a vector of length {n} at {i} gave {e:?}");
        let e = catch(|| d.entry(i));
        ensure!(e.is_err(), "entry {i} of a vector of length {n} gave {e:?}");
        let e = catch(|| (&d).entry(i));
        ensure!(e.is_err(), "entry {i} of a reference to a vector of length {n} gave {e:?}");
        let e = catch(|| (&d).wrap().entry(i));
        ensure!(e.is_err(), "entry {i} of a wrapped vector of length {n} gave {e:?}");
        let e = catch(|| VectorExpr::entry(&s, i));
        ensure!(e.is_err(), "entry {i} of a slice of length {n} gave {e:?}");
        let e = catch(|| d[i] = T::m_one());
        ensure!(e.is_err(), "writing a vector of length {n} at {i} did not panic");
    }
    stored_vec("after rejected accesses", &d, &model)
}
macro_rules! arrays {
    ($c:ident $t:ty, $cases:literal: $($r:literal $k:literal),*) => {$(
        $c.sub(&format!("array {} {}x{}", <$t as El>::NAME, $r, $k), $cases, (elems($r * $k), any::<u64>()), |case, ctx| {
            let m: Mat<$t> = Mat { r: $r, c: $k, d: dec_all(&case.0) };
            ctx.nontrivial($r * $k > 1);
            let mut it = m.d.iter().cloned();
            let a: [[$t; $k]; $r] = [(); $r].map(|_| [(); $k].map(|_| it.next().unwrap()));
            let w = a.clone().wrap();
            stored("an evaluated array", &a.clone().eval(), &m)?;
            stored("an evaluated wrapped array", &a.clone().wrap().eval(), &m)?;
            for i in 0..$r {
                for j in 0..$k {
                    ensure_eq!(a.entry(i, j), *m.at(i, j), "entry ({i}, {j}) of an array");
                    ensure_eq!(w.entry(i, j), *m.at(i, j), "entry ({i}, {j}) of a wrapped array");
                }
            }
            for p in bad_pairs($r, $k, case.1) {
                let e = catch(|| a.entry(p[0], p[1]));
                ensure!(e.is_err(), "entry {p:?} of a {}x{} array gave {e:?}", $r, $k);
                let e = catch(|| w.entry(p[0], p[1]));
                ensure!(e.is_err(), "entry {p:?} of a wrapped {}x{} array gave {e:?}", $r, $k);
            }
            matrix::<$t>(&((m.r, m.c, case.0.clone()), case.1), ctx)
        });
    )*};
}

fn main() {
    let mut c = Check::start("C22");
    c.sub("matrices", 600, (mat(20), any::<u64>()), matrix::<Quat>);
    let mut all: Vec<(usize, usize)> = (0..=9).flat_map(|r| (0..=9).map(move |k| (r, k))).collect();
    all.extend([(16, 16), (17, 16), (16, 17), (31, 33), (64, 64), (65, 64), (64, 65), (1, 300), (300, 1), (2, 256), (256, 2), (3, 257), (257, 3), (0, 70), (70, 0), (128, 128)]);
    c.sweep("every shape", 2, all.into_iter().map(|(r, k)| (mat_of(r, k), any::<u64>())), matrix::<Quat>);
    c.sub("vectors", 1500, (vecs(60), any::<u64>()), vector::<Quat>);
    c.sweep("vectors of every length", 2, (0..=70usize).chain([100, 127, 128, 129, 255, 256, 257, 300, 1000, 1025]).map(|n| (elems(n), any::<u64>())), vector::<Quat>);
    let big = [(255usize, 257usize), (257, 256), (513, 511), (1025, 1024), (1, 65_537), (65_537, 1), (2, 40_000), (40_000, 2), (1, 1_048_577), (1_048_577, 1)];
    c.sweep("very large shapes", 1, big.into_iter().map(|(r, k)| (Just((r, k)), seed())), |c, ctx| {
        let (r, k) = c.0;
        matrix::<Quat>(&((r, k, expand(c.1 .0, c.1 .1, r * k)), c.1 .0), ctx)
    });
    c.sweep("very long vectors", 1, HUGE.into_iter().map(|n| (Just(n), seed())), |c, ctx| vector::<Quat>(&(expand(c.1 .0, c.1 .1, c.0), c.1 .0), ctx));
    macro_rules! types {
        ($($t:ty, $cases:literal, $max:literal);*) => {$(
            c.sub(&format!("matrices {}", <$t as El>::NAME), $cases, (mat($max), any::<u64>()), matrix::<$t>);
            c.sub(&format!("vectors {}", <$t as El>::NAME), $cases, (vecs($max * 2), any::<u64>()), vector::<$t>);
        )*};
    }
    types!(Nil, 100, 20; Z2, 100, 20; f64, 100, 20; Wide<1>, 50, 16; Wide<20>, 30, 12; Wide<70>, 12, 8);
    arrays!(c Nil, 10: 1 1, 2 3, 3 2, 0 2, 2 0, 0 0, 8 9);
    arrays!(c Wide<1>, 10: 1 1, 2 3, 3 2, 0 2, 2 0, 0 0, 4 5);
    arrays!(c Wide<20>, 5: 1 1, 2 3, 3 2);
    arrays!(c Wide<70>, 5: 1 1, 2 3, 3 2);
    arrays!(c Quat, 30: 1 1, 1 2, 2 1, 2 2, 2 3, 3 2, 3 3, 1 7, 7 1, 0 2, 2 0, 0 0, 4 5, 8 8);
    c.finish("matrices and vectors of random and swept shapes: every inside position is read and written, every outside position of a list (first beyond, multiples, powers of two, wrap-around of row * columns) is read and written and must panic; non-trivial: more than one entry");
}
