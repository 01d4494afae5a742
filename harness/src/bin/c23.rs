//! C23: in-place updates follow a plain table, clones are independent,
//! equality is equality of shape and entries.
use pbt::prelude::*;
use std::ops::*;

/// One step of a history: what, target, source, position or form, value.
type Op = (u8, u8, u8, u64, i64);
type Case = ((usize, usize), Vec<i64>, Vec<Op>);

trait Elem: ModelRing + Ring + Conj + Add<Output = Self> + Sub<Output = Self> + AddAssign + SubAssign {}
impl<T: ModelRing + Ring + Conj + Add<Output = Self> + Sub<Output = Self> + AddAssign + SubAssign> Elem for T {}

/// Adds (or subtracts) an expression.
fn upd<T: Elem, E: MatrixExpr<Entry = T>>(d: &mut DMatrix<T>, sub: bool, e: E) {
    if sub {
        *d -= e
    } else {
        *d += e
    }
}
fn vupd<T: Elem, E: VectorExpr<Entry = T>>(d: &mut DVector<T>, sub: bool, e: E) {
    if sub {
        *d -= e
    } else {
        *d += e
    }
}
macro_rules! by_array {
    ($m:expr, $d:expr, $sub:expr, $else:expr; $($r:literal $c:literal),*) => {
        match ($m.r, $m.c) {
            $(($r, $c) => { let a: [[T; $c]; $r] = std::array::from_fn(|i| std::array::from_fn(|j| $m.at(i, j).clone())); upd($d, $sub, a) })*
            _ => $else,
        }
    };
}
fn all_equal<T: Elem>(k: usize, what: &str, pool: &[(DMatrix<T>, Mat<T>)]) -> Res {
    for (i, (d, m)) in pool.iter().enumerate() {
        ensure_eq!((d.num_rows(), d.num_cols()), (m.r, m.c), "step {k} ({what}): shape of matrix {i}");
        let t = table(d);
        ensure_eq!(t, *m, "step {k} ({what}): matrix {i}");
        for (j, (e, n)) in pool.iter().enumerate() {
            ensure_eq!(d == e, m == n, "step {k} ({what}): equality of {i} and {j} ({m:?}, {n:?})");
            ensure_eq!(d != e, m != n, "step {k} ({what}): inequality of {i} and {j}");
        }
    }
    Ok(())
}
fn matrices<T: Elem>(c: &Case, ctx: &mut Ctx) -> Res {
    let (r, k) = c.0;
    let fill = |v: i64, i: usize| T::dec(c.1.get((v as usize).wrapping_add(i) % c.1.len().max(1)).copied().unwrap_or(v));
    let mut pool: Vec<(DMatrix<T>, Mat<T>)> = vec![];
    for n in 0..2 {
        let m = Mat::from_fn(r, k, |i, j| fill(n, i * k + j));
        pool.push((dm(&m), m));
    }
    let (mut updates, mut clones) = (0, 0);
    for (step, &(op, to, from, pos, val)) in c.2.iter().enumerate() {
        let to = to as usize % pool.len();
        let (_, m) = &pool[to];
        let (r, k) = (m.r, m.c);
        // a source of the same shape: the next one from `from` on
        let src = (0..pool.len()).map(|i| (from as usize + i) % pool.len()).find(|i| (pool[*i].1.r, pool[*i].1.c) == (r, k)).unwrap();
        let what;
        match op % 12 {
            0 => {
                what = "new matrix";
                let (r, k) = c.0;
                let (r, k) = match pos % 8 { 0 => (k, r), 1 => (1, r * k), 2 => (r * k, 1), 3 => (r, k + 1), 4 => (r + 1, k), _ => (r, k) };
                let m = Mat::from_fn(r, k, |i, j| fill(val % 2, i * k + j));
                if pool.len() < 5 { pool.push((dm(&m), m)) } else { pool[to] = (dm(&m), m) }
            }
            1 => {
                what = "clone";
                clones += 1;
                let d = (pool[src].0.clone(), pool[src].1.clone());
                if pool.len() < 5 { pool.push(d) } else { pool[to] = d }
            }
            2 => {
                what = "clone_from";
                clones += 1;
                let d = pool[from as usize % pool.len()].clone();
                pool[to].0.clone_from(&d.0);
                pool[to].1 = d.1;
            }
            3..=5 => {
                what = "write";
                if r * k > 0 {
                    updates += 1;
                    let p = (pos % (r * k) as u64) as usize;
                    let (d, m) = &mut pool[to];
                    let old = m.at(p / k, p % k).clone();
                    let new = if val % 3 == 0 { fill(val, p) } else { T::dec(val) };
                    if op % 12 == 5 {
                        d[[p / k, p % k]] += new.clone();
                        *m.at_mut(p / k, p % k) = old.m_add(&new);
                    } else {
                        d[[p / k, p % k]] = new.clone();
                        *m.at_mut(p / k, p % k) = new;
                    }
                }
            }
            o => {
                updates += 1;
                let sub = o % 2 == 0;
                let s = pool[src].clone();
                let x = pool[(src + 1) % pool.len()].clone();
                let (sd, sm) = (&s.0, &s.1);
                let target = &mut pool[to];
                let d = &mut target.0;
                let mut other = sm.clone();
                what = match (pos % 13, sub) {
                    (0, _) => { upd(d, sub, sd.clone()); "op= owned" }
                    (1 | 2, _) => { upd(d, sub, sd); "op= borrowed" }
                    (3, _) => { upd(d, sub, sd.wrap()); "op= wrapped" }
                    (4, _) => { upd(d, sub, sd.t().t()); "op= twice transposed" }
                    (5, _) => { other = sm.map(|x| x.m_conj()); upd(d, sub, sd.wrap().map(|x| x.conj())); "op= mapped" }
                    (6, _) if sm.r == sm.c => { other = sm.t(); upd(d, sub, sd.t()); "op= transposed" }
                    (7, _) if (x.1.r, x.1.c) == (r, k) => { other = sm.zip(&x.1, |a, b| a.m_add(b)); upd(d, sub, sd + &x.0); "op= sum" }
                    (8, _) if (x.1.r, x.1.c) == (r, k) => { other = sm.zip(&x.1, |a, b| a.m_sub(b)); upd(d, sub, sd - &x.0); "op= difference" }
                    (9, _) if sm.r == sm.c => { other = Mat::eye(r); upd(d, sub, DMatrix::<T>::eye(r)); "op= identity" }
                    (10, _) => {
                        let f = |i: usize, j: usize| fill(val, i * 7 + j);
                        other = Mat::from_fn(r, k, f);
                        upd(d, sub, make_matrix_expr(r, k, f));
                        "op= function"
                    }
                    (11, _) => { let own = d.clone(); other = target.1.clone(); upd(d, sub, own); "op= itself" }
                    _ => {
                        by_array!(sm, d, sub, upd(d, sub, sd); 1 1, 1 2, 2 1, 2 2, 2 3, 3 2, 3 3, 1 3, 3 1, 0 2, 4 4);
                        "op= array"
                    }
                };
                target.1 = target.1.zip(&other, |a, b| if sub { a.m_sub(b) } else { a.m_add(b) });
                // the right-hand side is what it was
                ensure_eq!(table(sd), *sm, "step {step} ({what}): right-hand side");
                if src != to {
                    ensure_eq!(pool[src].0, s.0, "step {step} ({what}): source");
                }
            }
        }
        let small = pool.iter().all(|p| p.1.d.len() <= 64);
        if small || step % 8 == 7 || step + 1 == c.2.len() {
            all_equal(step, what, &pool)?;
        }
    }
    ctx.nontrivial(updates >= 2 && r * k > 1);
    ctx.class("at least 5 updates", updates >= 5);
    ctx.class("updates after a clone", updates >= 2 && clones >= 1);
    ctx.class("empty", r * k == 0);
    Ok(())
}
fn vectors<T: Elem>(c: &(usize, Vec<i64>, Vec<Op>), ctx: &mut Ctx) -> Res {
    let n = c.0;
    let fill = |v: i64, i: usize| T::dec(c.1.get((v as usize).wrapping_add(i) % c.1.len().max(1)).copied().unwrap_or(v));
    let mk = |v: i64, n: usize| (0..n).map(|i| fill(v, i)).collect::<Vec<T>>();
    let mut pool: Vec<(DVector<T>, Vec<T>)> = (0..2).map(|v| (dv(&mk(v, n)), mk(v, n))).collect();
    let mut updates = 0;
    for (step, &(op, to, from, pos, val)) in c.2.iter().enumerate() {
        let to = to as usize % pool.len();
        let len = pool[to].1.len();
        let src = (0..pool.len()).map(|i| (from as usize + i) % pool.len()).find(|i| pool[*i].1.len() == len).unwrap();
        let what;
        match op % 12 {
            0 => {
                what = "new vector";
                let v = mk(val % 2, match pos % 5 { 0 => n + 1, 1 => n.saturating_sub(1), _ => n });
                if pool.len() < 5 { pool.push((dv(&v), v)) } else { pool[to] = (dv(&v), v) }
            }
            1 | 2 => {
                what = "clone";
                let d = pool[from as usize % pool.len()].clone();
                if pool.len() < 5 { pool.push(d) } else { pool[to].0.clone_from(&d.0); pool[to].1 = d.1 }
            }
            3..=5 => {
                what = "write";
                if len > 0 {
                    updates += 1;
                    let p = (pos % len as u64) as usize;
                    let new = if val % 3 == 0 { fill(val, p) } else { T::dec(val) };
                    let (d, m) = &mut pool[to];
                    if op % 12 == 5 {
                        d[p] -= new.clone();
                        m[p] = m[p].m_sub(&new);
                    } else {
                        d[p] = new.clone();
                        m[p] = new;
                    }
                }
            }
            o => {
                updates += 1;
                let sub = o % 2 == 0;
                let s = pool[src].clone();
                let x = pool[(src + 1) % pool.len()].clone();
                let (sd, sm) = (&s.0, &s.1);
                let target = &mut pool[to];
                let d = &mut target.0;
                let mut other = sm.clone();
                what = match pos % 11 {
                    0 => { vupd(d, sub, sd.clone()); "op= owned" }
                    1 | 2 => { vupd(d, sub, sd); "op= borrowed" }
                    3 => { vupd(d, sub, sd.wrap()); "op= wrapped" }
                    4 => { vupd(d, sub, sm.as_slice()); "op= slice" }
                    5 => { other = sm.iter().map(|x| x.m_conj()).collect(); vupd(d, sub, sd.conj()); "op= conjugate" }
                    6 if x.1.len() == len => { other = sm.iter().zip(&x.1).map(|(a, b)| a.m_sub(b)).collect(); vupd(d, sub, sd - &x.0); "op= difference" }
                    7 if x.1.len() == len => { other = sm.iter().zip(&x.1).map(|(a, b)| a.m_mul(b)).collect(); vupd(d, sub, sd.wrap().zip(&x.0).map(|(a, b)| a.m_mul(&b))); "op= zip" }
                    8 => { let f = |i: usize| fill(val, i * 5); other = (0..len).map(f).collect(); vupd(d, sub, make_vector_expr(len, f)); "op= function" }
                    9 => { let own = d.clone(); other = target.1.clone(); vupd(d, sub, own); "op= itself" }
                    _ => { other = mk(1, len).iter().map(|_| T::m_one()).collect(); vupd(d, sub, DVector::<T>::ones(len)); "op= ones" }
                };
                target.1 = target.1.iter().zip(&other).map(|(a, b)| if sub { a.m_sub(b) } else { a.m_add(b) }).collect();
                ensure_eq!(list(sd), *sm, "step {step} ({what}): right-hand side");
            }
        }
        for (i, (d, m)) in pool.iter().enumerate() {
            stored_vec(&format!("step {step} ({what}): vector {i}"), d, m)?;
            for (j, (e, o)) in pool.iter().enumerate() {
                ensure_eq!(d == e, m == o, "step {step} ({what}): equality of {i} and {j} ({m:?}, {o:?})");
            }
        }
    }
    ctx.nontrivial(updates >= 2 && n > 1);
    ctx.class("empty", n == 0);
    ctx.class("at least 5 updates", updates >= 5);
    Ok(())
}

/// Equality alone: one entry or the shape differs.
fn equality(c: &(RawMat, u64, i64), ctx: &mut Ctx) -> Res {
    let (r, k) = (c.0 .0, c.0 .1);
    let m: Mat<Quat> = Mat { r, c: k, d: dec_all(&c.0 .2) };
    let d = dm(&m);
    ctx.nontrivial(r * k > 1);
    ensure!(d == d.clone(), "a clone of a {r}x{k} matrix is not equal to it");
    let e = { let e = Quat::dec(c.2); if e == Quat::m_zero() { Quat::m_one() } else { e } };
    let step = if r * k <= 100 { 1 } else { 37 };
    for p in ((c.1 % step as u64) as usize..r * k).step_by(step).chain((r * k).checked_sub(1)) {
        let mut n = m.clone();
        n.d[p] = n.d[p].m_add(&e);
        let x = dm(&n);
        ensure!(d != x && !(d == x), "{r}x{k} matrices that differ at entry {p} are equal");
        if p < 300 {
            let (u, v) = (dv(&m.d), dv(&n.d));
            ensure!(u != v && !(u == v), "vectors of length {} that differ at {p} are equal", r * k);
        }
    }
    for (a, b) in [(k, r), (1, r * k), (r * k, 1), (r + 1, k), (r, k + 1), (r.saturating_sub(1), k), (r, k.saturating_sub(1)), (0, k), (r, 0), (0, 0)] {
        let n = Mat::from_fn(a, b, |i, j| m.d.get(i * b + j).cloned().unwrap_or_else(Quat::m_zero));
        ensure_eq!(dm(&n) == d, (a, b) == (r, k), "equality of {r}x{k} and {a}x{b} with the same entries in order");
        ensure_eq!(d == dm(&n), (a, b) == (r, k), "equality of {a}x{b} and {r}x{k} with the same entries in order");
    }
    let v = dv(&m.d);
    ensure!(v == v.clone(), "a clone of a vector is not equal to it");
    let mut l = m.d.clone();
    l.push(e);
    ensure!(v != dv(&l) && dv(&l) != v, "a vector is equal to a longer one");
    Ok(())
}

fn main() {
    let mut c = Check::start("C23");
    let op = || (0u8..12, any::<u8>(), any::<u8>(), any::<u64>(), elem());
    let shape = |n: usize| (0..=n, 0..=n);
    c.sub("histories, Quat", 2500, (shape(4), vec(elem(), 1..6), vec(op(), 0..25)), matrices::<Quat>);
    c.sub("histories, Z2", 2500, (shape(4), vec(elem(), 1..6), vec(op(), 0..25)), matrices::<Z2>);
    c.sub("histories, f64", 1500, (shape(4), vec(elem(), 1..6), vec(op(), 0..12)), matrices::<f64>);
    c.sub("histories, Complex<Zp>", 1500, (shape(5), vec(elem(), 1..12), vec(op(), 0..40)), matrices::<Complex<Zp>>);
    c.sub("long histories, few shapes", 200, (shape(2), vec(elem(), 1..4), vec(op(), 100..200)), matrices::<Zp>);
    c.sub("histories, Nil", 300, (shape(5), vec(elem(), 1..6), vec(op(), 0..25)), matrices::<Nil>);
    c.sub("histories, Wide<1>", 300, (shape(5), vec(elem(), 1..6), vec(op(), 0..20)), matrices::<Wide<1>>);
    c.sub("histories, Wide<20>", 100, (shape(6), vec(elem(), 1..6), vec(op(), 0..15)), matrices::<Wide<20>>);
    c.sub("histories, Wide<70>", 60, (shape(6), vec(elem(), 1..6), vec(op(), 0..12)), matrices::<Wide<70>>);
    c.sub("vector histories, Nil", 300, (0..=20usize, vec(elem(), 1..6), vec(op(), 0..25)), vectors::<Nil>);
    c.sub("vector histories, Wide<1>", 300, (0..=40usize, vec(elem(), 1..6), vec(op(), 0..20)), vectors::<Wide<1>>);
    c.sub("vector histories, Wide<20>", 100, (0..=20usize, vec(elem(), 1..6), vec(op(), 0..15)), vectors::<Wide<20>>);
    c.sub("vector histories, Wide<70>", 60, (0..=12usize, vec(elem(), 1..6), vec(op(), 0..12)), vectors::<Wide<70>>);
    let list = [(1, 8), (8, 1), (7, 9), (8, 8), (9, 9), (16, 16), (17, 15), (1, 65), (65, 1), (32, 32), (33, 31), (64, 2), (2, 64), (1, 257), (300, 1), (40, 40), (64, 64), (65, 65)];
    c.sweep("histories, larger shapes", 8, list.into_iter().map(|(r, k)| ((Just(r), Just(k)), vec(elem(), 1..60), vec(op(), 4..12))), matrices::<Complex<Zp>>);
    c.sub("vector histories, Quat", 3000, (0..=6usize, vec(elem(), 1..6), vec(op(), 0..25)), vectors::<Quat>);
    c.sub("vector histories, Z2", 3000, (0..=6usize, vec(elem(), 1..6), vec(op(), 0..25)), vectors::<Z2>);
    c.sub("vector histories, f64", 1500, (0..=6usize, vec(elem(), 1..6), vec(op(), 0..12)), vectors::<f64>);
    c.sub("long vector histories", 200, (0..=3usize, vec(elem(), 1..4), vec(op(), 100..200)), vectors::<Zp>);
    c.sweep("vector histories, every length", 3, (0..=70usize).chain([100, 127, 128, 129, 255, 256, 257, 300, 512, 1000]).map(|n| (Just(n), vec(elem(), 1..60), vec(op(), 4..12))), vectors::<Complex<Zp>>);
    c.sub("histories, shapes of all proportions", 150, (rect(20_000), vec(elem(), 1..60), vec(op(), 4..12)), matrices::<Zp>);
    let list = [(129, 127), (257, 256), (1, 65_537), (65_537, 1), (1025, 1024), (1_048_577, 1), (1, 1_048_577)];
    c.sweep("histories, very large shapes", 2, list.into_iter().map(|(r, k)| ((Just(r), Just(k)), vec(elem(), 1..60), vec(op(), 4..9))), matrices::<Zp>);
    c.sweep("vector histories, very long", 2, HUGE.into_iter().map(|n| (Just(n), vec(elem(), 1..60), vec(op(), 4..9))), vectors::<Zp>);
    c.sub("equality", 1500, (mat(16), any::<u64>(), elem()), equality);
    let shapes: Vec<(usize, usize)> = (0..=7).flat_map(|r| (0..=7).map(move |k| (r, k))).chain([(1, 64), (64, 1), (16, 16), (17, 17), (33, 9), (1, 300), (300, 1)]).collect();
    c.sweep("equality, every shape", 2, shapes.into_iter().map(|(r, k)| (mat_of(r, k), any::<u64>(), elem())), equality);
    c.finish("histories of writes, +=, -= with owned, borrowed, wrapped, array, slice and lazy right-hand sides, clones and new values on a pool of up to five matrices or vectors; after every step all values and all equalities are compared with plain tables; non-trivial: at least two updates of values with more than one entry");
}
