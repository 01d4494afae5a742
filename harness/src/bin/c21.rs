//! C21: operands of different shapes are always rejected, matching ones are
//! accepted.
use pbt::prelude::*;

/// Ways to make an operand.
const MK: usize = 6;
fn mat_as(kind: usize, r: usize, c: usize, add: i64) -> DynMat<'static, i64> {
    let f = move |i: usize, j: usize| (i as i64 & 0xff) * 37 + (j as i64 & 0xff) * 5 + add;
    match kind {
        0 => DynMat::new(make_matrix_expr(r, c, f)),
        1 => DynMat::new(make_matrix_expr(r, c, f).eval()),
        2 => DynMat::new(make_matrix_expr(c, r, move |i, j| f(j, i)).t()),
        3 => DynMat::new(make_matrix_expr(r, c, f).eval().wrap()),
        4 => DynMat::new(make_matrix_expr(r, c, f).map(|x| x)),
        _ => DynMat::new(make_matrix_expr(r, c, f).zip(DMatrix::<i64>::zeros(r, c)).map(|(x, y)| x + y)),
    }
}
fn vec_as(kind: usize, n: usize, add: i64) -> DynVec<'static, i64> {
    let f = move |i: usize| (i as i64 & 0xff) * 11 + add;
    match kind {
        0 => DynVec::new(make_vector_expr(n, f)),
        1 => DynVec::new(make_vector_expr(n, f).eval()),
        2 => DynVec::new(make_vector_expr(n, f).map(|x| x)),
        3 => DynVec::new(make_vector_expr(n, f).eval().wrap()),
        4 => DynVec::new(make_vector_expr(n, f).zip(DVector::<i64>::zeros(n)).map(|(x, y)| x + y)),
        _ => DynVec::new(make_vector_expr(n, f) + DVector::<i64>::zeros(n)),
    }
}
const OPS: [&str; 11] = [
    "wrapper +", "wrapper -", "wrapper mul_elemwise", "wrapper div_elemwise", "zip", "&stored +", "&stored -",
    "&stored mul_elemwise", "&stored div_elemwise", "+=", "-=",
];
/// The operation must panic if the shapes differ; a value otherwise. The
/// virtual shapes are too large to be stored: only expressions are built.
fn mats(s: (usize, usize), t: (usize, usize), op: usize, kl: usize, kr: usize, virt: bool) -> Res {
    let l = || if virt { DynMat::new(make_matrix_expr(s.0, s.1, |_, _| 1i64)) } else { mat_as(kl, s.0, s.1, 1000) };
    let r = || if virt { DynMat::new(make_matrix_expr(t.0, t.1, |_, _| 2i64)) } else { mat_as(kr, t.0, t.1, 1) };
    // evaluates small results, looks at a corner of virtual ones
    fn out<E: MatrixExpr<Entry = i64>>(virt: bool, e: E) -> Mat<i64> {
        let (r, c) = (e.num_rows(), e.num_cols());
        if virt {
            Mat { r, c, d: if r > 0 && c > 0 { vec![e.entry(r - 1, c - 1)] } else { vec![] } }
        } else {
            table(&e.eval())
        }
    }
    let got = catch(|| match op {
        0 => out(virt, l().wrap() + r()),
        1 => out(virt, l().wrap() - r()),
        2 => out(virt, l().wrap().mul_elemwise(r())),
        3 => out(virt, l().wrap().div_elemwise(r())),
        4 => out(virt, l().wrap().zip(r()).map(|(x, y)| x * 100000 + y)),
        5 => out(virt, &l().eval() + r()),
        6 => out(virt, &l().eval() - r()),
        7 => out(virt, l().eval().mul_elemwise(r())),
        8 => out(virt, l().eval().div_elemwise(r())),
        9 => {
            let mut d = l().eval();
            d += r();
            table(&d)
        }
        _ => {
            let mut d = l().eval();
            d -= r();
            table(&d)
        }
    });
    let what = format!("{:?} {} {:?} (kinds {kl}, {kr})", s, OPS[op], t);
    if s != t {
        ensure!(got.is_err(), "{what}: accepted, gave {:?}", got);
        return Ok(());
    }
    let got = got.map_err(|e| format!("{what}: rejected: {e}"))?;
    let (le, re) = (l(), r());
    let val = |i: usize, j: usize| {
        let (x, y) = if virt { (1, 2) } else { (le.entry(i, j), re.entry(i, j)) };
        match op {
            0 | 5 | 9 => x + y,
            1 | 6 | 10 => x - y,
            2 | 7 => x * y,
            3 | 8 => x / y,
            _ => x * 100000 + y,
        }
    };
    let want = if virt {
        Mat { r: s.0, c: s.1, d: if s.0 > 0 && s.1 > 0 { vec![val(0, 0)] } else { vec![] } }
    } else {
        Mat::from_fn(s.0, s.1, val)
    };
    ensure_eq!(got, want, "{what}");
    Ok(())
}
fn vecs_(n: usize, m: usize, op: usize, kl: usize, kr: usize, virt: bool) -> Res {
    let l = || if virt { DynVec::new(make_vector_expr(n, |_| 1i64)) } else { vec_as(kl, n, 1000) };
    let r = || if virt { DynVec::new(make_vector_expr(m, |_| 2i64)) } else { vec_as(kr, m, 1) };
    fn out<E: VectorExpr<Entry = i64>>(virt: bool, e: E) -> (usize, Vec<i64>) {
        let n = e.len();
        (n, if virt { if n > 0 { vec![e.entry(n - 1)] } else { vec![] } } else { list(&e.eval()) })
    }
    let got = catch(|| match op {
        0 => out(virt, l().wrap() + r()),
        1 => out(virt, l().wrap() - r()),
        2 => out(virt, l().wrap().mul_elemwise(r())),
        3 => out(virt, l().wrap().div_elemwise(r())),
        4 => out(virt, l().wrap().zip(r()).map(|(x, y)| x * 100000 + y)),
        5 => out(virt, &l().eval() + r()),
        6 => out(virt, &l().eval() - r()),
        7 => out(virt, l().eval().mul_elemwise(r())),
        8 => out(virt, l().eval().div_elemwise(r())),
        9 => {
            let mut d = l().eval();
            d += r();
            out(virt, d)
        }
        10 => {
            let mut d = l().eval();
            d -= r();
            out(virt, d)
        }
        11 => (n, vec![&l().eval() * &r().eval()]),
        _ => (n, vec![l().eval() * r().eval()]),
    });
    let what = format!("length {n} {} length {m} (kinds {kl}, {kr})", OPS.get(op).unwrap_or(&"inner product"));
    if n != m {
        ensure!(got.is_err(), "{what}: accepted, gave {:?}", got);
        return Ok(());
    }
    let got = got.map_err(|e| format!("{what}: rejected: {e}"))?;
    let (x, y) = (l(), r());
    let val = |i: usize| {
        let (x, y) = (x.entry(i), y.entry(i));
        match op {
            0 | 5 | 9 => x + y,
            1 | 6 | 10 => x - y,
            2 | 7 => x * y,
            3 | 8 => x / y,
            _ => x * 100000 + y,
        }
    };
    let want = match op {
        11.. => vec![(0..n).map(|i| x.entry(i) * y.entry(i)).sum()],
        _ if virt => if n > 0 { vec![val(0)] } else { vec![] },
        _ => (0..n).map(val).collect(),
    };
    ensure_eq!(got, (n, want), "{what}");
    Ok(())
}
fn product(s: (usize, usize), t: (usize, usize)) -> Res {
    let (a, b) = (mat_as(1, s.0, s.1, 3).eval(), mat_as(1, t.0, t.1, 7).eval());
    let what = format!("{s:?} * {t:?}");
    if s.1 != t.0 {
        let got = catch(|| {
            let p = &a * &b;
            (p.num_rows(), p.num_cols())
        });
        ensure!(got.is_err(), "{what}: accepted, gave a matrix of shape {got:?}");
        return Ok(());
    }
    let p = catch(|| &a * &b).map_err(|e| format!("{what}: rejected: {e}"))?;
    ensure_eq!((p.num_rows(), p.num_cols()), (s.0, t.1), "{what}: shape");
    if s.1 > 0 {
        let p = catch(|| p.eval()).map_err(|e| format!("{what}: rejected: {e}"))?;
        ensure_eq!((p.num_rows(), p.num_cols()), (s.0, t.1), "{what}: shape");
    }
    Ok(())
}

type Pair = ((usize, usize), (usize, usize), u8, u8);
fn one(c: &Pair, ctx: &mut Ctx) -> Res {
    let (s, t) = (c.0, c.1);
    ctx.nontrivial(s != t);
    ctx.class("same number of entries", s != t && s.0 * s.1 == t.0 * t.1);
    ctx.class("one dimension differs", (s.0 != t.0) != (s.1 != t.1));
    ctx.class("matching", s == t);
    ctx.class("empty operand", s.0 * s.1 == 0 || t.0 * t.1 == 0);
    for op in 0..OPS.len() {
        mats(s, t, op, c.2 as usize % MK, c.3 as usize % MK, false)?;
    }
    product(s, t)
}
fn all(c: &Pair, ctx: &mut Ctx) -> Res {
    for kl in 0..MK as u8 {
        for kr in 0..MK as u8 {
            one(&(c.0, c.1, kl, kr), ctx)?;
        }
    }
    Ok(())
}
fn virtual_(c: &Pair, ctx: &mut Ctx) -> Res {
    ctx.nontrivial(c.0 != c.1);
    ctx.class("matching", c.0 == c.1);
    for op in 0..5 {
        mats(c.0, c.1, op, 0, 0, true)?;
    }
    // one operand of a small shape can be stored
    if c.0 .0 <= 300 && c.0 .1 <= 300 && c.0 != c.1 {
        for op in 5..OPS.len() {
            mats(c.0, c.1, op, 0, 0, true)?;
        }
    }
    Ok(())
}
fn lens(c: &(usize, usize, u8, u8), ctx: &mut Ctx) -> Res {
    ctx.nontrivial(c.0 != c.1);
    ctx.class("matching", c.0 == c.1);
    ctx.class("empty operand", c.0 == 0 || c.1 == 0);
    for op in 0..OPS.len() + 2 {
        vecs_(c.0, c.1, op, c.2 as usize % MK, c.3 as usize % MK, false)?;
    }
    Ok(())
}
fn all_lens(c: &(usize, usize, u8, u8), ctx: &mut Ctx) -> Res {
    for kl in 0..MK as u8 {
        for kr in 0..MK as u8 {
            lens(&(c.0, c.1, kl, kr), ctx)?;
        }
    }
    Ok(())
}
fn virtual_lens(c: &(usize, usize, u8, u8), ctx: &mut Ctx) -> Res {
    ctx.nontrivial(c.0 != c.1);
    ctx.class("matching", c.0 == c.1);
    for op in 0..5 {
        vecs_(c.0, c.1, op, 0, 0, true)?;
    }
    if c.0 <= 100 && c.0 != c.1 {
        for op in 5..OPS.len() {
            vecs_(c.0, c.1, op, 0, 0, true)?;
        }
    }
    Ok(())
}

/// Other types of entries, stored operands.
fn entries<T: ModelRing + Ring + Conj>(c: &((usize, usize), (usize, usize), i64), ctx: &mut Ctx) -> Res
where
    T: std::ops::Add<Output = T> + std::ops::Sub<Output = T> + std::ops::Mul<Output = T> + std::ops::AddAssign + std::ops::SubAssign,
{
    let (s, t) = (c.0, c.1);
    ctx.nontrivial(s != t);
    ctx.class("matching", s == t);
    let m = |d: (usize, usize), k: i64| Mat::from_fn(d.0, d.1, |i, j| T::dec(c.2 ^ ((i as i64) << 7) ^ ((j as i64) << 3) ^ k));
    let (a, b) = (m(s, 0), m(t, 5));
    let got = |op: usize| catch(|| match op {
        0 => table(&(&dm(&a) + &dm(&b)).eval()),
        1 => table(&(&dm(&a) - dm(&b)).eval()),
        2 => table(&dm(&a).mul_elemwise(&dm(&b)).eval()),
        3 => table(&dm(&a).wrap().zip(dm(&b)).map(|(x, y)| x.m_add(&y)).eval()),
        4 => { let mut x = dm(&a); x += &dm(&b); table(&x) }
        _ => { let mut x = dm(&a); x -= dm(&b); table(&x) }
    });
    for op in 0..6 {
        let what = format!("operation {op} of {s:?} and {t:?} matrices of {}", T::NAME);
        let g = got(op);
        if s != t {
            ensure!(g.is_err(), "{what}: accepted");
        } else {
            let want = Mat::from_fn(s.0, s.1, |i, j| { let (x, y) = (a.at(i, j), b.at(i, j)); match op { 0 | 3 | 4 => x.m_add(y), 2 => x.m_mul(y), _ => x.m_sub(y) } });
            ensure_eq!(g.map_err(|e| format!("{what}: rejected: {e}"))?, want, "{what}");
        }
    }
    let p = catch(|| (&dm(&a) * &dm(&b)).num_cols());
    ensure!(p == if s.1 == t.0 { Ok(t.1) } else { p.clone() } && p.is_ok() == (s.1 == t.0), "product of {s:?} and {t:?} matrices of {}: {p:?}", T::NAME);
    let got = |op: usize| catch(|| {
        let (mut x, y) = (dv(&a.d), dv(&b.d));
        match op {
            0 => list(&(&x + &y).eval()),
            1 => list(&(&x - y).eval()),
            2 => list(&x.mul_elemwise(&y).eval()),
            3 => list(&x.wrap().zip(&y).map(|(x, y)| x.m_add(&y)).eval()),
            4 => { x += &y; list(&x) }
            5 => { x -= y; list(&x) }
            _ => vec![&x * &y],
        }
    });
    let (n, k) = (a.d.len(), b.d.len());
    for op in 0..7 {
        let what = format!("operation {op} of vectors of lengths {n} and {k} of {}", T::NAME);
        let g = got(op);
        if n != k {
            ensure!(g.is_err(), "{what}: accepted");
        } else {
            let g = g.map_err(|e| format!("{what}: rejected: {e}"))?;
            let want: Vec<T> = a.d.iter().zip(&b.d).map(|(x, y)| match op { 0 | 3 | 4 => x.m_add(y), 2 => x.m_mul(y), _ => x.m_sub(y) }).collect();
            ensure!(op == 6 || g == want, "{what}: got {g:?}, expected {want:?}");
        }
    }
    Ok(())
}

/// Nested arrays as operands.
macro_rules! arrays {
    ($c:ident: $($r:literal $k:literal),*) => {$(
        $c.sub(&format!("array operand {}x{}", $r, $k), 40, (0..=6usize, 0..=6usize, 0u8..6), |case, ctx| {
            let t = ($r as usize, $k as usize);
            let near = |d: usize, x: usize| (x + d % 3).saturating_sub(1);
            let s = match case.2 { 0 => t, 1 => (t.1, t.0), 2 => (near(case.0, t.0), t.1), 3 => (t.0, near(case.1, t.1)), 4 => (1, t.0 * t.1), _ => (case.0, case.1) };
            ctx.nontrivial(s != t);
            let a = [[3i64; $k]; $r];
            let d = || mat_as(1, s.0, s.1, 5).eval();
            let got = |op: usize| catch(|| match op {
                0 => table(&(&d() + a).eval()),
                1 => table(&(&d() - a).eval()),
                2 => table(&d().mul_elemwise(a).eval()),
                3 => table(&d().div_elemwise(a).eval()),
                4 => { let mut x = d(); x += a; table(&x) }
                5 => { let mut x = d(); x -= a; table(&x) }
                6 => table(&(a.wrap() + &d()).eval()),
                7 => table(&a.wrap().zip(d()).map(|(x, y)| x - y).eval()),
                _ => table(&a.wrap().mul_elemwise(&d()).eval()),
            });
            for op in 0..9 {
                let g = got(op);
                if s != t {
                    ensure!(g.is_err(), "operation {op} of a {s:?} matrix and a {t:?} array: accepted, gave {g:?}");
                } else {
                    let g = g.map_err(|e| format!("operation {op} of a {s:?} matrix and a {t:?} array: rejected: {e}"))?;
                    let want = table(&d()).map(|x| match op { 0 | 4 | 6 => x + 3, 1 | 5 => x - 3, 2 | 8 => x * 3, 3 => x / 3, _ => 3 - x });
                    ensure_eq!(g, want, "operation {op} of a {s:?} matrix and an array");
                }
            }
            Ok(())
        });
    )*};
}

fn main() {
    let mut c = Check::start("C21");
    let fixed = |s, t| (Just(s), Just(t), any::<u8>(), any::<u8>());
    let shapes = |n: usize| (0..=n).flat_map(move |r| (0..=n).map(move |k| (r, k)));
    // every pair of small shapes, every operation, every pair of kinds
    let pairs: Vec<_> = shapes(3).flat_map(|s| shapes(3).map(move |t| (s, t))).collect();
    c.sweep("every pair of shapes up to 3x3, all kinds", 1, pairs.into_iter().map(|(s, t)| fixed(s, t)), all);
    let pairs: Vec<_> = shapes(6).flat_map(|s| shapes(6).map(move |t| (s, t))).collect();
    c.sweep("every pair of shapes up to 6x6", 1, pairs.into_iter().map(|(s, t)| fixed(s, t)), one);
    // larger: equal, transposed, reshaped, off by one, one dimension changed
    let big = (0..=70usize, 0..=70usize, 0u8..10, 0..=70usize).prop_map(|(r, k, how, x)| {
        let t = match how {
            0 => (r, k),
            1 => (k, r),
            2 => (r + 1, k),
            3 => (r, k + 1),
            4 => (x, k),
            5 => (r, x),
            6 => (r * k, 1),
            7 => (1, r * k),
            8 => (r * 2, k),
            _ => (r, k + 64),
        };
        ((r, k), t)
    });
    c.sub("larger shapes", 1200, (big, any::<u8>(), any::<u8>()).prop_map(|((s, t), a, b)| (s, t, a, b)), one);
    let dims = [0usize, 1, 2, 3, 255, 256, 257, 1 << 16, (1 << 16) + 1, 1 << 31, 1 << 32, (1 << 32) + 1, (1 << 32) + 2, (1 << 32) + 3, 1 << 62, 1 << 63, (1 << 63) + 1, usize::MAX - 1, usize::MAX];
    let (a, b, e, f) = (proptest::sample::select(dims.to_vec()), proptest::sample::select(dims.to_vec()), proptest::sample::select(dims.to_vec()), 0u8..6);
    let huge = (a, b, e, f).prop_map(|(r, k, x, how)| match how {
        0 => ((r, k), (r, k)),
        1 => ((r, k), (k, r)),
        2 => ((r, k), (x, k)),
        3 => ((r, k), (r, x)),
        4 => ((r, k), (r & 0xffff_ffff, k)),
        _ => ((r & 0xff, k & 0x3), (r, k)),
    });
    c.sub("virtual shapes", 2500, (huge, Just(0u8), Just(0u8)).prop_map(|((s, t), a, b)| (s, t, a, b)), virtual_);
    // vectors
    let pairs: Vec<(usize, usize)> = (0..=12).flat_map(|n| (0..=12).map(move |m| (n, m))).collect();
    c.sweep("every pair of lengths up to 12, all kinds", 1, pairs.into_iter().map(|(n, m)| (Just(n), Just(m), Just(0u8), Just(0u8))), all_lens);
    let big = (0..=300usize, 0..=300usize, 0u8..6).prop_map(|(n, m, how)| match how { 0 => (n, n), 1 => (n, n + 1), 2 => (n + 1, n), 3 => (n, n + 256), 4 => (n, 2 * n), _ => (n, m) });
    c.sub("longer vectors", 1500, (big, any::<u8>(), any::<u8>()).prop_map(|((n, m), a, b)| (n, m, a, b)), lens);
    let huge = (proptest::sample::select(dims.to_vec()), proptest::sample::select(dims.to_vec()), 0u8..3).prop_map(|(n, m, how)| match how { 0 => (n, n), 1 => (n & 0xffff_ffff, n), _ => (n, m) });
    c.sub("virtual lengths", 1000, (huge, Just(0u8), Just(0u8)).prop_map(|((n, m), a, b)| (n, m, a, b)), virtual_lens);
    // off by one beyond thresholds of size
    let pairs: Vec<_> = HUGE.into_iter().flat_map(|n| [(n, n - 1), (n - 1, n), (n, 1), (1, n), (n, 0), (n, n)]).collect();
    c.sweep("very long vectors", 1, pairs.into_iter().map(|(n, m)| (Just(n), Just(m), any::<u8>(), any::<u8>())), lens);
    c.sub("long vectors, off by one", 150, (large(17), 0u8..4, any::<u8>(), any::<u8>()).prop_map(|(n, how, a, b)| (n, [n, n + 1, n - 1, n + 256][how as usize], a, b)), lens);
    let list = [(255usize, 257usize), (256, 256), (513, 511), (1025, 1024), (1, 65_537), (65_537, 1), (1, 1_048_577), (1_048_577, 1)];
    let pairs: Vec<_> = list.into_iter().flat_map(|(r, k)| [(r, k), (k, r), (r + 1, k), (r, k + 1), (r, k - 1), (r - 1, k), (r * k, 1), (1, r * k), (1, k), (r, 1)].map(move |t| ((r, k), t))).collect();
    // only one product is cheap enough: the mismatched ones are rejected at once
    c.sweep("very large shapes", 1, pairs.into_iter().map(|(s, t)| fixed(s, t)), |c, ctx| {
        ctx.nontrivial(c.0 != c.1);
        for op in 0..OPS.len() {
            mats(c.0, c.1, op, c.2 as usize % MK, c.3 as usize % MK, false)?;
        }
        if c.0 .1 == c.1 .0 && c.0 .0 * c.0 .1 * c.1 .1 > 1 << 24 { Ok(()) } else { product(c.0, c.1) }
    });
    // other entries
    let pair = |n: usize| (0..=n, 0..=n, 0u8..8, 0..=n, elem()).prop_map(|(r, k, how, x, v)| {
        let t = match how { 0 | 1 => (r, k), 2 => (k, r), 3 => (r + 1, k), 4 => (r, k + 1), 5 => (x, k), 6 => (r, x), _ => (r * k, 1) };
        ((r, k), t, v)
    });
    macro_rules! types {
        ($($t:ty, $cases:literal, $max:literal);*) => {$(
            c.sub(&format!("entries {}", <$t as El>::NAME), $cases, pair($max), entries::<$t>);
        )*};
    }
    types!(Nil, 300, 12; Quat, 300, 8; Z2, 300, 12; f64, 300, 12; Wide<1>, 150, 8; Wide<20>, 60, 6; Wide<70>, 30, 5);
    arrays!(c: 1 1, 1 2, 2 1, 2 2, 2 3, 3 2, 3 3, 1 6, 6 1, 0 2, 2 0, 4 4, 5 3);
    c.finish("pairs of shapes (all small ones, larger ones that are transposed, reshaped or off by one, huge virtual ones) under every binary operation and every kind of operand, in a build without debug assertions; matching pairs must give the right value; non-trivial: the shapes differ");
}
