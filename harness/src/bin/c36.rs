//! C36: differential evolution does not depend on the units of its
//! coordinates, nor on anything but the outcome of the comparisons.
use pbt::prelude::*;

/// (population, generations, crossover, weight), seed, spiky, order, powers of two, box.
type Case = ((usize, usize, f32, f64), u64, bool, u8, Vec<i32>, u64);

fn bounds<const N: usize>(salt: u64) -> [(f64, f64); N] {
    let mut s = salt;
    [(); N].map(|_| {
        let lo = (splitmix(&mut s) % 200) as f64 / 8.0 - 12.0;
        let w = (splitmix(&mut s) % 300 + 1) as f64 / 16.0;
        (lo, lo + w)
    })
}
/// A score to be minimised, in units of the box.
fn score<const N: usize>(x: &[f64; N], b: &[(f64, f64); N], kind: u8, salt: u64) -> f64 {
    // the minimiser stays away from zero, where floats have no unit
    let centre = |i: usize| {
        let (lo, hi) = b[i];
        let c = lo + (hi - lo) * (0.2 + 0.6 * ((salt >> (7 * (i % 8))) & 0x7f) as f64 / 127.0);
        if c.abs() < 0.25 { 0.37 } else { c }
    };
    let d = |i: usize| x[i] - centre(i);
    match kind % 6 {
        0 => (0..N).map(|i| d(i) * d(i)).sum(),
        1 => (0..N).map(|i| d(i).abs()).sum(),
        2 => (0..N).map(|i| d(i) * d(i)).sum::<f64>() + (0..N).map(|i| (d(i) * 7.0).sin()).sum::<f64>(),
        // unrelated to the position
        3 => (hash_point(x, salt) >> 12) as f64,
        4 => (hash_point(x, salt) % 3) as f64,
        _ => ((0..N).map(|i| d(i).abs()).sum::<f64>() * 4.0).floor(),
    }
}
fn check<T: Co, const N: usize>(c: &Case, ctx: &mut Ctx) -> Res
where
    f32: Into<T>,
    i8: Into<T>,
{
    let ((pop, gens, cr, f), seed, spiky, kind, ref shift, salt) = *c;
    let b = bounds::<N>(salt);
    // unbounded growth would leave the range of the floats
    let gens = if matches!(kind % 6, 3 | 4) { gens.min(20) } else { gens };
    let p = Params { pop, cr, f: T::of(f), iters: pop * gens + seed as usize % pop, seed, spiky };
    let unit: [f64; N] = std::array::from_fn(|i| (shift[i % shift.len()] as f64).exp2());
    let go = |u: &[f64; N]| -> Run<T, N> {
        let at = |x: &[T; N]| score(&std::array::from_fn::<f64, N, _>(|i| x[i].to() / u[i]), &b, kind, salt);
        let bs: [(T, T); N] = std::array::from_fn(|i| (T::of(b[i].0 * u[i]), T::of(b[i].1 * u[i])));
        run(&bs, &p, |x, y| at(x) < at(y))
    };
    let (one, two) = (go(&[1.0; N]), go(&unit));
    let what = format!("{} in {N} dimensions, population {pop}, {} iterations, units {unit:?}", T::NAME, p.iters);
    let x = one.result.map_err(|e| format!("{what}: without units: {e}"))?;
    let y = two.result.map_err(|e| format!("{what}: with units: {e}"))?;
    ctx.nontrivial(unit.iter().any(|u| *u != 1.0) && one.calls.iter().any(|c| c.2));
    ctx.class("different units", unit.iter().any(|u| *u != unit[0]));
    ctx.class("more than 50 generations", gens > 50);
    ctx.class("converged", one.calls.last().is_some_and(|c| same_point(&c.0, &c.1)));
    let scaled = |a: &[T; N], b: &[T; N]| (0..N).all(|i| a[i].to() * unit[i] == b[i].to());
    for (k, (p, q)) in one.calls.iter().zip(&two.calls).enumerate() {
        ensure!(scaled(&p.0, &q.0) && scaled(&p.1, &q.1), "{what}: comparison {k} of {:?} and {:?} becomes one of {:?} and {:?}", p.0, p.1, q.0, q.1);
    }
    ensure_eq!(two.calls.len(), one.calls.len(), "{what}: number of comparisons");
    ensure!(scaled(&x, &y), "{what}: the result {x:?} becomes {y:?}");
    Ok(())
}

/// The search proceeds by the answers alone: a comparison that gives the same
/// answers from a list, without looking at the points, gives the same trace.
fn answers<T: Co, const N: usize>(c: &Case, ctx: &mut Ctx) -> Res
where
    f32: Into<T>,
    i8: Into<T>,
{
    let ((pop, gens, cr, f), seed, spiky, kind, _, salt) = c.clone();
    let b = bounds::<N>(salt);
    let p = Params { pop, cr, f: T::of(f), iters: pop * gens.min(30), seed, spiky };
    let bs: [(T, T); N] = b.map(|(lo, hi)| (T::of(lo), T::of(hi)));
    let at = |x: &[T; N]| score(&x.map(|v| v.to()), &b, kind, salt);
    let one = run(&bs, &p, |x, y| at(x) < at(y));
    let mut k = 0;
    let two = run(&bs, &p, |_, _| {
        k += 1;
        one.calls.get(k - 1).is_some_and(|c| c.2)
    });
    // the same objective, bent but in the same order
    let bent = |v: f64| v * v * v + 5.0 * v - 1000.0;
    let three = run(&bs, &p, |x, y| bent(at(x)) < bent(at(y)));
    let what = format!("{} in {N} dimensions, population {pop}, {} iterations", T::NAME, p.iters);
    ctx.nontrivial(one.calls.iter().any(|c| c.2) && one.calls.iter().any(|c| !c.2));
    let x = one.result.clone().map_err(|e| format!("{what}: {e}"))?;
    for (name, r) in [("answers from a list", two), ("a bent objective", three)] {
        if name == "a bent objective" && kind % 6 == 3 {
            continue; // rounding may merge two hashes
        }
        let y = r.result.map_err(|e| format!("{what}, {name}: {e}"))?;
        if name == "a bent objective" && r.calls.iter().zip(&one.calls).any(|(a, b)| a.2 != b.2 && same_point(&a.0, &b.0) && same_point(&a.1, &b.1)) {
            continue; // rounding decided a comparison
        }
        for (k, (p, q)) in one.calls.iter().zip(&r.calls).enumerate() {
            ensure!(same_point(&p.0, &q.0) && same_point(&p.1, &q.1), "{what}, {name}: comparison {k} of {:?} and {:?} becomes one of {:?} and {:?}", p.0, p.1, q.0, q.1);
        }
        ensure_eq!(r.calls.len(), one.calls.len(), "{what}, {name}: number of comparisons");
        ensure!(same_point(&x, &y), "{what}, {name}: {x:?} becomes {y:?}");
    }
    Ok(())
}

fn main() {
    let mut c = Check::start("C36");
    let case = |gens: usize, k: i32| (
        (4usize..30, 0..=gens, prop_oneof![Just(0.0f32), Just(1.0), Just(0.9), 0.0f32..1.0], prop_oneof![Just(0.0f64), Just(2.0), Just(0.5), 0.3f64..0.9]),
        any::<u64>(), prop_oneof![3 => Just(false), 1 => Just(true)], 0u8..6,
        prop_oneof![vec(-k..k, 1..=1), vec(-k..k, 1..6)], any::<u64>(),
    );
    macro_rules! types {
        ($($t:ident $k:literal $n:literal)*) => {$(
            c.sub(&format!("units {} {}-dimensional", stringify!($t), $n), 800, case(60, $k), check::<$t, $n>);
            c.sub(&format!("units {} {}-dimensional, long runs", stringify!($t), $n), 60, case(1000, $k), check::<$t, $n>);
            c.sub(&format!("answers {} {}-dimensional", stringify!($t), $n), 300, case(30, $k), answers::<$t, $n>);
        )*};
    }
    types!(f32 40 1 f32 40 2 f32 40 3 f64 300 1 f64 300 2 f64 300 3 f64 300 6);
    c.finish("runs on a box and on the same box with coordinates multiplied by powers of two (the same or different ones): every comparison and the result scale exactly; runs whose comparison repeats the recorded answers or compares a bent objective: the same trace; non-trivial: units other than one and some accepted trial, or both answers occurring");
}
