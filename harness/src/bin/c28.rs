//! C28: bounds, parameter limits, budget of comparisons, determinism.
use pbt::prelude::*;

/// Lower end and width of an interval, by scale.
type Iv = (i8, f64, f64, u8);
fn interval<T: Co>(v: &Iv) -> (T, T)
where
    f32: Into<T>,
    i8: Into<T>,
{
    let scale = 10f64.powi(v.0 as i32);
    let lo = T::of(v.1 * scale);
    let hi = match v.3 % 10 {
        0 => lo.up(),
        1 => lo.up().up(),
        2 => T::of(0.0),
        3 => T::of(v.1.abs() * scale * 1.5 + scale),
        _ => T::of((v.1 + v.2) * scale),
    };
    if lo < hi {
        (lo, hi)
    } else if hi < lo {
        (hi, lo)
    } else {
        (lo, lo.up())
    }
}
fn iv() -> impl Strategy<Value = Iv> + Clone {
    (prop_oneof![3 => -2i8..=2, 1 => -30i8..=30], prop_oneof![-10.0f64..10.0, Just(0.0)], 0.001f64..20.0, 0u8..20)
}

type Case = (Vec<Iv>, (usize, f32, f64, usize), u64, bool, u8);
fn check<T: Co, const N: usize>(c: &Case, ctx: &mut Ctx) -> Res
where
    f32: Into<T>,
    i8: Into<T>,
{
    let (ivs, (pop, cr, f, iters), seed, spiky, kind) = c;
    let b: [(T, T); N] = std::array::from_fn(|i| interval(&ivs[i]));
    let what = format!("{} in {N} dimensions, bounds {b:?}, population {pop}, CR {cr}, F {f}", T::NAME);
    let p = |iters| Params { pop: *pop, cr: *cr, f: T::of(*f), iters, seed: *seed, spiky: *spiky };
    let better = |x: &[T; N], y: &[T; N]| match kind % 4 {
        0 => false,
        1 => true,
        2 => hash_point(x, *seed) < hash_point(y, *seed),
        _ => x[0] < y[0],
    };
    let inside = |x: &[T; N]| (0..N).all(|q| x[q] >= b[q].0 && x[q] < b[q].1);
    // without iterations everything shown is a member of the initial population
    let r = run(&b, &p(0), better);
    let x = r.result.clone().map_err(|e| format!("{what}, no iterations: {e}"))?;
    ensure!(inside(&x), "{what}: result {x:?} without iterations is out of bounds");
    ensure!(r.calls.len() <= *pop, "{what}: {} comparisons without iterations", r.calls.len());
    for (x, y, _) in &r.calls {
        ensure!(inside(x) && inside(y), "{what}: initial candidate {x:?} or {y:?} is out of bounds");
    }
    // the incumbents of the first round are the initial population
    let r = run(&b, &p(*pop), |_, _| false);
    r.result.clone().map_err(|e| format!("{what}, {pop} iterations: {e}"))?;
    ensure!(r.calls.len() >= *pop && r.calls.len() <= 2 * pop, "{what}: {} comparisons in {pop} iterations", r.calls.len());
    for (_, y, _) in &r.calls[..*pop] {
        ensure!(inside(y), "{what}: initial candidate {y:?} is out of bounds");
    }
    // budget
    let n = *iters;
    let r = run(&b, &p(n), better);
    let x = r.result.clone().map_err(|e| format!("{what}, {n} iterations: {e}"))?;
    ensure!(r.calls.len() <= n + pop, "{what}: {} comparisons in {n} iterations", r.calls.len());
    ensure!(r.calls.len() >= n, "{what}: only {} comparisons in {n} iterations", r.calls.len());
    // the same again
    let s = run(&b, &p(n), better);
    let y = s.result.clone()?;
    ensure!((0..N).all(|q| x[q].bits() == y[q].bits()), "{what}, {n} iterations: {x:?}, and {y:?} from the same generator state");
    ensure!(r.calls.len() == s.calls.len(), "{what}, {n} iterations: {} and {} comparisons from the same generator state", r.calls.len(), s.calls.len());
    ctx.nontrivial(n > 0);
    ctx.class("an interval of one or two values", ivs[..N].iter().any(|i| i.3 % 10 < 2));
    ctx.class("limit of a parameter", *cr == 0.0 || *cr == 1.0 || *f == 0.0 || *f == 2.0 || *pop == 4);
    Ok(())
}

/// Bad arguments: a panic, and no comparison before it.
fn rejected<T: Co, const N: usize>(c: &(Vec<Iv>, (usize, f32, f64, usize), u64, (u8, u8, u8)), ctx: &mut Ctx) -> Res
where
    f32: Into<T>,
    i8: Into<T>,
{
    let (ivs, (pop, cr, f, iters), seed, (bad, which, at)) = c;
    let mut b: [(T, T); N] = std::array::from_fn(|i| interval(&ivs[i]));
    let mut p = Params { pop: *pop, cr: *cr, f: T::of(*f), iters: *iters, seed: *seed, spiky: false };
    let q = *at as usize % N;
    let crs = [-f32::MIN_POSITIVE, -1e-30, -f32::from_bits(1), -0.001, 1.0f32.next_up(), 1.001, 2.0, -1.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, -f32::NAN, f32::MAX];
    let two = T::of(2.0);
    let fs = [T::of(-1e-30), T::of(-0.001), T::of(-1.0), two.up(), T::of(2.001), T::of(3.0), T::of(f64::INFINITY), T::of(f64::NEG_INFINITY), T::of(f64::NAN), T::of(-f64::NAN), T::of(-1e-40), T::of(1e30)];
    let (lo, hi) = b[q];
    let nan = T::of(f64::NAN);
    let what = match bad % 4 {
        0 => {
            p.pop = *which as usize % 4;
            "population"
        }
        1 => {
            p.cr = crs[*which as usize % crs.len()];
            "crossover probability"
        }
        2 => {
            p.f = fs[*which as usize % fs.len()];
            "weight"
        }
        _ => {
            b[q] = [(lo, lo), (hi, lo), (hi, hi), (nan, hi), (lo, nan), (nan, nan), (T::of(0.0), T::of(-0.0)), (lo.up(), lo)][*which as usize % 8];
            "bounds"
        }
    };
    ctx.nontrivial(true);
    ctx.class("population", bad % 4 == 0);
    ctx.class("crossover probability", bad % 4 == 1);
    ctx.class("weight", bad % 4 == 2);
    ctx.class("bounds", bad % 4 == 3);
    let r = run(&b, &p, |_, _| true);
    let args = format!("{} in {N} dimensions, bounds {b:?}, {p:?} (bad {what})", T::NAME);
    match &r.result {
        Ok(x) => return Err(format!("{args}: accepted, gave {x:?}")),
        Err(e) => ensure!(!e.contains(ENDLESS), "{args}: {e}"),
    }
    ensure!(r.calls.is_empty(), "{args}: {} comparisons were made before the panic", r.calls.len());
    Ok(())
}

/// The initial samples reach every part of the box.
fn spread<T: Co>(c: &((Iv, Iv), u64, usize, f64), ctx: &mut Ctx) -> Res
where
    f32: Into<T>,
    i8: Into<T>,
{
    let (ivs, seed, pop, f) = c;
    let b = [ivs.0, ivs.1].map(|v| interval::<T>(&(v.0, v.1, v.2 + 1.0, 9)));
    // 1600 samples: P(one of 16 cells is empty) < 16 (15/16)^1600 < 1e-43
    let mut cells = [[0usize; 4]; 4];
    let mut n = 0;
    let mut k = 0;
    let mut all = vec![];
    while n < 1600 {
        let p = Params { pop: *pop, cr: 0.5, f: T::of(*f), iters: *pop, seed: seed.wrapping_add(k), spiky: false };
        k = k.wrapping_add(0x1234_5678_9abc_def1);
        let r = run(&b, &p, |_, _| false);
        r.result?;
        for (_, y, _) in r.calls.iter().take(*pop) {
            let cell = |q: usize| {
                let (lo, hi) = (b[q].0.to(), b[q].1.to());
                ((((y[q].to() - lo) / (hi - lo)) * 4.0) as usize).min(3)
            };
            cells[cell(0)][cell(1)] += 1;
            all.push(y[0].bits());
            n += 1;
        }
    }
    ctx.nontrivial(true);
    let total: usize = cells.iter().flatten().sum();
    for (i, row) in cells.iter().enumerate() {
        for (j, x) in row.iter().enumerate() {
            ensure!(*x > 0, "{}: none of {total} initial candidates in part ({i}, {j}) of 4 x 4 of the box {b:?}", T::NAME);
            let e = total as f64 / 16.0;
            ensure!((*x as f64 - e).abs() < 9.0 * e.sqrt(), "{}: {x} of {total} initial candidates in part ({i}, {j}) of 4 x 4 of the box {b:?}", T::NAME);
        }
    }
    all.sort();
    all.dedup();
    ensure!(all.len() * 4 > total * 3, "{}: only {} different values among {total} coordinates", T::NAME, all.len());
    Ok(())
}

fn main() {
    let mut c = Check::start("C28");
    let cr = || prop_oneof![Just(0.0f32), Just(1.0), Just(-0.0), Just(1.0f32.next_down()), Just(f32::from_bits(1)), 0.0f32..=1.0];
    let w = || prop_oneof![Just(0.0f64), Just(2.0), Just(-0.0), Just(2.0f64.next_down()), Just(1e-30), 0.0f64..=2.0];
    let par = move || (prop_oneof![2 => Just(4usize), 3 => 4..=12usize, 1 => 4..=100usize], cr(), w(), prop_oneof![0..=4usize, 0..=60usize]);
    let case = move |n: usize| (vec(iv(), n), par(), any::<u64>(), any::<bool>(), 0u8..4);
    c.sub("f64, 1 dimension", 3000, case(1), check::<f64, 1>);
    c.sub("f64, 2 dimensions", 3000, case(2), check::<f64, 2>);
    c.sub("f64, 3 dimensions", 2000, case(3), check::<f64, 3>);
    c.sub("f64, 6 dimensions", 1000, case(6), check::<f64, 6>);
    c.sub("f64, 17 dimensions", 200, case(17), check::<f64, 17>);
    c.sub("f32, 1 dimension", 1500, case(1), check::<f32, 1>);
    c.sub("f32, 2 dimensions", 2000, case(2), check::<f32, 2>);
    c.sub("f32, 5 dimensions", 1000, case(5), check::<f32, 5>);
    let bad = || (any::<u8>(), any::<u8>(), any::<u8>());
    c.sub("bad arguments, f64, 1 dimension", 1000, (vec(iv(), 1), par(), any::<u64>(), bad()), rejected::<f64, 1>);
    c.sub("bad arguments, f64, 3 dimensions", 2500, (vec(iv(), 3), par(), any::<u64>(), bad()), rejected::<f64, 3>);
    c.sub("bad arguments, f32, 2 dimensions", 2000, (vec(iv(), 2), par(), any::<u64>(), bad()), rejected::<f32, 2>);
    let list: Vec<usize> = (4..=66usize).chain([100, 127, 128, 129, 255, 256, 257, 512, 1000, 1025, 4097, 10_000, 65_537]).collect();
    c.sweep("every population size", 3, list.into_iter().map(move |n| (vec(iv(), 2), (Just(n), cr(), w(), 0..3 * n), any::<u64>(), any::<bool>(), 0u8..4)), check::<f64, 2>);
    c.sweep("very many iterations", 1, [20_001usize, 65_537, 131_073, 400_003].into_iter().flat_map(|n| [(4..=5usize, n), (6..=40, n)]).map(move |(p, n)| (vec(iv(), 2), (p, cr(), w(), Just(n)), any::<u64>(), any::<bool>(), 0u8..4)), check::<f64, 2>);
    c.sub("f64, 70 dimensions", 20, case(70), check::<f64, 70>);
    c.sub("f64, 300 dimensions", 5, case(300), check::<f64, 300>);
    c.sub("spread, f64", 25, ((iv(), iv()), any::<u64>(), prop_oneof![4..=9usize, 20..=400usize], 0.0f64..=2.0), spread::<f64>);
    c.sub("spread, f32", 25, ((iv(), iv()), any::<u64>(), prop_oneof![4..=9usize, 20..=400usize], 0.0f64..=2.0), spread::<f32>);
    c.finish("monitored runs over generated bounds (per coordinate, down to one representable value, scales 1e-30 to 1e30), parameters with their limits, and random generators; invalid arguments of every kind; 4 x 4 grid counts of the initial population (false alarm below 1e-15); non-trivial: at least one iteration, or an invalid argument");
}
