//! C26: the optimiser returns the best candidate it ever evaluated.
use pbt::prelude::*;

/// (population, iterations, crossover, weight), seed, spiky, order, shift.
type Case = ((usize, usize, f32, f64), u64, bool, u8, u64);

/// A score to be minimised; the comparison of scores is a strict weak order.
fn score<T: Co, const N: usize>(x: &[T; N], kind: u8, salt: u64) -> i64
where
    f32: Into<T>,
    i8: Into<T>,
{
    let v = |i: usize| x[i % N].to();
    let q = |y: f64| if y.is_finite() { y.clamp(-1e15, 1e15) as i64 } else { i64::MAX / 2 };
    let centre = |i: usize| ((salt >> (8 * (i % 8))) & 0xff) as f64 / 16.0 - 8.0;
    match kind % 10 {
        0 => q((0..N).map(|i| (v(i) - centre(i)).powi(2)).sum::<f64>() * 1e9),
        1 => q((0..N).map(|i| (v(i) - centre(i)).powi(2)).sum::<f64>() / 20.0),
        2 => 0,
        3 => (hash_point(x, salt) >> 1) as i64,
        4 => (hash_point(x, salt) % 3) as i64,
        5 => q(v(0) * 1e6),
        6 => q(-v(N - 1) * 1e6),
        7 => (v(0) > centre(0)) as i64,
        // one point in a hundred is best
        8 => (hash_point(x, salt) % 100 != 0) as i64,
        _ => q((v(0) - centre(0)).abs() * 4.0) * 1000 + (hash_point(x, salt) % 7) as i64,
    }
}
fn bounds<T: Co, const N: usize>(salt: u64) -> [(T, T); N]
where
    f32: Into<T>,
    i8: Into<T>,
{
    let mut s = salt;
    [(); N].map(|_| {
        let a = splitmix(&mut s) % 200;
        let w = splitmix(&mut s) % 300 + 1;
        let lo = a as f64 / 10.0 - 12.0;
        (T::of(lo), T::of(lo + w as f64 / 8.0))
    })
}

fn check<T: Co, const N: usize>(c: &Case, ctx: &mut Ctx) -> Res
where
    f32: Into<T>,
    i8: Into<T>,
{
    let ((pop, iters, cr, f), seed, spiky, kind, salt) = *c;
    let b = bounds::<T, N>(salt);
    let s = |x: &[T; N]| score(x, kind, salt);
    let p = |iters| Params { pop, cr, f: T::of(f), iters, seed, spiky };
    let go = |iters| -> Result<(Run<T, N>, [T; N]), String> {
        let r = run(&b, &p(iters), |x, y| s(x) < s(y));
        let x = r.result.clone().map_err(|e| format!("{} in {N} dimensions, population {pop}, {iters} iterations: {e}", T::NAME))?;
        Ok((r, x))
    };
    // a run long enough to show every member of the initial population
    let (long, last) = go(iters.max(pop))?;
    let first: Vec<[T; N]> = long.calls.iter().take(pop).map(|c| c.1).collect();
    ensure!(first.len() == pop, "only {} comparisons in {} iterations", long.calls.len(), iters.max(pop));
    let best0 = first.iter().map(s).min().unwrap();
    let (mut ties, mut better) = (0, 0);
    let mut seen: Vec<(usize, i64)> = vec![(iters.max(pop), s(&last))];
    for n in [iters, 0, iters / 2, iters.saturating_sub(1)] {
        let (r, x) = go(n)?;
        let what = format!("{} in {N} dimensions, population {pop}, {n} iterations", T::NAME);
        let sx = s(&x);
        let mut found = false;
        for (a, b, won) in &r.calls {
            found |= same_point(a, &x) || same_point(b, &x);
            better += *won as usize;
            ties += (s(a) == s(b)) as usize;
            for y in [a, b] {
                ensure!(s(y) >= sx, "{what}: returned {x:?} (score {sx}), but {y:?} (score {}) was shown to the comparison", s(y));
            }
        }
        ensure!(found, "{what}: {x:?} was returned but never shown to the comparison");
        ensure!(sx <= best0, "{what}: {x:?} (score {sx}) is worse than a member of the initial population (score {best0})");
        seen.push((n, sx));
    }
    seen.sort();
    for w in seen.windows(2) {
        ensure!(w[0].1 >= w[1].1, "{} in {N} dimensions, population {pop}: {} iterations give score {}, {} give {}", T::NAME, w[0].0, w[0].1, w[1].0, w[1].1);
    }
    // the best member can be at any place of the population
    ctx.nontrivial(better > 0);
    ctx.class("ties", ties > 0);
    ctx.class("odd population", pop % 2 == 1);
    ctx.class("fewer iterations than members", iters < pop);
    ctx.class("no iterations", iters == 0);
    ctx.class("best of the first population is its last member", s(&first[pop - 1]) == best0 && first[..pop - 1].iter().all(|x| s(x) > best0));
    Ok(())
}
/// Every member in turn is the only best one of the initial population.
fn place(c: &(usize, u64, usize, bool), ctx: &mut Ctx) -> Res {
    let (pop, seed, iters, spiky) = *c;
    let b = [(0.0, 1.0); 2];
    let p = |iters| Params { pop, cr: 0.5, f: 0.6f64, iters, seed, spiky };
    let r = run(&b, &p(pop), |_, _| false);
    let first: Vec<[f64; 2]> = r.calls.iter().take(pop).map(|c| c.1).collect();
    ensure!(first.len() == pop, "only {} comparisons in {pop} iterations", r.calls.len());
    ctx.nontrivial(pop > 4);
    ctx.class("odd population", pop % 2 == 1);
    for (i, best) in first.iter().enumerate() {
        let s = |x: &[f64; 2]| !same_point(x, best);
        let r = run(&b, &p(iters), |x, y| s(x) < s(y));
        let x = r.result?;
        ensure!(!s(&x), "population {pop}, {iters} iterations: the best candidate was member {i} ({best:?}), but {x:?} was returned");
        // ... and the only one that must not win
        let r = run(&b, &p(iters), |x, y| s(x) > s(y));
        let x = r.result?;
        ensure!(s(&x), "population {pop}, {iters} iterations: the worst candidate, member {i}, was returned");
    }
    Ok(())
}

fn main() {
    let mut c = Check::start("C26");
    let cr = || prop_oneof![Just(0.0f32), Just(1.0), 0.0f32..=1.0];
    let w = || prop_oneof![Just(0.0f64), Just(2.0), Just(0.8), 0.0f64..=2.0];
    let pops = || prop_oneof![4 => 4..=9usize, 3 => 4..=40usize, 1 => 4..=150usize];
    let case = move || ((pops(), 0..8usize, 0..200usize).prop_flat_map(move |(pop, how, x)| {
        let iters = match how { 0 => 0, 1 => pop - 1, 2 => pop, 3 => pop + 1, 4 => 2 * pop + 1, 5 => 5 * pop, 6 => x, _ => 1 + x % 3 };
        (Just(pop), Just(iters), cr(), w())
    }), any::<u64>(), any::<bool>(), 0u8..10, any::<u64>());
    c.sub("f64, 1 dimension", 3000, case(), check::<f64, 1>);
    c.sub("f64, 2 dimensions", 3000, case(), check::<f64, 2>);
    c.sub("f64, 3 dimensions", 2000, case(), check::<f64, 3>);
    c.sub("f64, 7 dimensions", 1000, case(), check::<f64, 7>);
    c.sub("f32, 1 dimension", 1500, case(), check::<f32, 1>);
    c.sub("f32, 2 dimensions", 2000, case(), check::<f32, 2>);
    c.sub("f32, 5 dimensions", 1000, case(), check::<f32, 5>);
    c.sweep("every population size", 5, (4..=140usize).chain([199, 200, 255, 256, 257, 511, 512, 513, 1000, 1023, 1025]).map(|n| ((Just(n), 0..2 * n, cr(), w()), any::<u64>(), any::<bool>(), 0u8..10, any::<u64>())), check::<f64, 2>);
    c.sweep("many members", 2, [2047usize, 2048, 2049, 4096, 5000, 10_001, 65_537, 100_003].map(|n| ((Just(n), prop_oneof![Just(0), 0..2 * n], cr(), w()), any::<u64>(), any::<bool>(), 0u8..10, any::<u64>())).into_iter(), check::<f64, 2>);
    let long = |n: std::ops::RangeInclusive<usize>, i: usize| ((n, Just(i), cr(), w()), any::<u64>(), any::<bool>(), 0u8..10, any::<u64>());
    c.sweep("very many iterations", 1, [20_001usize, 65_537, 131_073, 400_003].into_iter().flat_map(|i| [long(4..=5, i), long(6..=9, i), long(20..=300, i)]), check::<f64, 2>);
    c.sweep("very many iterations, 1 dimension", 1, [70_003usize, 300_003].into_iter().map(|i| long(4..=12, i)), check::<f32, 1>);
    c.sweep("every place of the best member", 2, (4..=70usize).chain([100, 127, 128, 129]).map(|n| (Just(n), any::<u64>(), prop_oneof![Just(0), 0..2 * n], any::<bool>())), place);
    c.finish("monitored runs over random generators (plain and with bursts of extreme words), population sizes, iteration counts, parameters, dimensions, float types and ten kinds of strict weak orders with and without ties; every candidate shown to the comparison is compared with the result, runs of different length from the same generator with each other; non-trivial: some candidate was replaced by a better one");
}
