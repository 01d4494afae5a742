//! C29: the optimiser converges on well-behaved objectives.
use pbt::prelude::*;

/// No stream failed in 1.4 million; at a failure rate of 1e-4 for one, three of
/// six fail with a probability of 2e-11.
const STREAMS: u64 = 6;
const BAD: usize = 3;
const STEP: u64 = 0x1234_5678_9abc_def1;

/// Centre (as fractions of the box), scales, coupling, box, weight, seed.
type Case = (Vec<f64>, Vec<f64>, f64, (f64, f64), f64, u64);
fn quadratic<T: Co, const N: usize>(c: &Case, ctx: &mut Ctx) -> Res
where
    f32: Into<T>,
    i8: Into<T>,
{
    let (cen, scale, couple, (lo, width), f, seed) = c;
    let b: [(T, T); N] = std::array::from_fn(|q| {
        let w = width * (1.0 + 0.3 * q as f64);
        (T::of(lo * width), T::of(lo * width + w))
    });
    let w: Vec<f64> = b.iter().map(|b| b.1.to() - b.0.to()).collect();
    let centre: Vec<f64> = (0..N).map(|q| b[q].0.to() + cen[q] * w[q]).collect();
    let value = |x: &[T; N]| {
        let u: Vec<f64> = (0..N).map(|q| (x[q].to() - centre[q]) / w[q]).collect();
        let s: f64 = u.iter().sum();
        u.iter().zip(scale).map(|(u, a)| a * u * u).sum::<f64>() + couple * s * s
    };
    let pop = (12 * N).max(30);
    ctx.nontrivial(true);
    ctx.class("minimum near the border", cen[..N].iter().any(|x| *x < 0.1 || *x > 0.9));
    // A run ends prematurely now and then: judge several streams together.
    let mut failed = vec![];
    for k in 0..STREAMS {
        let p = Params { pop, cr: 0.9, f: T::of(*f), iters: 300 * pop, seed: seed.wrapping_add(k * STEP), spiky: false };
        let r = run(&b, &p, |x, y| value(x) < value(y));
        let x = r.result?;
        for q in 0..N {
            let d = (x[q].to() - centre[q]).abs() / w[q];
            if !(d < 1e-3) {
                failed.push(format!("coordinate {q} of {x:?} is off the minimum {centre:?} by {d:e} of the box {b:?}"));
                break;
            }
        }
    }
    ensure!(failed.len() < BAD, "{} in {N} dimensions: {} of {STREAMS} streams: {}", T::NAME, failed.len(), failed[0]);
    Ok(())
}
fn ackley_case(c: &(u64, f64, usize), ctx: &mut Ctx) -> Res {
    let (seed, f, pop) = *c;
    ctx.nontrivial(true);
    let ackley = magnesia::optimize::test_functions::ackley;
    let mut failed = vec![];
    for k in 0..STREAMS {
        let seed = seed.wrapping_add(k * STEP);
        let b = [(-5.0f32, 5.0); 2];
        let p = Params { pop, cr: 0.9, f: f as f32, iters: 200 * pop, seed, spiky: false };
        let r = run(&b, &p, |x, y| ackley(x[0], x[1]) < ackley(y[0], y[1]));
        let x = r.result?;
        // in double precision, and with the minimum elsewhere
        let b = [(-4.0f64, 6.0), (-6.5, 3.5)];
        let p = Params { pop, cr: 0.9, f, iters: 200 * pop, seed, spiky: false };
        let g = |x: &[f64; 2]| ackley((x[0] - 1.0) as f32, (x[1] + 1.5) as f32);
        let r = run(&b, &p, |x, y| g(x) < g(y));
        let y = r.result?;
        let near = |a: f64| a.abs() < 0.1;
        if !near(x[0] as f64) || !near(x[1] as f64) || !near(y[0] - 1.0) || !near(y[1] + 1.5) {
            failed.push((x, y));
        }
    }
    ensure!(failed.len() < BAD, "Ackley function, and shifted by (1, -1.5): {} of {STREAMS} streams: {:?}", failed.len(), failed[0]);
    Ok(())
}

fn main() {
    let mut c = Check::start("C29");
    let case = |n: usize| (
        vec(prop_oneof![4 => 0.0f64..=1.0, 1 => Just(0.0), 1 => Just(1.0), 1 => Just(0.5)], n),
        vec(0.1f64..=10.0, n),
        prop_oneof![Just(0.0), 0.0f64..=2.0],
        (prop_oneof![-3.0f64..=2.0, Just(-0.5)], prop_oneof![Just(10.0), 0.01f64..=1.0, 1.0f64..=100.0]),
        0.6f64..=0.8,
        any::<u64>(),
    );
    c.sub("quadratic, f64, 1 dimension", 100, case(1), quadratic::<f64, 1>);
    c.sub("quadratic, f64, 2 dimensions", 100, case(2), quadratic::<f64, 2>);
    c.sub("quadratic, f64, 3 dimensions", 60, case(3), quadratic::<f64, 3>);
    c.sub("quadratic, f64, 4 dimensions", 30, case(4), quadratic::<f64, 4>);
    c.sub("quadratic, f32, 1 dimension", 60, case(1), quadratic::<f32, 1>);
    c.sub("quadratic, f32, 2 dimensions", 60, case(2), quadratic::<f32, 2>);
    c.sub("quadratic, f32, 4 dimensions", 30, case(4), quadratic::<f32, 4>);
    c.sub("Ackley", 60, (any::<u64>(), 0.65f64..=0.8, 40..=60usize), ackley_case);
    c.finish("random convex quadratics (centre anywhere in the box, scales, coupling, box) in one to four dimensions and both float types, and the Ackley function, with generous parameters over random generator states; non-trivial: every case");
}
