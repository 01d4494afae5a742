//! C30: the Ackley function has its published values.
use magnesia::optimize::test_functions::ackley;
use pbt::prelude::*;

/// The published formula in double precision, written so that it is also
/// accurate near the origin.
fn reference(x: f64, y: f64) -> f64 {
    use std::f64::consts::{E, PI};
    let r = (0.5 * (x * x + y * y)).sqrt();
    // cos(2 pi x) - 1 = -2 sin(pi x)^2
    let s = -((PI * x).sin().powi(2) + (PI * y).sin().powi(2));
    -20.0 * (-0.2 * r).exp_m1() - E * s.exp_m1()
}
/// Single-precision rounding: the exponentials are about 1 (near the origin
/// the result is a difference from e), the argument of the cosine is rounded.
fn tolerance(x: f64, y: f64) -> f64 {
    let r = x.abs().max(y.abs());
    8e-7 + (4e-6 * r).min(2.5e-5)
}
fn check(c: &(f32, f32), ctx: &mut Ctx) -> Res {
    let (x, y) = *c;
    let want = reference(x as f64, y as f64);
    let got = ackley(x, y) as f64;
    let tol = tolerance(x as f64, y as f64);
    ctx.nontrivial(x != 0.0 || y != 0.0);
    ctx.class("near the origin", x.abs().max(y.abs()) < 1e-3);
    ctx.class("on an axis or diagonal", x == 0.0 || y == 0.0 || x.abs() == y.abs());
    ensure!((got - want).abs() <= tol, "ackley({x:e}, {y:e}) = {got:e}, expected {want:e} (tolerance {tol:e})");
    for (u, v) in [(y, x), (-x, y), (x, -y), (-x, -y), (-y, x), (y, -x), (-y, -x)] {
        let g = ackley(u, v) as f64;
        ensure!((g - got).abs() <= tol, "ackley({u:e}, {v:e}) = {g:e}, ackley({x:e}, {y:e}) = {got:e}");
    }
    ensure!(got >= -tol, "ackley({x:e}, {y:e}) = {got:e} is negative");
    let r = x.abs().max(y.abs());
    ensure!(r < 1e-5 || got > 0.0, "ackley({x:e}, {y:e}) = {got:e} is not positive");
    Ok(())
}

fn main() {
    let mut c = Check::start("C30");
    let near = || (-45i32..=-3, any::<bool>(), 1.0f32..2.0).prop_map(|(e, s, m)| { let v = m * (e as f32).exp2(); if s { -v } else { v } });
    let special = || proptest::sample::select(vec![0.0f32, -0.0, 1.0, -1.0, 2.0, 3.0, 4.0, 5.0, -5.0, 0.5, -0.5, 1.5, 2.5, 4.5, 0.25, 1e-38, 1e-45, 1e-20, 1e-10, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.1, 4.9999995]);
    let co = move || prop_oneof![6 => -5.0f32..=5.0, 2 => near(), 2 => special()];
    c.sub("domain", 60000, (-5.0f32..=5.0, -5.0f32..=5.0), check);
    c.sub("mixed", 60000, (co(), co()), check);
    c.sub("near the origin", 40000, (near(), near()), check);
    c.sub("axes", 20000, (co(), any::<bool>()).prop_map(|(x, s)| if s { (x, 0.0) } else { (0.0, x) }), check);
    c.sub("diagonals", 20000, (co(), any::<bool>()).prop_map(|(x, s)| (x, if s { x } else { -x })), check);
    c.sub("integers and halves", 5000, (-10i8..=10, -10i8..=10, prop_oneof![Just(0.0f32), near()]).prop_map(|(x, y, d)| ((x as f32 / 2.0 + d).clamp(-5.0, 5.0), y as f32 / 2.0)), check);
    c.finish("pairs of f32 from the whole domain, near the origin, on axes, diagonals and the lattice of local minima; value against a double-precision formula, symmetry, sign; non-trivial: not the origin");
}
