//! C03: modulus and argument are the polar form.
use magnesia::functions::{Abs, Atan2, Sqrt};
use pbt::prelude::*;
use std::f64::consts::PI;

type Pt = (f64, f64);

trait T3: Fl + Atan2 + Sqrt + Ring + std::ops::AddAssign<Self> {}
impl T3 for f32 {}
impl T3 for f64 {}

/// Angle of the point (x, y) from first principles, with signed zeros.
fn angle(x: f64, y: f64, xn: bool, yn: bool) -> f64 {
    let a = if x == 0.0 && y == 0.0 {
        if xn { PI } else { 0.0 }
    } else if y.abs() <= x.abs() {
        let t = libm::atan(y.abs() / x.abs());
        if xn { PI - t } else { t }
    } else {
        let t = libm::atan(x.abs() / y.abs());
        if xn { PI / 2.0 + t } else { PI / 2.0 - t }
    };
    if yn { -a } else { a }
}

fn check<F: T3>(c: &(Pt, Pt), ctx: &mut Ctx) -> Res
where
    for<'a> F: std::ops::AddAssign<&'a F>,
{
    let n = F::NAME;
    let z = Complex::new(F::of(c.0 .0), F::of(c.0 .1));
    let w = Complex::new(F::of(c.1 .0), F::of(c.1 .1));
    let (x, y) = (z.re.f(), z.im.f());
    // argument: every finite point
    let phi = z.clone().arg();
    let want = angle(x, y, z.re.sign_neg(), z.im.sign_neg());
    let slack = if n == "f32" { 3e-45 } else { 1e-322 };
    ensure!(
        near(phi.f(), want, 4.0 * F::EPS * want.abs() + slack),
        "{n} arg of {z:?}: got {phi:?}, expected {want:?}"
    );
    ensure!(phi.f().abs() <= F::of(PI).f(), "{n} arg of {z:?} out of range: {phi:?}");
    ensure!(want == 0.0 || phi.f() == 0.0 || (phi.f() < 0.0) == z.im.sign_neg(), "{n} sign of arg of {z:?}: {phi:?}");
    if !normal(z.re, z.im) {
        return Ok(());
    }
    ctx.nontrivial(x != 0.0 && y != 0.0);
    ctx.class("on an axis", x == 0.0 || y == 0.0);
    ctx.class("left half plane", x < 0.0);
    ctx.class("small modulus", x.hypot(y) < 1e-3);
    ctx.class("large modulus", x.hypot(y) > 1e3);
    let m = libm::hypot(x, y);
    let a = z.clone().abs();
    for (form, v) in [("abs", a), ("abs of reference", (&z).abs())] {
        ensure!(near(v.f(), m, 4.0 * F::EPS * m) && v.f() >= 0.0, "{n} {form} of {z:?}: got {v:?}, expected {m:?}");
    }
    let sq = z.sqr_norm().f();
    ensure!(near(sq, a.f() * a.f(), 8.0 * F::EPS * sq), "{n} sqr_norm of {z:?} is not the square of abs: {sq:?}");
    let (s, co) = (libm::sin(phi.f()), libm::cos(phi.f()));
    ensure!(
        (a.f() * co - x).hypot(a.f() * s - y) <= 12.0 * F::EPS * m,
        "{n} polar form of {z:?}: abs {a:?}, arg {phi:?}"
    );
    if normal(w.re, w.im) && within::<F>(m * libm::hypot(w.re.f(), w.im.f()), 1.0) {
        let (aw, p, s) = (w.clone().abs(), (&z * &w).abs(), (z.clone() + w.clone()).abs());
        let prod = a.f() * aw.f();
        ensure!(near(p.f(), prod, 16.0 * F::EPS * prod), "{n} abs of the product of {z:?} and {w:?}: {p:?}, expected {prod:?}");
        // the sum can be tiny, its square then underflows towards zero
        ensure!(
            s.f() <= (a.f() + aw.f()) * (1.0 + 8.0 * F::EPS),
            "{n} triangle inequality for {z:?} and {w:?}: {s:?}"
        );
        let ac = z.clone().conj().abs();
        ensure!(near(ac.f(), a.f(), 4.0 * F::EPS * m), "{n} abs of the conjugate of {z:?}: {ac:?}");
    }
    Ok(())
}

fn main() {
    let mut c = Check::start("C03");
    let s = |e| (point(e), point(e));
    c.sub("f32", 240000, s(60), check::<f32>);
    c.sub("f64", 240000, s(500), check::<f64>);
    let wide = |e: i32| ((part(e), part(e)), (part(6), part(6)));
    c.sub("f32, any finite size", 90000, wide(126), check::<f32>);
    c.sub("f64, any finite size", 90000, wide(1000), check::<f64>);
    c.finish("points of the plane: independent parts, polar, on and near axes and diagonals, with huge ratios of the parts, signed zeros; non-trivial: both parts non-zero and modulus in the safe range");
}
