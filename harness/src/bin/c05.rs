//! C05: complex exponential and logarithm are inverse and principal.
use magnesia::functions::{Exp, Ln};
use pbt::prelude::*;
use std::f64::consts::PI;

type Pt = (f64, f64);
trait T5: Fl + Ring {}
impl T5 for f32 {}
impl T5 for f64 {}

fn tiny(n: &str) -> f64 {
    if n == "f32" { 6e-45 } else { 1e-321 }
}

/// Exponentials: real parts up to `lim`.
fn exp<F: T5>(c: &(Pt, Pt), ctx: &mut Ctx) -> Res
where
    Complex<F>: Exp + Ln + Clone,
{
    let n = F::NAME;
    let z = Complex::new(F::of(c.0 .0), F::of(c.0 .1));
    let w = Complex::new(F::of(c.1 .0), F::of(c.1 .1));
    let (x, y) = (z.re.f(), z.im.f());
    let lim = if n == "f32" { 80.0 } else { 650.0 };
    if x.abs() > lim || y.abs() > 1e6 {
        return Ok(());
    }
    ctx.nontrivial(x != 0.0 && y != 0.0);
    ctx.class("|im| > pi", y.abs() > PI);
    ctx.class("|re| > 20", x.abs() > 20.0);
    ctx.class("imaginary", x == 0.0);
    ctx.class("real", y == 0.0);
    let e = z.clone().exp();
    let m = libm::exp(x);
    let (p, q) = (m * libm::cos(y), m * libm::sin(y));
    ensure!(
        near(e.re.f(), p, 8.0 * F::EPS * p.abs() + tiny(n)) && near(e.im.f(), q, 8.0 * F::EPS * q.abs() + tiny(n)),
        "{n} exp of {z:?}: got {e:?}, expected {:?}", (p, q)
    );
    let ec = z.clone().conj().exp();
    ensure!(
        near(ec.re.f(), p, 8.0 * F::EPS * p.abs() + tiny(n)) && near(ec.im.f(), -q, 8.0 * F::EPS * q.abs() + tiny(n)),
        "{n} exp of the conjugate of {z:?}: {ec:?}"
    );
    // ln(exp z) = z up to 2 pi i
    let safe_exp = if n == "f32" { 16.0 } else { 150.0 };
    if x.abs() < safe_exp && y.abs() < 1e4 {
        let l = e.clone().ln();
        let k = ((l.im.f() - y) / (2.0 * PI)).round();
        ensure!(
            near(l.re.f(), x, 8.0 * F::EPS * (1.0 + x.abs())) && near(l.im.f(), y + 2.0 * PI * k, 8.0 * F::EPS * (4.0 + y.abs())),
            "{n} ln(exp z) for {z:?}: {l:?}"
        );
        if y.abs() < 3.1415 {
            ensure!(near(l.im.f(), y, 8.0 * F::EPS * 4.0), "{n} ln(exp z) leaves the strip for {z:?}: {l:?}");
        }
    }
    // exp(z + w) = exp(z) exp(w)
    let (u, v) = (w.re.f(), w.im.f());
    let big = x.abs() + u.abs() + y.abs() + v.abs();
    if big < safe_exp {
        let s = (z.clone() + w.clone()).exp();
        let pr = &e * &w.clone().exp();
        let size = libm::exp(x + u);
        ensure!(
            (s.re.f() - pr.re.f()).hypot(s.im.f() - pr.im.f()) <= 8.0 * F::EPS * size * (2.0 + big),
            "{n} exp(z+w) = exp z exp w for {z:?}, {w:?}: {s:?} and {pr:?}"
        );
    }
    Ok(())
}

fn ln<F: T5>(c: &Pt, ctx: &mut Ctx) -> Res
where
    Complex<F>: Exp + Ln + Clone,
{
    let n = F::NAME;
    let z = Complex::new(F::of(c.0), F::of(c.1));
    let (x, y) = (z.re.f(), z.im.f());
    let m = libm::hypot(x, y);
    if m == 0.0 || !normal(z.re, z.im) {
        return Ok(());
    }
    ctx.nontrivial(x != 0.0 && y != 0.0);
    ctx.class("left half plane", x < 0.0);
    ctx.class("negative real axis", x < 0.0 && y == 0.0);
    ctx.class("near the unit circle", (m - 1.0).abs() < 1e-3);
    let l = z.clone().ln();
    let r = libm::log(m);
    let t = libm::atan2(y, x);
    ensure!(near(l.re.f(), r, 4.0 * F::EPS * (1.0 + r.abs())), "{n} real part of ln of {z:?}: got {:?}, expected {r:?}", l.re);
    ensure!(near(l.im.f(), t, 4.0 * F::EPS * t.abs() + tiny(n)), "{n} imaginary part of ln of {z:?}: got {:?}, expected {t:?}", l.im);
    ensure!(l.im.f().abs() <= F::of(PI).f(), "{n} imaginary part of ln of {z:?} out of range: {l:?}");
    ensure!(t == 0.0 || l.im.f() == 0.0 || (l.im.f() < 0.0) == z.im.sign_neg(), "{n} sign of the imaginary part of ln of {z:?}: {l:?}");
    let e = l.exp();
    ensure!(
        (e.re.f() - x).hypot(e.im.f() - y) <= 8.0 * F::EPS * m * (4.0 + r.abs()),
        "{n} exp(ln z) for {z:?}: {e:?}"
    );
    if y != 0.0 || x > 0.0 {
        let lc = z.clone().conj().ln();
        ensure!(
            near(lc.re.f(), r, 4.0 * F::EPS * (1.0 + r.abs())) && near(lc.im.f(), -t, 4.0 * F::EPS * t.abs() + tiny(n)),
            "{n} ln of the conjugate of {z:?}: {lc:?}"
        );
    }
    Ok(())
}

fn main() {
    let mut c = Check::start("C05");
    let axis = |lim: f64| {
        prop_oneof![
            2 => Just(0.0f64), 1 => Just(-0.0f64), 2 => (-8i32..=8).prop_map(|x| x as f64),
            6 => -4.0f64..4.0, 4 => -lim..lim, 2 => magnitude(40).prop_map(|x| if x.abs() > 1.0 { 1.0 / x } else { x }),
            // near multiples of pi/4
            4 => (-16i32..=16, -40.0f64..-1.0, any::<bool>()).prop_map(|(k, e, s)| k as f64 * PI / 4.0 + if s { e.exp2() } else { -e.exp2() }),
            1 => (-16i32..=16).prop_map(|k| k as f64 * PI / 4.0),
        ]
        .boxed()
    };
    let big = || prop_oneof![6 => axis(30.0), 1 => -1e6f64..1e6].boxed();
    let pt = |lim: f64| (axis(lim), big());
    c.sub("exp f32", 180000, (pt(80.0), pt(8.0)), exp::<f32>);
    c.sub("exp f64", 180000, (pt(650.0), pt(40.0)), exp::<f64>);
    c.sub("ln f32", 180000, point(60), ln::<f32>);
    c.sub("ln f64", 180000, point(500), ln::<f64>);
    let circle = || (-1e-2f64..1e-2, -PI..PI).prop_map(|(d, a)| ((1.0 + d) * a.cos(), (1.0 + d) * a.sin()));
    c.sub("ln f32 near the unit circle", 60000, circle(), ln::<f32>);
    c.sub("ln f64 near the unit circle", 60000, circle(), ln::<f64>);
    c.finish("points of the plane: generic, axes, near multiples of pi/4, large parts, near the unit circle, huge ratios, signed zeros; non-trivial: both parts non-zero");
}
