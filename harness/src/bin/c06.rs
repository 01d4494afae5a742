//! C06: complex sin, cos, tan, sinh, cosh match their exponential definitions.
use magnesia::functions::{Cos, Cosh, Sin, Sinh, Tan};
use pbt::prelude::*;
use std::f64::consts::PI;

trait T6: Fl + Field {}
impl T6 for f32 {}
impl T6 for f64 {}

fn smith(a: (f64, f64), b: (f64, f64)) -> (f64, f64) {
    if b.0.abs() >= b.1.abs() {
        let r = b.1 / b.0;
        let d = b.0 + b.1 * r;
        ((a.0 + a.1 * r) / d, (a.1 - a.0 * r) / d)
    } else {
        let r = b.0 / b.1;
        let d = b.0 * r + b.1;
        ((a.0 * r + a.1) / d, (a.1 * r - a.0) / d)
    }
}

fn check<F: T6>(c: &(f64, f64), ctx: &mut Ctx) -> Res
where
    Complex<F>: Sin + Cos + Tan + Sinh + Cosh + Clone + std::fmt::Debug,
{
    let n = F::NAME;
    let z = Complex::new(F::of(c.0), F::of(c.1));
    let (x, y) = (z.re.f(), z.im.f());
    let lim = if n == "f32" { 80.0 } else { 600.0 };
    let tiny = if n == "f32" { 6e-45 } else { 1e-321 };
    let tol = if n == "f32" { 8.0 } else { 16.0 } * F::EPS;
    let comp = |name: &str, z: &Complex<F>, g: &Complex<F>, w: (f64, f64)| -> Res {
        ensure!(
            near(g.re.f(), w.0, tol * w.0.abs() + tiny) && near(g.im.f(), w.1, tol * w.1.abs() + tiny),
            "{n} {name} of {z:?}: got {g:?}, expected {w:?}"
        );
        Ok(())
    };
    ctx.nontrivial(x != 0.0 && y != 0.0);
    ctx.class("real", y == 0.0);
    ctx.class("imaginary", x == 0.0);
    ctx.class("|re| > 20", x.abs() > 20.0);
    ctx.class("|im| > 20", y.abs() > 20.0);
    let neg = -z.clone();
    let con = z.clone().conj();
    let iz = Complex::new(-z.im, z.re);
    if y.abs() <= lim {
        let (s, co, sh, ch) = (libm::sin(x), libm::cos(x), libm::sinh(y), libm::cosh(y));
        let (ws, wc) = ((s * ch, co * sh), (co * ch, -s * sh));
        comp("sin", &z, &z.clone().sin(), ws)?;
        comp("cos", &z, &z.clone().cos(), wc)?;
        comp("sin", &neg, &neg.clone().sin(), (-ws.0, -ws.1))?;
        comp("cos", &neg, &neg.clone().cos(), wc)?;
        comp("sin", &con, &con.clone().sin(), (ws.0, -ws.1))?;
        comp("cos", &con, &con.clone().cos(), (wc.0, -wc.1))?;
        comp("sinh (i z)", &z, &iz.clone().sinh(), (-ws.1, ws.0))?;
        comp("cosh (i z)", &z, &iz.clone().cosh(), wc)?;
        if y.abs() <= lim / 2.0 {
            let wt = smith(ws, wc);
            let m = wt.0.hypot(wt.1);
            for (name, z, w) in [("tan", &z, wt), ("tan", &neg, (-wt.0, -wt.1)), ("tan", &con, (wt.0, -wt.1))] {
                let t = z.clone().tan();
                ensure!(
                    (t.re.f() - w.0).hypot(t.im.f() - w.1) <= 32.0 * F::EPS * m + 4.0 * tiny,
                    "{n} {name} of {z:?}: got {t:?}, expected {w:?}"
                );
            }
        }
        // sin^2 + cos^2 = 1
        let (s, c) = (z.clone().sin(), z.clone().cos());
        let one = &s * &s + &c * &c;
        let size = s.sqr_norm().f() + c.sqr_norm().f();
        if y.abs() <= lim / 2.0 {
            ensure!((one.re.f() - 1.0).hypot(one.im.f()) <= 2.0 * tol * size, "{n} sin^2+cos^2 for {z:?}: {one:?}");
        }
    }
    if x.abs() <= lim {
        let (s, co, sh, ch) = (libm::sin(y), libm::cos(y), libm::sinh(x), libm::cosh(x));
        let (ws, wc) = ((sh * co, ch * s), (ch * co, sh * s));
        comp("sinh", &z, &z.clone().sinh(), ws)?;
        comp("cosh", &z, &z.clone().cosh(), wc)?;
        comp("sinh", &neg, &neg.clone().sinh(), (-ws.0, -ws.1))?;
        comp("cosh", &neg, &neg.clone().cosh(), wc)?;
        comp("sinh", &con, &con.clone().sinh(), (ws.0, -ws.1))?;
        comp("cosh", &con, &con.clone().cosh(), (wc.0, -wc.1))?;
        let (s, c) = (z.clone().sinh(), z.clone().cosh());
        let one = &c * &c - &s * &s;
        let size = s.sqr_norm().f() + c.sqr_norm().f();
        if x.abs() <= lim / 2.0 {
            ensure!((one.re.f() - 1.0).hypot(one.im.f()) <= 2.0 * tol * size, "{n} cosh^2-sinh^2 for {z:?}: {one:?}");
        }
    }
    Ok(())
}

fn main() {
    let mut c = Check::start("C06");
    let axis = |lim: f64| {
        prop_oneof![
            2 => Just(0.0f64), 1 => Just(-0.0f64), 2 => (-8i32..=8).prop_map(|x| x as f64),
            6 => -4.0f64..4.0, 4 => -lim..lim, 3 => magnitude(60).prop_map(|x| if x.abs() > 1.0 { 1.0 / x } else { x }),
            4 => (-16i32..=16, -40.0f64..-1.0, any::<bool>()).prop_map(|(k, e, s)| k as f64 * PI / 4.0 + if s { e.exp2() } else { -e.exp2() }),
            2 => (-16i32..=16).prop_map(|k| k as f64 * PI / 4.0),
            1 => -1000.0f64..1000.0,
        ]
        .boxed()
    };
    c.sub("f32", 180000, (axis(80.0), axis(80.0)), check::<f32>);
    c.sub("f64", 180000, (axis(600.0), axis(600.0)), check::<f64>);
    c.sub("f32, moderate", 90000, (axis(10.0), axis(10.0)), check::<f32>);
    c.sub("f64, moderate", 90000, (axis(10.0), axis(10.0)), check::<f64>);
    c.finish("points of the plane: generic, axes, near and at multiples of pi/4 (in the type's precision), tiny and large parts, signed zeros; non-trivial: both parts non-zero");
}
