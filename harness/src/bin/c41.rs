//! C41: the functions of complex numbers work over every scalar type.
use magnesia::functions::*;
use pbt::prelude::*;
use pbt::scalars::*;
use std::f64::consts::PI;

type C<T> = Complex<T>;
const NAMES: [&str; 6] = ["exp", "sin", "cos", "sinh", "cosh", "tan"];
macro_rules! call {
    ($f:expr, $z:expr) => {
        match $f {
            0 => Exp::exp($z), 1 => Sin::sin($z), 2 => Cos::cos($z), 3 => Sinh::sinh($z), 4 => Cosh::cosh($z), _ => Tan::tan($z),
        }
    };
}

// ---- twice the precision ---------------------------------------------------

fn twin(hi: f64, low: i32) -> Twin {
    // the low part below half a unit of the last place
    let h = hi + hi * (low as f64 * (-84f64).exp2());
    let mut t = Twin(h, 0.0);
    t += Twin(hi * low as f64 * (-85f64).exp2(), 0.0);
    t
}
fn one() -> Twin { Twin(1.0, 0.0) }
fn size(z: &C<Twin>) -> f64 { z.re.0.hypot(z.im.0) }
/// |a - b| <= tol in each component.
fn close(what: &str, z: &C<Twin>, a: C<Twin>, b: C<Twin>, tol: f64) -> Res {
    let d = ((a.re - b.re).0, (a.im - b.im).0);
    ensure!(d.0.abs() <= tol && d.1.abs() <= tol, "{what} of {z:?} over numbers of twice the precision: got {a:?}, expected {b:?}, tolerance {tol:e}");
    Ok(())
}
type Num = (f64, i32);
fn twice(case: &(Num, Num, Num, Num), ctx: &mut Ctx) -> Res {
    const E: f64 = 1e-28;
    let z = C::new(twin(case.0 .0, case.0 .1), twin(case.1 .0, case.1 .1));
    let (x, y) = (z.re, z.im);
    ctx.nontrivial(x.0 != 0.0 && y.0 != 0.0 && (x.1 != 0.0 || y.1 != 0.0));
    let r = size(&z);
    ctx.class("large", r > 50.0);
    ctx.class("small", r < 0.02);
    if x.0.abs() < 40.0 && y.0.abs() < 40.0 {
        let (ex, sx, cx, shx, chx) = (x.exp(), x.sin(), x.cos(), x.sinh(), x.cosh());
        let (sy, cy, shy, chy) = (y.sin(), y.cos(), y.sinh(), y.cosh());
        close("exp", &z, z.exp(), C::new(ex * cy, ex * sy), 50.0 * E * ex.0)?;
        let (s, c) = (C::new(sx * chy, cx * shy), C::new(cx * chy, -(sx * shy)));
        close("sin", &z, z.sin(), s, 50.0 * E * chy.0)?;
        close("cos", &z, z.cos(), c, 50.0 * E * chy.0)?;
        close("sinh", &z, z.sinh(), C::new(shx * cy, chx * sy), 50.0 * E * chx.0)?;
        close("cosh", &z, z.cosh(), C::new(chx * cy, shx * sy), 50.0 * E * chx.0)?;
        let n = c.re * c.re + c.im * c.im;
        let condition = chy.0 / n.0.sqrt();
        if condition < 1e6 {
            let t = C::new((s.re * c.re + s.im * c.im) / n, (s.im * c.re - s.re * c.im) / n);
            close("tan", &z, z.tan(), t, 200.0 * E * condition * condition * (1.0 + size(&t)))?;
        }
    }
    // sizes whose squares are in range
    if r > 1e-60 && r < 1e60 {
        let n = x * x + y * y;
        ensure!(((z.sqr_norm() - n).0).abs() <= 8.0 * E * n.0, "sqr_norm of {z:?} is {:?}", z.sqr_norm());
        let a = n.sqrt();
        for got in [z.abs(), (&z).abs()] {
            ensure!((got - a).0.abs() <= 8.0 * E * r, "abs of {z:?} over numbers of twice the precision: got {got:?}, expected {a:?}");
        }
        let phi = y.atan2(x);
        let got = z.arg();
        ensure!((got - phi).0.abs() <= 8.0 * E, "arg of {z:?} over numbers of twice the precision: got {got:?}, expected {phi:?}");
        let l = C::new(n.ln() / (one() + one()), phi);
        close("ln", &z, z.ln(), l, 50.0 * E * (1.0 + size(&l)))?;
        // the root by the stable formula
        let half = one() / (one() + one());
        let big = ((a + Abs::abs(x)) * half).sqrt();
        let small = Abs::abs(y) * half / big;
        let (p, q) = if x.0 >= 0.0 { (big, small) } else { (small, big) };
        let got = z.sqrt();
        let want = C::new(p, if y.0 < 0.0 { -q } else { q });
        for (g, w) in [(got.re, want.re), (got.im, want.im)] {
            ensure!((g - w).0.abs() <= 100.0 * E * w.0.abs(), "sqrt of {z:?} over numbers of twice the precision: got {got:?}, expected {want:?}");
        }
    }
    // quotients
    let w = C::new(twin(case.2 .0, case.2 .1), twin(case.3 .0, case.3 .1));
    let s = size(&w);
    if s > 1e-60 && s < 1e60 && r < 1e60 && (r == 0.0 || r > 1e-60) {
        let n = w.sqr_norm();
        let want = C::new((x * w.re + y * w.im) / n, (y * w.re - x * w.im) / n);
        close("quotient", &z, z / w, want, 50.0 * E * r / s)?;
        close("quotient of references", &z, &z / &w, want, 50.0 * E * r / s)?;
        let want = C::new(x / w.re, y / w.re);
        if w.re.0.abs() > s * 1e-3 {
            close("quotient by a scalar", &z, z / w.re, want, 50.0 * E * r / w.re.0.abs())?;
            close("quotient by a borrowed scalar", &z, z / &w.re, want, 50.0 * E * r / w.re.0.abs())?;
            close("quotient of a reference by a scalar", &z, &z / &w.re, want, 50.0 * E * r / w.re.0.abs())?;
        }
        close("product", &z, z * w, C::new(x * w.re - y * w.im, x * w.im + y * w.re), 20.0 * E * r * s)?;
    }
    Ok(())
}

// ---- derivatives -------------------------------------------------------------

type P2 = (f64, f64);
fn mul(a: P2, b: P2) -> P2 { (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0) }
fn div(a: P2, b: P2) -> P2 {
    let n = b.0 * b.0 + b.1 * b.1;
    ((a.0 * b.0 + a.1 * b.1) / n, (a.1 * b.0 - a.0 * b.1) / n)
}
fn len(a: P2) -> f64 { a.0.hypot(a.1) }
fn dual(z: P2, w: P2) -> C<Dual> { C::new(Dual(z.0, w.0), Dual(z.1, w.1)) }
fn derived(what: &str, z: P2, w: P2, got: C<Dual>, value: P2, change: P2, tol: P2) -> Res {
    let ok = |a: f64, b: f64, tol: f64| (a - b).abs() <= tol;
    ensure!(ok(got.re.0, value.0, tol.0) && ok(got.im.0, value.1, tol.0), "{what} of {z:?} with derivative {w:?}: value {got:?}, expected {value:?}");
    ensure!(ok(got.re.1, change.0, tol.1) && ok(got.im.1, change.1, tol.1), "{what} of {z:?} with derivative {w:?}: got {got:?}, expected the derivative {change:?}");
    Ok(())
}
fn derivatives(case: &(P2, P2, P2, P2), ctx: &mut Ctx) -> Res {
    const E: f64 = 1e-11;
    let (z, w, z2, w2) = *case;
    ctx.nontrivial(w.0 != 0.0 || w.1 != 0.0);
    ctx.class("on an axis", z.0 == 0.0 || z.1 == 0.0);
    let (x, y) = z;
    let (r, s) = (len(z), len(w));
    let d = dual(z, w);
    if x.abs() < 30.0 && y.abs() < 30.0 {
        let e = (x.exp() * y.cos(), x.exp() * y.sin());
        derived("exp", z, w, d.exp(), e, mul(e, w), (E * x.exp(), E * x.exp() * s))?;
        let (sn, cs) = ((x.sin() * y.cosh(), x.cos() * y.sinh()), (x.cos() * y.cosh(), -x.sin() * y.sinh()));
        let t = E * y.cosh();
        derived("sin", z, w, d.sin(), sn, mul(cs, w), (t, t * s))?;
        derived("cos", z, w, d.cos(), cs, mul((-sn.0, -sn.1), w), (t, t * s))?;
        let (sh, ch) = ((x.sinh() * y.cos(), x.cosh() * y.sin()), (x.cosh() * y.cos(), x.sinh() * y.sin()));
        let t = E * x.cosh();
        derived("sinh", z, w, d.sinh(), sh, mul(ch, w), (t, t * s))?;
        derived("cosh", z, w, d.cosh(), ch, mul(sh, w), (t, t * s))?;
        let condition = y.cosh() / len(cs);
        if condition < 30.0 {
            let tn = div(sn, cs);
            let q = condition * condition;
            derived("tan", z, w, d.tan(), tn, div(w, mul(cs, cs)), (E * q * (1.0 + len(tn)), E * q * q * (1.0 + len(tn)) * s))?;
        }
    }
    if r > 1e-30 && r < 1e30 {
        let n = x * x + y * y;
        let q = d.sqr_norm();
        ensure!((q.0 - n).abs() <= E * n && (q.1 - 2.0 * (x * w.0 + y * w.1)).abs() <= E * r * s, "sqr_norm of {d:?} is {q:?}");
        let along = (x * w.0 + y * w.1) / r;
        for a in [d.abs(), (&d).abs()] {
            ensure!((a.0 - r).abs() <= E * r && (a.1 - along).abs() <= E * s, "abs of {d:?} is {a:?}, expected {r} with derivative {along}");
        }
        let cut = x < 0.0 && y == 0.0;
        let turn = (x * w.1 - y * w.0) / n;
        let a = d.arg();
        ensure!(cut || (a.0 - y.atan2(x)).abs() <= E && (a.1 - turn).abs() <= E * s / r, "arg of {d:?} is {a:?}, expected the derivative {turn}");
        if !cut {
            derived("ln", z, w, d.ln(), (r.ln(), y.atan2(x)), div(w, z), (E * (1.0 + r.ln().abs()), E * s / r))?;
            let big = ((r + x.abs()) / 2.0).sqrt();
            let small = y.abs() / 2.0 / big;
            let root = if x >= 0.0 { (big, small) } else { (small, big) };
            let root = (root.0, if y < 0.0 { -root.1 } else { root.1 });
            // the smaller part of the root has the larger derivative
            let half = div((w.0 / 2.0, w.1 / 2.0), root);
            derived("sqrt", z, w, d.sqrt(), root, half, (E * r.sqrt(), E * s / r.sqrt()))?;
        }
        let (b, t) = (dual(z2, w2), len(w2));
        let l = len(z2);
        if l > 1e-30 && l < 1e30 {
            let q = div(z, z2);
            let m = mul(q, w2);
            let change = div((w.0 - m.0, w.1 - m.1), z2);
            let tol = (E * r / l, E * (s + r / l * t) / l);
            derived("quotient", z, w, d / b, q, change, tol)?;
            derived("quotient of references", z, w, &d / &b, q, change, tol)?;
        }
    }
    Ok(())
}

// ---- power series --------------------------------------------------------------

fn series(z: &C<Series>, c: impl Fn(usize) -> i64) -> C<Series> {
    let mut power = C::new(Series::from(1), Series::from(0));
    let mut sum = C::new(Series::from(0), Series::from(0));
    for k in 0..TERMS {
        let f = Series::constant(Zp::new(c(k)));
        sum = C::new(sum.re + power.re * f, sum.im + power.im * f);
        let next = Series::constant(Zp(k as u32 + 1));
        power = C::new((power.re * z.re - power.im * z.im) / next, (power.re * z.im + power.im * z.re) / next);
    }
    sum
}
fn formal(case: &(Vec<i64>, Vec<i64>), ctx: &mut Ctx) -> Res {
    let given = |v: &[i64], first: u32| {
        let mut a = [Zp(0); TERMS];
        for (x, y) in a.iter_mut().zip(v) {
            *x = Zp::dec(*y);
        }
        a[0] = Zp(first);
        Series(Some(a))
    };
    let z = C::new(given(&case.0, 0), given(&case.1, 0));
    ctx.nontrivial(z.re != Series::from(0) && z.im != Series::from(0));
    let odd = [0i64, 1, 0, -1];
    let even = [1i64, 0, -1, 0];
    let model = |f: usize| match f {
        0 => series(&z, |_| 1),
        1 => series(&z, |k| odd[k % 4]),
        2 => series(&z, |k| even[k % 4]),
        3 => series(&z, |k| odd[k % 4].abs()),
        _ => series(&z, |k| even[k % 4].abs()),
    };
    for f in 0..5 {
        let got = call!(f, z);
        let want = model(f);
        ensure!(got == want, "{} of the formal series {z:?}: got {got:?}, expected {want:?}", NAMES[f]);
    }
    let (t, c, s) = (z.tan(), model(2), model(1));
    let back = C::new(t.re * c.re - t.im * c.im, t.re * c.im + t.im * c.re);
    ensure!(back == s, "tan of the formal series {z:?} times its cosine is {back:?}, not the sine {s:?}");
    // series that start with one
    let u = C::new(given(&case.0, 1), given(&case.1, 0));
    let l = u.ln();
    let back = series(&l, |_| 1);
    ensure!(l.re.0.map(|a| a[0]) == Some(Zp(0)) && back == u, "exp of ln of the formal series {u:?} is {back:?}");
    let r = u.sqrt();
    let square = C::new(r.re * r.re - r.im * r.im, r.re * r.im + r.im * r.re);
    ensure!(r.re.0.map(|a| a[0]) == Some(Zp(1)) && square == u, "the square of the root {r:?} of the formal series {u:?} is {square:?}");
    let n = u.re * u.re + u.im * u.im;
    let a = u.abs();
    ensure!(a * a == n, "the square of the modulus {a:?} of {u:?} is not {n:?}");
    Ok(())
}

// ---- complex numbers as scalars --------------------------------------------------

fn bicomplex(case: &(P2, P2), ctx: &mut Ctx) -> Res {
    let (a, b) = *case;
    ctx.nontrivial(a != (0.0, 0.0) && b != (0.0, 0.0));
    let z = C::new(Plane(a.0, a.1), Plane(b.0, b.1));
    // a + J b at J = i and J = -i
    let at = |z: &C<Plane>, s: f64| Plane(z.re.0 - s * z.im.1, z.re.1 + s * z.im.0);
    let scale = (a.0.abs() + a.1.abs() + b.0.abs() + b.1.abs()).exp();
    for f in 0..6 {
        let mut tol = 1e-13 * scale;
        if f == 5 {
            let m = |s| { let c = at(&z, s).cos_(); c.0.hypot(c.1) };
            let least = m(1.0).min(m(-1.0));
            if least < 0.1 {
                continue;
            }
            tol *= scale * scale / (least * least * least);
        }
        let got = call!(f, z);
        for s in [1.0, -1.0] {
            let w = at(&z, s);
            let want = match f { 0 => w.exp_(), 1 => w.sin_(), 2 => w.cos_(), 3 => w.sinh_(), 4 => w.cosh_(), _ => w.tan_() };
            let g = at(&got, s);
            ensure!((g.0 - want.0).abs() <= tol && (g.1 - want.1).abs() <= tol, "{} of {z:?}, at J = {s} i: got {g:?}, expected {want:?}", NAMES[f]);
        }
    }
    Ok(())
}

fn main() {
    let mut c = Check::start("C41");
    let low = || -(1i32 << 30)..1i32 << 30;
    let near_axis = || prop_oneof![4 => -10.0f64..10.0, 2 => -40.0f64..40.0, 2 => magnitude(40), 1 => Just(0.0), 1 => (-6i32..=6, magnitude(30)).prop_map(|(k, d)| k as f64 * PI / 2.0 + if d.abs() < 0.1 { d } else { 0.01 / d })];
    let num = || (near_axis(), low());
    c.sub("numbers of twice the precision", 4000, (num(), num(), num(), num()), twice);
    c.sub("numbers of twice the precision, any size", 4000, (point(150), low(), low(), point(150), low(), low()).prop_map(|(a, i, j, b, k, l)| ((a.0, i), (a.1, j), (b.0, k), (b.1, l))), twice);
    let direction = || prop_oneof![4 => (-2.0f64..2.0, -2.0f64..2.0), 1 => Just((1.0, 0.0)), 1 => Just((0.0, 1.0)), 1 => (magnitude(20), magnitude(20))];
    c.sub("derivatives", 20000, (point(6), direction(), point(6), direction()), derivatives);
    c.sub("derivatives, any size", 20000, (point(60), direction(), point(60), direction()), derivatives);
    c.sub("derivatives around multiples of right angles", 20000, ((near_axis(), near_axis()), direction(), point(20), direction()), derivatives);
    c.sub("formal power series", 4000, (elems(TERMS), elems(TERMS)), formal);
    let sparse = || vec(prop_oneof![3 => Just(0i64), 1 => -3i64..4, 1 => elem()], TERMS);
    c.sub("sparse formal power series", 2000, (sparse(), sparse()), formal);
    let small = |m: f64| prop_oneof![6 => (-m..m, -m..m), 1 => Just((0.0, 0.0)), 1 => (-m..m).prop_map(|x| (x, 0.0)), 1 => (-m..m).prop_map(|x| (0.0, x))];
    c.sub("complex numbers as scalars", 20000, (small(2.0), small(2.0)), bicomplex);
    c.sub("small complex numbers as scalars", 10000, (small(0.5), small(0.5)), bicomplex);
    c.finish("complex numbers over scalar types of a user: floats of twice the precision (results as accurate as those), dual numbers (derivatives, complex differentiability), formal power series (exact identities), complex numbers (both images); non-trivial: no part is zero, for derivatives a direction that is not zero");
}
