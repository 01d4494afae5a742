//! C04: complex sqrt is the principal root, accurate in both components.
use magnesia::functions::Sqrt;
use pbt::prelude::*;

type Pt = (f64, f64);

fn check<F: Fl>(c: &Pt, ctx: &mut Ctx) -> Res
where
    Complex<F>: Sqrt + std::fmt::Debug,
{
    let n = F::NAME;
    let (re, im) = (F::of(c.0), F::of(c.1));
    if !normal(re, im) {
        return Ok(());
    }
    let z = Complex::new(re, im);
    let (x, y) = (re.f(), im.f());
    ctx.nontrivial(x != 0.0 && y != 0.0);
    ctx.class("negative real axis", x < 0.0 && y == 0.0);
    ctx.class("negative real axis with im = -0", x < 0.0 && y == 0.0 && im.sign_neg());
    ctx.class("ratio above 1e6", y != 0.0 && (x / y).abs() > 1e6);
    ctx.class("ratio below 1e-6", x != 0.0 && (x / y).abs() < 1e-6);
    ctx.class("around |re| = 2|im|", y != 0.0 && ((x / y).abs() - 2.0).abs() < 1e-6);
    let r = z.sqrt();
    let (u, v) = (r.re.f(), r.im.f());
    ensure!(u >= 0.0, "{n} sqrt of {z:?}: negative real part in {r:?}");
    ensure!(if y >= 0.0 { v >= 0.0 } else { v <= 0.0 }, "{n} sqrt of {z:?}: wrong sign of the imaginary part in {r:?}");
    let h = libm::hypot(x, y);
    let big = ((h + x.abs()) / 2.0).sqrt();
    let small = if y == 0.0 { 0.0 } else { y.abs() / (2.0 * big) };
    let (p, q) = if x >= 0.0 { (big, small) } else { (small, big) };
    let q = if y < 0.0 { -q } else { q };
    let slack = if n == "f32" { 3e-45 } else { 1e-322 };
    ensure!(
        near(u, p, 16.0 * F::EPS * p.abs() + slack) && near(v, q, 16.0 * F::EPS * q.abs() + slack),
        "{n} sqrt of {z:?}: got {r:?}, expected {:?}", (p, q)
    );
    ensure!(
        (u * u - v * v - x).hypot(2.0 * u * v - y) <= 16.0 * F::EPS * h,
        "{n} square of sqrt of {z:?}: {r:?}"
    );
    Ok(())
}

fn main() {
    let mut c = Check::start("C04");
    c.sub("f32", 300000, point(60), check::<f32>);
    c.sub("f64", 300000, point(500), check::<f64>);
    // independent sizes of the two parts: ratios over the whole range
    c.sub("f32, independent sizes", 150000, (part(60), part(60)), check::<f32>);
    c.sub("f64, independent sizes", 150000, (part(500), part(500)), check::<f64>);
    c.sub("f32, tiny second part", 150000, (magnitude(55), magnitude(126), any::<bool>()).prop_map(|(a, b, s)| if s { (a, b * 1e-6) } else { (b * 1e-6, a) }), check::<f32>);
    c.sub("f64, tiny second part", 150000, (magnitude(500), magnitude(900), any::<bool>()).prop_map(|(a, b, s)| if s { (a, b * 1e-30) } else { (b * 1e-30, a) }), check::<f64>);
    c.finish("points of the plane of safe modulus: generic, on and near axes and diagonals, around the switch |re| = 2|im|, parts of independent sizes, signed zeros; non-trivial: both parts non-zero");
}
