//! C37: complex functions keep their symmetries, and overflow to the right
//! side, on the whole floating-point range.
use magnesia::functions::*;
use pbt::prelude::*;

trait T37: Fl + Ring + Field + Conj {
    const OVER: f64;
    /// The real functions: exp, sin, cos, sinh, cosh, tan, sqrt.
    fn real(self) -> [Self; 7];
    fn to_raw(x: f64) -> u64;
}
impl T37 for f32 {
    const OVER: f64 = 110.0;
    fn real(self) -> [f32; 7] { [self.exp(), self.sin(), self.cos(), self.sinh(), self.cosh(), self.tan(), self.sqrt()] }
    fn to_raw(x: f64) -> u64 { (x as f32).to_bits() as u64 }
}
impl T37 for f64 {
    const OVER: f64 = 730.0;
    fn real(self) -> [f64; 7] { [self.exp(), self.sin(), self.cos(), self.sinh(), self.cosh(), self.tan(), self.sqrt()] }
    fn to_raw(x: f64) -> u64 { x.to_bits() }
}

type C<F> = Complex<F>;
fn same<F: T37>(a: F, b: F, size: f64) -> bool {
    a.is_nan_() && b.is_nan_() || a == b || {
        let tol = 16.0 * F::EPS * size + if F::EPS > 1e-10 { 1e-44 } else { 1e-322 };
        (a.f() - b.f()).abs() <= tol
    }
}
/// Equal, up to a few roundings of the larger part; NaN like NaN, and
/// infinities of the same sign.
fn equal<F: T37>(what: &str, z: &C<F>, got: &C<F>, want: &C<F>) -> Res {
    let size = [got.re, got.im, want.re, want.im].iter().map(|x| x.f().abs()).filter(|x| x.is_finite()).fold(0.0, f64::max);
    ensure!(same(got.re, want.re, size) && same(got.im, want.im, size), "{} {what} for z = {z:?}: got {got:?}, expected {want:?}", F::NAME);
    Ok(())
}

fn check<F: T37>(c: &(u64, u64), ctx: &mut Ctx) -> Res
where
    C<F>: Exp + Ln + Sqrt + Sin + Cos + Tan + Sinh + Cosh + Abs<Output = F>,
    F: Atan2,
{
    let z: C<F> = Complex::new(F::from_raw(c.0), F::from_raw(c.1));
    let (x, y) = (z.re.f(), z.im.f());
    let conj = |z: &C<F>| Complex::new(z.re, -z.im);
    let neg = |z: &C<F>| Complex::new(-z.re, -z.im);
    let i = |z: &C<F>| Complex::new(-z.im, z.re);
    let (fin, nan) = (x.is_finite() && y.is_finite(), x.is_nan() || y.is_nan());
    ctx.nontrivial(fin && x != 0.0 && y != 0.0);
    ctx.class("NaN", nan);
    ctx.class("infinite", x.is_infinite() || y.is_infinite());
    ctx.class("exponential overflows", fin && (x > F::OVER || y.abs() > F::OVER));
    ctx.class("square overflows or underflows", fin && { let m = x.hypot(y); let l = F::SAFE_EXP as f64; m > l.exp2() || m > 0.0 && m < (-l).exp2() });
    type Fun<F> = (&'static str, fn(C<F>) -> C<F>);
    let odd: [Fun<F>; 3] = [("sin", |z| z.sin()), ("tan", |z| z.tan()), ("sinh", |z| z.sinh())];
    let even: [Fun<F>; 2] = [("cos", |z| z.cos()), ("cosh", |z| z.cosh())];
    let other: [Fun<F>; 3] = [("exp", |z| z.exp()), ("ln", |z| z.ln()), ("sqrt", |z| Sqrt::sqrt(&z))];
    let cut = y == 0.0 && !(x > 0.0);
    for (name, f) in odd.iter().chain(&even).chain(&other) {
        let w = f(z.clone());
        if !(matches!(*name, "ln" | "sqrt") && cut) {
            equal(&format!("{name}(conj z) = conj {name}(z)"), &z, &f(conj(&z)), &conj(&w))?;
        }
        if nan {
            ensure!(w.re.is_nan_() || w.im.is_nan_(), "{} {name} of {z:?} is {w:?}, without any NaN", F::NAME);
        }
        // a pure function of its operand
        equal(&format!("{name}(z) again"), &z, &f(z.clone()), &w)?;
    }
    for (name, f) in &odd {
        equal(&format!("{name}(-z) = -{name}(z)"), &z, &f(neg(&z)), &neg(&f(z.clone())))?;
    }
    for (name, f) in &even {
        equal(&format!("{name}(-z) = {name}(z)"), &z, &f(neg(&z)), &f(z.clone()))?;
    }
    equal("sinh(iz) = i sin(z)", &z, &i(&z).sinh(), &i(&z.clone().sin()))?;
    equal("cosh(iz) = cos(z)", &z, &i(&z).cosh(), &z.clone().cos())?;
    equal("sin(iz) = i sinh(z)", &z, &i(&z).sin(), &i(&z.clone().sinh()))?;
    equal("cos(iz) = cosh(z)", &z, &i(&z).cos(), &z.clone().cosh())?;
    // modulus, the same in all eight directions
    let m = z.clone().abs();
    let swap = Complex::new(z.im, z.re);
    for (name, w) in [("conj z", conj(&z)), ("-z", neg(&z)), ("iz", i(&z)), ("z with parts exchanged", swap)] {
        ensure!(same(w.clone().abs(), m, m.f().abs()), "{} modulus of {name} for z = {z:?}: {:?}, of z: {m:?}", F::NAME, w.abs());
        ensure!(same(w.sqr_norm(), z.sqr_norm(), z.sqr_norm().f().abs()), "{} squared modulus of {name} for z = {z:?}: {:?}, of z: {:?}", F::NAME, w.sqr_norm(), z.sqr_norm());
    }
    ensure!(nan == m.is_nan_(), "{} modulus of {z:?} is {m:?}", F::NAME);
    ensure!(m.is_nan_() || m.f() >= 0.0, "{} modulus of {z:?} is {m:?}", F::NAME);
    let (a, b) = (z.clone().arg(), conj(&z).arg());
    if !cut {
        ensure!(same(b, -a, 4.0), "{} argument of the conjugate of {z:?}: {b:?}, of z: {a:?}", F::NAME);
    }
    ensure!(nan == a.is_nan_() && (nan || a.f().abs() <= 3.1415928), "{} argument of {z:?} is {a:?}", F::NAME);
    if fin {
        let want = libm::atan2(y, x);
        ensure!((a.f() - want).abs() <= 16.0 * F::EPS || cut && (a.f().abs() - want.abs()).abs() <= 16.0 * F::EPS, "{} argument of {z:?}: {a:?}, expected {want:?}", F::NAME);
    }
    if fin && y != 0.0 {
        ensure!((a.f() < 0.0) == (y < 0.0) || a.f() == 0.0, "{} argument of {z:?} is {a:?}", F::NAME);
        // the root and the logarithm lie on the side of z
        let r = Sqrt::sqrt(&z);
        ensure!(r.re.is_nan_() || r.re.f() >= 0.0, "{} square root of {z:?} is {r:?}", F::NAME);
        ensure!(r.im.is_nan_() || r.im.f() == 0.0 || (r.im.f() < 0.0) == (y < 0.0), "{} square root of {z:?} is {r:?}", F::NAME);
        ensure!(same(z.clone().ln().im, a, 4.0), "{} imaginary part of the logarithm of {z:?}: {:?}, argument {a:?}", F::NAME, z.clone().ln().im);
    }
    // real operands
    if y == 0.0 && !nan && fin {
        let r = z.re.real();
        for (k, (name, w)) in [("exp", z.clone().exp()), ("sin", z.clone().sin()), ("cos", z.clone().cos()), ("sinh", z.clone().sinh()), ("cosh", z.clone().cosh())].into_iter().enumerate() {
            ensure!(same(w.re, r[k], r[k].f().abs()), "{} {name} of the real {z:?}: {w:?}, real function {:?}", F::NAME, r[k]);
        }
    }
    // overflow and underflow of the exponential part
    if fin && y.abs() < 1e4 && x.abs() < 1e4 {
        let (s, k) = (libm::sin(y), libm::cos(y));
        let e = z.clone().exp();
        let side = |name: &str, got: F, f: f64| -> Res {
            ensure!(f.abs() < 0.01 || got.f() == f.signum() * f64::INFINITY, "{} {name} of {z:?}: {got:?} does not overflow to the side of {f}", F::NAME);
            Ok(())
        };
        if x > F::OVER {
            side("real part of exp", e.re, k)?;
            side("imaginary part of exp", e.im, s)?;
        }
        if x < -1.5 * F::OVER {
            ensure!(e.re.f().abs() <= 1e-40 && e.im.f().abs() <= 1e-40, "{} exp of {z:?} is {e:?}", F::NAME);
        }
        if x.abs() > F::OVER + 1.0 {
            let (sh, ch) = (z.clone().sinh(), z.clone().cosh());
            side("real part of sinh", sh.re, x.signum() * k)?;
            side("imaginary part of sinh", sh.im, s)?;
            side("real part of cosh", ch.re, k)?;
            side("imaginary part of cosh", ch.im, x.signum() * s)?;
        }
        if y.abs() > F::OVER + 1.0 {
            let (sx, cx) = (libm::sin(x), libm::cos(x));
            let (sn, cs) = (z.clone().sin(), z.clone().cos());
            side("real part of sin", sn.re, sx)?;
            side("imaginary part of sin", sn.im, y.signum() * cx)?;
            side("real part of cos", cs.re, cx)?;
            side("imaginary part of cos", cs.im, -y.signum() * sx)?;
        }
    }
    Ok(())
}

fn main() {
    let mut c = Check::start("C37");
    fn bits<F: T37>() -> BoxedStrategy<u64> {
        let over = F::OVER;
        prop_oneof![
            3 => any::<u64>().prop_map(|b| if F::EPS > 1e-10 { b & 0xffff_ffff } else { b }),
            4 => part(6).prop_map(F::to_raw),
            3 => part(F::SAFE_EXP).prop_map(F::to_raw),
            3 => (-3.0..3.0f64).prop_map(move |x| F::to_raw(x * over)),
            2 => (-0.02..0.02f64, any::<bool>()).prop_map(move |(x, s)| F::to_raw(if s { -1.0 } else { 1.0 } * (1.0 + x) * if F::EPS > 1e-10 { 88.7 } else { 709.7 })),
            1 => (0u8..8).prop_map(|k| F::to_raw([0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1.0, -1.0, 1e-45][k as usize])),
        ].boxed()
    }
    c.sub("f32", 150000, (bits::<f32>(), bits::<f32>()), check::<f32>);
    c.sub("f64", 150000, (bits::<f64>(), bits::<f64>()), check::<f64>);
    let axis = |x: BoxedStrategy<u64>, zero: u64| (x, 0u8..4, any::<bool>()).prop_map(move |(b, k, s)| { let z = if s { zero } else { 0 }; if k < 2 { (b, z) } else { (z, b) } });
    c.sub("axes f32", 30000, axis(bits::<f32>(), (-0.0f32).to_bits() as u64), check::<f32>);
    c.sub("axes f64", 30000, axis(bits::<f64>(), (-0.0f64).to_bits()), check::<f64>);
    c.finish("complex numbers with arbitrary bit patterns, values around the overflow of the exponential, extreme sizes, the axes, infinities and NaN: conjugation, parity, rotation by i, side of the branch cut, real restriction, sign of overflow, propagation of NaN; non-trivial: finite, off the axes");
}
