//! C07: the real elementary functions are accurate on the whole real line.
use magnesia::functions::*;
use pbt::prelude::*;
use std::f64::consts::PI;

trait T7: Fl + Sqrt + Exp + Ln + Sin + Cos + Tan + Sinh + Cosh + Asin + Atan2 + Abs<Output = Self> {
    fn abs_ref(x: &Self) -> Self;
    /// Correctly rounded square root (IEEE requires it).
    fn root(x: Self) -> Self;
}
impl T7 for f32 {
    fn abs_ref(x: &f32) -> f32 { Abs::abs(x) }
    fn root(x: f32) -> f32 { (x as f64).sqrt() as f32 }
}
impl T7 for f64 {
    fn abs_ref(x: &f64) -> f64 { Abs::abs(x) }
    fn root(x: f64) -> f64 { libm::sqrt(x) }
}

fn special(x: f64) -> bool {
    x == 0.0 || !x.is_finite()
}

/// Compares a result with the reference in ulps of the result type.
fn ulps<F: Fl>(name: &str, x: &dyn std::fmt::Debug, got: F, want: f64, max: i128) -> Res {
    let w = F::of(want);
    let ok = if w.is_nan_() || got.is_nan_() {
        w.is_nan_() && got.is_nan_()
    } else {
        (got.ord() - w.ord()).abs() <= max
    };
    ensure!(ok, "{} {name} of {x:?}: got {got:?}, expected {w:?}", F::NAME);
    Ok(())
}

/// The sign of a zero result.
fn zero_sign<F: Fl>(name: &str, x: F, got: F) -> Res {
    ensure!(got.f() == 0.0 && got.sign_neg() == x.sign_neg(), "{} {name} of {x:?}: got {got:?}, expected a zero of the same sign", F::NAME);
    Ok(())
}

fn unary<F: T7>(x: F, ctx: &mut Ctx) -> Res {
    let v = x.f();
    ctx.nontrivial(!special(v));
    ctx.class("subnormal or tiny", v != 0.0 && v.abs() < 1e-30);
    ctx.class("huge", v.is_finite() && v.abs() > 1e6);
    ctx.class("special", special(v));
    ctx.class("near +-1", (v.abs() - 1.0).abs() < 1e-3);
    let (m, big) = if F::NAME == "f32" { (2, 3) } else { (3, 6) };
    // abs
    for (name, a) in [("abs", Abs::abs(x)), ("abs of reference", F::abs_ref(&x))] {
        ulps(name, &x, a, libm::fabs(v), 0)?;
        ensure!(a.is_nan_() || !a.sign_neg(), "{} {name} of {x:?} has a sign: {a:?}", F::NAME);
    }
    ulps("sqrt", &x, Sqrt::sqrt(&x), F::root(x).f(), 1)?;
    ulps("exp", &x, Exp::exp(x), libm::exp(v), m)?;
    ulps("ln", &x, Ln::ln(x), libm::log(v), m)?;
    ulps("sin", &x, Sin::sin(x), libm::sin(v), m)?;
    ulps("cos", &x, Cos::cos(x), libm::cos(v), m)?;
    ulps("tan", &x, Tan::tan(x), libm::tan(v), big)?;
    ulps("sinh", &x, Sinh::sinh(x), libm::sinh(v), big)?;
    ulps("cosh", &x, Cosh::cosh(x), libm::cosh(v), big)?;
    ulps("asin", &x, Asin::asin(x), libm::asin(v), m)?;
    if v == 0.0 {
        zero_sign("sqrt", x, Sqrt::sqrt(&x))?;
        zero_sign("sin", x, Sin::sin(x))?;
        zero_sign("tan", x, Tan::tan(x))?;
        zero_sign("sinh", x, Sinh::sinh(x))?;
        zero_sign("asin", x, Asin::asin(x))?;
    }
    Ok(())
}

fn binary<F: T7>(y: F, x: F, ctx: &mut Ctx) -> Res {
    let (b, a) = (y.f(), x.f());
    ctx.nontrivial(!special(a) && !special(b));
    ctx.class("special", special(a) || special(b));
    ctx.class("left half plane", a < 0.0);
    let g = Atan2::atan2(y, x);
    ulps("atan2", &(y, x), g, libm::atan2(b, a), if F::NAME == "f32" { 2 } else { 3 })?;
    if !g.is_nan_() {
        ensure!(g.sign_neg() == y.sign_neg(), "{} atan2({y:?}, {x:?}) = {g:?} has the wrong sign", F::NAME);
        // quadrants by signs alone
        let half = g.f().abs() > F::of(PI / 2.0).f() * (1.0 + 2.0 * F::EPS);
        let less = g.f().abs() < F::of(PI / 2.0).f() * (1.0 - 2.0 * F::EPS);
        ensure!(!half || x.sign_neg(), "{} atan2({y:?}, {x:?}) = {g:?} is in the wrong half plane", F::NAME);
        ensure!(!less || !x.sign_neg(), "{} atan2({y:?}, {x:?}) = {g:?} is in the wrong half plane", F::NAME);
    }
    Ok(())
}

/// Numbers of the type, as bits: every region that matters.
fn number<F: T7>() -> BoxedStrategy<u64> {
    let is32 = F::NAME == "f32";
    let bits = move |x: f64| if is32 { (x as f32).to_bits() as u64 } else { x.to_bits() };
    let mask = if is32 { 0xffff_ffffu64 } else { u64::MAX };
    let (lo, hi, sub) = if is32 { (85.0f64, 105.0f64, 23) } else { (705.0, 750.0, 52) };
    let e = if is32 { 126 } else { 1000 };
    prop_oneof![
        6 => any::<u64>().prop_map(move |b| b & mask),
        // subnormal
        1 => (any::<u64>(), any::<bool>()).prop_map(move |(b, s)| (b & ((1 << sub) - 1)) | if s { (mask >> 1) + 1 } else { 0 }),
        4 => magnitude(e).prop_map(bits),
        4 => magnitude(6).prop_map(bits),
        4 => (-10.0f64..10.0).prop_map(bits),
        2 => (-1.0f64..1.0).prop_map(bits),
        // overflow and underflow of the exponential functions
        3 => (lo..hi, any::<bool>()).prop_map(move |(x, s)| bits(if s { -x } else { x })),
        // near multiples of pi/2: a few ulps around them
        4 => (-40i64..=40, -3i64..=3).prop_map(move |(k, d)| (bits(k as f64 * PI / 2.0) as i64).wrapping_add(d) as u64 & mask),
        2 => (any::<i32>(), -3i64..=3).prop_map(move |(k, d)| (bits(k as f64 * PI / 2.0) as i64).wrapping_add(d) as u64 & mask),
        // near plus or minus one
        3 => (any::<bool>(), -40i64..=40).prop_map(move |(s, d)| (bits(if s { 1.0 } else { -1.0 }) as i64).wrapping_add(d) as u64 & mask),
        2 => (any::<bool>(), any::<bool>(), 1i32..sub).prop_map(move |(s, t, d)| {
            let x = 1.0 + if t { 1.0 } else { -1.0 } * (-d as f64).exp2();
            bits(if s { x } else { -x })
        }),
        1 => (0u8..10).prop_map(move |k| bits([0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1.0, -1.0, 0.5, 2.0, -f64::NAN][k as usize])),
    ]
    .boxed()
}

fn main() {
    let mut c = Check::start("C07");
    c.sub("f32", 150000, number::<f32>(), |b, ctx| unary(f32::from_raw(*b), ctx));
    c.sub("f64", 150000, number::<f64>(), |b, ctx| unary(f64::from_raw(*b), ctx));
    c.sub("atan2 f32", 60000, (number::<f32>(), number::<f32>()), |b, ctx| binary(f32::from_raw(b.0), f32::from_raw(b.1), ctx));
    c.sub("atan2 f64", 60000, (number::<f64>(), number::<f64>()), |b, ctx| binary(f64::from_raw(b.0), f64::from_raw(b.1), ctx));
    c.finish("arguments from the whole bit space of f32 and f64 with extra weight on subnormals, overflow thresholds, neighbours of multiples of pi/2 and of +-1, zeros, infinities and NaN; non-trivial: finite and non-zero");
}
