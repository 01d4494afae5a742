//! C02: complex division undoes multiplication.
use pbt::prelude::*;

fn parts<T>(z: Complex<T>) -> (T, T) {
    (z.re, z.im)
}

/// Exact: the complex numbers over Zp are a field.
fn exact(case: &(i64, i64, i64), ctx: &mut Ctx) -> Res {
    type C = Complex<Zp>;
    let (a, b) = (C::dec(case.0), C::dec(case.1));
    let s = Zp::dec(case.2);
    let zero = C::m_zero();
    if b != zero {
        ctx.nontrivial(a != zero && b.im != Zp(0));
        ctx.class("divisor real", b.im == Zp(0));
        ctx.class("divisor imaginary", b.re == Zp(0));
        ctx.class("dividend equals divisor", a == b);
        let n = (b.re * b.re + b.im * b.im).inv();
        let want = a.m_mul(&Complex { re: b.re * n, im: -(b.im * n) });
        ensure_eq!(a / b, want, "a / b");
        ensure_eq!(&a / &b, want, "&a / &b");
        ensure_eq!(a.div_refs(&b), want, "div_refs");
        ensure_eq!((a * b) / b, a, "(a*b)/b");
        ensure_eq!((a / b) * b, a, "(a/b)*b");
        ensure_eq!(&(&b * &a) / &b, a, "(b*a)/b");
        ensure_eq!(b / b, C::m_one(), "b/b");
        ensure_eq!(C::one() / (C::one() / b), b, "1/(1/b)");
        ensure_eq!(b * (C::one() / b), C::one(), "b*(1/b)");
    }
    if s != Zp(0) {
        let i = s.inv();
        let want = Complex { re: a.re * i, im: a.im * i };
        ensure_eq!(&a / &s, want, "&a / &scalar");
        ensure_eq!(a / &s, want, "a / &scalar");
        ensure_eq!(a / s, want, "a / scalar");
    }
    Ok(())
}

/// Quotients by Smith's method in f64.
fn smith(a: (f64, f64), b: (f64, f64)) -> (f64, f64) {
    if b.0.abs() >= b.1.abs() {
        let r = b.1 / b.0;
        let d = b.0 + b.1 * r;
        ((a.0 + a.1 * r) / d, (a.1 - a.0 * r) / d)
    } else {
        let r = b.0 / b.1;
        let d = b.0 * r + b.1;
        ((a.0 * r + a.1) / d, (a.1 * r - a.0) / d)
    }
}

type Pt = (f64, f64);

fn floats<F: Fl + Field>(c: &(Pt, Pt, f64), ctx: &mut Ctx) -> Res
where
    for<'a> F: std::ops::Div<&'a F, Output = F>,
    for<'a, 'b> &'a F: std::ops::Div<&'b F, Output = F>,
{
    let ar = (F::of(c.0 .0), F::of(c.0 .1));
    let br = (F::of(c.1 .0), F::of(c.1 .1));
    let s = F::of(c.2);
        let (a, b) = (Complex::new(ar.0, ar.1), Complex::new(br.0, br.1));
    let (af, bf) = ((ar.0.f(), ar.1.f()), (br.0.f(), br.1.f()));
    let bm = bf.0.hypot(bf.1);
    let am = af.0.hypot(af.1);
    // every squared modulus and product in the normal range
    let ok = |m: f64| within::<F>(m, 1.6);
    if !normal(ar.0, ar.1) || !normal(br.0, br.1) || !ok(am * bm) || bm > 0.0 && !ok(am / bm) {
        return Ok(());
    }
    if bm > 0.0 {
        ctx.nontrivial(am > 0.0 && bf.1 != 0.0);
        ctx.class("small divisor", bm < 1e-3);
        ctx.class("large divisor", bm > 1e3);
        let (x, y) = smith(af, bf);
        // the products a_i*b_j may underflow in part: absolute slack
        let tol = 12.0 * F::EPS * am / bm + F::EPS * 1e-25 * if F::NAME == "f64" { 1e-100 } else { 1e-8 };
        for (form, q) in [("a / b", a.clone() / b.clone()), ("&a / &b", &a / &b), ("div_refs", a.div_refs(&b))] {
            ensure!(
                (q.re.f() - x).hypot(q.im.f() - y) <= tol,
                "{} {form} for {a:?} / {b:?}: got {q:?}, expected {:?}", F::NAME, (x, y)
            );
        }
        let one = Complex::new(F::of(1.0), F::of(0.0));
        let r = &(&one / &b) * &b;
        ensure!((r.re.f() - 1.0).hypot(r.im.f()) <= 16.0 * F::EPS, "{} (1/b)*b for {b:?}: {r:?}", F::NAME);
        let r = &(&a * &b) / &b;
        ensure!(
            !ok(am * bm * bm) || (r.re.f() - af.0).hypot(r.im.f() - af.1) <= 16.0 * F::EPS * am + tol * 0.0 + 1e-30 * F::EPS,
            "{} (a*b)/b for {a:?}, {b:?}: {r:?}", F::NAME
        );
    }
    if s.f() != 0.0 {
        let want = (ar.0 / s, ar.1 / s);
        for (form, q) in [("&a / &s", &a / &s), ("a / &s", a.clone() / &s), ("a / s", a.clone() / s)] {
            let near = |g: F, w: F| (g.ord() - w.ord()).abs() <= 2 || near(g.f(), w.f(), F::EPS * 1e-36);
            ensure!(near(q.re, want.0) && near(q.im, want.1), "{} {form} for {a:?} / {s:?}: got {q:?}", F::NAME);
        }
    }
    Ok(())
}

/// Machine integers: quotients by real scalars are the native quotients.
fn ints(c: &(i64, i64, i64), ctx: &mut Ctx) -> Res {
    let z = Complex::new(c.0, c.1);
    let s = c.2;
    if let (Some(x), Some(y)) = (c.0.checked_div(s), c.1.checked_div(s)) {
        ctx.nontrivial(s.abs() > 1 && c.0 != 0 && c.1 != 0);
        ensure_eq!(parts(&z / &s), (x, y), "&z / &s");
        ensure_eq!(parts(z / &s), (x, y), "z / &s");
        ensure_eq!(parts(z / s), (x, y), "z / s");
    }
    Ok(())
}

fn main() {
    let mut c = Check::start("C02");
    c.sub("exact field", 60000, (elem(), elem(), elem()), exact);
    c.sub("exact field, a = b or conjugates", 10000, (elem(), lane(), lane(), elem(), any::<bool>()).prop_map(|(s, x, y, _, e)| {
        let x = x.max(-32767);
        let y = y.max(-32767);
        (pack([x, y, 0, 0]), pack([x, if e { y } else { -y }, 0, if e || y == 0 { 0 } else { 0 }]), s)
    }), exact);
    let f = |e| (point(e), point(e), prop_oneof![3 => magnitude(12), 1 => (-5i32..6).prop_map(|x| x as f64)].boxed());
    c.sub("floats f32", 180000, f(55), floats::<f32>);
    c.sub("floats f64", 180000, f(450), floats::<f64>);
    c.sub("machine integers by a scalar", 20000, (any::<i64>(), any::<i64>(), prop_oneof![any::<i64>(), -9i64..10]), ints);
    c.finish("pairs of complex numbers (and a scalar divisor) over the field GF(p^2), f32, f64 and i64; non-trivial: dividend non-zero and divisor with non-zero imaginary part (integers: |divisor| > 1 and both parts non-zero)");
}
