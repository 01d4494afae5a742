//! C09: polynomial arithmetic is exact coefficient arithmetic.
use pbt::poly::{self, pl};
use pbt::prelude::*;

type P<T> = Polynomial<T>;

/// Compares with the expected coefficients: by equality and by evaluation at
/// two points, independently of how equality treats coefficients.
fn same<T: ModelRing + Ring>(what: &str, p: &P<T>, want: &[T], at: &[T]) -> Res {
    ensure!(*p == pl(want), "{} {what}: got {p:?}, expected coefficients {want:?}", T::NAME);
    for x in at {
        ensure_eq!(p.eval_ref(x), poly::eval(want, x), "{} {what} evaluated at {x:?} ({p:?})", T::NAME);
    }
    // no other coefficient list is taken for it
    let mut other = want.to_vec();
    let k = (want.len() / 2).min(other.len().saturating_sub(1));
    if other.is_empty() {
        other.push(T::m_one());
    } else {
        other[k] = other[k].m_add(&T::m_one());
    }
    ensure!(T::m_one() == T::m_zero() || *p != pl(&other), "{} {what} also equals {other:?}", T::NAME);
    Ok(())
}

type Case = (Vec<i64>, Vec<i64>, (i64, i64));

fn label(c: &Case, ctx: &mut Ctx) {
    let (a, b) = (&c.0, &c.1);
    ctx.nontrivial(a.iter().any(|x| *x != 0) && b.iter().any(|x| *x != 0) && a.len() + b.len() > 2);
    ctx.class("an operand is empty", a.is_empty() || b.is_empty());
    ctx.class("first shorter", a.len() < b.len());
    ctx.class("second shorter", a.len() > b.len());
    ctx.class("a leading coefficient is zero", a.last() == Some(&0) || b.last() == Some(&0));
    ctx.class("longer than 30", a.len().max(b.len()) > 30);
}

fn sums<T: ModelRing + Ring>(c: &Case, ctx: &mut Ctx) -> Res {
    label(c, ctx);
    let (a, b): (Vec<T>, Vec<T>) = (dec_all(&c.0), dec_all(&c.1));
    let at = [T::dec(c.2 .0), T::dec(c.2 .1)];
    let (p, q) = (pl(&a), pl(&b));
    let want = poly::add(&a, &b);
    same("p + q", &(pl(&a) + pl(&b)), &want, &at)?;
    same("q + p", &(pl(&b) + pl(&a)), &want, &at)?;
    let mut r = pl(&a);
    r += pl(&b);
    same("p += q", &r, &want, &at)?;
    let mut r = pl(&a);
    r += &q;
    same("p += &q", &r, &want, &at)?;
    same("clone of p + clone of q", &(p.clone() + q.clone()), &want, &at)?;
    let want = poly::sub(&a, &b);
    same("p - q", &(pl(&a) - pl(&b)), &want, &at)?;
    let mut r = pl(&a);
    r -= pl(&b);
    same("p -= q", &r, &want, &at)?;
    let mut r = pl(&a);
    r -= &q;
    same("p -= &q", &r, &want, &at)?;
    same("-p", &-pl(&a), &poly::neg(&a), &at)?;
    same("p + 0", &(pl(&a) + P::zero()), &a, &at)?;
    same("0 + p", &(P::zero() + pl(&a)), &a, &at)?;
    same("p - 0", &(pl(&a) - P::zero()), &a, &at)?;
    same("0 - p", &(P::zero() - pl(&a)), &poly::neg(&a), &at)?;
    same("first operand", &p, &a, &at)?;
    same("second operand", &q, &b, &at)?;
    Ok(())
}

fn products<T: ModelRing + Ring>(c: &Case, ctx: &mut Ctx) -> Res {
    label(c, ctx);
    let (a, b): (Vec<T>, Vec<T>) = (dec_all(&c.0), dec_all(&c.1));
    let at = [T::dec(c.2 .0), T::dec(c.2 .1)];
    let (p, q) = (pl(&a), pl(&b));
    let want = poly::mul(&a, &b);
    same("&p * &q", &(&p * &q), &want, &at)?;
    same("p * q", &(pl(&a) * pl(&b)), &want, &at)?;
    same("mul_refs", &p.mul_refs(&q), &want, &at)?;
    let mut r = pl(&a);
    r *= pl(&b);
    same("p *= q", &r, &want, &at)?;
    same("first operand", &p, &a, &at)?;
    same("second operand", &q, &b, &at)?;
    same("&q * &p", &(&q * &p), &poly::mul(&b, &a), &at)?;
    same("p * p", &(&p * &p), &poly::mul(&a, &a), &at)?;
    same("p * 1", &(&p * &P::one()), &a, &at)?;
    same("1 * p", &(&P::one() * &p), &a, &at)?;
    same("p * 0", &(&p * &P::zero()), &[], &at)?;
    same("0 * p", &(&P::zero() * &p), &[], &at)?;
    Ok(())
}

/// Machine integers over their whole range.
macro_rules! machine {
    ($t:ident) => {
        |c: &(Vec<$t>, Vec<$t>), ctx: &mut Ctx| -> Res {
            let n = stringify!($t);
            let (a, b) = (&c.0, &c.1);
            ctx.nontrivial(!a.is_empty() && !b.is_empty());
            let get = |v: &Vec<$t>, i: usize| v.get(i).copied().unwrap_or(0);
            let len = a.len().max(b.len());
            let all = |f: &dyn Fn($t, $t) -> Option<$t>| (0..len).map(|i| f(get(a, i), get(b, i))).collect::<Option<Vec<$t>>>();
            let eq = |what: &str, p: P<$t>, want: &Vec<$t>| -> Res {
                ensure!(p == pl(want), "{n} {what}: got {p:?}, expected coefficients {want:?}");
                Ok(())
            };
            if let Some(want) = all(&|x, y| x.checked_add(y)) {
                ctx.class("sum representable", true);
                eq("p + q", pl(a) + pl(b), &want)?;
                let mut r = pl(a);
                r += pl(b);
                eq("p += q", r, &want)?;
                let mut r = pl(a);
                r += &pl(b);
                eq("p += &q", r, &want)?;
            }
            if let Some(want) = all(&|x, y| x.checked_sub(y)) {
                ctx.class("difference representable", true);
                eq("p - q", pl(a) - pl(b), &want)?;
                let mut r = pl(a);
                r -= pl(b);
                eq("p -= q", r, &want)?;
                let mut r = pl(a);
                r -= &pl(b);
                eq("p -= &q", r, &want)?;
            }
            if let Some(want) = a.iter().map(|x| x.checked_neg()).collect::<Option<Vec<$t>>>() {
                eq("-p", -pl(a), &want)?;
            }
            // products: as soon as no order of summation can overflow
            let mut size = vec![0i128; a.len() + b.len() + 1];
            let mut want = vec![0i128; a.len() + b.len() + 1];
            for (i, x) in a.iter().enumerate() {
                for (j, y) in b.iter().enumerate() {
                    size[i + j] = size[i + j].saturating_add((*x as i128 * *y as i128).abs());
                    want[i + j] = want[i + j].wrapping_add(*x as i128 * *y as i128);
                }
            }
            if size.iter().all(|s| *s <= $t::MAX as i128) {
                ctx.class("product representable", true);
                let want = want.iter().map(|x| *x as $t).collect::<Vec<$t>>();
                eq("&p * &q", &pl(a) * &pl(b), &want)?;
                eq("p * q", pl(a) * pl(b), &want)?;
                let mut r = pl(a);
                r *= pl(b);
                eq("p *= q", r, &want)?;
            }
            Ok(())
        }
    };
}

/// Very long operands, expanded from seeds.
fn long<T: ModelRing>(c: &(usize, usize, Seed, Seed, i64)) -> (Vec<T>, Vec<T>, [T; 1]) {
    (dec_all(&expand(c.2 .0, c.2 .1, c.0)), dec_all(&expand(c.3 .0, c.3 .1, c.1)), [T::dec(c.4)])
}
fn long_products<T: ModelRing + Ring>(c: &(usize, usize, Seed, Seed, i64), ctx: &mut Ctx) -> Res {
    let (a, b, at) = long::<T>(c);
    ctx.nontrivial(true);
    let (mut p, q) = (pl(&a), pl(&b));
    let want = poly::mul(&a, &b);
    same("&p * &q", &(&p * &q), &want, &at)?;
    p *= q;
    same("p *= q", &p, &want, &at)
}
fn long_sums(c: &(usize, usize, Seed, Seed, i64), ctx: &mut Ctx) -> Res {
    let (a, b, at) = long::<Zp>(c);
    ctx.nontrivial(true);
    let (p, q) = (pl(&a), pl(&b));
    let want = poly::add(&a, &b);
    same("p + q", &(p.clone() + q.clone()), &want, &at)?;
    let mut r = p.clone();
    r += &q;
    same("p += &q", &r, &want, &at)?;
    let want = poly::sub(&a, &b);
    same("p - q", &(p.clone() - q.clone()), &want, &at)?;
    let mut r = p.clone();
    r -= &q;
    same("p -= &q", &r, &want, &at)?;
    same("-p", &-p, &poly::neg(&a), &at)
}

fn case(max: usize) -> impl Strategy<Value = Case> {
    (vecs(max), vecs(max), (elem(), elem()))
}

fn main() {
    let mut c = Check::start("C09");
    c.sub("sums Zp", 8000, case(24), sums::<Zp>);
    c.sub("sums Quat", 6000, case(12), sums::<Quat>);
    c.sub("sums Z2", 6000, case(12), sums::<Z2>);
    c.sub("sums Z6", 6000, case(12), sums::<Z6>);
    c.sub("sums f64", 6000, (vecs(12), vecs(12), (0i64..4, 0i64..4)).prop_map(|(a, b, x)| (a, b, (x.0 - 2, x.1 - 2))), |c, ctx| {
        // evaluation is exact for such small numbers only at 0, 1 and -1
        sums::<f64>(&(c.0.clone(), c.1.clone(), (c.2 .0.clamp(-1, 1), c.2 .1.clamp(-1, 1))), ctx)
    });
    c.sub("products Zp", 6000, case(20), products::<Zp>);
    c.sub("products Quat", 5000, case(10), products::<Quat>);
    c.sub("products Z2", 5000, case(10), products::<Z2>);
    c.sub("products Z6", 5000, case(10), products::<Z6>);
    c.sub("products M2 (zero divisors)", 5000, case(10), products::<M2>);
    c.sub("sums B2", 2000, case(12), sums::<B2>);
    c.sub("products B2", 5000, case(12), products::<B2>);
    c.sub("products Complex<Zp>", 5000, case(10), products::<Complex<Zp>>);
    // entries without size, and entries of many bytes
    c.sub("sums Nil", 1000, case(12), sums::<Nil>);
    c.sub("products Nil", 1000, case(12), products::<Nil>);
    c.sub("sums Wide<1>", 1000, case(12), sums::<Wide<1>>);
    c.sub("products Wide<1>", 1000, case(12), products::<Wide<1>>);
    c.sub("sums Wide<20>", 400, case(20), sums::<Wide<20>>);
    c.sub("products Wide<20>", 400, case(12), products::<Wide<20>>);
    c.sub("sums Wide<70>", 200, case(20), sums::<Wide<70>>);
    c.sub("products Wide<70>", 100, case(12), products::<Wide<70>>);
    c.sub("sums Wide<1100>", 30, case(12), sums::<Wide<1100>>);
    c.sub("products Wide<1100>", 10, case(6), products::<Wide<1100>>);
    // leading coefficients whose product vanishes
    let nilpotent = || (vecs(4), vecs(4), 1i16..5, 1i16..5, (elem(), elem())).prop_map(|(mut a, mut b, x, y, at)| {
        a.push(pack([0, x, 0, 0]));
        b.push(pack([0, y, 0, 0]));
        (a, b, at)
    });
    c.sub("products M2, nilpotent leading coefficients", 2000, nilpotent(), products::<M2>);
    let m8 = || prop_oneof![3 => -6i8..=6, 2 => any::<i8>(), 1 => Just(i8::MIN), 1 => Just(i8::MAX), 2 => Just(0i8)];
    let m64 = || prop_oneof![3 => -6i64..=6, 2 => any::<i64>(), 1 => Just(i64::MIN), 1 => Just(i64::MAX), 2 => Just(0i64), 1 => any::<i32>().prop_map(|x| x as i64)];
    c.sub("machine i8", 20000, (vec(m8(), 0..5), vec(m8(), 0..5)), machine!(i8));
    c.sub("machine i8, small values", 8000, (vec(-7i8..8, 0..7), vec(-7i8..8, 0..4)), machine!(i8));
    c.sub("machine i64", 8000, (vec(m64(), 0..5), vec(m64(), 0..5)), machine!(i64));
    // every pair of lengths up to 14, then around powers of two
    let fast = |m: usize, n: usize| (elems_fast(m), elems_fast(n), (any::<i64>(), any::<i64>()));
    let small: Vec<(usize, usize)> = (0..=14).flat_map(|m| (0..=14).map(move |n| (m, n))).collect();
    c.sweep("sums, all pairs of lengths", 3, small.iter().map(|&(m, n)| fast(m, n)), sums::<Zp>);
    c.sweep("products, all pairs of lengths", 3, small.iter().map(|&(m, n)| fast(m, n)), products::<Quat>);
    let long = [1usize, 2, 15, 16, 17, 24, 31, 32, 33, 40, 48, 63, 64, 65, 96, 100, 127, 128, 129, 200, 255, 256, 257];
    let pairs: Vec<(usize, usize)> = long.iter().flat_map(|&m| long.iter().map(move |&n| (m, n))).collect();
    c.sweep("sums, long operands", 1, pairs.iter().map(|&(m, n)| fast(m * 4, n * 4)), sums::<Zp>);
    c.sweep("products, long operands", 1, pairs.iter().map(|&(m, n)| fast(m, n)), products::<Zp>);
    c.sweep("products, long operands, Quat", 1, pairs.iter().map(|&(m, n)| fast(m, n)), products::<Quat>);
    c.sweep("products, equal long lengths", 1, (15..=70usize).map(|n| fast(n, n)), products::<Quat>);
    let very = |m: usize, n: usize| (Just(m), Just(n), seed(), seed(), any::<i64>());
    let pairs = [(511usize, 512usize), (513, 513), (600, 700), (1000, 999), (1024, 1024), (1025, 1025), (2049, 2049), (3000, 2000), (4097, 4097), (4500, 70), (70, 4500), (9000, 1000), (65_537, 3), (3, 65_537), (70_003, 17), (1_048_577, 2), (2, 1_100_003), (1, 1_100_003), (1_100_003, 1)];
    c.sweep("products, very long operands", 1, pairs.iter().map(|&(m, n)| very(m, n)), long_products::<Zp>);
    c.sub("products, long operands of any length", 30, (large(12), large(12), seed(), seed(), any::<i64>()), long_products::<Zp>);
    let pairs = [(511usize, 512usize), (600, 700), (1025, 1025), (1, 600), (600, 1), (1000, 100), (100, 1000), (4500, 70), (70, 4500), (65_537, 3), (3, 65_537), (2, 300_003), (300_003, 2)];
    c.sweep("products, very long operands, Quat", 1, pairs.iter().map(|&(m, n)| very(m, n)), long_products::<Quat>);
    c.sub("products, long operands of any length, Quat", 40, (large(11), large(11), seed(), seed(), any::<i64>()), long_products::<Quat>);
    c.sub("products, lengths of all proportions, Quat", 60, (rect(40_000), seed(), seed(), any::<i64>()).prop_map(|((m, n), a, b, x)| (m, n, a, b, x)), long_products::<Quat>);
    c.sweep("sums, very long operands", 1, HUGE.iter().flat_map(|&n| [(n, n), (n, n - 1), (n - 1, n), (3, n), (n, 3), (n / 2, n)]).map(|(m, n)| very(m, n)), long_sums);
    c.sub("sums, long operands of any length", 60, (large(17), large(17), seed(), seed(), any::<i64>()), long_sums);
    c.finish("pairs of coefficient lists (random, sparse, constant, with zero leading coefficients; every pair of lengths up to 14 and a grid up to 257, single pairs up to 4097 by 4097 and 1100003 by 2, sums up to 1100003) over exact rings and machine integers; non-trivial: both operands have a non-zero coefficient and at least three coefficients together");
}
