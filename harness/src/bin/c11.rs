//! C11: polynomial equality is mathematical equality.
use pbt::poly::{self, pl};
use pbt::prelude::*;

type P<T> = Polynomial<T>;

fn eq<T: ModelRing + Ring>(what: &str, p: &P<T>, q: &P<T>, want: bool) -> Res {
    ensure!((p == q) == want, "{} {what}: {p:?} == {q:?} is {}, expected {want}", T::NAME, p == q);
    ensure!((p != q) != want, "{} {what}: {p:?} != {q:?} is {}, expected {}", T::NAME, p != q, !want);
    ensure!((q == p) == want, "{} {what}: {q:?} == {p:?} is {}, expected {want}", T::NAME, q == p);
    Ok(())
}

/// Any two lists against the trimmed lists.
fn lists<T: ModelRing + Ring>(c: &(Vec<i64>, Vec<i64>, u8, u8), ctx: &mut Ctx) -> Res {
    let mut a: Vec<T> = dec_all(&c.0);
    let mut b: Vec<T> = dec_all(&c.1);
    for _ in 0..c.2 { a.push(T::m_zero()); }
    for _ in 0..c.3 { b.push(T::m_zero()); }
    let same = poly::trim(a.clone()) == poly::trim(b.clone());
    ctx.nontrivial(a.len() + b.len() > 1);
    ctx.class("equal with different lengths", same && a.len() != b.len());
    ctx.class("different", !same);
    eq("lists", &pl(&a), &pl(&b), same)?;
    eq("itself", &pl(&a), &pl(&a), true)
}

/// One list, padded by zeros in several ways, and a list that differs in one
/// coefficient.
fn padded<T: ModelRing + Ring>(c: &(Vec<i64>, u8, u8, u8, i64), ctx: &mut Ctx) -> Res {
    let a: Vec<T> = dec_all(&c.0);
    let pad = |v: &Vec<T>, k: u8| {
        let mut v = v.clone();
        v.extend((0..k).map(|_| T::m_zero()));
        v
    };
    ctx.nontrivial(!a.is_empty() && c.1 != c.2);
    let (p, q, r) = (pl(&pad(&a, c.1)), pl(&pad(&a, c.2)), pl(&a));
    eq("padded", &p, &q, true)?;
    eq("padded and plain", &p, &r, true)?;
    eq("plain and padded", &r, &q, true)?;
    let d = T::dec(c.4);
    if d != T::m_zero() {
        // change one coefficient (also one beyond the end)
        for k in [c.3 as usize % (a.len() + 1), a.len() + c.1 as usize, 0] {
            let mut b = a.clone();
            while b.len() <= k {
                b.push(T::m_zero());
            }
            b[k] = b[k].m_add(&d);
            for z in [c.1, c.2, 0] {
                eq("one coefficient changed", &pl(&pad(&b, z)), &p, false)?;
                eq("one coefficient changed", &pl(&pad(&b, z)), &r, false)?;
            }
        }
        // shifted
        let mut b = vec![T::m_zero()];
        b.extend(a.clone());
        eq("multiplied by x", &pl(&b), &p, poly::trim(a.clone()).is_empty())?;
    }
    Ok(())
}

/// Values produced by operations.
fn produced<T: ModelRing + Ring>(c: &(Vec<i64>, Vec<i64>), ctx: &mut Ctx) -> Res {
    let (a, b): (Vec<T>, Vec<T>) = (dec_all(&c.0), dec_all(&c.1));
    let (p, q) = (pl(&a), pl(&b));
    let zero = P::<T>::zero();
    ctx.nontrivial(!poly::trim(a.clone()).is_empty() && !poly::trim(b.clone()).is_empty());
    ctx.class("second longer", b.len() > a.len());
    eq("p - p", &(pl(&a) - pl(&a)), &zero, true)?;
    eq("0 * p", &(&zero * &p), &zero, true)?;
    eq("(p + q) - q", &(pl(&a) + pl(&b) - pl(&b)), &p, true)?;
    eq("(p - q) + q", &(pl(&a) - pl(&b) + pl(&b)), &p, true)?;
    eq("-(-p)", &-(-pl(&a)), &p, true)?;
    eq("p * 1", &(&p * &P::one()), &p, true)?;
    eq("p against 0", &p, &zero, poly::trim(a.clone()).is_empty())?;
    let diff = pl(&a) - pl(&b);
    eq("p - q against 0", &diff, &zero, poly::trim(a.clone()) == poly::trim(b.clone()))?;
    let p_zero = pl(&vec![T::m_zero(); a.len()]);
    eq("list of zeros times q", &(&p_zero * &q), &zero, true)?;
    Ok(())
}

/// Long lists and long runs of zeros behind them.
fn long(c: &(usize, usize, usize, Seed, u64, i64), ctx: &mut Ctx) -> Res {
    let (n, z, w) = (c.0, c.1, c.2);
    ctx.nontrivial(z != w);
    let a: Vec<Zp> = dec_all(&expand(c.3 .0, c.3 .1, n));
    let pad = |v: &Vec<Zp>, k: usize| {
        let mut v = v.clone();
        v.resize(v.len() + k, Zp(0));
        pl(&v)
    };
    let (p, q) = (pad(&a, z), pad(&a, w));
    let same = |what: &str, p: &P<Zp>, q: &P<Zp>, want: bool| -> Res {
        ensure!((p == q) == want && (q == p) == want, "{what}: {n} coefficients and {z} or {w} zeros: equality is {} and {}, expected {want}", p == q, q == p);
        ensure!((p != q) != want, "{what}: {n} coefficients and {z} or {w} zeros: inequality is {want}");
        Ok(())
    };
    same("padded", &p, &q, true)?;
    same("padded and plain", &p, &pl(&a), true)?;
    same("a clone", &q, &q.clone(), true)?;
    let d = match Zp::dec(c.5) { Zp(0) => Zp(1), d => d };
    let all = n + z;
    if all > 0 {
        for k in [(c.4 % all as u64) as usize, 0, n.saturating_sub(1), all - 1, all / 2] {
            let mut b = a.clone();
            b.resize(all, Zp(0));
            b[k] = b[k].m_add(&d);
            same("one coefficient changed", &pl(&b), &p, false)?;
            same("one coefficient changed, other padding", &pl(&b), &q, false)?;
        }
    }
    same("p - p", &(p.clone() - q.clone()), &P::zero(), true)?;
    same("p + q - q", &(p.clone() + q.clone() - q.clone()), &p, true)
}

fn main() {
    let mut c = Check::start("C11");
    // few different values, so that equal pairs are frequent
    let few = |n: usize| vec(prop_oneof![4 => Just(0i64), 2 => Just(1i64), 1 => Just(-1i64 & 0xffff)], 0..n);
    let lists_s = || (few(4), few(4), 0u8..4, 0u8..4);
    c.sub("lists Zp", 20000, lists_s(), lists::<Zp>);
    c.sub("lists Quat", 8000, lists_s(), lists::<Quat>);
    c.sub("lists Z2", 8000, lists_s(), lists::<Z2>);
    c.sub("lists Z6", 8000, lists_s(), lists::<Z6>);
    c.sub("lists i8-like f64", 8000, lists_s(), lists::<f64>);
    c.sub("lists i64", 8000, lists_s(), lists::<i64>);
    c.sub("random lists Zp", 8000, (vecs(10), vecs(10), 0u8..3, 0u8..3), lists::<Zp>);
    c.sub("lists Nil", 1000, lists_s(), lists::<Nil>);
    c.sub("lists Wide<1>", 2000, lists_s(), lists::<Wide<1>>);
    c.sub("lists Wide<20>", 500, lists_s(), lists::<Wide<20>>);
    c.sub("lists Wide<70>", 300, lists_s(), lists::<Wide<70>>);
    c.sub("lists Wide<1100>", 40, lists_s(), lists::<Wide<1100>>);
    let pad = |max: usize| (vecs(max), 0u8..20, 0u8..20, any::<u8>(), elem());
    c.sub("padded Zp", 10000, pad(30), padded::<Zp>);
    c.sub("padded Complex<Zp>", 8000, pad(8), padded::<Complex<Zp>>);
    c.sub("padded B2", 5000, pad(12), padded::<B2>);
    c.sub("padded M2", 8000, pad(8), padded::<M2>);
    c.sub("padded f32", 8000, pad(8), padded::<f32>);
    let ops = |max: usize| (vecs(max), vecs(max));
    c.sub("produced Zp", 10000, ops(20), produced::<Zp>);
    c.sub("produced Quat", 8000, ops(8), produced::<Quat>);
    c.sub("produced Z2", 8000, ops(8), produced::<Z2>);
    c.sub("produced Z6", 8000, ops(8), produced::<Z6>);
    c.sub("produced Nil", 1000, ops(8), produced::<Nil>);
    c.sub("produced Wide<20>", 400, ops(8), produced::<Wide<20>>);
    c.sub("produced Wide<70>", 100, ops(8), produced::<Wide<70>>);
    c.sub("produced i128", 8000, ops(8), produced::<i128>);
    c.sub("produced f64", 8000, ops(8), produced::<f64>);
    c.sweep("padded, all lengths", 3, (0..=70usize).chain([100, 128, 200, 256, 300]).map(|n| (elems_fast(n), 0u8..80, 0u8..80, any::<u8>(), any::<i64>())), padded::<Zp>);
    // zeros of both signs are the same coefficient
    c.sub("signed zeros", 2000, (vec(0u8..3, 0..5), 0u8..3), |(v, k), ctx| {
        ctx.nontrivial(!v.is_empty());
        let pick = |flip: bool| v.iter().map(|x| match x { 0 => if flip { -0.0 } else { 0.0 }, 1 => 1.0f64, _ => -2.5 }).chain((0..*k).map(|_| if flip { 0.0 } else { -0.0 })).collect::<Vec<f64>>();
        eq("zeros of either sign", &pl(&pick(false)), &pl(&pick(true)), true)
    });
    let sizes = HUGE.into_iter().flat_map(|n| [(n, 0usize, 1usize), (n, 3, 0), (3, n, 5), (0, n, 0), (7, 2, n), (n, n / 2, n)]);
    c.sweep("very long lists", 1, sizes.map(|(n, z, w)| (Just(n), Just(z), Just(w), seed(), any::<u64>(), any::<i64>())), long);
    let len = || prop_oneof![Just(0usize), 0..300usize, large(16)];
    c.sub("long lists", 300, (len(), len(), len(), seed(), any::<u64>(), any::<i64>()), long);
    c.finish("pairs of coefficient lists: lists over few values (frequently equal), padded and one-coefficient-changed lists, and polynomials produced by operations, over exact rings; non-trivial: some coefficient exists and (padded) the paddings differ");
}
