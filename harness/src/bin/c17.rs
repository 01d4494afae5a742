//! C17: lazy matrix expressions evaluate to the eager entry-wise result.
use pbt::prelude::*;

type Case = ((usize, usize, u8), Vec<Step>);

fn check(c: &Case, ctx: &mut Ctx) -> Res {
    let ((rows, cols, first), steps) = c;
    let plan = plan(*rows, *cols, *first, steps);
    let log = Log::default();
    ctx.nontrivial(plan.done >= 1 && plan.want.d.len() > 1);
    ctx.class("empty result", plan.want.d.is_empty());
    ctx.class("not square", plan.want.r != plan.want.c);
    ctx.class("at least 4 effective steps", plan.done >= 4);
    agree("expression", plan.build(&log), &plan.want)?;
    // evaluation alone, without reading entries before
    stored("evaluated expression", &plan.build(&log).eval(), &plan.want)?;
    // assigning an expression in place
    let zero = plan.want.map(|_| Term::from(0i8));
    let mut d = dm(&zero);
    d += plan.build(&log);
    stored("0 += expression", &d, &zero.zip(&plan.want, |x, y| Term::bin('+', x, y)))?;
    let mut d = dm(&zero);
    d -= plan.build(&log);
    stored("0 -= expression", &d, &zero.zip(&plan.want, |x, y| Term::bin('-', x, y)))
}

/// Numbers instead of symbols, natively nested expressions of references.
fn native(c: &(RawMat, Vec<i64>, Vec<i64>), ctx: &mut Ctx) -> Res {
    let (r, k) = (c.0 .0, c.0 .1);
    let mk = |raw: &[i64]| Mat::<Complex<Zp>> { r, c: k, d: (0..r * k).map(|i| El::dec(raw[i % raw.len().max(1)])).collect() };
    if c.0 .2.is_empty() || c.1.is_empty() || c.2.is_empty() {
        return Ok(());
    }
    let (a, b, x) = (mk(&c.0 .2), mk(&c.1), mk(&c.2));
    ctx.nontrivial(r * k > 1);
    let (da, db, dx) = (dm(&a), dm(&b), dm(&x));
    let add = |p: &Mat<_>, q: &Mat<_>| p.zip(q, |u: &Complex<Zp>, v: &Complex<Zp>| u.m_add(v));
    let sub = |p: &Mat<_>, q: &Mat<_>| p.zip(q, |u: &Complex<Zp>, v: &Complex<Zp>| u.m_sub(v));
    let mul = |p: &Mat<_>, q: &Mat<_>| p.zip(q, |u: &Complex<Zp>, v: &Complex<Zp>| u.m_mul(v));
    agree("a + b - x", &da + &db - &dx, &sub(&add(&a, &b), &x))?;
    agree("a - (b - x)", &da - (&db - &dx), &sub(&a, &sub(&b, &x)))?;
    agree("a - (b + x)", &da - (&db + &dx), &sub(&a, &add(&b, &x)))?;
    agree("(a - b).x elementwise", (&da - &db).mul_elemwise(&dx), &mul(&sub(&a, &b), &x))?;
    agree("(a^T - b^T)^T + x", (da.t() - db.t()).t() + &dx, &add(&sub(&a, &b), &x))?;
    agree("(a^H + b^H)^H - x", (da.h() + db.h()).h() - &dx, &sub(&add(&a, &b), &x))?;
    agree("(a.b)^T + x^T", da.mul_elemwise(&db).t() + dx.t(), &add(&mul(&a, &b), &x).t())?;
    // intermediate evaluation changes nothing
    let s = (&da - &db).eval();
    agree("x - eval(a - b)", &dx - &s, &sub(&x, &sub(&a, &b)))?;
    agree("eval(a - b)^T . eval(x^T)", s.t().mul_elemwise(dx.t().eval()), &mul(&sub(&a, &b), &x).t())?;
    // a matrix product among the element-wise operations
    if k > 0 && r * r * k <= 1 << 22 {
        let p = a.mul(&b.t());
        let bt = db.t().eval();
        let sq = make_matrix_expr(r, r, |i, j| if k == 0 { Complex::m_zero() } else { x.at(i, j % k).clone() }).eval();
        let msq = table(&sq);
        agree("(a b^T) - s", (&da * &bt).wrap() - &sq, &sub(&p, &msq))?;
        agree("s - a b^T", &sq - &da * &bt, &sub(&msq, &p))?;
        agree("(a b^T)^T . s", (&da * &bt).wrap().t().mul_elemwise(&sq), &mul(&p.t(), &msq))?;
    }
    stored("a", &da, &a)?;
    stored("b", &db, &b)?;
    stored("x", &dx, &x)
}

fn main() {
    let mut c = Check::start("C17");
    let step = || (0u8..OPS, 0u8..KINDS, 0u8..8);
    let case = |max: usize, n: usize| ((0..=max, 0..=max, 0u8..KINDS), vec(step(), 0..n));
    c.sub("programs, small shapes", 12000, case(4, 8), check);
    c.sub("programs, long", 3000, case(3, 16), check);
    c.sub("programs, larger shapes", 1500, case(12, 5), check);
    // every operation with every kind of operand, on every small shape
    let mut list = vec![];
    for r in 0..=5usize {
        for k in 0..=5usize {
            for op in 0..OPS {
                list.push((r, k, op));
            }
        }
    }
    c.sweep("every operation on every small shape", 4, list.into_iter().map(|(r, k, op)| ((Just(r), Just(k), 0u8..KINDS), (0u8..KINDS, 0u8..8).prop_map(move |(a, b)| vec![(op, a, b), (op, b, a)]))), check);
    let mut list = vec![];
    for (r, k) in [(1, 16), (16, 1), (7, 9), (8, 8), (9, 8), (16, 16), (17, 16), (16, 17), (33, 2), (2, 33), (1, 65), (65, 1), (32, 32), (33, 33), (1, 300), (300, 1), (64, 5), (5, 64)] {
        for op in 0..OPS {
            list.push((r, k, op));
        }
    }
    c.sweep("every operation on larger shapes", 2, list.into_iter().map(|(r, k, op)| ((Just(r), Just(k), 0u8..KINDS), (0u8..KINDS, 0u8..8).prop_map(move |(a, b)| vec![(op, a, b)]))), check);
    c.sub("native expressions of complex numbers", 4000, (mat(12), vec(elem(), 1..40), vec(elem(), 1..40)), native);
    c.sweep("native expressions, larger", 2, [(20usize, 20usize), (31, 33), (32, 32), (33, 31), (64, 3), (3, 64), (1, 500), (500, 1), (65, 65), (256, 257), (65537, 1), (1, 65537)].into_iter().map(|(r, k)| (mat_of(r, k), elems_fast(r * k), elems_fast(r * k))), native);
    let big = [(513usize, 511usize), (1024, 1024), (1025, 1023), (1, 1_048_577), (1_048_577, 1), (3, 70_003), (70_003, 3)];
    let wide = |c: &(usize, usize, Seed, Seed), ctx: &mut Ctx| {
        let n = c.0 * c.1;
        native(&((c.0, c.1, expand(c.2 .0, c.2 .1, n)), expand(c.3 .0, c.3 .1, n), expand(c.2 .0 ^ c.3 .0, 0, n)), ctx)
    };
    c.sweep("native expressions, very large", 1, big.into_iter().map(|(r, k)| (Just(r), Just(k), seed(), seed())), wide);
    c.sub("native expressions, shapes of all proportions", 60, (rect(20_000), seed(), seed()).prop_map(|((r, k), s, t)| (r, k, s, t)), wide);
    c.sub("native expressions, large", 6, (large(10), large(10), seed(), seed()), wide);
    c.sub("programs, shapes of all proportions", 100, ((rect(5000), 0u8..KINDS).prop_map(|((r, k), f)| (r, k, f)), vec(step(), 1..4)), check);
    // every operation on symbols, with many entries
    let mut list = vec![];
    for (r, k) in [(65, 64), (130, 129), (257, 256), (1, 65_537), (65_537, 1)] {
        for op in 0..OPS {
            list.push((r, k, op));
        }
    }
    c.sweep("every operation on very large shapes", 1, list.into_iter().map(|(r, k, op)| ((Just(r), Just(k), 0u8..KINDS), (0u8..KINDS, 0u8..8).prop_map(move |(a, b)| vec![(op, a, b)]))), check);
    c.finish("random programs of +, -, element-wise * and /, map, zip, transposes, diagonals, evaluations over owned, borrowed, array, computed and wrapped operands of two symbolic entry types, every operation on every small shape; non-trivial: some step has an effect and the result has more than one entry");
}
