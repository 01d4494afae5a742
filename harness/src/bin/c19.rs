//! C19: lazy vector expressions evaluate to the eager component-wise result.
use pbt::prelude::*;

type Case = ((usize, u8), Vec<Step>);

fn check(c: &Case, ctx: &mut Ctx) -> Res {
    let ((n, first), steps) = c;
    let plan = vplan(*n, *first, steps);
    let log = Log::default();
    ctx.nontrivial(plan.done >= 1 && *n > 1);
    ctx.class("empty", *n == 0);
    ctx.class("at least 4 effective steps", plan.done >= 4);
    agree_vec("expression", plan.build(&log), &plan.want)?;
    stored_vec("evaluated expression", &plan.build(&log).eval(), &plan.want)?;
    let zero = vec![Term::from(0i8); *n];
    let mut d = dv(&zero);
    d += plan.build(&log);
    let with = |op: char| plan.want.iter().map(|y| Term::bin(op, &zero[0], y)).collect::<Vec<_>>();
    stored_vec("0 += expression", &d, &with('+'))?;
    let mut d = dv(&zero);
    d -= plan.build(&log);
    stored_vec("0 -= expression", &d, &with('-'))
}

/// Constructors, and natively nested expressions of numbers.
fn native<T: ModelRing + Ring + Conj>(c: &(Vec<i64>, Vec<i64>, i64), ctx: &mut Ctx) -> Res
where
    T: std::ops::Add<Output = T> + std::ops::Sub<Output = T> + std::ops::Mul<Output = T> + std::ops::AddAssign<T>,
{
    let a: Vec<T> = dec_all(&c.0);
    let n = a.len();
    let b: Vec<T> = (0..n).map(|i| T::dec(c.1.get(i).copied().unwrap_or(c.2 ^ i as i64))).collect();
    let s = T::dec(c.2);
    ctx.nontrivial(n > 1);
    ctx.class("empty", n == 0);
    let name = |x: &str| format!("{} length {n}: {x}", T::NAME);
    agree_vec(&name("slice"), a.as_slice(), &a)?;
    agree_vec(&name("wrapped slice"), a.as_slice().wrap(), &a)?;
    agree_vec(&name("function"), make_vector_expr(n, |i| a[i].clone()), &a)?;
    agree_vec(&name("zeros"), DVector::<T>::zeros(n), &vec![T::m_zero(); n])?;
    agree_vec(&name("ones"), DVector::<T>::ones(n), &vec![T::m_one(); n])?;
    agree_vec(&name("same"), DVector::same(n, s.clone()), &vec![s.clone(); n])?;
    let (da, db) = (dv(&a), dv(&b));
    agree_vec(&name("borrowed"), &da, &a)?;
    agree_vec(&name("owned"), da.clone(), &a)?;
    stored_vec(&name("evaluated twice"), &da.clone().eval().eval(), &a)?;
    let zip = |f: fn(&T, &T) -> T| a.iter().zip(&b).map(|(x, y)| f(x, y)).collect::<Vec<T>>();
    agree_vec(&name("a + b"), &da + &db, &zip(T::m_add))?;
    agree_vec(&name("a - b"), &da - &db, &zip(T::m_sub))?;
    agree_vec(&name("a - slice"), &da - b.as_slice(), &zip(T::m_sub))?;
    agree_vec(&name("slice - b"), a.as_slice().wrap() - &db, &zip(T::m_sub))?;
    agree_vec(&name("a . b"), da.mul_elemwise(&db), &zip(T::m_mul))?;
    agree_vec(&name("conj a"), da.conj(), &a.iter().map(|x| x.m_conj()).collect::<Vec<T>>())?;
    agree_vec(&name("a . b - (a + b)"), da.mul_elemwise(&db) - (&da + &db), &zip(|x, y| x.m_mul(y).m_sub(&x.m_add(y))))?;
    agree_vec(&name("zip"), (&da).wrap().zip(&db), &a.iter().cloned().zip(b.iter().cloned()).collect::<Vec<_>>())?;
    agree_vec(&name("map to another type"), (&da).wrap().map(|x| (x.m_neg(), 1u8)), &a.iter().map(|x| (x.m_neg(), 1u8)).collect::<Vec<_>>())?;
    stored_vec(&name("first operand"), &da, &a)?;
    stored_vec(&name("second operand"), &db, &b)?;
    ensure_eq!(da == db, a == b, "{}", name("equality"));
    Ok(())
}

/// Division is only exact for symbols and a field.
fn division(c: &(Vec<i64>, Vec<i64>), ctx: &mut Ctx) -> Res {
    let a: Vec<Zp> = dec_all(&c.0);
    let b: Vec<Zp> = (0..a.len()).map(|i| { let x = Zp::dec(c.1.get(i).copied().unwrap_or(i as i64 + 1)); if x == Zp(0) { Zp(1) } else { x } }).collect();
    ctx.nontrivial(a.len() > 1);
    let q: Vec<Zp> = a.iter().zip(&b).map(|(x, y)| *x * y.inv()).collect();
    let (da, db) = (dv(&a), dv(&b));
    agree_vec("a / b", da.div_elemwise(&db), &q)?;
    agree_vec("a / slice", da.div_elemwise(b.as_slice()), &q)?;
    agree_vec("wrapped a / owned b", (&da).wrap().div_elemwise(db.clone()), &q)?;
    agree_vec("(a / b) . b", da.div_elemwise(&db).mul_elemwise(&db), &a)
}

/// Arrays take part as operands.
macro_rules! arrays {
    ($c:ident $t:ty, $cases:literal: $($n:literal)*) => {$(
        $c.sub(&format!("array of {} of length {}", <$t as El>::NAME, $n), $cases, elems($n), |raw, ctx| {
            let a: Vec<$t> = dec_all(raw);
            let arr: [$t; $n] = a.clone().try_into().unwrap();
            ctx.nontrivial($n > 1);
            agree_vec("array", arr.wrap(), &a)?;
            stored_vec("evaluated array", &arr.eval(), &a)?;
            let d = dv(&a);
            agree_vec("vector - array", &d - arr.wrap(), &vec![<$t>::m_zero(); $n])?;
            agree_vec("array + vector", arr.wrap() + &d, &a.iter().map(|x| x.m_add(x)).collect::<Vec<_>>())
        });
    )*};
}

fn main() {
    let mut c = Check::start("C19");
    let step = || (0u8..VOPS, 0u8..KINDS, 0u8..8);
    let case = |max: usize, n: usize| ((0..=max, 0u8..KINDS), vec(step(), 0..n));
    c.sub("programs, short vectors", 15000, case(6, 8), check);
    c.sub("programs, long programs", 3000, case(4, 20), check);
    c.sub("programs, longer vectors", 3000, case(70, 6), check);
    let lens = || (0..=20usize).chain([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025]);
    let all: Vec<(usize, u8)> = lens().flat_map(|n| (0..VOPS).map(move |op| (n, op))).collect();
    c.sweep("every operation at every length", 3, all.into_iter().map(|(n, op)| ((Just(n), 0u8..KINDS), (0u8..KINDS, 0u8..8).prop_map(move |(a, b)| vec![(op, a, b), (op, b, a)]))), check);
    let nat = |max| (vecs(max), vecs(max), elem());
    c.sub("native Quat", 4000, nat(20), native::<Quat>);
    c.sub("native Complex<Zp>", 4000, nat(40), native::<Complex<Zp>>);
    c.sub("native i64", 2000, nat(20), native::<i64>);
    c.sub("native Nil", 300, nat(70), native::<Nil>);
    c.sub("native Wide<1>", 500, nat(40), native::<Wide<1>>);
    c.sub("native Wide<20>", 200, nat(30), native::<Wide<20>>);
    c.sub("native Wide<70>", 100, nat(30), native::<Wide<70>>);
    c.sub("native Wide<1100>", 10, nat(20), native::<Wide<1100>>);
    c.sweep("native, every length", 3, (0..=70usize).chain([100, 128, 200, 256, 257, 300, 512, 1000, 2000, 4097, 65535, 65536, 65537, 70000]).map(|n| (elems_fast(n), elems_fast(n), any::<i64>())), native::<Complex<Zp>>);
    c.sub("division", 3000, (vecs(30), vecs(30)), division);
    arrays!(c Nil, 20: 0 1 2 3 8 33 257);
    arrays!(c Wide<1>, 30: 0 1 2 3 8 33);
    arrays!(c Wide<20>, 20: 1 2 3 8);
    arrays!(c Wide<70>, 10: 1 2 3);
    arrays!(c Zp, 30: 64 65 129 257 1025);
    arrays!(c Quat, 100: 0 1 2 3 4 5 7 8 9 16 17 33);
    let expanded = |c: &(usize, Seed, Seed), ctx: &mut Ctx| native::<Complex<Zp>>(&(expand(c.1 .0, c.1 .1, c.0), expand(c.2 .0, c.2 .1, c.0), c.1 .0 as i64), ctx);
    c.sweep("native, very long", 1, HUGE.into_iter().map(|n| (Just(n), seed(), seed())), expanded);
    c.sub("native, long", 60, (large(17), seed(), seed()), expanded);
    let all: Vec<(usize, u8)> = [4097usize, 20_001, 65_537].into_iter().flat_map(|n| (0..VOPS).map(move |op| (n, op))).collect();
    c.sweep("every operation on long vectors", 1, all.into_iter().map(|(n, op)| ((Just(n), 0u8..KINDS), (0u8..KINDS, 0u8..8).prop_map(move |(a, b)| vec![(op, a, b)]))), check);
    c.finish("random programs of +, -, element-wise * and /, map, zip, conj, evaluations over owned, borrowed, slice, computed and wrapped operands of two symbolic entry types, every operation at many lengths, constructors; non-trivial: some step has an effect and the length is above 1");
}
