//! C40: a change of ring commutes with every operation: the structures treat
//! all entry types alike.
use pbt::prelude::*;
use pbt::prog::*;

/// Both runs of one program, over the ring and over its image.
fn natural<T: Elem, U: Elem>(what: &str, given: Vec<T>, map: impl Fn(&T) -> U, injective: bool, again: bool, prog: &Prog, conj: Option<(Conjugations<T>, Conjugations<U>)>, ctx: &mut Ctx) -> Res {
    let image: Vec<U> = given.iter().map(&map).collect();
    let zero = T::zero();
    ctx.nontrivial(!prog.is_empty() && given.iter().any(|x| *x != zero));
    ctx.class("several steps", prog.len() > 1);
    let a = run_prog(given, prog, again, again, conj.map(|c| c.0));
    let b = run_prog(image, prog, again, again, conj.map(|c| c.1));
    ensure_eq!(a.out.len(), b.out.len(), "{what}: number of results");
    for (i, (x, y)) in a.out.iter().zip(&b.out).enumerate() {
        let z = map(x);
        ensure!(z == *y, "{what}: result {i} is {x:?}, its image {z:?}, but the image ring gives {y:?}");
    }
    ctx.class("equal structures", a.eq.iter().any(|e| *e));
    ctx.class("different structures", a.eq.iter().any(|e| !*e));
    for (i, (x, y)) in a.eq.iter().zip(&b.eq).enumerate() {
        ensure!(!*x || *y, "{what}: comparison {i} holds, but not in the image ring");
        ensure!(!injective || x == y, "{what}: comparison {i} gave {x}, in the image ring {y}");
    }
    Ok(())
}

type Case = (Vec<i64>, Prog);
fn main() {
    let mut c = Check::start("C40");
    let prog = |n: usize| vec((any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>()), 1..n);
    let case = |n: usize| (vec(elem(), 1..40), prog(n));
    let few = || (vec(0i64..3, 1..20), prog(4));
    macro_rules! change {
        ($what:literal, $cases:literal, $t:ty, $u:ty, $injective:literal, $map:expr) => {{
            let f = |c: &Case, ctx: &mut Ctx| natural::<$t, $u>($what, dec_all(&c.0), $map, $injective, true, &c.1, Some((conjugations::<$t>, conjugations::<$u>)), ctx);
            c.sub($what, $cases, case(5), f);
            c.sub(&format!("{}, few values", $what), $cases / 2, few(), f);
        }};
    }
    change!("residues modulo 12 to 4", 2000, Zm<12>, Z4, false, |x| Zm(x.0 % 4));
    change!("residues modulo 12 to 3", 2000, Zm<12>, Zm<3>, false, |x| Zm(x.0 % 3));
    change!("residues modulo 6 to 2", 2000, Z6, Z2, false, |x| Zm(x.0 % 2));
    change!("residues modulo 6 to 1", 1000, Z6, Nil, false, |_| Nil);
    change!("scalars to quaternions", 2000, Zp, Quat, true, |x| Quat([*x, Zp(0), Zp(0), Zp(0)]));
    change!("scalars to complex numbers", 2000, Zp, Complex<Zp>, true, |x| Complex::new(*x, Zp(0)));
    change!("complex numbers to quaternions", 2000, Complex<Zp>, Quat, true, |x| Quat([x.re, x.im, Zp(0), Zp(0)]));
    change!("complex numbers to matrices", 2000, Complex<Zp>, M2, true, |x| M2([x.re, -x.im, x.im, x.re]));
    change!("conjugated complex numbers", 2000, Complex<Zp>, Complex<Zp>, true, |x| Complex::new(x.re, -x.im));
    change!("turned quaternions", 2000, Quat, Quat, true, |x| Quat([x.0[0], x.0[1], -x.0[2], -x.0[3]]));
    change!("exchanged units of quaternions", 2000, Quat, Quat, true, |x| Quat([x.0[0], x.0[2], x.0[3], x.0[1]]));
    change!("small to wide entries", 150, Quat, Wide<20>, true, |x| Wide::of(x.clone()));
    // rings without conjugation that are structures themselves
    let f = |c: &(Case, Vec<i64>, i64), ctx: &mut Ctx| {
        let x = Zp::dec(c.2);
        let mut words = c.1.iter().cycle();
        let given = c.0 .0.iter().map(|n| Polynomial::from_coefficients((0..(n & 3)).map(|_| Zp::dec(*words.next().unwrap())).collect())).collect();
        natural::<Polynomial<Zp>, Zp>("polynomials to values", given, |p| p.eval_ref(&x), false, false, &c.0 .1, None, ctx)
    };
    c.sub("polynomials to values", 2000, (case(3), vec(elem(), 1..60), elem()), f);
    c.sub("matrices to matrices", 2000, case(4), |c, ctx| {
        let given = c.0.iter().map(|n| { let m = M2::dec(*n).0; SMatrix::from([[m[0], m[1]], [m[2], m[3]]]) }).collect();
        let at = |m: &SMatrix<Zp, 2, 2>, j: usize| m * &SVector::from(if j == 0 { [Zp(1), Zp(0)] } else { [Zp(0), Zp(1)] });
        natural::<SMatrix<Zp, 2, 2>, M2>("matrices to matrices", given, |m| { let (u, v) = (at(m, 0), at(m, 1)); M2([u[0], v[0], u[1], v[1]]) }, true, true, &c.1, None, ctx)
    });
    c.sub("quaternions to complex matrices", 1000, case(4), |c, ctx| {
        let map = |q: &Quat| {
            let [a, b, c, d] = q.0;
            SMatrix::from([[Complex::new(a, b), Complex::new(c, d)], [Complex::new(-c, d), Complex::new(a, -b)]])
        };
        natural::<Quat, SMatrix<Complex<Zp>, 2, 2>>("quaternions to complex matrices", dec_all(&c.0), map, true, true, &c.1, None, ctx)
    });
    // wider numbers, small enough for the narrow ones
    macro_rules! wider {
        ($t:ident $u:ident $max:literal, $cases:literal, $n:literal) => {
            let what = concat!(stringify!($t), " to ", stringify!($u));
            c.sub(what, $cases, (vec(-$max..=$max, 1..20), prog($n)), |c: &Case, ctx: &mut Ctx| {
                let given = c.0.iter().map(|x| *x as $t).collect();
                natural::<$t, $u>(what, given, |x| *x as $u, true, false, &c.1, Some((conjugations::<$t>, conjugations::<$u>)), ctx)
            });
        };
    }
    wider!(i16 i64 2i64, 1500, 4);
    wider!(i32 i64 9i64, 1500, 4);
    wider!(i64 i128 30i64, 1500, 4);
    wider!(i32 f64 9i64, 1500, 4);
    wider!(i32 i128 9i64, 1000, 4);
    wider!(i16 f32 2i64, 1500, 4);
    wider!(f32 f64 3i64, 1500, 4);
    c.finish("programs of up to four groups of operations on complex numbers, polynomials, static and dynamic vectors and matrices and structures of structures, run over a ring and over its image under a ring homomorphism (residues, embeddings, automorphisms, evaluation, wider numbers): results map to results and equal structures to equal structures; non-trivial: some given element is not zero");
}
