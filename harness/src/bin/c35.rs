//! C35: the number of element operations stays proportional to the definition.
use pbt::prelude::*;
use std::cell::Cell;
use std::ops::*;

#[derive(Clone, Copy, Default, Debug, PartialEq)]
struct Work {
    add: usize,
    mul: usize,
    clone: usize,
    eq: usize,
}
thread_local! {
    static WORK: Cell<Work> = const { Cell::new(Work { add: 0, mul: 0, clone: 0, eq: 0 }) };
}
fn note(f: impl FnOnce(&mut Work)) {
    WORK.with(|w| {
        let mut x = w.get();
        f(&mut x);
        w.set(x);
    });
}
fn count<R>(f: impl FnOnce() -> R) -> (R, Work) {
    WORK.with(|w| w.set(Work::default()));
    let r = f();
    let w = WORK.with(|w| w.get());
    (r, w)
}

/// A number that counts what is done with it.
#[derive(Debug)]
struct Cnt(Zp);
impl Clone for Cnt {
    fn clone(&self) -> Cnt { note(|w| w.clone += 1); Cnt(self.0) }
}
impl PartialEq for Cnt {
    fn eq(&self, o: &Cnt) -> bool { note(|w| w.eq += 1); self.0 == o.0 }
}
macro_rules! ops_c {
    ($($tr:ident $f:ident $tra:ident $fa:ident $op:tt $w:ident),*) => {$(
        impl $tr<Cnt> for Cnt { type Output = Cnt; fn $f(self, o: Cnt) -> Cnt { note(|w| w.$w += 1); Cnt(self.0 $op o.0) } }
        impl<'a> $tr<&'a Cnt> for Cnt { type Output = Cnt; fn $f(self, o: &'a Cnt) -> Cnt { note(|w| w.$w += 1); Cnt(self.0 $op o.0) } }
        impl<'a> $tr<Cnt> for &'a Cnt { type Output = Cnt; fn $f(self, o: Cnt) -> Cnt { note(|w| w.$w += 1); Cnt(self.0 $op o.0) } }
        impl<'a, 'b> $tr<&'b Cnt> for &'a Cnt { type Output = Cnt; fn $f(self, o: &'b Cnt) -> Cnt { note(|w| w.$w += 1); Cnt(self.0 $op o.0) } }
        impl $tra<Cnt> for Cnt { fn $fa(&mut self, o: Cnt) { note(|w| w.$w += 1); self.0 = self.0 $op o.0; } }
        impl<'a> $tra<&'a Cnt> for Cnt { fn $fa(&mut self, o: &'a Cnt) { note(|w| w.$w += 1); self.0 = self.0 $op o.0; } }
    )*};
}
ops_c!(Add add AddAssign add_assign + add, Sub sub SubAssign sub_assign - add, Mul mul MulAssign mul_assign * mul, Div div DivAssign div_assign / mul);
impl Neg for Cnt {
    type Output = Cnt;
    fn neg(self) -> Cnt { note(|w| w.add += 1); Cnt(-self.0) }
}
impl From<i8> for Cnt {
    fn from(x: i8) -> Cnt { Cnt(Zp::new(x as i64)) }
}
impl Conj for Cnt {
    fn conj(self) -> Cnt { self }
}
impl Ring for Cnt {}
impl Field for Cnt {}

/// Numbers other than zero, so that nothing can be skipped or shortened.
fn nums(seed: u64, n: usize) -> Vec<Cnt> {
    let mut s = seed;
    (0..n).map(|_| Cnt(Zp(1 + (splitmix(&mut s) % (P - 1)) as u32))).collect()
}
fn mat(seed: u64, r: usize, c: usize) -> DMatrix<Cnt> {
    let v = nums(seed, r * c);
    make_matrix_expr(r, c, |i, j| Cnt(v[i * c + j].0)).eval()
}
fn vect(seed: u64, n: usize) -> DVector<Cnt> {
    let v = nums(seed, n);
    make_vector_expr(n, |i| Cnt(v[i].0)).eval()
}

/// At most `add` additions, `mul` multiplications, `copy` copies and `eq`
/// comparisons (with a generous allowance for other ways to do the same).
fn at_most(what: &str, w: Work, add: usize, mul: usize, copy: usize, eq: usize) -> Res {
    for (name, got, natural) in [("additions", w.add, add), ("multiplications", w.mul, mul), ("copies of elements", w.clone, copy), ("comparisons", w.eq, eq)] {
        ensure!(got <= 4 * natural + 16, "{what}: {got} {name}, where {natural} suffice");
    }
    Ok(())
}

fn polynomials(c: &(usize, usize, u64), ctx: &mut Ctx) -> Res {
    let (n, m, s) = *c;
    ctx.nontrivial(n > 8 && m > 8);
    ctx.class("more than 100 coefficients", n > 100 || m > 100);
    let p = |k: usize, s: u64| Polynomial::from_coefficients(nums(s, k));
    let x = Cnt(Zp(7));
    let (_, w) = count(|| p(n, s));
    at_most(&format!("making a polynomial of {n} coefficients"), w, 0, 0, n, n)?;
    let (a, b) = (p(n, s), p(m, s ^ 1));
    let (_, w) = count(|| a.eval_ref(&x));
    at_most(&format!("eval_ref with {n} coefficients"), w, n, n, n, n)?;
    let (_, w) = count(|| a.eval(Cnt(Zp(5))));
    at_most(&format!("eval with {n} coefficients"), w, n, n, n, n)?;
    let (_, w) = count(|| a == b);
    at_most(&format!("equality, {n} and {m} coefficients"), w, 0, 0, n + m, n + m)?;
    let same = p(n, s);
    let (_, w) = count(|| a == same);
    at_most(&format!("equality of equals, {n} coefficients"), w, 0, 0, 2 * n, 2 * n)?;
    let (_, w) = count(|| &a * &b);
    at_most(&format!("product by reference, {n} and {m} coefficients"), w, n * m + n + m, n * m, n * m + n + m, n + m)?;
    let both = n + m;
    macro_rules! linear { ($($name:literal |$x:ident, $y:ident| $e:expr);*) => {$({
        let (mut $x, $y) = (p(n, s), p(m, s ^ 1));
        let _ = &$y;
        let (_, w) = count(|| { let r = $e; let _ = &mut $x; r });
        at_most(&format!("{}, {n} and {m} coefficients", $name), w, both, both, both, both)?;
    })*};}
    linear! {
        "p + q" |a, b| { a.clone() + b.clone() };
        "p - q" |a, b| { a.clone() - b.clone() };
        "p += q" |a, b| { a += b.clone() };
        "p += &q" |a, b| { a += &b };
        "p -= q" |a, b| { a -= b.clone() };
        "p -= &q" |a, b| { a -= &b };
        "-p" |a, b| { -(a.clone()) }
    }
    let (mut x, y) = (p(n, s), p(m, s));
    let (_, w) = count(|| x *= y);
    at_most(&format!("p *= q, {n} and {m} coefficients"), w, n * m + n + m, n * m, n * m + n + m, n + m)?;
    let (x, y) = (p(n, s), p(m, s));
    let (_, w) = count(|| x * y);
    at_most(&format!("p * q, {n} and {m} coefficients"), w, n * m + n + m, n * m, n * m + n + m, n + m)
}

fn dynamic(c: &(usize, usize, usize, u64), ctx: &mut Ctx) -> Res {
    let (l, m, n, s) = *c;
    ctx.nontrivial(l * m > 8 && m * n > 8);
    ctx.class("more than 1000 entries", l * m > 1000);
    let (a, b, d) = (mat(s, l, m), mat(s ^ 1, m, n), mat(s ^ 2, l, m));
    let k = l * m;
    let at = format!("{l}x{m}");
    if m > 0 {
        let (e, w) = count(|| (&a * &b).eval());
        at_most(&format!("product {at} times {m}x{n}"), w, l * m * n, l * m * n, 2 * l * m * n, 0)?;
        ensure_eq!((e.num_rows(), e.num_cols()), (l, n), "shape");
        if l * n > 0 {
            let e = &a * &b;
            let (_, w) = count(|| e.entry(s as usize % l, s as usize / 7 % n));
            at_most(&format!("one entry of the product {at} times {m}x{n}"), w, m, m, 2 * m, 0)?;
        }
    }
    let (_, w) = count(|| (&a + &d).eval());
    at_most(&format!("{at} sum"), w, k, 0, 2 * k, 0)?;
    let (_, w) = count(|| (&a - &d - &a + &d).eval());
    at_most(&format!("{at} sum of four"), w, 3 * k, 0, 4 * k, 0)?;
    let (_, w) = count(|| a.mul_elemwise(&d).div_elemwise(&a).eval());
    at_most(&format!("{at} elementwise product and quotient"), w, 0, 2 * k, 3 * k, 0)?;
    let (_, w) = count(|| a.t().h().t().eval());
    at_most(&format!("{at} three transposes"), w, 0, 0, k, 0)?;
    let (_, w) = count(|| a.diag().eval());
    at_most(&format!("{at} diagonal"), w, 0, 0, l.min(m), 0)?;
    let (_, w) = count(|| (&a + &d).diag().eval());
    at_most(&format!("{at} diagonal of a sum"), w, l.min(m), 0, 2 * l.min(m), 0)?;
    let (_, w) = count(|| (&a).eval());
    at_most(&format!("{at} evaluation of a reference"), w, 0, 0, k, 0)?;
    let (_, w) = count(|| a.clone().wrap().map(|x| x).eval());
    at_most(&format!("{at} map"), w, 0, 0, 2 * k, 0)?;
    let mut x = a.clone();
    let (_, w) = count(|| x += &d);
    at_most(&format!("{at} +="), w, k, 0, 2 * k, 0)?;
    let (_, w) = count(|| x -= d.t().t());
    at_most(&format!("{at} -="), w, k, 0, 2 * k, 0)?;
    let (_, w) = count(|| a == d);
    at_most(&format!("{at} equality"), w, 0, 0, 0, k)?;
    let y = a.clone();
    let (_, w) = count(|| a == y);
    at_most(&format!("{at} equality of equals"), w, 0, 0, 0, k)?;
    let (_, w) = count(|| (DMatrix::<Cnt>::zeros(l, m).eval(), DMatrix::<Cnt>::eye(l).eval(), DMatrix::<Cnt>::same(l, m, Cnt(Zp(3))).eval()));
    at_most(&format!("{at} zeros, {l}x{l} identity, {at} constant"), w, 0, 0, 2 * k + l * l, 0)?;
    let zeros = DMatrix::<Cnt>::zeros(l, m).eval();
    let (_, w) = count(|| for i in 0..l { for j in 0..m { let _ = &zeros[[i, j]]; } });
    at_most(&format!("{at} reading every entry"), w, 0, 0, 0, 0)?;
    if k > 0 {
        let e = &a + &d - &a;
        let (_, w) = count(|| e.entry(l - 1, m / 2));
        at_most(&format!("{at} one entry of a sum of three"), w, 2, 0, 3, 0)?;
        let (_, w) = count(|| a.entry(0, m - 1));
        at_most(&format!("{at} one entry"), w, 0, 0, 1, 0)?;
    }
    Ok(())
}

fn vectors(c: &(usize, u64), ctx: &mut Ctx) -> Res {
    let (n, s) = *c;
    ctx.nontrivial(n > 8);
    ctx.class("more than 100 components", n > 100);
    let (u, v) = (vect(s, n), vect(s ^ 1, n));
    let (_, w) = count(|| &u * &v);
    at_most(&format!("&u * &v, length {n}"), w, n, n, 2 * n, 0)?;
    let (x, y) = (u.clone(), v.clone());
    let (_, w) = count(|| x * y);
    at_most(&format!("u * v, length {n}"), w, n, n, 2 * n, 0)?;
    let (_, w) = count(|| (&u + &v - &u).eval());
    at_most(&format!("sum of three, length {n}"), w, 2 * n, 0, 3 * n, 0)?;
    let (_, w) = count(|| u.mul_elemwise(&v).div_elemwise(&u).conj().eval());
    at_most(&format!("elementwise product and quotient, length {n}"), w, 0, 2 * n, 3 * n, 0)?;
    let (_, w) = count(|| (&u).eval());
    at_most(&format!("evaluation of a reference, length {n}"), w, 0, 0, n, 0)?;
    let mut x = u.clone();
    let (_, w) = count(|| x += &v);
    at_most(&format!("+=, length {n}"), w, n, 0, 2 * n, 0)?;
    let (_, w) = count(|| x -= v.conj());
    at_most(&format!("-=, length {n}"), w, n, 0, 2 * n, 0)?;
    let (_, w) = count(|| u == v);
    at_most(&format!("equality, length {n}"), w, 0, 0, 0, n)?;
    if n <= 60 {
        let (_, w) = count(|| u.diag().eval());
        at_most(&format!("diagonal matrix, length {n}"), w, 0, 0, n * n, 0)?;
        let (_, w) = count(|| u.diag().diag().eval());
        at_most(&format!("diagonal of the diagonal matrix, length {n}"), w, 0, 0, n, 0)?;
    }
    if n > 0 {
        let e = &u + &v;
        let (_, w) = count(|| e.entry(n - 1));
        at_most(&format!("one component of a sum, length {n}"), w, 1, 0, 2, 0)?;
    }
    Ok(())
}

fn arr<const R: usize, const C: usize>(s: u64) -> SMatrix<Cnt, R, C> {
    let mut v = nums(s, R * C).into_iter();
    SMatrix::from([(); R].map(|_| [(); C].map(|_| v.next().unwrap())))
}
fn fixed<const L: usize, const M: usize, const N: usize>(c: &u64, ctx: &mut Ctx) -> Res {
    ctx.nontrivial(L * M > 8);
    let s = *c;
    let at = format!("static {L}x{M}x{N}");
    let (a, b) = (arr::<L, M>(s), arr::<M, N>(s ^ 1));
    let (_, w) = count(|| &a * &b);
    at_most(&format!("{at} product by reference"), w, L * M * N, L * M * N, L * M * N, 0)?;
    let (_, w) = count(|| a * b);
    at_most(&format!("{at} product"), w, L * M * N, L * M * N, L * M * N, 0)?;
    let k = L * M;
    let (a, b) = (arr::<L, M>(s), arr::<L, M>(s ^ 1));
    let (mut x, w) = count(|| a + &b);
    at_most(&format!("{at} sum"), w, k, 0, k, 0)?;
    let (_, w) = count(|| x -= b);
    at_most(&format!("{at} -="), w, k, 0, k, 0)?;
    let (x, w) = count(|| -x);
    at_most(&format!("{at} negation"), w, k, 0, k, 0)?;
    let (x, w) = count(|| x.conj());
    at_most(&format!("{at} conjugation"), w, 0, 0, k, 0)?;
    let v = SVector::<Cnt, M>::from(<[Cnt; M]>::try_from(nums(s, M)).unwrap());
    let (_, w) = count(|| &x * &v);
    at_most(&format!("{at} matrix times vector"), w, k, k, k, 0)?;
    let (_, w) = count(|| x == x);
    at_most(&format!("{at} equality"), w, 0, 0, 0, k)?;
    let u = SVector::<Cnt, M>::from(<[Cnt; M]>::try_from(nums(s, M)).unwrap());
    let (_, w) = count(|| u.clone() * &v);
    at_most(&format!("{at} dot product"), w, M, M, 2 * M, 0)?;
    let (_, w) = count(|| (u.clone() + &v) * Cnt(Zp(3)));
    at_most(&format!("{at} sum and scaling"), w, M, M, 3 * M, 0)
}

fn complex(c: &u64, ctx: &mut Ctx) -> Res {
    ctx.nontrivial(true);
    let z = |s: u64| { let mut v = nums(s, 2).into_iter(); Complex { re: v.next().unwrap(), im: v.next().unwrap() } };
    let (a, b) = (z(*c), z(c ^ 1));
    let (_, w) = count(|| &a * &b);
    at_most("complex product", w, 2, 4, 4, 0)?;
    let (_, w) = count(|| a * b);
    at_most("complex product by value", w, 2, 4, 4, 0)?;
    // powers by repeated products of nested values stay linear
    let n = 64;
    let (_, w) = count(|| { let mut p = z(*c); let q = z(*c ^ 3); for _ in 0..n { p = &p * &q; } p });
    at_most("64 complex products", w, 2 * n, 4 * n, 4 * n, 0)
}

fn main() {
    let mut c = Check::start("C35");
    c.sub("polynomials", 1500, (0..40usize, 0..40usize, any::<u64>()), polynomials);
    c.sweep("polynomials, larger", 2, [(0usize, 300usize), (300, 0), (300, 300), (1000, 3), (3, 1000), (400, 400), (5000, 1), (1, 5000), (1100, 1100), (2050, 2049), (70_003, 2), (2, 70_003)].into_iter().map(|(n, m)| (Just(n), Just(m), any::<u64>())), polynomials);
    c.sub("dynamic matrices", 1500, (0..14usize, 0..14usize, 0..14usize, any::<u64>()), dynamic);
    c.sweep("dynamic matrices, larger", 2, [(60usize, 60usize, 60usize), (1, 500, 1), (500, 1, 2), (1, 1, 300), (100, 30, 20), (33, 65, 17), (200, 200, 1), (129, 129, 129), (1, 70_003, 1), (300, 300, 2), (1, 2, 70_003)].into_iter().map(|(l, m, n)| (Just(l), Just(m), Just(n), any::<u64>())), dynamic);
    c.sub("dynamic matrices, shapes of all proportions", 40, (rect(3000), medium(), any::<u64>()).prop_map(|((m, k), l, s)| (m, k, l.min(60_000 / (m * k)).max(1), s)), dynamic);
    c.sub("vectors", 1500, (0..70usize, any::<u64>()), vectors);
    c.sweep("vectors, larger", 2, [127usize, 128, 129, 1000, 4096, 20000, 65_537, 300_001, 1_048_577].into_iter().map(|n| (Just(n), any::<u64>())), vectors);
    macro_rules! shapes { ($($l:literal $m:literal $n:literal),*) => {$(
        c.sub(&format!("static {}x{}x{}", $l, $m, $n), 60, any::<u64>(), fixed::<$l, $m, $n>);
    )*};}
    shapes!(1 1 1, 2 2 2, 3 4 5, 8 8 8, 1 20 1, 20 1 20, 12 12 12, 16 16 16, 33 33 33, 65 65 65, 1 257 1);
    c.sub("complex", 200, any::<u64>(), complex);
    c.finish("operations on elements that count additions, multiplications, copies and comparisons, for sizes from zero to a few hundred (thousands for vectors); the counts stay within four times the number the definition needs plus 16; non-trivial: operands of more than eight elements");
}
