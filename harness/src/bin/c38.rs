//! C38: memory stays proportional to operands and results, nothing is kept.
use pbt::prelude::*;
use magnesia::functions::*;
use magnesia::optimize::differential_evolution;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

/// Counts the bytes this thread holds and the most it ever held.
struct Meter;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
fn moved(d: isize) {
    let _ = LIVE.try_with(|l| {
        let n = l.get() + d;
        l.set(n);
        let _ = PEAK.try_with(|p| p.set(p.get().max(n)));
    });
}
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        moved(l.size() as isize);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        moved(-(l.size() as isize));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        moved(n as isize);
        moved(-(l.size() as isize));
        unsafe { System.realloc(p, l, n) }
    }
}
#[global_allocator]
static METER: Meter = Meter;

/// Result, highest number of additional bytes, bytes still held with the
/// result alive.
fn meter<R>(f: impl FnOnce() -> R) -> (R, usize, isize) {
    let before = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(before));
    let r = f();
    (r, (PEAK.with(|p| p.get()) - before) as usize, LIVE.with(|l| l.get()) - before)
}

/// Some constant is always allowed.
const FREE: usize = 2048;

/// `bytes`: size of operands and result together. A straightforward
/// implementation needs at most one copy of each.
fn at_most<R>(what: &str, bytes: usize, f: impl FnOnce() -> R) -> Result<R, String> {
    let before = LIVE.with(|l| l.get());
    let (r, peak, _) = meter(f);
    ensure!(peak <= 6 * bytes + FREE, "{what}: {peak} bytes at the same time, where operands and result have {bytes}");
    let _ = before;
    Ok(r)
}
/// `held` bytes are in use once the value exists (up to spare capacity).
fn made<R>(what: &str, bytes: usize, held: usize, f: impl FnOnce() -> R) -> Result<R, String> {
    let before = LIVE.with(|l| l.get());
    let r = at_most(what, bytes, f)?;
    let now = LIVE.with(|l| l.get()) - before;
    ensure!(now <= (3 * held + FREE) as isize, "{what}: {now} bytes remain in use for a value of {held} bytes");
    Ok(r)
}
fn built<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    let (r, peak, _) = meter(f);
    ensure!(peak <= FREE, "{what}: building the expression takes {peak} bytes");
    Ok(r)
}
fn read<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    let (r, peak, _) = meter(f);
    ensure!(peak <= FREE, "{what}: reading one entry takes {peak} bytes");
    Ok(r)
}

fn val(s: u64, i: usize) -> f64 {
    let mut t = s ^ (i as u64).wrapping_mul(0x9e37);
    (splitmix(&mut t) % 2001) as f64 - 1000.0
}
fn mat(s: u64, r: usize, c: usize) -> DMatrix<f64> {
    make_matrix_expr(r, c, |i, j| val(s, i * c + j)).eval()
}
fn vect(s: u64, n: usize) -> DVector<f64> {
    make_vector_expr(n, |i| val(s, i)).eval()
}
const W: usize = std::mem::size_of::<f64>();

fn matrices(c: &(usize, usize, u64), ctx: &mut Ctx) -> Res {
    let (r, k, s) = *c;
    ctx.nontrivial(r * k * W > 4 * FREE);
    ctx.class("more than a megabyte", r * k * W > 1 << 20);
    let at = format!("{r}x{k}");
    let b = r * k * W;
    let a = made(&format!("{at} matrix from a function"), b, b, || mat(s, r, k))?;
    let d = mat(s ^ 1, r, k);
    let (i, j) = (s as usize % r.max(1), s as usize / 7 % k.max(1));
    let some = r * k > 0;
    macro_rules! lazy { ($($name:literal $e:expr;)*) => {$({
        let what = format!("{at} {}", $name);
        let e = built(&what, || $e)?;
        let (er, ec) = (e.num_rows(), e.num_cols());
        if er * ec > 0 {
            read(&what, || e.entry(s as usize % er, s as usize / 7 % ec))?;
        }
        let held = er * ec * W;
        let m = made(&format!("{what}, evaluated"), 2 * b + held, held, || e.eval())?;
        ensure_eq!((m.num_rows(), m.num_cols()), (er, ec), "shape");
    })*};}
    lazy! {
        "reference" (&a).wrap();
        "sum" &a + &d;
        "difference" &a - &d;
        "sum of three" &a + &d - &a;
        "elementwise product" a.mul_elemwise(&d);
        "elementwise quotient" a.div_elemwise(&d);
        "transpose" a.t();
        "hermitian transpose" a.h();
        "map" (&a).wrap().map(|x| x + 1.0);
        "zip" (&a).wrap().zip(&d).map(|(x, y)| x - y);
        "constant" DMatrix::<f64>::same(r, k, 3.0);
        "zeros" DMatrix::<f64>::zeros(r, k);
        "ones" DMatrix::<f64>::ones(r, k);
    }
    // diagonals of lazy matrices are vectors
    let e = built("diagonal", || a.diag())?;
    let m = made("diagonal, evaluated", b + r.min(k) * W, r.min(k) * W, || e.eval())?;
    ensure_eq!(m.len(), r.min(k), "length");
    if some {
        read("stored matrix", || a.entry(i, j))?;
        read("index", || a[[i, j]])?;
    }
    let mut x = made("clone", 2 * b, b, || a.clone())?;
    macro_rules! place { ($($name:literal $e:expr;)*) => {$({
        let before = LIVE.with(|l| l.get());
        at_most(&format!("{at} {}", $name), 2 * b, || $e)?;
        let grown = LIVE.with(|l| l.get()) - before;
        ensure!(grown <= FREE as isize, "{at} {}: {grown} bytes remain in use", $name);
    })*};}
    place! {
        "+=" x += &d;
        "-=" x -= &d;
        "+= lazy" x += &a + &d;
        "-= transposes" x -= d.t().t();
        "write" if some { x[[i, j]] = 1.0 };
        "equality" x == a;
    }
    Ok(())
}

/// (rows, inner, columns)
fn products(c: &(usize, usize, usize, u64), ctx: &mut Ctx) -> Res {
    let (l, m, n, s) = *c;
    let (a, b) = (mat(s, l, m), mat(s ^ 1, m, n));
    let all = (l * m + m * n + l * n) * W;
    ctx.nontrivial(all > 4 * FREE);
    let what = format!("product {l}x{m} times {m}x{n}");
    let e = built(&what, || &a * &b)?;
    if l * n > 0 && m > 0 {
        let (_, peak, _) = meter(|| e.entry(s as usize % l, s as usize / 7 % n));
        ensure!(peak <= 6 * m * W + FREE, "{what}: {peak} bytes for one entry");
    }
    if m > 0 {
        made(&what, all, l * n * W, || e.eval())?;
        // products repeated leave nothing behind
        let before = LIVE.with(|l| l.get());
        for _ in 0..20 {
            let _ = (&a * &b).eval();
        }
        let kept = LIVE.with(|l| l.get()) - before;
        ensure!(kept <= FREE as isize, "{what}: {kept} bytes kept after 20 repetitions");
    }
    Ok(())
}

fn vectors(c: &(usize, u64), ctx: &mut Ctx) -> Res {
    let (n, s) = *c;
    ctx.nontrivial(n * W > 4 * FREE);
    ctx.class("more than a megabyte", n * W > 1 << 20);
    let b = n * W;
    let u = made("vector from a function", b, b, || vect(s, n))?;
    let v = vect(s ^ 1, n);
    macro_rules! lazy { ($($name:literal $e:expr;)*) => {$({
        let what = format!("{} of length {n}", $name);
        let e = built(&what, || $e)?;
        if n > 0 { read(&what, || e.entry(s as usize % n))?; }
        let r = made(&format!("{what}, evaluated"), 3 * b, b, || e.eval())?;
        ensure_eq!(r.len(), n, "length");
    })*};}
    lazy! {
        "reference" (&u).wrap();
        "sum" &u + &v;
        "difference" &u - &v;
        "sum of three" &u + &v - &u;
        "elementwise product" u.mul_elemwise(&v);
        "elementwise quotient" u.div_elemwise(&v);
        "conjugate" u.conj();
        "map" (&u).wrap().map(|x| x + 1.0);
        "zip" (&u).wrap().zip(&v).map(|(x, y)| x - y);
        "constant" DVector::<f64>::same(n, 3.0);
        "zeros" DVector::<f64>::zeros(n);
        "ones" DVector::<f64>::ones(n);
    }
    // the n x n diagonal matrix is never stored unless asked for
    let e = built("diagonal matrix", || u.diag())?;
    if n > 0 {
        read("diagonal matrix", || e.entry(n - 1, n / 2))?;
    }
    let e = built("diagonal of the diagonal matrix", || e.diag())?;
    made("diagonal of the diagonal matrix", 3 * b, b, || e.eval())?;
    at_most("inner product", 2 * b, || &u * &v)?;
    let mut x = made("clone", 2 * b, b, || u.clone())?;
    let before = LIVE.with(|l| l.get());
    at_most("+=", 2 * b, || x += &v)?;
    at_most("-= lazy", 2 * b, || x -= &u + &v)?;
    at_most("equality", 2 * b, || x == u)?;
    let kept = LIVE.with(|l| l.get()) - before;
    ensure!(kept <= FREE as isize, "{kept} bytes kept by updates of a vector of length {n}");
    Ok(())
}

fn polynomials(c: &(usize, usize, u64), ctx: &mut Ctx) -> Res {
    let (n, m, s) = *c;
    ctx.nontrivial((n + m) * W > 4 * FREE);
    let p = |s: u64, n: usize| Polynomial::from_coefficients((0..n).map(|i| 1.0 + val(s, i).abs()).collect::<Vec<f64>>());
    let (a, b) = (p(s, n), p(s ^ 1, m));
    let all = 2 * (n + m) * W;
    let at = format!("{n} and {m} coefficients");
    let (at, at2) = (at.as_str(), at.as_str());
    let _ = at2;
    let small = n * m <= 4_000_000;
    at_most(&format!("eval_ref, {at}"), all, || a.eval_ref(&0.5))?;
    at_most(&format!("eval, {at}"), all, || a.eval(0.5))?;
    at_most(&format!("equality, {at}"), all, || a == b)?;
    if small {
        made(&format!("product, {at}"), all, (n + m) * W, || &a * &b)?;
    }
    macro_rules! ops { ($($name:literal |$x:ident, $y:ident| $e:expr;)*) => {$({
        let (mut $x, $y) = (a.clone(), b.clone());
        let _ = (&mut $x, &$y);
        made(&format!("{}, {at}", $name), all, (n + m) * W, move || $e)?;
    })*};}
    ops! {
        "p + q" |x, y| x + y;
        "p - q" |x, y| x - y;
        "-p" |x, y| { drop(y); -x };
        "p += &q" |x, y| { x += &y; x };
        "p -= &q" |x, y| { x -= &y; x };
        "p -= q" |x, y| { x -= y; x };
        "p * q" |x, y| if small { x * y } else { x };
        "p *= q" |x, y| { if small { x *= y; } x };
    }
    // a sum updated again and again does not grow
    let mut x = a.clone();
    let before = LIVE.with(|l| l.get());
    for _ in 0..10 {
        x += &b;
        x -= &b;
    }
    let kept = LIVE.with(|l| l.get()) - before;
    ensure!(kept <= (3 * (n + m) * W + FREE) as isize, "{kept} bytes kept after repeated updates, {at}");
    Ok(())
}

fn small_things(c: &u64, ctx: &mut Ctx) -> Res {
    ctx.nontrivial(true);
    let s = *c;
    let x = |i: usize| val(s, i) / 100.0;
    let z = Complex::new(x(0), x(1));
    let w = Complex::new(x(2), x(3));
    let before = LIVE.with(|l| l.get());
    let (_, peak, _) = meter(|| {
        let mut t = z * w + z - w;
        for _ in 0..50 {
            t = (Sin::sin(Exp::exp(t)) + Ln::ln(Sqrt::sqrt(&z)) * Tan::tan(w)) / z;
            t = Complex::new(Abs::abs(&t), t.arg()) + Cosh::cosh(w) * Sinh::sinh(z) + Cos::cos(z);
        }
        t
    });
    ensure!(peak <= FREE, "complex functions take {peak} bytes");
    let (_, peak, _) = meter(|| (0..200).map(|i| { let x = x(i); Sin::sin(x) + Atan2::atan2(x, 2.0) + Ln::ln(Abs::abs(x)) }).sum::<f64>());
    ensure!(peak <= FREE, "real functions take {peak} bytes");
    let a = SMatrix::<f64, 12, 12>::from(std::array::from_fn(|i| std::array::from_fn(|j| x(12 * i + j))));
    let v = SVector::<f64, 12>::from(std::array::from_fn(|i| x(i)));
    let size = 144 * W;
    let (_, peak, _) = meter(|| {
        let mut t = &a * &a;
        for _ in 0..20 {
            t = -(&t * &a + &a - &t);
            t *= &a;
            let u = &t * &v;
            let _ = u * &v;
        }
        t
    });
    ensure!(peak <= 12 * size + FREE, "static matrices take {peak} bytes");
    let kept = LIVE.with(|l| l.get()) - before;
    ensure!(kept <= FREE as isize, "{kept} bytes kept by functions and static matrices");
    Ok(())
}

/// (population, iterations, seed): the iterations do not add to the memory.
fn optimiser(c: &(usize, usize, u64), ctx: &mut Ctx) -> Res {
    let (n, iters, seed) = *c;
    ctx.nontrivial(iters > 20 * n);
    let mut rng = Seeded(seed);
    let before = LIVE.with(|l| l.get());
    let mut calls = 0usize;
    let (_, peak, _) = meter(|| {
        differential_evolution(&[(-3.0, 5.0); 3], n, 0.9, 0.7, iters, &mut rng, |a: &[f64; 3], b: &[f64; 3]| {
            calls += 1;
            a.iter().map(|x| x * x).sum::<f64>() < b.iter().map(|x| x * x).sum::<f64>()
        })
    });
    let size = n * 3 * W;
    ensure!(peak <= 6 * size + FREE, "population {n} of {size} bytes, {iters} iterations: {peak} bytes");
    let kept = LIVE.with(|l| l.get()) - before;
    ensure!(kept <= FREE as isize, "{kept} bytes kept by the optimiser");
    Ok(())
}

/// Splitmix as a generator.
struct Seeded(u64);
impl rand_core::RngCore for Seeded {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { splitmix(&mut self.0) }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest { *b = self.next_u64() as u8; }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(dest); Ok(()) }
}

/// The same on a thread with a stack of 128 KiB: work on long operands may
/// not recurse once per entry. (Overflow ends the process: a violation too.)
fn little_stack<C: Clone + Send + 'static>(f: fn(&C, &mut Ctx) -> Res) -> impl Fn(&C, &mut Ctx) -> Res {
    move |c, ctx| {
        ctx.nontrivial(true);
        let c = c.clone();
        let t = std::thread::Builder::new().stack_size(128 << 10).spawn(move || catch(|| f(&c, &mut Ctx::default())).and_then(|r| r));
        t.expect("thread").join().map_err(|_| "thread".to_string())?
    }
}

fn main() {
    let mut c = Check::start("C38");
    c.sub("matrices", 1500, (0..40usize, 0..40usize, any::<u64>()), matrices);
    c.sub("matrices, larger", 60, (100..300usize, 100..300usize, any::<u64>()), matrices);
    c.sub("products", 1000, (0..24usize, 0..24usize, 0..24usize, any::<u64>()), products);
    c.sweep("products, larger", 2, [(100usize, 100usize, 100usize), (1, 20000, 1), (400, 1, 400), (1, 30, 3000), (3000, 30, 1)].into_iter().map(|(l, m, n)| (Just(l), Just(m), Just(n), any::<u64>())), products);
    c.sub("vectors", 1500, (0..3000usize, any::<u64>()), vectors);
    c.sub("polynomials", 1500, (0..120usize, 0..120usize, any::<u64>()), polynomials);
    c.sweep("polynomials, larger", 2, [(1000usize, 1000usize), (1500, 3), (3, 1500), (0, 20000), (20000, 0), (100_000, 7), (7, 100_000)].into_iter().map(|(n, m)| (Just(n), Just(m), any::<u64>())), polynomials);
    c.sub("numbers and static matrices", 300, any::<u64>(), small_things);
    c.sub("optimiser", 300, (4..200usize, 0..4000usize, any::<u64>()), optimiser);
    c.sweep("optimiser, many iterations", 2, [(4usize, 100_000usize), (50, 100_000), (5000, 20_000)].into_iter().map(|(n, i)| (Just(n), Just(i), any::<u64>())), optimiser);
    c.sweep("long vectors, little stack", 2, [30_000usize, 200_000].into_iter().map(|n| (Just(n), any::<u64>())), little_stack(vectors));
    c.sweep("large matrices, little stack", 2, [(300usize, 300usize), (1, 100_000), (100_000, 1)].into_iter().map(|(r, k)| (Just(r), Just(k), any::<u64>())), little_stack(matrices));
    c.sweep("long products, little stack", 2, [(1usize, 60_000usize, 1usize), (2, 20_000, 2), (150, 1, 150)].into_iter().map(|(l, m, n)| (Just(l), Just(m), Just(n), any::<u64>())), little_stack(products));
    c.sweep("long polynomials, little stack", 2, [(100_000usize, 10usize), (10, 100_000), (1500, 1500), (300_000, 1)].into_iter().map(|(n, m)| (Just(n), Just(m), any::<u64>())), little_stack(polynomials));
    c.sweep("long searches, little stack", 2, [(20usize, 50_000usize), (20_000, 20_000)].into_iter().map(|(n, i)| (Just(n), Just(i), any::<u64>())), little_stack(optimiser));
    c.finish("operations of every part of the library under an allocator that counts the bytes of the thread; building an expression and reading an entry takes at most 2 KiB, evaluating and updating at most six times operands and result plus 2 KiB, and only the result remains (at most three times its size); long operands on a stack of 128 KiB; non-trivial: operands of more than 8 KiB, or more than twenty iterations per member");
}
