//! C42: the library can be used from within itself (entry operations, mapped
//! functions, objectives, random generators), and goes on working after a
//! panic in any of these.
use pbt::calls;
use pbt::calls::{Call, CALLS};
use pbt::prelude::*;
use pbt::prog::*;
use rand_core::RngCore;
use std::cell::{Cell, RefCell};
use std::ops::*;

const INJECTED: &str = "injected panic";

/// What user code does while the library calls it.
#[derive(Default)]
struct Script {
    /// Calls and what they gave outside of any other.
    work: Vec<(Call, Vec<u64>)>,
    /// One of so many operations uses the library.
    every: u64,
    state: u64,
    /// Operations until the panic.
    bomb: Option<u64>,
    done: u64,
    problem: Option<String>,
}
thread_local! {
    static SCRIPT: RefCell<Script> = RefCell::new(Script::default());
    static DEPTH: Cell<u32> = const { Cell::new(0) };
}
fn start(work: Vec<(Call, Vec<u64>)>, every: u64, seed: u64, bomb: Option<u64>) {
    DEPTH.with(|d| d.set(0));
    SCRIPT.with(|s| *s.borrow_mut() = Script { work, every, state: seed, bomb, done: 0, problem: None });
}
fn stop() -> Res {
    match SCRIPT.with(|s| std::mem::take(&mut *s.borrow_mut())).problem {
        None => Ok(()),
        Some(p) => Err(p),
    }
}
/// Called by user code; uses the library now and then.
fn user(what: &str) -> u64 {
    if DEPTH.with(|d| d.get()) > 0 {
        return 0;
    }
    let (now, job) = SCRIPT.with(|s| {
        let s = &mut *s.borrow_mut();
        s.done += 1;
        if s.bomb == Some(s.done) {
            return (true, None);
        }
        let x = splitmix(&mut s.state);
        if s.work.is_empty() || s.every == 0 || x % s.every != 0 {
            return (false, None);
        }
        (false, Some((x, s.work[(x >> 20) as usize % s.work.len()].clone())))
    });
    if now {
        panic!("{INJECTED}");
    }
    let Some((x, (job, want))) = job else { return 0 };
    DEPTH.with(|d| d.set(1));
    let got = catch(|| calls::call(&job));
    DEPTH.with(|d| d.set(0));
    if got.as_ref() != Ok(&want) {
        SCRIPT.with(|s| {
            let s = &mut *s.borrow_mut();
            s.problem.get_or_insert(format!("call {job:?} from within {what} gave {got:x?}, outside {want:x?}"));
        });
    }
    x >> 40 | 1
}

/// Numbers whose operations use the library.
#[derive(Debug)]
struct Nest(Zp);
/// The operation by means of the structures of the library.
fn by_library(way: u64, x: Zp, y: Zp, product: bool) -> Zp {
    DEPTH.with(|d| d.set(1));
    let (u, v) = (dv(&[x, Zp(1)]), dv(&[Zp(0), y]));
    let r = match (way % 5, product) {
        (0, true) => (Complex::new(Zp(0), x) * Complex::new(y, Zp(0))).im,
        (0, false) => (Complex::new(x, Zp(0)) + Complex::new(y, Zp(1))).re,
        (1, true) => Polynomial::from_coefficients(vec![Zp(0), x]).eval(y),
        (1, false) => Polynomial::from_coefficients(vec![x, y]).eval(Zp(1)),
        (2, true) => (&dm(&Mat { r: 1, c: 2, d: vec![x, Zp(1)] }) * &dm(&Mat { r: 2, c: 1, d: vec![y, Zp(0)] })).eval()[[0, 0]],
        (2, false) => (&u + &v).eval()[1] - Zp(1) + (&u + &v).eval()[0],
        (3, true) => SVector::from([x, Zp(0), x]) * SVector::from([y, x, Zp(0)]),
        (3, false) => (SMatrix::from([[x, y]]) * SMatrix::from([[Zp(1)], [Zp(1)]])).mul(SMatrix::from([[Zp(1)]])).mul_vec(),
        (_, true) => u.mul_elemwise(&dv(&[y, y])).entry(0),
        (_, false) => &u * &dv(&[Zp(1), y]),
    };
    DEPTH.with(|d| d.set(0));
    r
}
trait MulVec { fn mul_vec(&self) -> Zp; }
impl MulVec for SMatrix<Zp, 1, 1> {
    fn mul_vec(&self) -> Zp { (self * &SVector::from([Zp(1)]))[0] }
}
impl Nest {
    fn op(&self, o: &Nest, what: &str, product: bool, plain: Zp, other: Zp) -> Nest {
        let way = user(what);
        if way == 0 {
            return Nest(plain);
        }
        let r = by_library(way, self.0, other, product);
        if r != plain {
            SCRIPT.with(|s| s.borrow_mut().problem.get_or_insert(format!("{what} of {:?} and {:?} computed by the library within an operation of the library is {r:?}, expected {plain:?}", self.0, o.0)).len());
        }
        Nest(r)
    }
    fn add_(&self, o: &Nest) -> Nest { self.op(o, "an addition of entries", false, self.0 + o.0, o.0) }
    fn sub_(&self, o: &Nest) -> Nest { self.op(o, "a subtraction of entries", false, self.0 - o.0, -o.0) }
    fn mul_(&self, o: &Nest) -> Nest { self.op(o, "a product of entries", true, self.0 * o.0, o.0) }
}
macro_rules! ops {
    ($($tr:ident $f:ident $tra:ident $fa:ident $m:ident),*) => {$(
        impl $tr<Nest> for Nest { type Output = Nest; fn $f(self, o: Nest) -> Nest { self.$m(&o) } }
        impl<'a> $tr<&'a Nest> for Nest { type Output = Nest; fn $f(self, o: &'a Nest) -> Nest { (&self).$m(o) } }
        impl<'a> $tr<Nest> for &'a Nest { type Output = Nest; fn $f(self, o: Nest) -> Nest { self.$m(&o) } }
        impl<'a, 'b> $tr<&'b Nest> for &'a Nest { type Output = Nest; fn $f(self, o: &'b Nest) -> Nest { self.$m(o) } }
        impl $tra<Nest> for Nest { fn $fa(&mut self, o: Nest) { *self = (&*self).$m(&o); } }
        impl<'a> $tra<&'a Nest> for Nest { fn $fa(&mut self, o: &'a Nest) { *self = (&*self).$m(o); } }
    )*};
}
ops!(Add add AddAssign add_assign add_, Sub sub SubAssign sub_assign sub_, Mul mul MulAssign mul_assign mul_);
impl Neg for Nest {
    type Output = Nest;
    fn neg(self) -> Nest { user("a negation of entries"); Nest(-self.0) }
}
impl Clone for Nest {
    fn clone(&self) -> Nest { user("a clone of an entry"); Nest(self.0) }
}
impl PartialEq for Nest {
    fn eq(&self, o: &Nest) -> bool { user("a comparison of entries"); self.0 == o.0 }
}
impl Drop for Nest {
    fn drop(&mut self) {
        // not while unwinding, and never with a panic
        if !std::thread::panicking() && SCRIPT.try_with(|s| s.try_borrow().map(|s| s.bomb != Some(s.done + 1)).unwrap_or(false)).unwrap_or(false) {
            user("a drop of an entry");
        }
    }
}
impl From<i8> for Nest {
    fn from(x: i8) -> Nest { user("a conversion of a number"); Nest(Zp::from(x)) }
}
impl Conj for Nest {
    fn conj(self) -> Nest { user("a conjugation of an entry"); Nest(self.0) }
}
impl Ring for Nest {}

/// When to panic; 0 is never.
fn at(bomb: i32) -> Option<u64> {
    if bomb > 0 { Some(bomb as u64) } else { None }
}
/// The work with its results outside of anything else.
fn known(work: &[Call]) -> Vec<(Call, Vec<u64>)> {
    work.iter().map(|c| (*c, calls::call(c))).collect()
}
fn still(what: &str, work: &[(Call, Vec<u64>)]) -> Res {
    for (c, want) in work {
        match catch(|| calls::call(c)) {
            Ok(got) => ensure!(got == *want, "{what}: call {c:?} gives {got:x?}, before {want:x?}"),
            Err(e) => return Err(format!("{what}: call {c:?} panics: {e}")),
        }
    }
    Ok(())
}

type Programs = (Vec<i64>, Prog, Vec<Call>, (u8, u64, i32));
fn programs(c: &Programs, ctx: &mut Ctx) -> Res {
    let (given, prog, work, (every, seed, bomb)) = c;
    let given: Vec<Zp> = dec_all(given);
    let work = known(work);
    let want = run_prog(given.clone(), prog, false, false, Some(conjugations::<Zp>));
    start(work.clone(), *every as u64 + 1, *seed, at(*bomb));
    let pool = given.iter().map(|x| Nest(*x)).collect();
    let got = catch(|| run_prog(pool, prog, false, false, Some(conjugations::<Nest>)));
    let done = SCRIPT.with(|s| s.borrow().done);
    stop()?;
    match got {
        Ok(got) => {
            let got_out: Vec<Zp> = got.out.iter().map(|x| x.0).collect();
            ctx.nontrivial(done > 0);
            ensure_eq!(got_out, want.out, "results with entries that use the library");
            ensure_eq!(got.eq, want.eq, "comparisons with entries that use the library");
        }
        Err(e) => {
            ensure!(*bomb > 0 && e.contains(INJECTED), "entries that use the library: panic: {e}");
            ctx.nontrivial(true);
            ctx.class("panic in an entry operation", true);
        }
    }
    still("after operations with entries that use the library or panic", &work)?;
    let again = catch(|| run_prog(given.clone(), prog, false, false, Some(conjugations::<Zp>))).map_err(|e| format!("the same program again, with plain numbers: {e}"))?;
    ensure!(again.out == want.out && again.eq == want.eq, "the same program with plain numbers gives {:?} now, before {:?}", again.out, want.out);
    // numbers that can panic, but do not any more
    start(vec![], 0, 0, None);
    let pool = given.iter().map(|x| Nest(*x)).collect();
    let again = catch(|| run_prog(pool, prog, false, false, Some(conjugations::<Nest>))).map_err(|e| format!("the same program again: {e}"))?;
    stop()?;
    ensure!(again.out.iter().map(|x| x.0).eq(want.out.iter().copied()) && again.eq == want.eq, "the same program without panic gives {:?}, expected {:?}", again.out, want.out);
    Ok(())
}

// ---- functions of the user -------------------------------------------------------

/// Expressions whose entries are computed by evaluating expressions.
fn closures(c: &((usize, usize, Vec<i64>), Vec<Call>, (u8, u64, i32), u8), ctx: &mut Ctx) -> Res {
    let ((rows, cols, raw), work, (every, seed, bomb), depth) = c;
    let m: Mat<Zp> = Mat { r: *rows, c: *cols, d: dec_all(raw) };
    let depth = *depth as usize % 3;
    let work = known(work);
    ctx.nontrivial(m.r * m.c > 1);
    let a = dm(&m);
    // each level transposes and adds the number of the level
    fn level(a: &DMatrix<Zp>, depth: usize) -> DMatrix<Zp> {
        let (r, c) = (a.num_rows(), a.num_cols());
        let entry = |i: usize, j: usize| {
            user("a function that gives the entries of a matrix");
            if depth == 0 {
                a.t().map(|x| { user("a mapped function"); x + Zp(7) }).entry(j, i)
            } else {
                // the previous level is computed anew for the entries of one diagonal
                if i == j || depth == 1 && i + j == 2 { level(a, depth - 1)[[i, j]] + Zp(depth as u32) } else { a[[i, j]] * a[[i, j]] }
            }
        };
        make_matrix_expr(r, c, entry).eval()
    }
    let model = |i: usize, j: usize| {
        fn model(m: &Mat<Zp>, i: usize, j: usize, depth: usize) -> Zp {
            let x = *m.at(i, j);
            if depth == 0 { x + Zp(7) }
            else if i == j || depth == 1 && i + j == 2 { model(m, i, j, depth - 1) + Zp(depth as u32) }
            else { x * x }
        }
        model(&m, i, j, depth)
    };
    for bomb in [at(*bomb), None] {
        start(work.clone(), *every as u64 + 1, *seed, bomb);
        let got = catch(|| level(&a, depth));
        stop()?;
        match got {
            Ok(got) => {
                ensure!(got.num_rows() == m.r && got.num_cols() == m.c, "shape of an expression whose functions use the library");
                for i in 0..m.r {
                    for j in 0..m.c {
                        ensure_eq!(got[[i, j]], model(i, j), "entry ({i}, {j}) of nested expressions of depth {depth}");
                    }
                }
            }
            Err(e) => ensure!(bomb.is_some() && e.contains(INJECTED), "functions that use the library: panic: {e}"),
        }
        still("after functions of entries that use the library or panic", &work)?;
    }
    // one expression, read after a panic of its function
    let n = m.r * m.c;
    start(work.clone(), *every as u64 + 1, *seed, at(*bomb).map(|b| b % (n as u64 + 2) + 1));
    let e = make_vector_expr(n, |i| { user("a function that gives the entries of a vector"); m.d[i] }).map(|x| { user("a mapped function"); x * Zp(3) });
    let mut panics = 0;
    for i in 0..n {
        match catch(|| e.entry(i)) {
            Ok(x) => ensure_eq!(x, m.d[i] * Zp(3), "entry {i} of a vector expression"),
            Err(msg) => {
                panics += 1;
                ensure!(msg.contains(INJECTED), "entry {i} of a vector expression: panic: {msg}");
            }
        }
    }
    ctx.class("panic in a function", panics > 0);
    ensure!(panics <= 1, "one panic in a function of the entries became {panics}");
    let got = catch(|| e.eval());
    stop()?;
    match got {
        Ok(v) => for i in 0..n { ensure_eq!(v[i], m.d[i] * Zp(3), "entry {i} of an evaluated vector expression") },
        Err(msg) => ensure!(panics == 0 && msg.contains(INJECTED), "evaluation of a vector expression after a panic: {msg}"),
    }
    still("after a panic in a function of the entries", &work)
}

// ---- optimiser ---------------------------------------------------------------------

/// A generator whose words come from a list, and which uses the library.
struct User {
    gen: Gen,
    nested: bool,
}
impl RngCore for User {
    fn next_u32(&mut self) -> u32 {
        if self.nested { user("the random number generator"); }
        self.gen.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        if self.nested { user("the random number generator"); }
        self.gen.next_u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) { self.gen.fill_bytes(dest) }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> { self.gen.try_fill_bytes(dest) }
}
type Trace<T, const N: usize> = (Vec<([T; N], [T; N])>, Result<[T; N], String>, u64);
/// One search; the objective may search itself.
fn search<T: Co, const N: usize>(p: &Params<f64>, nested: bool, inner: &mut Vec<(u64, Vec<u64>)>) -> Trace<T, N>
where
    f32: Into<T>,
    i8: Into<T>,
{
    let mut trace = vec![];
    let bounds = [(T::of(-3.0), T::of(5.0)); N];
    let mut rng = User { gen: Gen::new(p.seed, p.spiky, 10_000_000), nested };
    let mut count = 0u64;
    let r = catch(|| {
        magnesia::optimize::differential_evolution(&bounds, p.pop, p.cr, T::of(p.f), p.iters, &mut rng, |a, b| {
            trace.push((*a, *b));
            count += 1;
            if nested {
                user("the objective");
                if count % 5 == 1 {
                    // a search of the same kind and one of another
                    let q = Params { pop: 4 + (count as usize / 5) % 7, cr: 0.5, f: 0.7, iters: 6, seed: p.seed ^ count, spiky: false };
                    let (same, other) = (small::<T, N>(&q), small::<f32, 2>(&q));
                    inner.push((count, [same, other].concat()));
                }
            }
            hash_point(a, 1) < hash_point(b, 1)
        })
    });
    (trace, r, rng.gen.next_word())
}
/// A short search whose objective does nothing else.
fn small<T: Co, const N: usize>(q: &Params<f64>) -> Vec<u64>
where
    f32: Into<T>,
    i8: Into<T>,
{
    let mut out = vec![];
    let mut rng = Gen::new(q.seed, false, 1_000_000);
    let r = magnesia::optimize::differential_evolution(&[(T::of(0.0), T::of(2.0)); N], q.pop, q.cr, T::of(q.f), q.iters, &mut rng, |a, b| {
        out.extend(a.iter().chain(b).map(|x| x.bits()));
        hash_point(a, 2) < hash_point(b, 2)
    });
    out.extend(r.iter().map(|x| x.bits()));
    out
}
fn bits<T: Co, const N: usize>(t: &Trace<T, N>) -> Vec<u64>
where
    f32: Into<T>,
    i8: Into<T>,
{
    let mut v: Vec<u64> = t.0.iter().flat_map(|(a, b)| a.iter().chain(b).map(|x| x.bits())).collect();
    if let Ok(r) = &t.1 {
        v.extend(r.iter().map(|x| x.bits()));
        v.push(t.2);
    }
    v
}
type Search = ((u8, u8, u8, u64, bool), Vec<Call>, (u8, u64, i32));
fn optimise<T: Co, const N: usize>(c: &Search, ctx: &mut Ctx) -> Res
where
    f32: Into<T>,
    i8: Into<T>,
{
    let ((pop, iters, cr, seed, spiky), work, (every, wseed, bomb)) = c;
    let p = Params { pop: 4 + *pop as usize % 20, cr: *cr as f32 / 255.0, f: 0.75, iters: *iters as usize % 60, seed: *seed, spiky: *spiky };
    ctx.nontrivial(p.iters > 0);
    let work = known(work);
    start(vec![], 0, 0, None);
    let want = search::<T, N>(&p, false, &mut vec![]);
    ensure!(want.1.is_ok(), "search with {p:?}: {:?}", want.1);
    for bomb in [None, at(*bomb).map(|b| b % 400 + 1)] {
        start(work.clone(), *every as u64 + 1, *wseed, bomb);
        let mut inner = vec![];
        let got = search::<T, N>(&p, true, &mut inner);
        stop()?;
        match &got.1 {
            Ok(_) => ensure!(bits(&got) == bits(&want), "search with {p:?} by an objective or a generator that use the library: candidates {:?} and result {:?}, with ones that do not {:?} and {:?}", got.0, got.1, want.0, want.1),
            Err(e) => {
                ensure!(bomb.is_some() && e.contains(INJECTED), "search with {p:?} by an objective or a generator that use the library: panic: {e}");
                ctx.class("panic in the objective or the generator", true);
                let (a, b) = (bits(&got), bits(&want));
                ensure!(b.starts_with(&a), "search with {p:?} that a panic ended: candidates {:?}, expected the first of {:?}", got.0, want.0);
            }
        }
        for (count, out) in inner {
            let q = Params { pop: 4 + (count as usize / 5) % 7, cr: 0.5, f: 0.7, iters: 6, seed: p.seed ^ count, spiky: false };
            let alone = [small::<T, N>(&q), small::<f32, 2>(&q)].concat();
            ensure!(out == alone, "searches with {q:?} within comparison {count} of a search with {p:?}: {out:x?}, alone {alone:x?}");
        }
        still("after a search by an objective that uses the library or panics", &work)?;
        start(vec![], 0, 0, None);
        let again = search::<T, N>(&p, false, &mut vec![]);
        ensure!(bits(&again) == bits(&want), "the same search again: candidates {:?} and result {:?}, before {:?} and {:?}", again.0, again.1, want.0, want.1);
    }
    Ok(())
}

fn main() {
    let mut c = Check::start("C42");
    let work = || vec((0..CALLS, 0u64..6, 0u8..6), 0..4);
    let script = || (prop_oneof![3 => 0u8..4, 2 => 0u8..40, 1 => any::<u8>()], any::<u64>(), prop_oneof![1 => Just(0), 1 => 1i32..60, 1 => 1i32..3000]);
    let prog = || vec((any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>()), 1..3);
    c.sub("entries that use the library", 6000, (vec(elem(), 1..30), prog(), work(), script()), programs);
    c.sub("functions of entries that use the library", 3000, (mat(5), work(), script(), any::<u8>()), closures);
    let case = || ((any::<u8>(), any::<u8>(), any::<u8>(), any::<u64>(), any::<bool>()), work(), script());
    c.sub("objectives that use the library, f64", 1500, case(), optimise::<f64, 3>);
    c.sub("objectives that use the library, f32", 800, case(), optimise::<f32, 2>);
    c.sub("objectives that use the library, one coordinate", 500, case(), optimise::<f64, 1>);
    c.finish("programs over numbers whose operations call the library or panic, expressions whose functions evaluate expressions or panic, searches whose objective or generator searches, computes or panics, each followed by the same computations again; non-trivial: user code was called, more than one entry, at least one iteration");
}
