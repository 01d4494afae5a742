//! C24: lazy expressions compute each requested entry once and nothing else.
use pbt::prelude::*;
use std::cell::RefCell;

fn take(log: &Log) -> Vec<(u32, String)> {
    let mut l: Vec<_> = log.borrow_mut().drain(..).collect();
    l.sort();
    l
}
fn wanted(terms: &[&Term]) -> Vec<(u32, String)> {
    let mut l = vec![];
    for t in terms {
        calls(t, &mut l);
    }
    l.sort();
    l
}
fn diff(what: &str, got: Vec<(u32, String)>, want: Vec<(u32, String)>) -> Res {
    if got == want {
        return Ok(());
    }
    let extra: Vec<_> = got.iter().filter(|c| got.iter().filter(|d| d == c).count() > want.iter().filter(|d| d == c).count()).take(3).collect();
    let less: Vec<_> = want.iter().filter(|c| want.iter().filter(|d| d == c).count() > got.iter().filter(|d| d == c).count()).take(3).collect();
    Err(format!("{what}: {} calls of user functions instead of {}; too many: {extra:?}; missing: {less:?}", got.len(), want.len()))
}

type Case = ((usize, usize, u8), Vec<Step>);
/// Programs without intermediate evaluation.
fn lazy(steps: &[Step], op: u8, of: u8) -> Vec<Step> {
    steps.iter().map(|s| if s.0 % of == op { (s.0, s.1, s.2 & !1) } else { *s }).collect()
}
fn matrices(c: &Case, ctx: &mut Ctx) -> Res {
    let ((r, k, first), steps) = c;
    let steps = lazy(steps, 12, OPS);
    let p = plan(*r, *k, *first, &steps);
    let w = &p.want;
    let all: Vec<&Term> = w.d.iter().collect();
    let total = wanted(&all);
    ctx.nontrivial(total.len() > 1);
    ctx.class("at least 10 calls", total.len() >= 10);
    ctx.class("some entry needs several calls", total.len() > w.d.len());
    ctx.class("some entry needs no call", w.d.iter().any(|t| wanted(&[t]).is_empty()) && !total.is_empty());
    let log = Log::default();
    let e = p.build(&log);
    diff("construction", take(&log), vec![])?;
    (e.num_rows(), e.num_cols());
    diff("asking for the shape", take(&log), vec![])?;
    // single entries, in an order that is not the natural one
    for i in (0..w.r).rev() {
        for j in (0..w.c).rev() {
            e.entry(i, j);
            diff(&format!("entry ({i}, {j}) of {}x{}", w.r, w.c), take(&log), wanted(&[w.at(i, j)]))?;
        }
    }
    if w.d.len() > 0 {
        e.entry(0, 0);
        diff("entry (0, 0) for the second time", take(&log), wanted(&[w.at(0, 0)]))?;
    }
    e.eval();
    diff("eval after entry", take(&log), total.clone())?;
    p.build(&log).eval();
    diff("eval", take(&log), total.clone())?;
    // in-place updates evaluate every entry once
    let zero = w.map(|_| Term::from(0i8));
    let mut d = dm(&zero);
    d += p.build(&log);
    diff("+=", take(&log), total.clone())?;
    let mut d = dm(&zero);
    d -= p.build(&log);
    diff("-=", take(&log), total.clone())?;
    // the diagonal computes diagonal entries only
    let diag: Vec<&Term> = (0..w.r.min(w.c)).map(|i| w.at(i, i)).collect();
    let v = p.build(&log).wrap().diag();
    diff("construction of the diagonal", take(&log), vec![])?;
    for i in 0..diag.len() {
        v.entry(i);
        diff(&format!("entry {i} of the diagonal"), take(&log), wanted(&[diag[i]]))?;
    }
    v.eval();
    diff("eval of the diagonal", take(&log), wanted(&diag))
}
fn vectors(c: &((usize, u8), Vec<Step>), ctx: &mut Ctx) -> Res {
    let ((n, first), steps) = c;
    let steps = lazy(steps, 11, VOPS);
    let p = vplan(*n, *first, &steps);
    let all: Vec<&Term> = p.want.iter().collect();
    let total = wanted(&all);
    ctx.nontrivial(total.len() > 1);
    ctx.class("at least 10 calls", total.len() >= 10);
    let log = Log::default();
    let e = p.build(&log);
    diff("construction", take(&log), vec![])?;
    (e.len(), e.is_empty());
    diff("asking for the length", take(&log), vec![])?;
    for i in (0..*n).rev() {
        e.entry(i);
        diff(&format!("entry {i} of {n}"), take(&log), wanted(&[&p.want[i]]))?;
    }
    e.eval();
    diff("eval after entry", take(&log), total.clone())?;
    p.build(&log).eval();
    diff("eval", take(&log), total.clone())?;
    let zero = vec![Term::from(0i8); *n];
    let mut d = dv(&zero);
    d += p.build(&log);
    diff("+=", take(&log), total.clone())?;
    let mut d = dv(&zero);
    d -= p.build(&log);
    diff("-=", take(&log), total.clone())?;
    // as a diagonal matrix: off the diagonal nothing is computed
    let m = p.build(&log).wrap().diag();
    diff("construction of the diagonal matrix", take(&log), vec![])?;
    if *n <= 12 {
        for i in 0..*n {
            for j in 0..*n {
                m.entry(i, j);
                diff(&format!("entry ({i}, {j}) of the diagonal matrix"), take(&log), if i == j { wanted(&[&p.want[i]]) } else { vec![] })?;
            }
        }
        m.eval();
        diff("eval of the diagonal matrix", take(&log), total)?;
    }
    Ok(())
}

/// Matrices far too large to be stored: reading an entry touches just that
/// position.
fn huge(c: &(u64, u64, u64, u64, Vec<u8>), ctx: &mut Ctx) -> Res {
    let (r, k) = ((c.0 | 1) as usize, (c.1 | 1) as usize);
    let (i, j) = ((c.2 % r as u64) as usize, (c.3 % k as u64) as usize);
    let log: RefCell<Vec<(usize, usize)>> = RefCell::default();
    let maps = RefCell::new(0);
    let mut e = DynMat::new(make_matrix_expr(r, k, |i, j| {
        log.borrow_mut().push((i, j));
        i as u128 * 3 + j as u128
    }));
    let (mut flip, mut factor, mut reads, mut mapped) = (false, 1u128, 1usize, 0usize);
    for s in &c.4 {
        match s % 4 {
            0 => {
                e = DynMat::new(e.wrap().t());
                flip = !flip;
            }
            1 => {
                e = DynMat::new(e.wrap().map(|x| {
                    *maps.borrow_mut() += 1;
                    x
                }));
                mapped += 1;
            }
            2 => {
                let (a, b) = if flip { (k, r) } else { (r, k) };
                let (log, f) = (&log, flip);
                let o = make_matrix_expr(a, b, move |i, j| {
                    let (i, j) = if f { (j, i) } else { (i, j) };
                    log.borrow_mut().push((i, j));
                    i as u128 * 3 + j as u128
                });
                e = DynMat::new(e.wrap() + o);
                factor += 1;
                reads += 1;
            }
            _ => e = DynMat::new(e.wrap().wrap()),
        }
    }
    ctx.nontrivial(c.4.len() > 1);
    ensure!(log.borrow().is_empty() && *maps.borrow() == 0, "construction called a function");
    ensure_eq!((e.num_rows(), e.num_cols()), if flip { (k, r) } else { (r, k) }, "shape");
    let x = if flip { e.entry(j, i) } else { e.entry(i, j) };
    ensure_eq!(x, (i as u128 * 3 + j as u128) * factor, "entry ({i}, {j}) of {r}x{k}, transposed: {flip}");
    ensure_eq!(*log.borrow(), vec![(i, j); reads], "positions computed for entry ({i}, {j})");
    ensure!(*maps.borrow() == mapped, "{} calls of map functions instead of {mapped}", maps.borrow());
    log.borrow_mut().clear();
    let d = e.wrap().diag();
    ensure_eq!(d.len(), r.min(k), "length of the diagonal");
    ensure!(log.borrow().is_empty(), "taking the diagonal computed entries");
    let q = i % r.min(k);
    ensure_eq!(d.entry(q), (q as u128 * 4) * factor, "diagonal entry {q}");
    ensure_eq!(*log.borrow(), vec![(q, q); reads], "positions computed for diagonal entry {q}");
    Ok(())
}

/// Stored results with very many entries: every function is called once for
/// every position, whatever reads it.
fn many(c: &(usize, usize, u64), ctx: &mut Ctx) -> Res {
    use std::cell::Cell;
    let (r, k, salt) = *c;
    ctx.nontrivial(true);
    let seen: [Vec<Cell<u8>>; 2] = [0, 1].map(|_| vec![Cell::new(0); r * k]);
    let maps = Cell::new(0usize);
    let call = |s: usize, i: usize, j: usize| {
        let n = &seen[s][i * k + j];
        n.set(n.get().saturating_add(1));
        (i as i64) << 24 ^ j as i64 ^ (salt % 1000) as i64 ^ s as i64
    };
    let f = || make_matrix_expr(r, k, |i, j| call(0, i, j));
    let g = || make_matrix_expr(r, k, |i, j| call(1, i, j));
    let tick = |x: i64| {
        maps.set(maps.get() + 1);
        x
    };
    // calls of the two functions at (i, j), calls of maps
    let done = |what: &str, want: [&dyn Fn(usize, usize) -> u8; 2], mapped: usize| -> Res {
        for s in 0..2 {
            for (p, n) in seen[s].iter().enumerate() {
                ensure!(n.get() == want[s](p / k, p % k), "{what} of {r}x{k}: {} calls of operand {s} at ({}, {}), expected {}", n.get(), p / k, p % k, want[s](p / k, p % k));
                n.set(0);
            }
        }
        ensure!(maps.get() == mapped, "{what} of {r}x{k}: {} calls of maps, expected {mapped}", maps.get());
        maps.set(0);
        Ok(())
    };
    let (no, once, twice) = (|_: usize, _: usize| 0u8, |_: usize, _: usize| 1u8, |_: usize, _: usize| 2u8);
    let n = r * k;
    let (e, x, y) = (f() + g(), f().map(tick), f().t());
    e.entry(r - 1, k - 1);
    done("construction and one entry", [&|i, j| (i == r - 1 && j == k - 1) as u8; 2], 0)?;
    e.eval();
    done("sum", [&once, &once], 0)?;
    x.eval();
    done("map", [&once, &no], n)?;
    y.eval();
    done("transpose", [&once, &no], 0)?;
    f().map(tick).t().map(tick).zip(g().t()).map(|(a, b)| tick(a - b)).eval();
    done("maps, zip and transposes", [&once, &once], 3 * n)?;
    (f() - f()).mul_elemwise(g()).eval();
    done("an operand used twice", [&twice, &once], 0)?;
    f().h().wrap().wrap().h().eval();
    done("transposes", [&once, &no], 0)?;
    let mut d = f().eval();
    d += g();
    done("eval and +=", [&once, &once], 0)?;
    d -= g().map(tick);
    done("-=", [&no, &once], n)?;
    d.diag().eval();
    (f() + g()).diag().eval();
    done("diagonal", [&|i, j| (i == j) as u8; 2], 0)?;
    // the same for vectors
    let v = || make_vector_expr(n, |i| call(0, i / k, i % k));
    let w = || make_vector_expr(n, |i| call(1, i / k, i % k));
    let e = v() - w();
    e.entry(n - 1);
    done("construction and one entry of a vector", [&|i, j| (i == r - 1 && j == k - 1) as u8; 2], 0)?;
    e.eval();
    done("difference of vectors", [&once, &once], 0)?;
    v().map(tick).conj().zip(w()).map(|(a, b)| tick(a ^ b)).eval();
    done("maps and zip of vectors", [&once, &once], 2 * n)?;
    let mut d = v().eval();
    d += w().map(tick);
    done("eval and += of vectors", [&once, &once], n)?;
    d -= w();
    done("-= of vectors", [&no, &once], 0)?;
    let m = v().diag();
    if n > 1 {
        m.entry(0, n - 1);
    }
    m.entry(n - 1, n - 1);
    done("entries of a diagonal matrix", [&|i, j| (i == r - 1 && j == k - 1) as u8, &no], 0)?;
    v().diag().diag().eval();
    done("diagonal of a diagonal matrix", [&once, &no], 0)
}

fn main() {
    let mut c = Check::start("C24");
    let step = || (0u8..OPS, 0u8..KINDS, 0u8..8);
    let computed = || prop_oneof![3 => Just(2u8), 1 => 0u8..KINDS];
    let lstep = move || (0u8..OPS, computed(), 0u8..8);
    let case = move |max: usize, n: usize| ((0..=max, 0..=max, computed()), vec(lstep(), 0..n));
    c.sub("programs, small shapes", 6000, case(4, 8), matrices);
    c.sub("programs, any operands", 3000, ((0..=4usize, 0..=4usize, 0u8..KINDS), vec(step(), 0..10)), matrices);
    c.sub("programs, larger shapes", 400, case(12, 4), matrices);
    let mut list = vec![];
    for r in 0..=5usize {
        for k in 0..=5usize {
            for op in 0..OPS {
                list.push((r, k, op));
            }
        }
    }
    c.sweep("every operation on every small shape", 2, list.into_iter().map(move |(r, k, op)| ((Just(r), Just(k), Just(2u8)), (computed(), 0u8..8).prop_map(move |(a, b)| vec![(op, a, b), (op, b, a)]))), matrices);
    let mut list = vec![];
    for (r, k) in [(1, 33), (33, 1), (8, 8), (9, 7), (16, 16), (17, 16), (1, 70), (70, 1), (2, 65), (20, 20)] {
        for op in 0..OPS {
            list.push((r, k, op));
        }
    }
    c.sweep("every operation on larger shapes", 1, list.into_iter().map(move |(r, k, op)| ((Just(r), Just(k), Just(2u8)), (computed(), 0u8..8).prop_map(move |(a, b)| vec![(op, a, b)]))), matrices);
    let vstep = move || (0u8..VOPS, computed(), 0u8..8);
    c.sub("vector programs", 6000, ((0..=6usize, computed()), vec(vstep(), 0..8)), vectors);
    c.sub("vector programs, longer vectors", 1000, ((0..=70usize, computed()), vec(vstep(), 0..5)), vectors);
    let all: Vec<(usize, u8)> = (0..=20usize).chain([31, 32, 33, 63, 64, 65, 100, 128, 129, 200, 256, 257, 300]).flat_map(|n| (0..VOPS).map(move |op| (n, op))).collect();
    c.sweep("every vector operation at every length", 1, all.into_iter().map(move |(n, op)| ((Just(n), Just(2u8)), (computed(), 0u8..8).prop_map(move |(a, b)| vec![(op, a, b)]))), vectors);
    let list = [(40usize, 41usize), (65, 64), (129, 128), (257, 256), (1025, 1024), (1, 65_537), (65_537, 1), (1, 1_048_577), (1_048_577, 1), (600, 1100), (1100, 600)];
    c.sweep("very many entries", 1, list.into_iter().map(|(r, k)| (Just(r), Just(k), any::<u64>())), many);
    c.sub("many entries, shapes of all proportions", 60, (rect(20_000), any::<u64>()).prop_map(|((r, k), s)| (r, k, s)), many);
    c.sub("many entries", 10, (large(10), large(10), any::<u64>()), many);
    c.sub("huge virtual matrices", 3000, (any::<u64>(), any::<u64>(), any::<u64>(), any::<u64>(), vec(any::<u8>(), 0..8)), huge);
    c.finish("random expressions over computed operands whose functions record every call: calls after construction, after reading each entry, after evaluation, in-place updates and diagonals are compared with those the entry needs; non-trivial: the evaluation must call functions more than once");
}
