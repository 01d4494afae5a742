//! C27: every trial point is a legal differential-evolution step.
use pbt::prelude::*;

/// (population, rounds, crossover, weight), seed, spiky, answers, salt
type Case = ((usize, usize, f32, f64), u64, bool, u8, u64);

fn bounds<T: Co, const N: usize>(salt: u64) -> [(T, T); N]
where
    f32: Into<T>,
    i8: Into<T>,
{
    let mut s = salt;
    [(); N].map(|_| {
        let a = splitmix(&mut s) % 2000;
        let w = splitmix(&mut s) % 3000 + 500;
        let lo = a as f64 / 100.0 - 12.0;
        (T::of(lo), T::of(lo + w as f64 / 80.0))
    })
}
/// Is `x` the donor coordinate of members with coordinates a, b, c?
fn donor<T: Co>(x: T, a: T, b: T, c: T, f: f64) -> bool
where
    f32: Into<T>,
    i8: Into<T>,
{
    let (a, b, c) = (a.to(), b.to(), c.to());
    let tol = 4.0 * T::EPS * (a.abs() + f * (b.abs() + c.abs())) + 1e-40;
    let want = a + f * (b - c);
    (x.to() - want).abs() <= tol || (!want.is_finite() || want.abs() > 1e37) && T::EPS > 1e-10
}
/// Donors of a trial: the triple that explains most of it, and the coordinates
/// that it may have taken from them.
fn explain<T: Co, const N: usize>(x: &[T; N], pop: &[[T; N]], i: usize, f: f64) -> Option<([usize; 3], [bool; N])>
where
    f32: Into<T>,
    i8: Into<T>,
{
    let n = pop.len();
    let mut best: Option<([usize; 3], [bool; N])> = None;
    let size = |g: &[bool; N]| g.iter().filter(|g| **g).count();
    let changed: Vec<usize> = (0..N).filter(|q| x[*q] != pop[i][*q]).collect();
    for j in (0..n).filter(|j| *j != i) {
        for k in (0..n).filter(|k| ![i, j].contains(k)) {
            for l in (0..n).filter(|l| ![i, j, k].contains(l)) {
                let is = |q: usize| donor(x[q], pop[j][q], pop[k][q], pop[l][q], f);
                if changed.iter().all(|q| is(*q)) {
                    let mut got = [false; N];
                    for q in 0..N {
                        got[q] = is(q);
                    }
                    // at least one coordinate comes from the donors
                    if size(&got) > best.as_ref().map_or(0, |b| size(&b.1)) {
                        best = Some(([j, k, l], got));
                        if size(&got) == N {
                            return best;
                        }
                    }
                }
            }
        }
    }
    best
}
/// Answers of the comparison; not all of them are orders.
fn answer<T: Co, const N: usize>(kind: u8, t: usize, salt: u64, x: &[T; N], y: &[T; N]) -> bool
where
    f32: Into<T>,
    i8: Into<T>,
{
    let d = |x: &[T; N]| x.iter().enumerate().map(|(i, c)| (c.to() - ((salt >> (8 * (i % 8))) & 0xf) as f64).powi(2)).sum::<f64>();
    match kind % 6 {
        0 => false,
        1 => hash_point(x, salt ^ t as u64) % 2 == 0,
        2 => hash_point(x, salt ^ t as u64) % 8 == 0,
        3 => d(x) < d(y),
        4 => t % 3 == 0,
        // rarely
        _ => hash_point(x, salt ^ t as u64) % 4000 == 0,
    }
}

fn check<T: Co, const N: usize>(c: &Case, ctx: &mut Ctx) -> Res
where
    f32: Into<T>,
    i8: Into<T>,
{
    let ((n, rounds, cr, f), seed, spiky, kind, salt) = *c;
    let f = T::of(f);
    let b = bounds::<T, N>(salt);
    let iters = n * rounds;
    let p = Params { pop: n, cr, f, iters, seed, spiky };
    let mut t = 0;
    let r = run(&b, &p, |x, y| {
        t += 1;
        answer(kind, t, salt, x, y)
    });
    let what = format!("{} in {N} dimensions, population {n}, F = {f:?}, CR = {cr}", T::NAME);
    r.result.clone().map_err(|e| format!("{what}: {e}"))?;
    ensure!(r.calls.len() >= iters, "{what}: {} comparisons in {iters} iterations", r.calls.len());
    // the incumbents of the first round are the initial population
    let mut pop: Vec<[T; N]> = r.calls[..n].iter().map(|c| c.1).collect();
    let mut wins = 0;
    for (t, (x, y, won)) in r.calls[..iters].iter().enumerate() {
        let i = t % n;
        ensure!(same_point(y, &pop[i]), "{what}: iteration {t} compares with {y:?}, but member {i} is {:?}", pop[i]);
        let e = explain(x, &pop, i, f.to());
        let (_, got) = e.ok_or_else(|| format!("{what}: iteration {t}: trial {x:?} against member {i} {y:?} is no step with three other distinct donors of {pop:?}"))?;
        if cr == 1.0 {
            ensure!(got.iter().all(|g| *g), "{what}: iteration {t}: trial {x:?} against {y:?} keeps a coordinate although the crossover probability is 1");
        }
        if cr == 0.0 {
            let d = (0..N).filter(|q| x[*q] != y[*q]).count();
            ensure!(d <= 1, "{what}: iteration {t}: trial {x:?} changes {d} coordinates of {y:?} although the crossover probability is 0");
        }
        if *won {
            wins += 1;
            pop[i] = *x;
        }
    }
    ctx.nontrivial(wins > 0);
    ctx.class("replacements", wins > 0);
    ctx.class("crossover 0", cr == 0.0);
    ctx.class("crossover 1", cr == 1.0);
    // a shorter run from the same generator does the same steps
    let short = Params { iters: iters / 2 + 1, ..p };
    let mut t = 0;
    let q = run(&b, &short, |x, y| {
        t += 1;
        answer(kind, t, salt, x, y)
    });
    for t in 0..short.iters.min(q.calls.len()) {
        ensure!(same_point(&q.calls[t].0, &r.calls[t].0) && same_point(&q.calls[t].1, &r.calls[t].1), "{what}: iteration {t} of {} differs from iteration {t} of {iters}", short.iters);
    }
    Ok(())
}

/// A run whose comparison accepts a quarter of the first trials and no later
/// one: the population at the end of this phase, and the later trials.
fn frozen<const N: usize>(b: &[(f64, f64); N], p: &Params<f64>, warm: usize, salt: u64) -> Result<(Vec<[f64; N]>, Vec<([f64; N], [f64; N])>), String> {
    let p = Params { iters: p.iters + warm, ..p.clone() };
    let mut t = 0;
    let r = run(b, &p, |x, _| {
        t += 1;
        t <= warm && hash_point(x, salt ^ t as u64) % 4 == 0
    });
    r.result?;
    ensure!(r.calls.len() >= p.iters, "{} comparisons in {} iterations", r.calls.len(), p.iters);
    let mut pop: Vec<[f64; N]> = r.calls[..p.pop].iter().map(|c| c.1).collect();
    for (t, c) in r.calls[..warm].iter().enumerate().filter(|c| c.1 .2) {
        pop[t % p.pop] = c.0;
    }
    Ok((pop, r.calls[warm..p.iters].iter().map(|c| (c.0, c.1)).collect()))
}
/// Which donors are used: with a fixed population every ordered choice of
/// roles must turn up.
fn donors(c: &(usize, u64, u64, bool), ctx: &mut Ctx) -> Res {
    let (n, seed, salt, warm) = *c;
    let b = bounds::<f64, 2>(salt);
    // P(a member is missing in a role) = (1 - 1/(n - 1))^rounds, at most e^-50
    let rounds = 50 * n;
    let f = if warm { 0.4 } else { 0.7 };
    let p = Params { pop: n, cr: 1.0, f, iters: n * rounds, seed, spiky: false };
    let (pop, trials) = frozen(&b, &p, if warm { 40 * n } else { 0 }, salt)?;
    let mut role = vec![[0usize; 3]; n * n];
    // donor points of all triples, by position
    let mut index = std::collections::HashMap::new();
    let key = |x: &[f64; 2]| ((x[0] * 1e7).round() as i64, (x[1] * 1e7).round() as i64);
    for j in 0..n {
        for k in (0..n).filter(|k| *k != j) {
            for l in (0..n).filter(|l| *l != j && *l != k) {
                let x = [0, 1].map(|q| pop[j][q] + (pop[k][q] - pop[l][q]) * f);
                // several triples may give the same point
                index.entry(key(&x)).and_modify(|e| *e = None).or_insert(Some([j, k, l]));
            }
        }
    }
    let mut lost = 0;
    for (t, (x, _)) in trials.iter().enumerate() {
        let (a, b) = key(x);
        let hit = (-1..=1).flat_map(|u| (-1..=1).map(move |v| (a + u, b + v))).find_map(|k| index.get(&k));
        match hit {
            Some(Some(d)) => (0..3).for_each(|q| role[t % n * n + d[q]][q] += 1),
            Some(None) => (),
            None => lost += 1,
        }
    }
    ensure!(lost == 0, "population {n}: {lost} of {} trials are no steps", p.iters);
    ctx.nontrivial(true);
    ctx.class("after many replacements", warm);
    // ways of using a member that leave no doubt about it
    let mut clear = vec![[0usize; 3]; n * n];
    for d in index.values().flatten() {
        for i in (0..n).filter(|i| !d.contains(i)) {
            (0..3).for_each(|q| clear[i * n + d[q]][q] += 1);
        }
    }
    for i in 0..n {
        for m in (0..n).filter(|m| *m != i) {
            for q in 0..3 {
                let sure = rounds * clear[i * n + m][q] >= 40 * (n - 1) * (n - 2) * (n - 3);
                ensure!(!sure || role[i * n + m][q] > 0, "population {n}: member {m} was never donor number {q} for member {i} in {rounds} trials");
            }
        }
        ensure!(role[i * n + i] == [0; 3], "population {n}: member {i} was its own donor");
    }
    Ok(())
}
/// The same for many members, added up over the members compared with.
fn donors_many(c: &(usize, u64, u64), ctx: &mut Ctx) -> Res {
    let (n, seed, salt) = *c;
    let b = bounds::<f64, 2>(salt);
    let f = 0.5;
    let p = Params { pop: n, cr: 1.0, f, iters: 60 * n, seed, spiky: false };
    let (pop, trials) = frozen(&b, &p, 0, salt)?;
    // x + F p_l = p_j + F p_k
    let key = |x: [f64; 2]| x.map(|c| (c * 1e7).round() as i64);
    let mut pairs = std::collections::HashMap::new();
    for j in 0..n {
        for k in (0..n).filter(|k| *k != j) {
            let sum = key([0, 1].map(|q| pop[j][q] + pop[k][q] * f));
            pairs.entry(sum).and_modify(|e| *e = None).or_insert(Some((j, k)));
        }
    }
    let mut role = vec![[0usize; 3]; n];
    let mut lost = 0;
    for (t, (x, _)) in trials.iter().enumerate() {
        let i = t % n;
        let at = |l: usize, d: [i64; 2]| {
            let k = key([0, 1].map(|q| x[q] + pop[l][q] * f));
            pairs.get(&[k[0] + d[0], k[1] + d[1]]).map(|p| p.filter(|(j, k)| ![*j, *k].contains(&l)).map(|(j, k)| [j, k, l]))
        };
        let near = [-1, 0, 1].into_iter().flat_map(|u| [-1, 0, 1].map(|v| [u, v]));
        let hit = (0..n).find_map(|l| at(l, [0, 0]).flatten());
        match hit.or_else(|| (0..n).flat_map(|l| near.clone().map(move |d| (l, d))).find_map(|(l, d)| at(l, d).flatten())) {
            Some(d) => {
                ensure!(!d.contains(&i), "population {n}: member {i} was its own donor in iteration {t}");
                (0..3).for_each(|q| role[d[q]][q] += 1);
            }
            None => lost += 1,
        }
    }
    // equal sums of pairs hide some steps
    ensure!(lost * 100 <= trials.len(), "population {n}: {lost} of {} trials are no steps", trials.len());
    ctx.nontrivial(true);
    for m in 0..n {
        for q in 0..3 {
            ensure!(role[m][q] > 0, "population {n}: member {m} was never donor number {q} in {} trials", trials.len());
        }
    }
    Ok(())
}
/// With weight 0 a trial is its first donor.
fn first_donors(c: &(usize, u64, u64), ctx: &mut Ctx) -> Res {
    let (n, seed, salt) = *c;
    let b = bounds::<f64, 1>(salt);
    let p = Params { pop: n, cr: 1.0, f: 0.0, iters: 50 * n, seed, spiky: false };
    let (pop, trials) = frozen(&b, &p, 0, salt)?;
    let place: std::collections::HashMap<u64, usize> = pop.iter().enumerate().map(|(i, x)| (x[0].bits(), i)).collect();
    let mut used = vec![false; n];
    for (t, (x, y)) in trials.iter().enumerate() {
        let i = t % n;
        ensure!(same_point(y, &pop[i]), "population {n}: iteration {t} compares with {y:?}, but member {i} is {:?}", pop[i]);
        let j = *place.get(&x[0].bits()).ok_or_else(|| format!("population {n}, weight 0: trial {x:?} of iteration {t} is no member"))?;
        ensure!(j != i || pop[i] != pop[place[&pop[i][0].bits()]] || place.len() < n, "population {n}: member {i} was its own donor in iteration {t}");
        used[j] = true;
    }
    ctx.nontrivial(n > 256);
    if place.len() == n {
        for m in 0..n {
            ensure!(used[m], "population {n}: member {m} was never the first donor in {} trials", trials.len());
        }
    }
    Ok(())
}
/// Forced coordinate, fraction and independence of replaced coordinates.
fn crossover<const N: usize>(c: &(f32, u64, (usize, bool), u64), ctx: &mut Ctx) -> Res {
    let (cr, seed, (n, warm), salt) = *c;
    let b = bounds::<f64, N>(salt);
    let iters = 3000.max(60 * N);
    let p = Params { pop: n, cr, f: 0.7, iters, seed, spiky: false };
    let (_, trials) = frozen(&b, &p, if warm { 40 * n } else { 0 }, salt)?;
    // after replacements a donor coordinate can equal the old coordinate, when
    // that one came from the same donors
    let slack = if warm { 4.0 * (iters * N) as f64 / ((n - 1) * (n - 2) * (n - 3)) as f64 + 20.0 } else { 0.0 };
    let mut empty = 0;
    let what = format!("{N} dimensions, CR = {cr}, population {n}");
    let mut single = [0usize; N];
    let mut count = [0usize; N];
    let mut sizes = vec![0usize; N + 1];
    let mut total = 0;
    for (x, y) in &trials {
        let ch: Vec<usize> = (0..N).filter(|q| x[*q] != y[*q]).collect();
        total += ch.len();
        if ch.is_empty() {
            ensure!(warm, "{what}: a trial is the incumbent {y:?}");
            empty += 1;
        }
        for q in &ch {
            count[*q] += 1;
        }
        sizes[ch.len()] += 1;
        if ch.len() == 1 {
            single[ch[0]] += 1;
        }
    }
    ensure!(empty as f64 <= slack, "{what}: {empty} trials are the incumbent");
    ctx.class("after many replacements", warm);
    let (m, d, pr) = (iters as f64, N as f64, cr as f64);
    let (mean, sd) = (m * (1.0 + (d - 1.0) * pr), (m * (d - 1.0) * pr * (1.0 - pr)).sqrt());
    ensure!((total as f64 - mean).abs() <= 7.0 * sd + 1e-9 + slack, "{what}: {total} coordinates replaced in {iters} trials, expected {mean:.0} +- {sd:.1}");
    ctx.nontrivial(cr > 0.0 && cr < 1.0 && N > 1);
    for q in 0..N {
        // every coordinate is replaced at least with the crossover probability
        let sd = (m * pr * (1.0 - pr)).sqrt();
        ensure!(count[q] as f64 >= m * pr - 7.0 * sd - 1e-9 - slack, "{what}: coordinate {q} replaced in {} of {iters} trials", count[q]);
        // kept with positive probability, unless it must be replaced
        if cr <= 0.5 && N > 1 {
            ensure!(count[q] < iters, "{what}: coordinate {q} was always replaced");
            let often = m * (1.0 - pr).powi(N as i32 - 1) / d;
            ensure!(often < 50.0 || single[q] > 0, "{what}: coordinate {q} was never the only one replaced");
        }
    }
    // independent decisions: the number of coordinates besides the forced one
    // is binomially distributed
    if pr > 0.0 && pr < 1.0 {
        // logarithm of the probability of k more coordinates
        let mut prob = (d - 1.0) * (-pr).ln_1p();
        for k in 0..N {
            let (e, got) = (m * prob.exp(), sizes[k + 1] as f64);
            ensure!((got - e).abs() <= 7.0 * e.sqrt() + 12.0 + slack, "{what}: {got} of {iters} trials replace {} coordinates, expected about {e:.0}", k + 1);
            prob += ((d - 1.0 - k as f64) / (k as f64 + 1.0) * pr / (1.0 - pr)).ln();
        }
    }
    Ok(())
}

/// Coordinates that remember how they were computed, so that the donors of a
/// step can be read off, however many members there are.
mod symbol {
    use rand::distributions::uniform::{SampleBorrow, SampleUniform, UniformSampler};
    use std::cell::RefCell;
    use std::ops::{Add, Mul, Sub};

    #[derive(Clone, Copy, Debug)]
    pub struct Sym {
        pub node: u32,
        pub value: f64,
    }
    #[derive(Clone, Copy, Debug)]
    enum Node {
        Sample,
        Const(f64),
        Add(Sym, Sym),
        Sub(Sym, Sym),
        Mul(Sym, Sym),
    }
    thread_local!(static NODES: RefCell<Vec<Node>> = const { RefCell::new(Vec::new()) });
    pub fn reset() {
        NODES.with(|n| n.borrow_mut().clear());
    }
    fn make(node: Node, value: f64) -> Sym {
        NODES.with(|n| {
            let mut n = n.borrow_mut();
            n.push(node);
            Sym { node: n.len() as u32 - 1, value }
        })
    }
    impl PartialEq for Sym {
        fn eq(&self, o: &Sym) -> bool {
            self.value == o.value
        }
    }
    impl PartialOrd for Sym {
        fn partial_cmp(&self, o: &Sym) -> Option<std::cmp::Ordering> {
            self.value.partial_cmp(&o.value)
        }
    }
    impl Add for Sym {
        type Output = Sym;
        fn add(self, o: Sym) -> Sym {
            make(Node::Add(self, o), self.value + o.value)
        }
    }
    impl Sub for Sym {
        type Output = Sym;
        fn sub(self, o: Sym) -> Sym {
            make(Node::Sub(self, o), self.value - o.value)
        }
    }
    impl Mul for Sym {
        type Output = Sym;
        fn mul(self, o: Sym) -> Sym {
            make(Node::Mul(self, o), self.value * o.value)
        }
    }
    impl From<f32> for Sym {
        fn from(x: f32) -> Sym {
            make(Node::Const(x as f64), x as f64)
        }
    }
    impl From<i8> for Sym {
        fn from(x: i8) -> Sym {
            make(Node::Const(x as f64), x as f64)
        }
    }
    pub fn constant(x: f64) -> Sym {
        make(Node::Const(x), x)
    }
    pub struct Sampler(f64, f64);
    impl UniformSampler for Sampler {
        type X = Sym;
        fn new<A: SampleBorrow<Sym> + Sized, B: SampleBorrow<Sym> + Sized>(lo: A, hi: B) -> Self {
            Sampler(lo.borrow().value, hi.borrow().value)
        }
        fn new_inclusive<A: SampleBorrow<Sym> + Sized, B: SampleBorrow<Sym> + Sized>(lo: A, hi: B) -> Self {
            Sampler(lo.borrow().value, hi.borrow().value)
        }
        fn sample<R: rand::Rng + ?Sized>(&self, rng: &mut R) -> Sym {
            make(Node::Sample, self.0 + (self.1 - self.0) * rng.gen::<f64>())
        }
    }
    impl SampleUniform for Sym {
        type Sampler = Sampler;
    }
    /// The value as a sum of factors times members (whose nodes `member` knows)
    /// and a constant.
    pub fn linear(x: Sym, member: &dyn Fn(u32) -> Option<usize>) -> Result<(Vec<(usize, f64)>, f64), String> {
        if let Some(m) = member(x.node) {
            return Ok((vec![(m, 1.0)], 0.0));
        }
        let sum = |a: Sym, b: Sym, sign: f64| -> Result<(Vec<(usize, f64)>, f64), String> {
            let (mut l, c) = linear(a, member)?;
            let (r, d) = linear(b, member)?;
            for (m, f) in r {
                match l.iter_mut().find(|e| e.0 == m) {
                    Some(e) => e.1 += sign * f,
                    None => l.push((m, sign * f)),
                }
            }
            Ok((l, c + sign * d))
        };
        match NODES.with(|n| n.borrow()[x.node as usize]) {
            Node::Sample => Err("a sampled coordinate of no current member".into()),
            Node::Const(c) => Ok((vec![], c)),
            Node::Add(a, b) => sum(a, b, 1.0),
            Node::Sub(a, b) => sum(a, b, -1.0),
            Node::Mul(a, b) => {
                let ((l, c), (r, d)) = (linear(a, member)?, linear(b, member)?);
                if l.is_empty() {
                    Ok((r.into_iter().map(|(m, f)| (m, f * c)).collect(), c * d))
                } else if r.is_empty() {
                    Ok((l.into_iter().map(|(m, f)| (m, f * d)).collect(), c * d))
                } else {
                    Err("a product of coordinates".into())
                }
            }
        }
    }
}
/// (members, iterations besides one round, crossover, weight), seed, one in how
/// many trials is accepted (0: none), salt
type Symbolic = ((usize, usize, f32, f64), u64, u64, u64);

/// All donors of all trials, whatever the size of the population.
fn symbolic<const N: usize>(c: &Symbolic, ctx: &mut Ctx) -> Res {
    use symbol::Sym;
    let ((n, more, cr, f), seed, accept, salt) = *c;
    symbol::reset();
    let b = [(); N].map(|_| (symbol::constant(-3.0), symbol::constant(5.0)));
    let iters = n + more;
    let mut calls: Vec<([Sym; N], [Sym; N], bool)> = vec![];
    let mut s = salt;
    let f = f as f32 as f64;
    let w = symbol::constant(f);
    let mut rng = Gen::new(seed, false, 1 << 40);
    magnesia::optimize::differential_evolution(&b, n, cr, w, iters, &mut rng, |x, y| {
        let won = calls.len() < iters && accept > 0 && splitmix(&mut s) % accept == 0;
        calls.push((*x, *y, won));
        won
    });
    let what = format!("{N} dimensions, population {n}, F = {f}, CR = {cr}");
    ensure!(calls.len() >= iters, "{what}: {} comparisons in {iters} iterations", calls.len());
    let mut pop: Vec<[Sym; N]> = calls[..n].iter().map(|c| c.1).collect();
    let place: Vec<std::collections::HashMap<u32, usize>> = (0..N).map(|q| pop.iter().enumerate().map(|(i, x)| (x[q].node, i)).collect()).collect();
    let mut place = place;
    for q in 0..N {
        ensure!(place[q].len() == n, "{what}: {} different sampled coordinates {q}", place[q].len());
    }
    let bins = n.min(48);
    let mut role = vec![[0usize; 3]; bins];
    let mut wins = 0;
    let (mut replaced, mut sizes) = (0usize, 0usize);
    for (t, (x, y, won)) in calls[..iters].iter().enumerate() {
        let i = t % n;
        ensure!((0..N).all(|q| y[q].node == pop[i][q].node), "{what}: iteration {t} does not compare with member {i}");
        let mut donors: Option<[usize; 3]> = None;
        for q in (0..N).filter(|q| x[*q].node != y[*q].node) {
            let (l, c) = symbol::linear(x[q], &|node| place[q].get(&node).copied()).map_err(|e| format!("{what}: iteration {t}, member {i}, coordinate {q}: {e}"))?;
            let l: Vec<(usize, f64)> = l.into_iter().filter(|e| e.1 != 0.0).collect();
            let is = |v: f64| l.iter().find(|e| (e.1 - v).abs() < 1e-9).map(|e| e.0);
            let d = match (is(1.0), is(f), is(-f)) {
                (Some(j), Some(k), Some(m)) if l.len() == 3 && c == 0.0 && j != k => [j, k, m],
                _ => return Err(format!("{what}: iteration {t}, member {i}, coordinate {q} is {l:?} + {c}, no step")),
            };
            ensure!(!d.contains(&i), "{what}: iteration {t}: member {i} is one of its own donors {d:?}");
            ensure!(donors.is_none() || donors == Some(d), "{what}: iteration {t}, member {i}: donors {donors:?} and {d:?}");
            donors = Some(d);
            replaced += 1;
        }
        sizes += N - 1;
        let Some(d) = donors else { return Err(format!("{what}: iteration {t} changes nothing of member {i}")) };
        if cr == 1.0 {
            ensure!((0..N).all(|q| x[q].node != y[q].node), "{what}: iteration {t} keeps a coordinate of member {i}");
        }
        (0..3).for_each(|q| role[d[q] * bins / n][q] += 1);
        if *won {
            wins += 1;
            for q in 0..N {
                if x[q].node != y[q].node {
                    place[q].remove(&y[q].node);
                    place[q].insert(x[q].node, i);
                }
            }
            pop[i] = *x;
        }
    }
    ctx.nontrivial(true);
    ctx.class("with replacements", wins > 0);
    ctx.class("more than 1000 members", n > 1000);
    if n >= 5 && iters >= 50 * bins {
        for (m, r) in role.iter().enumerate() {
            for q in 0..3 {
                ensure!(r[q] > 0, "{what}: members {} to {} were never donor number {q} in {iters} trials", m * n / bins, (m + 1) * n / bins);
            }
        }
    }
    let (d, pr) = (sizes as f64, cr as f64);
    let got = (replaced - iters) as f64;
    ensure!((got - d * pr).abs() <= 7.0 * (d * pr * (1.0 - pr)).sqrt() + 12.0, "{what}: {got} coordinates besides the forced ones replaced, expected {:.0}", d * pr);
    Ok(())
}
/// Very small and very large crossover probabilities are not rounded.
fn extreme(c: &(f32, u64), ctx: &mut Ctx) -> Res {
    const N: usize = 500;
    let (cr, seed) = *c;
    let b = [(-1.0f32, 1.0f32); N];
    let iters = 40_000;
    let (mut t, mut count) = (0usize, 0usize);
    let mut rng = Gen::new(seed, false, 1 << 40);
    magnesia::optimize::differential_evolution(&b, 4, cr, 0.7, iters, &mut rng, |x, y| {
        if t < iters {
            count += (0..N).filter(|q| x[*q] != y[*q]).count();
        }
        t += 1;
        false
    });
    ctx.nontrivial(true);
    // a uniform f32 has 24 bits
    let (m, p) = ((iters * (N - 1)) as f64, cr as f64);
    let (lo, hi) = (m * p, m * (p + 6e-8).min(1.0));
    let sd = (hi * (1.0 - p)).sqrt();
    // a step can round to the same coordinate
    let same = m * 1e-6;
    let got = count as f64 - iters as f64;
    ensure!(got >= lo - 7.0 * sd - 12.0 - same && got <= hi + 7.0 * sd + 12.0, "CR = {cr:e}: {got} coordinates besides the forced ones replaced of {m}, expected {lo:.0}");
    Ok(())
}

fn main() {
    let mut c = Check::start("C27");
    let cr = || prop_oneof![Just(0.0f32), Just(1.0), 0.0f32..=1.0];
    let w = || prop_oneof![Just(0.0f64), Just(2.0), Just(1.0), 0.0f64..=2.0];
    let case = move |n: usize, r: usize| ((4..=n, 1..=r, cr(), w()), any::<u64>(), any::<bool>(), 0u8..5, any::<u64>());
    c.sub("steps, f64, 1 dimension", 1000, case(10, 6), check::<f64, 1>);
    c.sub("steps, f64, 2 dimensions", 1500, case(10, 8), check::<f64, 2>);
    c.sub("steps, f64, 3 dimensions", 1500, case(10, 8), check::<f64, 3>);
    c.sub("steps, f64, 8 dimensions", 500, case(9, 5), check::<f64, 8>);
    c.sub("steps, f64, 20 dimensions", 150, case(8, 4), check::<f64, 20>);
    c.sub("steps, f32, 2 dimensions", 1000, case(10, 6), check::<f32, 2>);
    c.sub("steps, f32, 4 dimensions", 500, case(10, 6), check::<f32, 4>);
    c.sub("steps, long runs", 100, case(7, 80), check::<f64, 2>);
    c.sweep("steps, larger populations", 1, (11..=40usize).chain([50, 63, 64, 65, 70]).map(|n| ((Just(n), 1..=2usize, cr(), w()), any::<u64>(), any::<bool>(), 0u8..5, any::<u64>())), check::<f64, 3>);
    c.sweep("donors of every role", 3, (4..=24usize).map(|n| (Just(n), any::<u64>(), any::<u64>(), Just(false))), donors);
    c.sweep("donors of every role, larger populations", 1, [31usize, 32, 33, 48, 64, 65].into_iter().map(|n| (Just(n), any::<u64>(), any::<u64>(), Just(false))), donors);
    c.sweep("donors of every role after many replacements", 2, (4..=20usize).chain([33]).map(|n| (Just(n), any::<u64>(), any::<u64>(), Just(true))), donors);
    let p = || prop_oneof![Just(0.0f32), Just(1.0), Just(0.5), Just(0.25), 0.0f32..=1.0];
    c.sub("crossover, 1 dimension", 40, (p(), any::<u64>(), (4..=12usize, Just(false)), any::<u64>()), crossover::<1>);
    c.sub("crossover, 2 dimensions", 150, (p(), any::<u64>(), (4..=12usize, Just(false)), any::<u64>()), crossover::<2>);
    c.sub("crossover, 3 dimensions", 150, (p(), any::<u64>(), (4..=40usize, Just(false)), any::<u64>()), crossover::<3>);
    c.sub("crossover, 5 dimensions", 100, (p(), any::<u64>(), (4..=12usize, Just(false)), any::<u64>()), crossover::<5>);
    c.sub("crossover, 12 dimensions", 60, (p(), any::<u64>(), (4..=12usize, Just(false)), any::<u64>()), crossover::<12>);
    c.sweep("donors of every role, many members", 1, [100usize, 127, 128, 129, 200, 255, 256, 257, 300, 400].into_iter().map(|n| (Just(n), any::<u64>(), any::<u64>())), donors_many);
    c.sweep("first donors of very many members", 1, [500usize, 512, 1000, 1024, 1025, 2000, 4097, 10_000, 33_000, 70_000].into_iter().map(|n| (Just(n), any::<u64>(), any::<u64>())), first_donors);
    let small = || prop_oneof![Just(0.001f32), Just(0.999), Just(0.003), Just(0.5), 0.0f32..=0.01, 0.0f32..=1.0];
    c.sub("crossover, 24 dimensions", 25, (small(), any::<u64>(), (4..=12usize, Just(false)), any::<u64>()), crossover::<24>);
    c.sub("crossover, 40 dimensions", 25, (small(), any::<u64>(), (4..=12usize, Just(false)), any::<u64>()), crossover::<40>);
    c.sub("crossover, 70 dimensions", 25, (small(), any::<u64>(), (4..=12usize, Just(false)), any::<u64>()), crossover::<70>);
    c.sub("crossover, 130 dimensions", 6, (small(), any::<u64>(), (4..=12usize, Just(false)), any::<u64>()), crossover::<130>);
    c.sub("crossover, 300 dimensions", 6, (prop_oneof![Just(0.0f32), small()], any::<u64>(), (4..=12usize, Just(false)), any::<u64>()), crossover::<300>);
    c.sub("steps, f64, 70 dimensions", 20, case(6, 4), check::<f64, 70>);
    c.sub("steps, f64, 300 dimensions", 10, case(6, 4), check::<f64, 300>);
    let rounds = |n: usize, i: usize| ((Just(n), Just(i / n + 1), cr(), w()), any::<u64>(), any::<bool>(), prop_oneof![Just(0u8), Just(5u8)], any::<u64>());
    c.sweep("steps, very many iterations", 1, [(4usize, 70_003usize), (5, 70_003), (6, 131_073), (4, 300_003), (7, 70_003)].into_iter().map(|(n, i)| rounds(n, i)), check::<f64, 2>);
    let late = || (p(), any::<u64>(), (12..=24usize, Just(true)), any::<u64>());
    let sym = |n: BoxedStrategy<usize>, more: usize| ((n, 0..=more, prop_oneof![Just(1.0f32), 0.0f32..=1.0], 0.1f64..0.9), any::<u64>(), prop_oneof![Just(0u64), Just(2), Just(5), Just(50)], any::<u64>());
    c.sub("symbolic steps, 1 dimension", 300, sym((4usize..60).boxed(), 3000), symbolic::<1>);
    c.sub("symbolic steps, 3 dimensions", 300, sym((4usize..60).boxed(), 3000), symbolic::<3>);
    c.sub("symbolic steps, 10 dimensions", 60, sym((4usize..200).boxed(), 3000), symbolic::<10>);
    c.sub("symbolic steps, 150 dimensions", 8, sym((4usize..40).boxed(), 1000), symbolic::<150>);
    c.sub("symbolic steps, populations of any size", 40, sym(large(14).prop_map(|n| n.max(4)).boxed(), 6000), symbolic::<2>);
    c.sweep("symbolic steps, very many members", 1, [500usize, 1000, 1024, 1500, 2048, 3000, 4097, 10_000, 33_000, 66_000, 70_001, 140_000].into_iter().map(|n| ((Just(n), Just(6000usize), Just(1.0f32), 0.1f64..0.9), any::<u64>(), Just(3u64), any::<u64>())), symbolic::<2>);
    c.sweep("extreme crossover probabilities", 2, [1e-7f32, 1e-6, 3e-6, 1e-5, 1e-4, 1.0 - 1e-4, 1.0 - 1e-5, 1.0 - 3e-6].into_iter().map(|p| (Just(p), any::<u64>())), extreme);
    c.sub("crossover after many replacements, 2 dimensions", 60, late(), crossover::<2>);
    c.sub("crossover after many replacements, 4 dimensions", 60, late(), crossover::<4>);
    c.finish("monitored runs whose comparison gives arbitrary answers: the population is reconstructed from the calls and every trial is explained by three distinct donors, or not; roles of donors, forced coordinate and crossover fraction counted over thousands of trials (false alarm below 1e-10 per bound); non-trivial: some trial replaced its incumbent");
}
