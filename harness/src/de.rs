//! Monitored runs of the optimiser.

use crate::gen::splitmix;
use crate::run::catch;
use magnesia::optimize::differential_evolution;
use rand_core::{Error, RngCore};
use std::fmt::Debug;

/// A deterministic generator. In spiky mode it sometimes gives short bursts of
/// extreme words. It gives up (panics) when far more words were drawn than any
/// run can need, so a search that never ends becomes a failure.
#[derive(Clone)]
pub struct Gen {
    state: u64,
    spiky: bool,
    burst: u32,
    word: u64,
    left: u64,
}
pub const ENDLESS: &str = "drew far more random words than the search can need";
impl Gen {
    /// The next word (to see how many were drawn).
    pub fn next_word(&mut self) -> u64 {
        self.next_u64()
    }
    pub fn new(seed: u64, spiky: bool, budget: u64) -> Gen {
        Gen { state: seed, spiky, burst: 0, word: 0, left: budget }
    }
}
impl RngCore for Gen {
    fn next_u64(&mut self) -> u64 {
        assert!(self.left > 0, "{}", ENDLESS);
        self.left -= 1;
        let x = splitmix(&mut self.state);
        if !self.spiky {
            return x;
        }
        if self.burst > 0 {
            self.burst -= 1;
            return self.word;
        }
        if x % 13 == 0 {
            self.burst = (x >> 8) as u32 % 7;
            self.word = match (x >> 16) % 4 {
                0 => 0,
                1 => u64::MAX,
                2 => 1 << 63,
                _ => splitmix(&mut self.state),
            };
            return self.word;
        }
        x
    }
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let w = self.next_u64().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

/// Coordinates of candidates.
pub trait Co:
    Copy + Debug + PartialOrd + rand::distributions::uniform::SampleUniform
    + std::ops::Add<Output = Self> + std::ops::Sub<Output = Self> + std::ops::Mul<Output = Self> + 'static
where
    f32: Into<Self>,
    i8: Into<Self>,
{
    const NAME: &'static str;
    const EPS: f64;
    fn to(self) -> f64;
    fn of(x: f64) -> Self;
    fn up(self) -> Self;
    fn bits(self) -> u64;
}
impl Co for f32 {
    const NAME: &'static str = "f32";
    const EPS: f64 = f32::EPSILON as f64;
    fn to(self) -> f64 { self as f64 }
    fn of(x: f64) -> f32 { x as f32 }
    fn up(self) -> f32 { self.next_up() }
    fn bits(self) -> u64 { (self + 0.0).to_bits() as u64 }
}
impl Co for f64 {
    const NAME: &'static str = "f64";
    const EPS: f64 = f64::EPSILON;
    fn to(self) -> f64 { self }
    fn of(x: f64) -> f64 { x }
    fn up(self) -> f64 { self.next_up() }
    fn bits(self) -> u64 { (self + 0.0).to_bits() }
}

/// What the comparison saw and what came out.
pub struct Run<T, const N: usize> {
    pub calls: Vec<([T; N], [T; N], bool)>,
    pub result: Result<[T; N], String>,
}
#[derive(Clone, Debug)]
pub struct Params<T> {
    pub pop: usize,
    pub cr: f32,
    pub f: T,
    pub iters: usize,
    pub seed: u64,
    pub spiky: bool,
}
pub fn run<T: Co, const N: usize>(
    bounds: &[(T, T); N],
    p: &Params<T>,
    mut better: impl FnMut(&[T; N], &[T; N]) -> bool,
) -> Run<T, N>
where
    f32: Into<T>,
    i8: Into<T>,
{
    let mut calls = vec![];
    let budget = 100_000 + 2000 * (p.pop as u64 + p.iters as u64) * (N as u64 + 3);
    let mut rng = Gen::new(p.seed, p.spiky, budget);
    let limit = 10 * (p.iters + p.pop) + 1000;
    let result = catch(|| {
        differential_evolution(bounds, p.pop, p.cr, p.f, p.iters, &mut rng, |a, b| {
            assert!(calls.len() < limit, "compared far more often than the search can need");
            let r = better(a, b);
            calls.push((*a, *b, r));
            r
        })
    });
    Run { calls, result }
}

/// Deterministic hash of a point.
pub fn hash_point<T: Co, const N: usize>(x: &[T; N], salt: u64) -> u64
where
    f32: Into<T>,
    i8: Into<T>,
{
    let mut s = salt;
    for c in x {
        s ^= c.bits();
        s = splitmix(&mut s);
    }
    s
}
/// Equality of points (the two zeros are equal).
pub fn same_point<T: Co, const N: usize>(x: &[T; N], y: &[T; N]) -> bool
where
    f32: Into<T>,
    i8: Into<T>,
{
    x.iter().zip(y).all(|(a, b)| a == b)
}
