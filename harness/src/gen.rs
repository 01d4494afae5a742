//! Generators. Every random choice is made by proptest strategies.

use crate::rings::pack;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

/// A small signed number with frequent special values.
pub fn lane() -> impl Strategy<Value = i16> + Clone {
    prop_oneof![
        4 => Just(0i16),
        3 => Just(1i16),
        2 => Just(-1i16),
        6 => -5i16..=5,
        4 => -100i16..=100,
        3 => any::<i16>(),
    ]
}

/// A generated element: zero, a "real" element, or one with four parts.
pub fn elem() -> impl Strategy<Value = i64> + Clone {
    prop_oneof![
        1 => Just(0i64),
        1 => Just(1i64),
        3 => lane().prop_map(|a| pack([a, 0, 0, 0])),
        1 => lane().prop_map(|a| pack([0, a, 0, 0])),
        7 => [lane(), lane(), lane(), lane()].prop_map(pack),
        3 => any::<i64>(),
    ]
}

pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// Expands a generated seed into `n` elements (for large values, where a
/// strategy per element would be too slow).
pub fn expand(seed: u64, mode: u8, n: usize) -> Vec<i64> {
    let mut s = seed;
    (0..n)
        .map(|i| {
            let x = splitmix(&mut s);
            match mode % 6 {
                0 => x as i64,
                1 => if x % 10 == 0 { (x >> 8) as i64 } else { 0 },
                2 => i as i64 + 1,
                3 => ((x >> 32) % 7) as i64 - 3,
                4 => pack([(x % 5) as i16 - 2, ((x >> 8) % 5) as i16 - 2, ((x >> 16) % 5) as i16 - 2, ((x >> 24) % 5) as i16 - 2]),
                _ => seed as i64,
            }
        })
        .collect()
}

/// `n` elements.
pub fn elems(n: usize) -> BoxedStrategy<Vec<i64>> {
    if n <= 36 {
        prop_oneof![
            6 => vec(elem(), n),
            2 => (any::<u64>(), 0u8..6).prop_map(move |(s, m)| expand(s, m, n)),
        ]
        .boxed()
    } else {
        (any::<u64>(), 0u8..6).prop_map(move |(s, m)| expand(s, m, n)).boxed()
    }
}

/// `n` elements, random ones only (all distinct with high probability).
pub fn elems_fast(n: usize) -> BoxedStrategy<Vec<i64>> {
    (any::<u64>(), 0u8..6).prop_map(move |(s, m)| expand(s, m, n)).boxed()
}

/// Mostly small sizes, sometimes larger ones up to `max`.
pub fn size(max: usize) -> BoxedStrategy<usize> {
    prop_oneof![
        10 => 0..=6usize.min(max),
        4 => 0..=20usize.min(max),
        1 => 0..=max,
    ]
    .boxed()
}

/// A matrix: rows, columns, row-major entries.
pub type RawMat = (usize, usize, Vec<i64>);
pub fn mat(max: usize) -> BoxedStrategy<RawMat> {
    (size(max), size(max)).prop_flat_map(|(r, c)| mat_of(r, c)).boxed()
}
pub fn mat_of(r: usize, c: usize) -> BoxedStrategy<RawMat> {
    elems(r * c).prop_map(move |d| (r, c, d)).boxed()
}
pub fn vecs(max: usize) -> BoxedStrategy<Vec<i64>> {
    size(max).prop_flat_map(elems).boxed()
}

/// Sizes beyond thresholds at which an implementation may change its method.
pub const HUGE: [usize; 7] = [65_537, 70_003, 131_073, 262_147, 524_289, 1_048_577, 1_100_003];
/// A seed and a mode for `expand`.
pub type Seed = (u64, u8);
pub fn seed() -> impl Strategy<Value = Seed> + Clone {
    (any::<u64>(), 0u8..6)
}
/// Sizes above those the other generators reach, evenly spread over the
/// orders of magnitude.
pub fn large(bits: u32) -> impl Strategy<Value = usize> + Clone {
    (8..bits, any::<u64>()).prop_map(|(b, x)| (1usize << b) + (x % (1 << b)) as usize)
}
/// A size of up to a few hundred, near a multiple of a power of two in half of
/// the cases.
pub fn medium() -> impl Strategy<Value = usize> + Clone {
    (0u32..9, any::<u32>(), 0u8..6, 3u32..8).prop_map(|(b, x, near, unit)| {
        let n = (1usize << b) + x as usize % (1 << b);
        let u = 1usize << unit;
        match near {
            0 => (n / u * u).max(1),
            1 => n / u * u + 1,
            2 => (n / u * u).max(2) - 1,
            _ => n,
        }
    })
}
/// Shapes of all proportions, odd and even, with up to `cap` entries or so.
pub fn rect(cap: usize) -> impl Strategy<Value = (usize, usize)> + Clone {
    (medium(), medium(), any::<bool>()).prop_map(move |(r, k, which)| {
        if r * k <= cap {
            (r, k)
        } else if which {
            ((cap / k).max(1), k)
        } else {
            (r, (cap / r).max(1))
        }
    })
}
