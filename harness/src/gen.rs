//! Shared generators.
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

/// A finite "interesting" real: integers, simple fractions, uniform, log-uniform magnitudes, zero.
pub fn real(maxexp: i32) -> BoxedStrategy<f64> {
    prop_oneof![
        3 => (-20i32..=20).prop_map(|i| i as f64),
        2 => (-64i32..=64).prop_map(|i| i as f64 / 8.0),
        4 => -1.0f64..1.0,
        3 => -100.0f64..100.0,
        2 => (-1.0f64..1.0, -(maxexp)..=maxexp).prop_map(|(m, e)| m * 10f64.powi(e)),
        1 => Just(0.0),
    ]
    .boxed()
}

/// Round to f32 and back when `single`.
pub fn rnd(single: bool, v: f64) -> f64 {
    if single {
        v as f32 as f64
    } else {
        v
    }
}

/// Log-uniform positive value in [lo, hi].
pub fn logu(lo: f64, hi: f64) -> BoxedStrategy<f64> {
    (lo.ln()..hi.ln()).prop_map(f64::exp).boxed()
}

/// Lengths with emphasis on small ones, multiples of 4, powers of two and neighbours.
pub fn len(max: usize) -> BoxedStrategy<usize> {
    let cap = move |n: usize| n.min(max);
    prop_oneof![
        4 => (0usize..=12).prop_map(cap),
        4 => (0usize..=64).prop_map(cap),
        2 => (0usize..=40).prop_map(move |i| cap(4 * i)),
        2 => (1u32..=14, -1i64..=1).prop_map(move |(p, d)| cap(((1i64 << p) + d).max(0) as usize)),
        1 => 0usize..=max,
    ]
    .boxed()
}

/// A signal of a given length strategy: raw values, steps, impulses, sinusoids, constants, ramps.
pub fn signal(l: BoxedStrategy<usize>, maxexp: i32) -> BoxedStrategy<Vec<f64>> {
    l.prop_flat_map(move |n| {
        prop_oneof![
            6 => prop::collection::vec(real(maxexp), n),
            2 => prop::collection::vec((-1000i32..=1000).prop_map(|i| i as f64), n),
            1 => (real(maxexp), 0..=n).prop_map(move |(v, at)| {
                (0..n).map(|i| if i == at { v } else { 0.0 }).collect::<Vec<_>>()
            }),
            1 => real(maxexp).prop_map(move |v| vec![v; n]),
            1 => (0.0f64..3.2, 0.0f64..6.3, -100.0f64..100.0).prop_map(move |(w, ph, off)| {
                (0..n).map(|i| (w * i as f64 + ph).sin() * 10.0 + off).collect::<Vec<_>>()
            }),
            1 => (real(3), real(3)).prop_map(move |(a, b)| {
                (0..n).map(|i| a + b * i as f64).collect::<Vec<_>>()
            }),
        ]
    })
    .boxed()
}

/// JSON has no NaN: it is written as null, and read back as NaN.
pub fn nan_or<'de, D: serde::Deserializer<'de>>(d: D) -> Result<f64, D::Error> {
    Ok(<Option<f64> as serde::Deserialize>::deserialize(d)?.unwrap_or(f64::NAN))
}

/// A long signal from a small description, so that cases stay readable: noise, plus a constant, a ramp and some plateaus.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Long {
    pub n: usize,
    pub seed: u64,
    pub offset: f64,
    pub slope: f64,
    /// values are multiples of this if positive
    pub quantum: f64,
}
impl Long {
    pub fn data(&self) -> Vec<f64> {
        let mut s = self.seed | 1;
        (0..self.n)
            .map(|i| {
                // splitmix64
                s = s.wrapping_add(0x9e3779b97f4a7c15);
                let mut z = s;
                z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
                z ^= z >> 31;
                let u = (z >> 11) as f64 / (1u64 << 52) as f64 - 1.0;
                let v = u + self.offset + self.slope * i as f64 / self.n as f64;
                if self.quantum > 0.0 {
                    (v / self.quantum).round() * self.quantum
                } else {
                    v
                }
            })
            .collect()
    }
}
/// Lengths on both sides of the limits of 16-bit counters and above.
pub fn long(max: usize) -> BoxedStrategy<Long> {
    let n = prop_oneof![
        2 => 10_000usize..max,
        1 => (-2i64..=2).prop_map(|d| (65_536 + d) as usize),
        1 => 65_536usize..(max.max(65_537)),
        1 => (-2i64..=2).prop_map(|d| (32_768 + d) as usize),
    ];
    (n, any::<u64>(), prop_oneof![2 => Just(0.0), 1 => -3.0f64..3.0], prop_oneof![2 => Just(0.0), 1 => -2.0f64..2.0], prop_oneof![3 => Just(0.0), 1 => Just(0.25), 1 => Just(0.001)])
        .prop_map(|(n, seed, offset, slope, quantum)| Long { n, seed, offset, slope, quantum })
        .boxed()
}

/// How far the amplitude of a case is moved away from around one, in percent of what the precision allows.
pub fn level() -> BoxedStrategy<i32> {
    prop_oneof![5 => Just(0i32), 1 => -100i32..=100, 1 => -30i32..=30].boxed()
}
/// The power of two a level stands for.
pub fn boost(single: bool, level: i32, max_single: i32, max_double: i32) -> f64 {
    2f64.powi(level * if single { max_single } else { max_double } / 100)
}
pub fn scaled(x: Vec<f64>, s: f64) -> Vec<f64> {
    x.into_iter().map(|v| v * s).collect()
}

/// Error-free sum of products (Dot2): as accurate as in twice the precision.
#[derive(Default, Clone, Copy)]
pub struct Acc {
    hi: f64,
    lo: f64,
}
impl Acc {
    pub fn add(&mut self, v: f64) {
        let s = self.hi + v;
        let b = s - self.hi;
        self.lo += (self.hi - (s - b)) + (v - b);
        self.hi = s;
    }
    pub fn mac(&mut self, a: f64, b: f64) {
        let p = a * b;
        self.lo += a.mul_add(b, -p);
        self.add(p);
    }
    pub fn get(self) -> f64 {
        self.hi + self.lo
    }
}

pub fn norm(x: &[f64]) -> f64 {
    let m = x.iter().fold(0.0f64, |a, b| a.max(b.abs()));
    if m == 0.0 {
        return 0.0;
    }
    m * x.iter().map(|v| (v / m) * (v / m)).sum::<f64>().sqrt()
}

/// An iterator over references whose size hint is correct, but not necessarily exact.
#[derive(Clone)]
pub struct Hinted<'a, T> {
    x: &'a [T],
    mode: u8,
}
impl<'a, T> Hinted<'a, T> {
    pub fn new(x: &'a [T], mode: u8) -> Self {
        Hinted { x, mode }
    }
}
impl<'a, T> Iterator for Hinted<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        let (a, b) = self.x.split_first()?;
        self.x = b;
        Some(a)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.x.len();
        match self.mode % 6 {
            0 => (n, Some(n)),
            // as of an unbounded range cut off by take_while
            5 => (0, Some(usize::MAX)),
            1 => (0, None),
            2 => (0, Some(n)),
            3 => (n / 2, Some(2 * n + 1)),
            _ => (n, None),
        }
    }
}
/// How a sequence is passed: 0 borrowed, 1 owned, 2 and above with one of the size hints.
pub fn way() -> BoxedStrategy<u8> {
    prop_oneof![2 => 0u8..2, 1 => 2u8..8].boxed()
}
pub fn way_of<'de, D: serde::Deserializer<'de>>(d: D) -> Result<u8, D::Error> {
    #[derive(serde::Deserialize)]
    #[serde(untagged)]
    enum E {
        B(bool),
        N(u8),
    }
    Ok(match <E as serde::Deserialize>::deserialize(d)? {
        E::B(b) => b as u8,
        E::N(n) => n,
    })
}
/// Call a function with a sequence passed in the given way.
#[macro_export]
macro_rules! passed {
    ($how:expr, $x:expr, |$i:ident| $e:expr) => {
        match $how {
            0 => { let $i = $x.iter(); $e }
            1 => { let $i = $x.iter().copied(); $e }
            k => { let $i = Hinted::new(&$x[..], k - 2); $e }
        }
    };
}
