//! C16-C17: descriptive statistics, autocorrelation, RMS, successive differences.
use crate::core::*;
use crate::{ensure, passed};
use crate::gen::*;
use crate::p_sos::Flt;
use proptest::prelude::*;
use sci_rs::stats::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct StatCase {
    single: bool,
    /// iterate over references or over values
    #[serde(deserialize_with = "way_of")]
    owned: u8,
    x: Vec<f64>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongStat {
    single: bool,
    #[serde(deserialize_with = "way_of")]
    owned: u8,
    k: usize,
    x: Long,
}

/// Sum with an error of a rounding of the result.
fn total(it: impl Iterator<Item = f64>) -> f64 {
    let mut a = Acc::default();
    it.for_each(|v| a.add(v));
    a.get()
}

/// Results below this are affected by the end of the exponent range.
fn floor<F: Flt>() -> f64 {
    if F::SINGLE { 1e-36 } else { 1e-300 }
}
/// Squares and their sums stay within the exponent range.
fn in_range<F: Flt>(x: &[f64]) -> bool {
    let m = x.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    m * m * (x.len() as f64 + 1.0) < if F::SINGLE { 1e37 } else { 1e300 }
}

/// Reference moments of data exactly as the library sees it.
struct Mom {
    n: usize,
    mean: f64,
    var: f64,
    /// mean absolute value
    abs: f64,
    /// tolerances of mean and variance at the working precision
    tmean: f64,
    tvar: f64,
}
fn moments<F: Flt>(x: &[f64]) -> Mom {
    let n = x.len();
    let nf = n as f64;
    let mean = total(x.iter().copied()) / nf;
    let abs = total(x.iter().map(|v| v.abs())) / nf;
    // the mean itself carries a rounding error: correct for it
    let s1 = total(x.iter().map(|v| v - mean)) / nf;
    let mut q = Acc::default();
    x.iter().for_each(|v| q.mac(v - mean, v - mean));
    let var = (q.get() / nf - s1 * s1).max(0.0);
    let e = F::E * (nf + 2.0);
    Mom { n, mean, var, abs, tmean: 2.0 * e * abs + 2.0 * floor::<F>(), tvar: 4.0 * e * (var + var.sqrt() * abs) + (4.0 * e * abs).powi(2) + floor::<F>() }
}

fn med(x: &[f64]) -> (f64, f64, f64) {
    let mut s = x.to_vec();
    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let n = s.len();
    let (a, b) = (s[(n - 1) / 2], s[n / 2]);
    ((a / 2.0) + (b / 2.0), a, b)
}

fn c16_t<F: Flt>(c: &StatCase, cx: &mut Cx) -> R {
    let xf: Vec<F> = c.x.iter().map(|v| F::f(*v)).collect();
    let x: Vec<f64> = xf.iter().map(|v| v.d()).collect();
    let n = x.len();
    if !in_range::<F>(&x) {
        cx.label("range exceeded");
        return Ok(());
    }
    macro_rules! f {
        ($name:ident) => {
            must(stringify!($name), || passed!(c.owned, xf, |it| $name(it)))?
        };
    }
    let (mean, c1): (F, usize) = f!(mean);
    let (median, c2): (F, usize) = f!(median);
    let (var, c3): (F, usize) = f!(variance);
    let (sd, c4): (F, usize) = f!(stdev);
    let (mad, c5): (F, usize) = f!(median_abs_deviation);
    ensure!([c1, c2, c3, c4, c5] == [n; 5], "counts {:?} for {n} samples (mean, median, variance, stdev, mad)", [c1, c2, c3, c4, c5]);
    let z: Vec<F> = must("zscore", || passed!(c.owned, xf, |it| zscore(it).collect()))?;
    let mz: Vec<F> = must("mod_zscore", || passed!(c.owned, xf, |it| mod_zscore(it).collect()))?;
    ensure!(z.len() == n && mz.len() == n, "{} scores, {} modified scores for {n} samples", z.len(), mz.len());
    let got = [mean.d(), median.d(), var.d(), sd.d(), mad.d()];
    if n == 0 {
        ensure!(got == [0.0; 5], "statistics of an empty sequence are {got:?}");
        cx.nt(true);
        cx.label("empty");
        return Ok(());
    }
    if n == 1 {
        ensure!(got == [x[0], x[0], 0.0, 0.0, 0.0], "statistics of the single sample {} are {got:?}", x[0]);
        cx.label("single");
    }
    let m = moments::<F>(&x);
    ensure!(cx.within((got[0] - m.mean).abs(), m.tmean), "mean is {}, should be {} (tolerance {:e}, {n} samples)", got[0], m.mean, m.tmean);
    ensure!(cx.within((got[2] - m.var).abs(), m.tvar), "variance is {}, should be {} (tolerance {:e}, {n} samples)", got[2], m.var, m.tvar);
    let (lo, hi) = ((m.var - m.tvar).max(0.0).sqrt(), (m.var + m.tvar).sqrt());
    ensure!(got[3] >= lo * (1.0 - 4.0 * F::E) && got[3] <= hi * (1.0 + 4.0 * F::E), "standard deviation is {}, should be {} ({n} samples)", got[3], m.var.sqrt());
    // median: exact for odd counts, one rounding of the half sum otherwise
    let (md, a, b) = med(&x);
    let tmed = if n % 2 == 1 { 0.0 } else { F::E * (a.abs() + b.abs()) };
    ensure!(cx.within((got[1] - md).abs(), tmed), "median is {}, should be {md} ({n} samples)", got[1]);
    let dev: Vec<f64> = x.iter().map(|v| (v - md).abs()).collect();
    let (mdev, da, db) = med(&dev);
    let tmad = 2.0 * tmed + 4.0 * F::E * (da.abs() + db.abs());
    ensure!(cx.within((got[4] - mdev).abs(), tmad), "median absolute deviation is {}, should be {mdev} (tolerance {tmad:e}, {n} samples)", got[4]);
    if m.tvar < 0.05 * m.var {
        let s = m.var.sqrt();
        for (i, v) in x.iter().enumerate() {
            let w = (v - m.mean) / s;
            let t = (m.tmean + 2.0 * F::E * v.abs()) / s * 1.1 + w.abs() * (m.tvar / m.var + 4.0 * F::E);
            ensure!(cx.within((z[i].d() - w).abs(), t), "z-score {i} is {:?}, should be {w} (tolerance {t:e}, {n} samples)", z[i]);
        }
        cx.label("z-scores");
        cx.nt(true);
    }
    if tmad < 0.05 * mdev {
        for (i, v) in x.iter().enumerate() {
            let w = 0.6745 * (v - md) / mdev;
            let t = (tmed + 2.0 * F::E * (v - md).abs()) / mdev * 1.1 + w.abs() * (2.0 * tmad / mdev + 8.0 * F::E);
            ensure!(cx.within((mz[i].d() - w).abs(), t), "modified z-score {i} is {:?}, should be {w} (tolerance {t:e}, {n} samples)", mz[i]);
        }
        cx.label("modified z-scores");
        cx.nt(true);
    }
    cx.label(if n % 2 == 0 { "even count" } else { "odd count" });
    Ok(())
}

/// Sequences with structure: duplicates, big offsets, orders that matter for selection.
fn data(max: usize) -> BoxedStrategy<Vec<f64>> {
    let base = prop_oneof![
        4 => signal(len(max), 3),
        3 => (len(max), 1i32..6).prop_flat_map(|(n, k)| prop::collection::vec((-k..=k).prop_map(|v| v as f64), n)),
        3 => (len(max.min(64)), prop_oneof![Just(1e3), Just(1e5), Just(-1e6), Just(1e8)]).prop_flat_map(|(n, o)| prop::collection::vec((-1.0f64..1.0).prop_map(move |v| v + o), n)),
    ];
    (base, 0u8..8)
        .prop_map(|(mut v, how)| {
            match how {
                0 => v.sort_by(|a, b| a.partial_cmp(b).unwrap()),
                1 => v.sort_by(|a, b| b.partial_cmp(a).unwrap()),
                2 => {
                    // organ pipe
                    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    let k = v.len() / 2;
                    v[k..].reverse();
                }
                3 => {
                    let k = v.len();
                    for i in 0..k / 2 {
                        v[k - 1 - i] = v[i];
                    }
                }
                _ => {}
            }
            v
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct IntCase {
    ty: u8,
    x: Vec<i64>,
}
fn c16_int(c: &IntCase, cx: &mut Cx) -> R {
    macro_rules! go {
        ($t:ty) => {{
            let x: Vec<$t> = c.x.iter().map(|v| *v as $t).collect();
            let n = x.len();
            let mut s: Vec<i128> = x.iter().map(|v| *v as i128).collect();
            let sum: i128 = s.iter().sum();
            // partial sums of the mean, in order
            let mut part = 0i128;
            let mut fits = true;
            for v in &s {
                part += v;
                fits &= part >= <$t>::MIN as i128 && part <= <$t>::MAX as i128;
            }
            s.sort();
            if n == 0 {
                ensure!(must("median", || median(x.iter()))? == (0 as $t, 0), "median of nothing");
                ensure!(must("mean", || mean(x.iter()))? == (0 as $t, 0), "mean of nothing");
                return Ok(());
            }
            let (a, b) = (s[(n - 1) / 2], s[n / 2]);
            let (w, ok) = if n % 2 == 1 { (a, true) } else { ((a + b) / 2, a + b >= <$t>::MIN as i128 && a + b <= <$t>::MAX as i128) };
            if ok {
                let g = must("median", || median(x.iter()))?;
                ensure!(g == (w as $t, n), "median is {g:?}, should be ({w}, {n}) for {} {:?}", stringify!($t), &x[..n.min(40)]);
                let g = must("median", || median(x.iter().copied()))?;
                ensure!(g == (w as $t, n), "median is {g:?}, should be ({w}, {n}) for {} {:?}", stringify!($t), &x[..n.min(40)]);
                cx.nt(n > 2);
                cx.label(if n % 2 == 1 { "odd count" } else { "even count" });
                if a != b {
                    cx.label("two different middle values");
                }
            }
            if fits && (n as i128) <= <$t>::MAX as i128 {
                let g = must("mean", || mean(x.iter()))?;
                ensure!(g == ((sum / n as i128) as $t, n), "mean is {g:?}, should be ({}, {n})", sum / n as i128);
                cx.label("mean");
            }
        }};
    }
    cx.label(["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "i128"][c.ty as usize % 9]);
    match c.ty % 9 {
        0 => go!(i8),
        1 => go!(u8),
        2 => go!(i16),
        3 => go!(u16),
        4 => go!(i32),
        5 => go!(u32),
        6 => go!(i64),
        7 => {
            // keep unsigned 64-bit values within the signed half so that the JSON case is exact
            go!(u64)
        }
        _ => go!(i128),
    }
    Ok(())
}

/// More samples than a 24-bit mantissa counts, produced on the fly: small integers whose sums are exact.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Huge {
    n: usize,
    mul: u64,
    modulus: u64,
    shift: i64,
    f: u8,
}
fn c16_huge(c: &Huge, cx: &mut Cx) -> R {
    let m = c.modulus.max(2);
    let v = |i: u64| (i.wrapping_mul(c.mul) % m) as i64 - c.shift;
    let it = (0..c.n as u64).map(move |i| v(i) as f64);
    let (mut s1, mut s2) = (0i128, 0i128);
    for i in 0..c.n as u64 {
        let x = v(i) as i128;
        s1 += x;
        s2 += x * x;
    }
    let n = c.n as f64;
    let mean_w = s1 as f64 / n;
    let var_w = (s2 * c.n as i128 - s1 * s1) as f64 / n / n;
    match c.f {
        0 => {
            let g: (f64, usize) = must("mean", || mean(it.clone()))?;
            ensure!(g.1 == c.n && cx.within((g.0 - mean_w).abs(), n * f64::EPSILON * mean_w.abs()), "mean of {} samples is {g:?}, should be {mean_w}", c.n);
        }
        1 | 2 => {
            let g: (f64, usize) = must("variance", || if c.f == 1 { variance(it.clone()) } else { let (s, n) = stdev(it.clone()); (s * s, n) })?;
            ensure!(g.1 == c.n && cx.within((g.0 - var_w).abs(), 4.0 * n * f64::EPSILON * var_w), "variance of {} samples is {g:?}, should be {var_w}", c.n);
        }
        4 => {
            let k = c.mul as usize % 5 + 1;
            let mut q = Acc::default();
            (0..(c.n - k) as u64).for_each(|i| q.mac(v(i) as f64 - mean_w, v(i + k as u64) as f64 - mean_w));
            let w = q.get() / n / var_w;
            let g: f64 = must("autocorr", || autocorr(it.clone(), k))?;
            ensure!(var_w == 0.0 || cx.within((g - w).abs(), 8.0 * n * f64::EPSILON * (1.0 + w.abs())), "autocorrelation of {} samples at lag {k} is {g}, should be {w}", c.n);
        }
        _ => {
            let q: i128 = (1..c.n as u64).map(|i| ((v(i) - v(i - 1)) as i128).pow(2)).sum();
            let w = (q as f64 / (n - 1.0)).sqrt();
            let g: f64 = must("rmssd", || rmssd(it.clone()))?;
            ensure!(cx.within((g - w).abs(), n * f64::EPSILON * w), "RMSSD of {} samples is {g}, should be {w}", c.n);
        }
    }
    cx.nt(true);
    Ok(())
}
fn huge(f: std::ops::Range<u8>) -> BoxedStrategy<Huge> {
    (prop_oneof![2 => (0usize..200).prop_map(|d| (1 << 24) + 2 * d + 1), 1 => (1usize << 24)..(1 << 25)], any::<u64>().prop_map(|m| m >> 40 | 1), 2u64..40, 0i64..4, f)
        .prop_map(|(n, mul, modulus, shift, f)| Huge { n, mul, modulus, shift, f })
        .boxed()
}

/// Many samples with a regular shape, which selection algorithms are sensitive to.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shape {
    kind: u8,
    n: usize,
    /// turning point or period, as a share of the length in percent
    at: usize,
    single: bool,
    #[serde(deserialize_with = "way_of")]
    owned: u8,
    offset: i64,
}
impl Shape {
    fn data(&self, n: usize) -> Vec<f64> {
        let k = (n * self.at / 100).max(1);
        let mut v: Vec<i64> = (0..n)
            .map(|i| match self.kind % 8 {
                0 => i as i64,
                1 => -(i as i64),
                // V and its reverse
                2 => (i as i64 - k as i64).abs(),
                3 => -(i as i64 - k as i64).abs(),
                // repeated ramps
                4 => (i % k) as i64,
                // two interleaved ramps
                5 => if i % 2 == 0 { i as i64 } else { -(i as i64) },
                6 => (i / k) as i64,
                _ => 0,
            })
            .collect();
        if self.kind % 8 == 7 {
            // small at the middle of whatever is left once the smaller ones are gone
            let mut left: Vec<usize> = (0..n.min(3000)).collect();
            let mut j = 0;
            while !left.is_empty() {
                let m = (left.len() * self.at / 100).min(left.len() - 1);
                v[left.remove(m)] = j;
                j += 1;
            }
            (3000..n).for_each(|i| v[i] = i as i64);
        }
        v.into_iter().map(|v| (v + self.offset) as f64 * 0.5).collect()
    }
}
fn c16_shape(c: &Shape, cx: &mut Cx) -> R {
    cx.label(["ramp", "falling ramp", "V", "peak", "repeated ramps", "interleaved ramps", "steps", "eroding"][c.kind as usize % 8]);
    // a short version first: all that selection needs is some copies of the samples
    let small = c.n.min(3000);
    for n in [small, c.n] {
        let x = c.data(n);
        macro_rules! f {
            ($t:ty, $name:ident) => {{
                let xf: Vec<$t> = x.iter().map(|v| *v as $t).collect();
                let (_, held) = must(stringify!($name), || peak(|| passed!(c.owned, xf, |it| { let _: ($t, usize) = $name(it); })))?;
                ensure!(held <= 400 * n + 100_000, "{} of {n} samples holds {held} bytes", stringify!($name));
            }};
        }
        if c.single {
            f!(f32, median);
            f!(f32, median_abs_deviation);
        } else {
            f!(f64, median);
            f!(f64, median_abs_deviation);
        }
        let d = StatCase { single: c.single, owned: c.owned, x };
        if c.single {
            c16_t::<f32>(&d, cx)?
        } else {
            c16_t::<f64>(&d, cx)?
        }
    }
    cx.nt(c.n > 1000);
    Ok(())
}
fn shape() -> BoxedStrategy<Shape> {
    let n = prop_oneof![6 => 1000usize..6000, 1 => 20_000usize..100_000];
    (0u8..8, n, 1usize..=99, any::<bool>(), way(), prop_oneof![3 => Just(0i64), 1 => -5000i64..5000])
        .prop_flat_map(|(kind, n, at, single, owned, offset)| prop_oneof![Just(50usize), Just(at)].prop_map(move |at| Shape { kind, n, at, single, owned, offset }))
        .boxed()
}

pub fn c16() -> Property {
    Property {
        id: "C16",
        subs: vec![
            sub(
                "floats",
                "sequences (arbitrary, few distinct values, large offsets; random, sorted, reversed, organ-pipe or mirrored order), both precisions; non-trivial: the spread is resolved, so that the scores are judged too, or the sequence is empty",
                30_000, 800_000,
                |t| (any::<bool>(), way(), data(if t { 3000 } else { 400 }), level()).prop_map(|(single, owned, x, l)| StatCase { single, owned, x: scaled(x, boost(single, l, 36, 450)) }),
                |c: &StatCase, cx: &mut Cx| if c.single { c16_t::<f32>(c, cx) } else { c16_t::<f64>(c, cx) },
            ),
            sub(
                "long",
                "as floats with 10 000 to 200 000 samples; non-trivial as floats",
                4, 500,
                |_| (any::<bool>(), way(), long(200_000)).prop_map(|(single, owned, x)| LongStat { single, owned, k: 0, x }),
                |c: &LongStat, cx: &mut Cx| { let d = StatCase { single: c.single, owned: c.owned, x: c.x.data() }; if c.single { c16_t::<f32>(&d, cx) } else { c16_t::<f64>(&d, cx) } },
            ),
            sub(
                "shapes",
                "1 000 to 100 000 samples in ramps, V shapes, peaks, sawtooths, steps, interleaved ramps and orders that wear a fixed pivot position down, whole statistics and the memory that the medians hold (400 bytes per sample allowed); non-trivial: more than 1 000 samples",
                400, 8_000,
                |_| shape(),
                c16_shape,
            ),
            sub(
                "huge",
                "16.8 to 33.5 million small integers as f64, produced on the fly: mean, variance and standard deviation against exact sums; every case is non-trivial",
                16, 160,
                |_| huge(0..3),
                c16_huge,
            ),
            sub(
                "integers",
                "sequences of nine integer types; non-trivial: more than two samples with a representable half sum",
                40_000, 800_000,
                |t| (0u8..9, len(if t { 2000 } else { 200 }), prop_oneof![Just(2i64), Just(5), Just(60), Just(1000), Just(1 << 30), Just(1 << 40), Just(1 << 61)])
                    .prop_flat_map(|(ty, n, k)| (prop::collection::vec(-k..=k, n), 0u8..4).prop_map(move |(mut x, how)| {
                        match how { 0 => x.sort(), 1 => { x.sort(); x.reverse() } _ => {} }
                        IntCase { ty, x }
                    })),
                c16_int,
            ),
        ],
        assumptions: vec!["finite values", "integers: sums that the definition needs fit the type", "z-scores are judged where the spread exceeds the rounding of the data by a factor of 20"],
    }
}

// ---------------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LagCase {
    single: bool,
    #[serde(deserialize_with = "way_of")]
    owned: u8,
    k: usize,
    x: Vec<f64>,
}

fn c17_t<F: Flt>(c: &LagCase, cx: &mut Cx) -> R {
    let xf: Vec<F> = c.x.iter().map(|v| F::f(*v)).collect();
    let x: Vec<f64> = xf.iter().map(|v| v.d()).collect();
    let n = x.len();
    if !in_range::<F>(&x) {
        cx.label("range exceeded");
        return Ok(());
    }
    let d: Vec<F> = must("lag_diff", || passed!(c.owned, xf, |it| lag_diff::<_, F>(it).collect()))?;
    ensure!(d.len() == n.saturating_sub(1), "{} differences of {n} samples", d.len());
    for i in 0..d.len() {
        let w = xf[i + 1] - xf[i];
        ensure!((d[i].d() - w.d()).abs() <= F::E * w.d().abs(), "difference {i} is {:?}, should be {w:?}", d[i]);
    }
    let r: F = must("rmssd", || passed!(c.owned, xf, |it| rmssd(it)))?;
    if n >= 2 {
        let mut q = Acc::default();
        x.windows(2).for_each(|w| q.mac(w[1] - w[0], w[1] - w[0]));
        let w = (q.get() / (n - 1) as f64).sqrt();
        let t = F::E * (n as f64 + 8.0) * w + (floor::<F>() / w.max(f64::MIN_POSITIVE)).min(floor::<F>().sqrt());
        ensure!(cx.within((r.d() - w).abs(), t), "RMSSD is {r:?}, should be {w} ({n} samples)");
        cx.nt(w > 0.0);
    } else {
        ensure!(r.d() == 0.0, "RMSSD of {n} samples is {r:?}");
    }
    if n >= 1 {
        let m = moments::<F>(&x);
        if m.tvar < 1e-3 * m.var {
            let g: F = must("autocorr", || passed!(c.owned, xf, |it| autocorr(it, c.k)))?;
            let mut q = Acc::default();
            let mut ab = 0.0;
            for i in 0..n.saturating_sub(c.k) {
                q.mac(x[i] - m.mean, x[i + c.k] - m.mean);
                ab += ((x[i] - m.mean) * (x[i + c.k] - m.mean)).abs();
            }
            let w = q.get() / m.n as f64 / m.var;
            let rel = m.tvar / m.var;
            let t = 4.0 * rel + 4.0 * F::E * (n as f64 + 4.0) * (1.0 + ab / m.n as f64 / m.var) + 4.0 * m.tmean * m.abs.min(m.var.sqrt()) / m.var;
            ensure!(cx.within((g.d() - w).abs(), t), "autocorrelation at lag {} of {n} samples is {g:?}, should be {w} (tolerance {t:e})", c.k);
            cx.nt(true);
            cx.label(if c.k >= n { "lag beyond the end" } else if c.k == 0 { "lag zero" } else { "lag" });
        }
    }
    cx.label(if c.single { "f32" } else { "f64" });
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FastCase {
    /// index into the table of instantiated sizes
    which: usize,
    x: Vec<f32>,
}

/// Everything about one instantiation of autocorr_fast32.
fn fast<const N: usize, const M: usize, const SKIP: usize>(src: &[f32], cx: &mut Cx) -> R {
    let mut y = [0f32; N];
    for (i, v) in y.iter_mut().enumerate() {
        *v = if src.is_empty() { i as f32 } else { src[i % src.len()] };
    }
    let before = y;
    let mut out = [f32::NAN; M];
    if N < M + SKIP {
        cx.nt(true);
        cx.label("too many lags");
        return rejects(&format!("{M} lags from {SKIP} of {N} samples"), || autocorr_fast32::<N, M, SKIP>(&mut y, &mut out));
    }
    let var = must("autocorr_fast32", || autocorr_fast32::<N, M, SKIP>(&mut y, &mut out))? as f64;
    let x: Vec<f64> = before.iter().map(|v| *v as f64).collect();
    if N == 0 || !in_range::<f32>(&x) {
        return Ok(());
    }
    let m = moments::<f32>(&x);
    let e = f32::EPSILON as f64;
    let tdev = m.tmean + e * x.iter().fold(0.0f64, |a, b| a.max((b - m.mean).abs()));
    for i in 0..N {
        let w = x[i] - m.mean;
        ensure!(cx.within((y[i] as f64 - w).abs(), tdev), "the input is left as {} at {i} instead of {w} (mean removed; N {N})", y[i]);
    }
    ensure!(cx.within((var - m.var).abs(), m.tvar), "returned variance {var}, should be {} (N {N})", m.var);
    for (j, g) in out.iter().enumerate() {
        let h = j + SKIP;
        let mut q = Acc::default();
        let mut ab = 0.0;
        for i in 0..N - h {
            let p = (x[i] - m.mean) * (x[i + h] - m.mean);
            q.add(p);
            ab += p.abs() + tdev * ((x[i] - m.mean).abs() + (x[i + h] - m.mean).abs() + tdev) / (e * (N as f64 + 4.0));
        }
        let t = 2.0 * e * (N as f64 + 4.0) * ab + floor::<f32>();
        ensure!(cx.within((*g as f64 - q.get()).abs(), t), "lag {h} of {N} samples (M {M}, SKIP {SKIP}): {g} instead of {} (tolerance {t:e})", q.get());
        if q.get().abs() > 4.0 * t {
            cx.nt(true);
        }
    }
    cx.label(format!("N mod 4 = {}", N % 4));
    Ok(())
}

fn rms<const N: usize>(src: &[f32], cx: &mut Cx) -> R {
    let mut y = [0f32; N];
    for (i, v) in y.iter_mut().enumerate() {
        *v = if src.is_empty() { i as f32 } else { src[i % src.len()] };
    }
    let g = must("rms_fast32", || rms_fast32::<N>(&y))? as f64;
    let mut q = Acc::default();
    y.iter().for_each(|v| q.mac(*v as f64, *v as f64));
    let w = (q.get() / N as f64).sqrt();
    if !in_range::<f32>(&y.map(|v| v as f64)) {
        return Ok(());
    }
    let fl = (floor::<f32>() / w.max(f64::MIN_POSITIVE)).min(floor::<f32>().sqrt());
    ensure!(cx.within((g - w).abs(), f32::EPSILON as f64 * (N as f64 + 4.0) * w + fl), "RMS of {N} samples is {g}, should be {w} ({:?})", &y[..N.min(20)]);
    cx.nt(w > 0.0);
    cx.label(format!("N mod 4 = {}", N % 4));
    Ok(())
}

macro_rules! table {
    ($f:ident; $(($($a:literal),*)),* $(,)?) => { [ $( $f::<$($a),*> as fn(&[f32], &mut Cx) -> R ),* ] };
}
const FAST: &[fn(&[f32], &mut Cx) -> R] = &table!(fast;
    (1, 1, 0), (1, 0, 1), (1, 1, 1), (2, 1, 0), (2, 1, 1), (2, 2, 0), (3, 3, 0), (3, 2, 1), (3, 1, 2), (4, 4, 0), (4, 3, 1), (4, 2, 0), (4, 3, 2),
    (5, 5, 0), (5, 4, 1), (5, 2, 3), (5, 0, 0), (6, 6, 0), (6, 5, 1), (6, 3, 2), (7, 7, 0), (7, 6, 1), (7, 3, 4), (7, 2, 1), (8, 8, 0), (8, 7, 1), (8, 4, 4), (8, 9, 0),
    (9, 9, 0), (9, 8, 1), (9, 5, 2), (10, 10, 0), (10, 7, 3), (11, 11, 0), (11, 4, 5), (12, 12, 0), (12, 6, 1), (13, 13, 0), (13, 12, 1), (13, 5, 6), (14, 14, 0), (15, 15, 0), (15, 14, 1),
    (16, 16, 0), (16, 10, 3), (17, 17, 0), (17, 16, 1), (18, 9, 9), (19, 19, 0), (20, 20, 0), (21, 20, 1), (22, 11, 5), (23, 23, 0), (31, 31, 0), (32, 31, 1), (33, 33, 0), (34, 20, 7), (35, 34, 1),
    (63, 63, 0), (64, 64, 0), (65, 32, 20), (66, 66, 0), (67, 66, 1), (100, 100, 0), (101, 50, 10), (127, 127, 0), (128, 100, 28), (130, 129, 1), (255, 20, 3), (257, 257, 0));
const RMS: &[fn(&[f32], &mut Cx) -> R] = &table!(rms;
    (1), (2), (3), (4), (5), (6), (7), (8), (9), (10), (11), (12), (13), (14), (15), (16), (17), (18), (19), (20), (21), (22), (23), (31), (32), (33), (34), (35), (63), (64), (65), (66), (67), (100), (101), (127), (128), (129), (255), (256), (257), (1001), (1024), (1026));

fn f32s(max: usize) -> BoxedStrategy<Vec<f32>> {
    (data(max), level()).prop_map(|(v, l)| v.into_iter().map(|x| (x * boost(true, l, 36, 0)) as f32).collect()).boxed()
}

pub fn c17() -> Property {
    Property {
        id: "C17",
        subs: vec![
            sub(
                "autocorr",
                "signals and lags (up to and beyond the length), both precisions: autocorr, lag_diff, rmssd; non-trivial: a resolved spread or successive difference",
                40_000, 800_000,
                |t| (any::<bool>(), way(), data(if t { 2000 } else { 300 }), level()).prop_flat_map(|(single, owned, x, l)| {
                    let n = x.len();
                    let x = scaled(x, boost(single, l, 36, 450));
                    prop_oneof![3 => 0usize..6, 3 => 0..=n, 1 => n.saturating_sub(2)..=n + 3].prop_map(move |k| LagCase { single, owned, k, x: x.clone() })
                }),
                |c: &LagCase, cx: &mut Cx| if c.single { c17_t::<f32>(c, cx) } else { c17_t::<f64>(c, cx) },
            ),
            sub(
                "long",
                "as autocorr with 10 000 to 200 000 samples; non-trivial as autocorr",
                4, 500,
                |_| (any::<bool>(), way(), long(200_000), prop_oneof![1 => 0usize..6, 1 => 65_500usize..65_600, 2 => 0usize..150_000]).prop_map(|(single, owned, x, k)| LongStat { single, owned, k, x }),
                |c: &LongStat, cx: &mut Cx| { let d = LagCase { single: c.single, owned: c.owned, k: c.k, x: c.x.data() }; if c.single { c17_t::<f32>(&d, cx) } else { c17_t::<f64>(&d, cx) } },
            ),
            sub(
                "huge",
                "16.8 to 33.5 million small integers as f64, produced on the fly: RMSSD and autocorrelation; every case is non-trivial",
                8, 160,
                |_| huge(3..5),
                c16_huge,
            ),
            sub(
                "autocorr-fast",
                "70 instantiations of (samples, lags, first lag) covering every residue modulo 4; non-trivial: a lagged sum well above the tolerance, or a rejected size",
                40_000, 600_000,
                |_| (0..FAST.len(), f32s(260)).prop_map(|(which, x)| FastCase { which, x }),
                |c: &FastCase, cx: &mut Cx| FAST[c.which % FAST.len()](&c.x, cx),
            ),
            sub(
                "rms-fast",
                "44 instantiations of the length; non-trivial: not all samples zero",
                30_000, 400_000,
                |_| (0..RMS.len(), f32s(300)).prop_map(|(which, x)| FastCase { which, x }),
                |c: &FastCase, cx: &mut Cx| RMS[c.which % RMS.len()](&c.x, cx),
            ),
        ],
        assumptions: vec!["finite values whose squares neither overflow nor underflow", "autocorrelation is judged where the variance is resolved at the working precision"],
    }
}
