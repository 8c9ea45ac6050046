//! C13-C14: convolution, correlation, Fourier resampling.
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use crate::p_sos::Flt;
use proptest::prelude::*;
use sci_rs::signal::convolve::{convolve, correlate, fftconvolve, ConvolveMode};
use sci_rs::signal::resample::resample;
use serde::{Deserialize, Serialize};

/// Full linear convolution by its definition.
fn direct(x: &[f64], y: &[f64]) -> Vec<f64> {
    let mut o = vec![Acc::default(); x.len() + y.len() - 1];
    for (i, a) in x.iter().enumerate() {
        for (j, b) in y.iter().enumerate() {
            o[i + j].mac(*a, *b);
        }
    }
    o.into_iter().map(Acc::get).collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ConvCase {
    single: bool,
    /// 0 fftconvolve, 1 convolve, 2 correlate
    f: u8,
    /// 0 full, 1 valid, 2 same
    mode: u8,
    x: Vec<f64>,
    y: Vec<f64>,
}

fn c13_t<F: Flt + rustfft::FftNum>(c: &ConvCase, cx: &mut Cx) -> R {
    if c.x.is_empty() || c.y.is_empty() {
        return Ok(());
    }
    let x: Vec<f64> = c.x.iter().map(|v| rnd(c.single, *v)).collect();
    let y: Vec<f64> = c.y.iter().map(|v| rnd(c.single, *v)).collect();
    let xf: Vec<F> = x.iter().map(|v| F::f(*v)).collect();
    let yf: Vec<F> = y.iter().map(|v| F::f(*v)).collect();
    let m = match c.mode {
        0 => ConvolveMode::Full,
        1 => ConvolveMode::Valid,
        _ => ConvolveMode::Same,
    };
    let got = must("convolution", || match c.f {
        0 => fftconvolve(&xf, &yf, m),
        1 => convolve(&xf, &yf, m),
        _ => correlate(&xf, &yf, m),
    })?;
    let mut yr = y.clone();
    if c.f == 2 {
        yr.reverse();
    }
    let full = direct(&x, &yr);
    let (n1, n2) = (x.len(), y.len());
    let want = match c.mode {
        0 => &full[..],
        1 => &full[n1.min(n2) - 1..n1.max(n2)],
        _ => &full[(n2 - 1) / 2..(n2 - 1) / 2 + n1],
    };
    ensure!(got.len() == want.len(), "{} samples instead of {} (mode {}, lengths {n1} and {n2})", got.len(), want.len(), c.mode);
    let nn = (full.len() as f64).log2().ceil();
    let tol = 8.0 * F::E * (nn + 3.0) * norm(&x) * norm(&y);
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        ensure!(cx.within((g.d() - w).abs(), tol), "sample {i} is {g:?}, the sum is {w} (tolerance {tol:e}; function {}, mode {}, lengths {n1} and {n2})", c.f, c.mode);
    }
    ensure!(xf.iter().zip(&x).all(|(a, b)| a.d() == *b) && yf.iter().zip(&y).all(|(a, b)| a.d() == *b), "an input was modified");
    cx.nt(n1.max(n2) > 1 && full.iter().any(|v| v.abs() > 100.0 * tol));
    cx.label(["full", "valid", "same"][c.mode as usize % 3]);
    cx.label(["fftconvolve", "convolve", "correlate"][c.f as usize % 3]);
    cx.label(if n1 < n2 { "first shorter" } else if n1 > n2 { "first longer" } else { "equal length" });
    cx.label(if c.single { "f32" } else { "f64" });
    if full.len().is_power_of_two() {
        cx.label("length is a power of two");
    }
    Ok(())
}
fn c13_check(c: &ConvCase, cx: &mut Cx) -> R {
    if c.single {
        c13_t::<f32>(c, cx)
    } else {
        c13_t::<f64>(c, cx)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongConv {
    single: bool,
    f: u8,
    mode: u8,
    x: Long,
    y: Long,
    /// where to look, as fractions of the result
    at: Vec<f64>,
}
/// Long inputs: the length, and the sum at some positions.
fn c13_long<F: Flt + rustfft::FftNum>(c: &LongConv, cx: &mut Cx) -> R {
    let r = |v: Vec<f64>| -> Vec<f64> { v.into_iter().map(|v| rnd(c.single, v)).collect() };
    let (x, y) = (r(c.x.data()), r(c.y.data()));
    let xf: Vec<F> = x.iter().map(|v| F::f(*v)).collect();
    let yf: Vec<F> = y.iter().map(|v| F::f(*v)).collect();
    let m = match c.mode {
        0 => ConvolveMode::Full,
        1 => ConvolveMode::Valid,
        _ => ConvolveMode::Same,
    };
    let got = must("convolution", || match c.f {
        0 => fftconvolve(&xf, &yf, m),
        1 => convolve(&xf, &yf, m),
        _ => correlate(&xf, &yf, m),
    })?;
    let mut yr = y.clone();
    if c.f == 2 {
        yr.reverse();
    }
    let (n1, n2) = (x.len(), y.len());
    let (from, count) = match c.mode {
        0 => (0, n1 + n2 - 1),
        1 => (n1.min(n2) - 1, n1.max(n2) - n1.min(n2) + 1),
        _ => ((n2 - 1) / 2, n1),
    };
    ensure!(got.len() == count, "{} samples instead of {count} (mode {}, lengths {n1} and {n2})", got.len(), c.mode);
    let tol = 8.0 * F::E * (((n1 + n2) as f64).log2().ceil() + 3.0) * norm(&x) * norm(&y);
    let mut pos: Vec<usize> = c.at.iter().map(|t| ((count as f64 * t) as usize).min(count - 1)).collect();
    pos.extend([0, count - 1, count / 2]);
    pos.extend([32767usize, 32768, 65535, 65536].iter().filter(|p| **p < count));
    let mut seen = false;
    for p in pos {
        let n = p + from;
        let mut s = Acc::default();
        for k in (n + 1).saturating_sub(n2)..=n.min(n1 - 1) {
            s.mac(x[k], yr[n - k]);
        }
        ensure!(cx.within((got[p].d() - s.get()).abs(), tol), "sample {p} of {count} is {:?}, the sum is {} (tolerance {tol:e}; function {}, mode {}, lengths {n1} and {n2})", got[p], s.get(), c.f, c.mode);
        seen |= s.get().abs() > 100.0 * tol;
    }
    cx.nt(seen);
    cx.label(["full", "valid", "same"][c.mode as usize % 3]);
    Ok(())
}

/// Pairs of lengths with sums at and around powers of two, one input of length 1, or free.
fn pair(max: usize) -> BoxedStrategy<(usize, usize)> {
    let pow = (1u32..=10, -1i64..=2, 0.0f64..1.0).prop_map(move |(p, d, r)| {
        let n = ((1i64 << p) + d).max(2) as usize;
        let a = 1 + ((n - 1) as f64 * r) as usize;
        (a.min(max), (n + 1 - a).clamp(1, max))
    });
    prop_oneof![
        4 => (1usize..12, 1usize..12),
        4 => (len(max), len(max)).prop_map(|(a, b)| (a.max(1), b.max(1))),
        3 => pow,
        1 => (0usize..12, 1500usize..6000, any::<bool>(), prop::bool::weighted(0.1)).prop_map(move |(a, b, sw, big)| {
            let (a, b) = (1 + a * 7, if big { b } else { b / 20 });
            if sw { (a, b) } else { (b, a) }
        }),
        1 => len(max).prop_map(|n| (1, n.max(1))),
        1 => len(max).prop_map(|n| (n.max(1), 1)),
    ]
    .boxed()
}

pub fn c13() -> Property {
    Property {
        id: "C13",
        subs: vec![sub(
            "convolve",
            "two signals, three functions, three modes, both precisions; non-trivial: at least two samples and a product sum well above the tolerance",
            30_000, 1_000_000,
            |t| (any::<bool>(), 0u8..3, 0u8..3, pair(if t { 1500 } else { 300 }))
                .prop_flat_map(|(single, f, mode, (a, b))| (signal(Just(a).boxed(), 4), signal(Just(b).boxed(), 4), level(), level())
                    .prop_map(move |(x, y, lx, ly)| ConvCase { single, f, mode, x: scaled(x, boost(single, lx, 30, 200)), y: scaled(y, boost(single, ly, 30, 200)) })),
            c13_check,
        ),
        sub(
            "long",
            "inputs of 10 000 to 140 000 samples, the second one sometimes short; the sums are formed at some 20 positions; non-trivial: a sum well above the tolerance",
            4, 500,
            |_| (any::<bool>(), 0u8..3, 0u8..3, long(140_000), long(100_000), prop::collection::vec(0.0f64..1.0, 12), prop::option::of(1usize..200), any::<bool>())
                .prop_map(|(single, f, mode, mut x, mut y, at, short, which)| {
                    if let Some(s) = short {
                        if which { x.n = s } else { y.n = s }
                    }
                    LongConv { single, f, mode, x, y, at }
                }),
            |c: &LongConv, cx: &mut Cx| if c.single { c13_long::<f32>(c, cx) } else { c13_long::<f64>(c, cx) },
        )],
        assumptions: vec!["non-empty inputs of finite values whose products stay within the exponent range", "error measured against the product of the Euclidean norms, the natural bound of an FFT convolution"],
    }
}

// ---------------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ResCase {
    single: bool,
    n: usize,
    m: usize,
    /// harmonic index selector in [0, 1), amplitude, phase
    comps: Vec<(f64, f64, f64)>,
    dc: f64,
}

/// cos(2*pi*(k*i mod n)/n + ph): the index product is reduced exactly.
fn harm(k: usize, i: usize, n: usize, ph: f64) -> f64 {
    let r = (k as u128 * i as u128 % n as u128) as f64 / n as f64;
    (2.0 * std::f64::consts::PI * r + ph).cos()
}

fn c14_harm<F: Flt + rustfft::FftNum>(c: &ResCase, cx: &mut Cx) -> R {
    let (n, m) = (c.n, c.m);
    if n == 0 || m == 0 {
        return Ok(());
    }
    let h = n.min(m) / 2;
    let mut x = vec![c.dc; n];
    let mut want = vec![c.dc; m];
    let mut amp = c.dc.abs();
    let (mut kept, mut removed) = (0, 0);
    for (s, a, ph) in &c.comps {
        // every index the sampling of x can hold without folding: 1 ..= (n-1)/2
        let top = (n - 1) / 2;
        if top == 0 {
            continue;
        }
        let k = 1 + ((top as f64 * s) as usize).min(top - 1);
        let keep = k < h;
        let gone = k > m / 2;
        if !keep && !gone {
            continue;
        }
        amp += a.abs();
        for (i, v) in x.iter_mut().enumerate() {
            *v += a * harm(k, i, n, *ph);
        }
        if keep {
            kept += 1;
            for (i, v) in want.iter_mut().enumerate() {
                *v += a * harm(k, i, m, *ph);
            }
        } else {
            removed += 1;
        }
    }
    let xf: Vec<F> = x.iter().map(|v| F::f(*v)).collect();
    let got = must("resample", || resample(&xf, m))?;
    ensure!(got.len() == m, "{} samples instead of {m}", got.len());
    let tol = 4.0 * F::E * ((n.max(m) as f64).log2() + 6.0) * amp * (n.max(m) as f64).sqrt();
    // (rounding of the transform can pile up in one sample: hence the square root of the length)
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        ensure!(cx.within((g.d() - w).abs(), tol), "resampling {n} -> {m}: sample {i} is {g:?}, expected {w} ({kept} components kept, {removed} removed, dc {})", c.dc);
    }
    cx.nt((kept > 0 || removed > 0) && amp > 0.0);
    cx.label(if n < m { "up" } else if n > m { "down" } else { "equal" });
    cx.label(format!("parity {}->{}", n % 2, m % 2));
    if removed > 0 {
        cx.label("removed components");
    }
    if kept > 0 {
        cx.label("kept components");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ResLin {
    single: bool,
    m: usize,
    a: f64,
    b: f64,
    x: Vec<f64>,
    y: Vec<f64>,
}
/// Linearity and identity for arbitrary signals (this reaches the bins the harmonic check leaves out).
fn c14_lin<F: Flt + rustfft::FftNum>(c: &ResLin, cx: &mut Cx) -> R {
    let n = c.x.len();
    if n == 0 || c.m == 0 || c.y.len() != n {
        return Ok(());
    }
    let x: Vec<F> = c.x.iter().map(|v| F::f(*v)).collect();
    let y: Vec<F> = c.y.iter().map(|v| F::f(*v)).collect();
    let (a, b) = (F::f(c.a), F::f(c.b));
    let z: Vec<F> = x.iter().zip(&y).map(|(p, q)| a * *p + b * *q).collect();
    let rx = must("resample", || resample(&x, c.m))?;
    let ry = must("resample", || resample(&y, c.m))?;
    let rz = must("resample", || resample(&z, c.m))?;
    ensure!(rx.len() == c.m && ry.len() == c.m && rz.len() == c.m, "lengths {} {} {}, expected {}", rx.len(), ry.len(), rz.len(), c.m);
    let xd: Vec<f64> = x.iter().map(|v| v.d()).collect();
    let yd: Vec<f64> = y.iter().map(|v| v.d()).collect();
    // the largest sample of the result is at most the l1 norm of the spectrum / n <= sqrt(n) * norm / n * ...
    let scale = (a.d().abs() * norm(&xd) + b.d().abs() * norm(&yd)).max(f64::MIN_POSITIVE);
    let lg = (n.max(c.m) as f64).log2() + 4.0;
    let floor = if F::SINGLE { 1e-36 } else { 1e-300 };
    let tol = 4.0 * F::E * lg * scale + floor;
    for i in 0..c.m {
        let w = a.d() * rx[i].d() + b.d() * ry[i].d();
        ensure!(cx.within((rz[i].d() - w).abs(), tol), "resampling {n} -> {} is not linear at {i}: {:?} instead of {w}", c.m, rz[i]);
    }
    if c.m == n && n % 2 == 0 {
        let tol = 4.0 * F::E * lg * norm(&xd) + floor;
        for i in 0..n {
            ensure!(cx.within((rx[i].d() - xd[i]).abs(), tol), "resampling an even length {n} to itself changes sample {i} from {} to {:?}", xd[i], rx[i]);
        }
        cx.label("identity");
    }
    // the mean is always kept
    let mean = |v: &[f64]| {
        let mut s = Acc::default();
        v.iter().for_each(|t| s.add(*t));
        s.get() / v.len() as f64
    };
    let rd: Vec<f64> = rx.iter().map(|v| v.d()).collect();
    let tol = 4.0 * F::E * lg * norm(&xd) + floor;
    let (m0, m1) = (mean(&xd), mean(&rd));
    ensure!(cx.within((m0 - m1).abs(), tol), "resampling {n} -> {} changes the mean from {m0} to {m1}", c.m);
    cx.nt(n > 1 && scale > 1e-300);
    cx.label(format!("parity {}->{}", n % 2, c.m % 2));
    Ok(())
}

fn reslen(max: usize) -> BoxedStrategy<usize> {
    const PRIMES: [usize; 12] = [2, 3, 5, 7, 11, 13, 31, 61, 97, 127, 211, 251];
    prop_oneof![
        3 => 1usize..16,
        3 => len(max).prop_map(|n| n.max(1)),
        2 => prop::sample::select(PRIMES.to_vec()),
        1 => (1usize..max / 10).prop_map(|n| 10 * n),
        1 => (1000usize..5000, prop::bool::weighted(0.05)).prop_map(|(n, big)| if big { n } else { n / 20 }),
    ]
    .boxed()
}
fn lenpair(max: usize) -> BoxedStrategy<(usize, usize)> {
    prop_oneof![
        6 => (reslen(max), reslen(max)),
        2 => reslen(max).prop_map(|n| (n, n)),
        2 => (reslen(max), -2i64..=2).prop_map(|(n, d)| (n, (n as i64 + d).max(1) as usize)),
        1 => (reslen(max / 4), 2usize..5).prop_map(|(n, k)| (n, n * k)),
        1 => (reslen(max / 4), 2usize..5).prop_map(|(n, k)| (n * k, n)),
    ]
    .boxed()
}

pub fn c14() -> Property {
    Property {
        id: "C14",
        subs: vec![
            sub(
                "harmonics",
                "a constant plus up to eight sinusoids of whole periods, source and target length; non-trivial: at least one sinusoid that must be kept or removed",
                40_000, 1_500_000,
                |t| (any::<bool>(), lenpair(if t { 3000 } else { 600 }),
                     prop::collection::vec((0.0f64..1.0, prop_oneof![0.1f64..2.0, -2.0f64..-0.1], 0.0f64..6.3), 0..8),
                     prop_oneof![2 => Just(0.0), 3 => -5.0f64..5.0], level())
                    .prop_map(|(single, (n, m), comps, dc, l)| {
                        let k = boost(single, l, 75, 600);
                        ResCase { single, n, m, comps: comps.into_iter().map(|(s, a, p)| (s, a * k, p)).collect(), dc: dc * k }
                    }),
                |c: &ResCase, cx: &mut Cx| if c.single { c14_harm::<f32>(c, cx) } else { c14_harm::<f64>(c, cx) },
            ),
            sub(
                "long",
                "as harmonics with source and target lengths of 10 000 to 200 000",
                4, 500,
                |_| (any::<bool>(), long(200_000), long(200_000), 0u8..4,
                     prop::collection::vec((0.0f64..1.0, prop_oneof![0.1f64..2.0, -2.0f64..-0.1], 0.0f64..6.3), 1..4), prop_oneof![1 => Just(0.0), 2 => -5.0f64..5.0])
                    .prop_map(|(single, n, m, short, comps, dc)| {
                        let (mut n, mut m) = (n.n, m.n);
                        match short { 0 => n = n / 97 + 2, 1 => m = m / 97 + 2, _ => {} }
                        // harmonics that survive even when the lengths differ a lot
                        let comps = comps.into_iter().enumerate().map(|(i, (s, a, p))| if i == 0 { (s * (m as f64 / n as f64).min(1.0), a, p) } else { (s, a, p) }).collect();
                        ResCase { single, n, m, comps, dc }
                    }),
                |c: &ResCase, cx: &mut Cx| if c.single { c14_harm::<f32>(c, cx) } else { c14_harm::<f64>(c, cx) },
            ),
            sub(
                "linear",
                "two arbitrary signals of one length, two factors, target length: superposition, mean, identity for equal even lengths; non-trivial: more than one sample and not all zero",
                25_000, 800_000,
                |t| (any::<bool>(), lenpair(if t { 2000 } else { 400 }), -4.0f64..4.0, -4.0f64..4.0)
                    .prop_flat_map(|(single, (n, m), a, b)| (signal(Just(n).boxed(), 3), signal(Just(n).boxed(), 3), level())
                        .prop_map(move |(x, y, l)| { let k = boost(single, l, 75, 600); ResLin { single, m, a, b, x: scaled(x, k), y: scaled(y, k) } })),
                |c: &ResLin, cx: &mut Cx| if c.single { c14_lin::<f32>(c, cx) } else { c14_lin::<f64>(c, cx) },
            ),
        ],
        assumptions: vec!["at least one source and one target sample", "components exactly at, or one below, half of the shorter length are not judged (documented odd/even simplification)"],
    }
}
