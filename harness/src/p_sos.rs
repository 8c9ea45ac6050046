//! C01-C04: biquad cascades, streaming, steady state, forward-backward filtering.
use crate::core::*;
use crate::{ensure, passed};
use crate::gen::*;
use num_traits::Float;
use proptest::prelude::*;
use sci_rs::na::RealField;
use sci_rs::signal::filter::design::Sos;
use sci_rs::signal::filter::*;
use serde::{Deserialize, Serialize};

/// Precision abstraction over f32/f64.
pub trait Flt:
    RealField + Float + Copy + Default + std::iter::Sum + std::fmt::Debug + std::panic::RefUnwindSafe + 'static
{
    const E: f64;
    const SINGLE: bool;
    fn f(v: f64) -> Self;
    fn d(self) -> f64;
    fn fast(x: &[Self], sos: &mut [Sos<Self>]) -> Option<Vec<Self>>;
}
impl Flt for f64 {
    const E: f64 = f64::EPSILON;
    const SINGLE: bool = false;
    fn f(v: f64) -> f64 {
        v
    }
    fn d(self) -> f64 {
        self
    }
    fn fast(_: &[f64], _: &mut [Sos<f64>]) -> Option<Vec<f64>> {
        None
    }
}
impl Flt for f32 {
    const E: f64 = f32::EPSILON as f64;
    const SINGLE: bool = true;
    fn f(v: f64) -> f32 {
        v as f32
    }
    fn d(self) -> f64 {
        self as f64
    }
    fn fast(x: &[f32], sos: &mut [Sos<f32>]) -> Option<Vec<f32>> {
        let mut z = vec![f32::NAN; x.len()];
        sosfilt_fast32_st(x, sos, &mut z);
        Some(z)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sec {
    pub b: [f64; 3],
    pub a: [f64; 2],
    pub z: [f64; 2],
}

pub fn to_sos<F: Flt>(s: &[Sec]) -> Vec<Sos<F>> {
    s.iter()
        .map(|s| {
            let mut o = Sos::new(
                [F::f(s.b[0]), F::f(s.b[1]), F::f(s.b[2])],
                [F::f(1.0), F::f(s.a[0]), F::f(s.a[1])],
            );
            o.zi0 = F::f(s.z[0]);
            o.zi1 = F::f(s.z[1]);
            o
        })
        .collect()
}

/// What the library sees: the case rounded to the working precision.
fn round_secs(single: bool, s: &[Sec]) -> Vec<Sec> {
    s.iter()
        .map(|s| Sec { b: s.b.map(|v| rnd(single, v)), a: s.a.map(|v| rnd(single, v)), z: s.z.map(|v| rnd(single, v)) })
        .collect()
}

pub fn sec_strategy(stable: bool) -> BoxedStrategy<Sec> {
    let st = prop_oneof![2 => Just([0.0, 0.0]), 3 => (real(2), real(2)).prop_map(|(a, b)| [a, b])];
    let rad = prop_oneof![3 => 0.0f64..0.97, 1 => 0.9f64..0.995, 1 => Just(0.0)];
    let zero = prop_oneof![
        2 => Just((1.0f64, 0.0f64)), 2 => Just((1.0f64, std::f64::consts::PI)),
        4 => (0.0f64..1.6, 0.0f64..std::f64::consts::PI)];
    let pz = (rad, 0.0f64..std::f64::consts::PI, zero, 0.2f64..1.5, any::<bool>()).prop_map(|(r, th, (rz, tz), g, neg)| {
        let a = [-2.0 * r * th.cos(), r * r];
        let b = [1.0, -2.0 * rz * tz.cos(), rz * rz];
        let s: f64 = b.iter().map(|v| v.abs()).sum();
        // keep the cascade gain moderate: divide by the size of the numerator, times how close the poles are
        let gain = g / s * (1.0 - r).max(0.02) * (1.0 + r) * if neg { -1.0 } else { 1.0 };
        (b.map(|v| v * gain), a)
    });
    let realp = (-0.95f64..0.95, -0.95f64..0.95, -1.0f64..1.0, -1.0f64..1.0).prop_map(|(p, q, z, w)| {
        let g = (1.0 - p.abs()) * (1.0 - q.abs());
        ([g, -g * (z + w), g * z * w], [-(p + q), p * q])
    });
    let first = (-0.95f64..0.95, -1.0f64..1.0, 0.2f64..1.0).prop_map(|(p, z, g)| {
        let g = g * (1.0 - p.abs());
        ([g, -g * z, 0.0], [-p, 0.0])
    });
    // numerator and denominator of different degree, pure delays
    let mixed = (-0.95f64..0.95, -0.9f64..0.9, 0usize..6, 0usize..5, -1.0f64..1.0, 0.2f64..1.0).prop_map(|(p, q, shape, den, z, g)| {
        let g = g * (1.0 - p.abs()) * (1.0 - q.abs());
        let b = match shape {
            0 => [g, -g * z, 0.0],
            1 => [0.0, g, 0.0],
            2 => [0.0, 0.0, g],
            3 => [g, 0.0, 0.0],
            4 => [0.0, g, -g * z],
            _ => [g, 0.0, -g * z],
        };
        let a = match den {
            0 | 1 => [-(p + q), p * q],
            2 => [-p, 0.0],
            3 => [0.0, p * q],
            _ => [0.0, 0.0],
        };
        (b, a)
    });
    let fir = (-1.0f64..1.0, -1.0f64..1.0, -1.0f64..1.0).prop_map(|(a, b, c)| ([a, b, c], [0.0, 0.0]));
    let lattice = (-2i32..=2, -2i32..=2, -2i32..=2, prop_oneof![Just([0.0, 0.0]), Just([0.0, 1.0]), Just([1.0, 1.0]), Just([-1.0, 1.0]), Just([-1.0, 0.0]), Just([1.0, 0.0]), Just([0.0, -1.0])])
        .prop_map(|(b0, b1, b2, a)| ([b0 as f64 / 2.0, b1 as f64 / 2.0, b2 as f64 / 2.0], a));
    let ident = Just(([1.0, 0.0, 0.0], [0.0, 0.0]));
    let wild = (real(1), real(1), real(1), -0.45f64..0.45, -0.45f64..0.45).prop_map(|(b0, b1, b2, a1, a2)| ([b0, b1, b2], [a1, a2]));
    (prop_oneof![8 => pz, 2 => realp, 2 => first, 3 => mixed, 2 => fir, if stable { 0 } else { 2 } => lattice, 1 => ident, if stable { 0 } else { 1 } => wild], st)
        .prop_map(|((b, a), z)| Sec { b, a, z })
        .boxed()
}

pub fn n_secs() -> BoxedStrategy<usize> {
    prop_oneof![6 => 0usize..=6, 6 => 0usize..=26, 1 => 20usize..=40].boxed()
}

/// The stored states at another amplitude.
fn scale_states(secs: Vec<Sec>, k: f64) -> Vec<Sec> {
    secs.into_iter().map(|s| Sec { z: s.z.map(|v| v * k), ..s }).collect()
}

fn secs_strategy(stable: bool) -> BoxedStrategy<Vec<Sec>> {
    n_secs().prop_flat_map(move |n| prop::collection::vec(sec_strategy(stable), n)).boxed()
}

pub struct RefOut {
    pub y: Vec<f64>,
    pub state: Vec<[f64; 2]>,
    /// error bound of the cascade output and of each section's state
    pub err: f64,
    pub err_state: Vec<[f64; 2]>,
    pub finite: bool,
}

/// Reference cascade in f64 (textbook transposed direct form II) with an a-priori rounding-error
/// bound for evaluating it in a precision with unit roundoff `eps/2`, in any order of operations:
/// local rounding noise of each section times the L1 norm of the noise-to-output response.
pub fn sos_ref(secs: &[Sec], x: &[f64], eps: f64, zi_err: f64) -> RefOut {
    let n = secs.len();
    let len = x.len();
    let mut cur = x.to_vec();
    let mut state = vec![];
    let mut noise = vec![0.0f64; n];
    let mut big = x.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    for (i, s) in secs.iter().enumerate() {
        let (mut z0, mut z1) = (s.z[0], s.z[1]);
        let mut nu = z0.abs() + z1.abs();
        for v in cur.iter_mut() {
            let xin = *v;
            let y = s.b[0] * xin + z0;
            nu = nu.max(
                2.0 * ((s.b[0] * xin).abs() + z0.abs())
                    + 4.0 * ((s.b[1] * xin).abs() + (s.a[0] * y).abs() + z1.abs())
                    + 3.0 * ((s.b[2] * xin).abs() + (s.a[1] * y).abs()),
            );
            let t0 = s.b[1] * xin - s.a[0] * y + z1;
            z1 = s.b[2] * xin - s.a[1] * y;
            z0 = t0;
            big = big.max(nu).max(y.abs());
            *v = y;
        }
        noise[i] = nu * (eps + zi_err) + if eps > 1e-10 { 1e-37 } else { 1e-300 };
        state.push([z0, z1]);
    }
    // error bounds
    let mut err = vec![0.0f64; n];
    let m = len + 2;
    for j in 0..n {
        // impulse through 1/A_j
        let mut h = vec![0.0f64; m];
        let (mut y1, mut y2) = (0.0, 0.0);
        for (t, v) in h.iter_mut().enumerate() {
            let e = if t == 0 { 1.0 } else { 0.0 };
            let y = e - secs[j].a[0] * y1 - secs[j].a[1] * y2;
            y2 = y1;
            y1 = y;
            *v = y;
        }
        err[j] += noise[j] * h.iter().map(|v| v.abs()).sum::<f64>();
        for i in j + 1..n {
            let s = &secs[i];
            let (mut z0, mut z1) = (0.0, 0.0);
            let mut l1 = 0.0;
            for v in h.iter_mut() {
                let xin = *v;
                let y = s.b[0] * xin + z0;
                z0 = s.b[1] * xin - s.a[0] * y + z1;
                z1 = s.b[2] * xin - s.a[1] * y;
                *v = y;
                l1 += y.abs();
            }
            err[i] += noise[j] * l1;
        }
    }
    let err_state = (0..n)
        .map(|i| {
            let ex = if i == 0 { 0.0 } else { err[i - 1] };
            let e0 = err[i] + secs[i].b[0].abs() * ex + noise[i];
            let e1 = e0 + secs[i].b[1].abs() * ex + secs[i].a[0].abs() * err[i] + noise[i];
            [4.0 * e0, 4.0 * e1]
        })
        .collect();
    let lim = if eps > 1e-10 { 1e36 } else { 1e290 };
    let e = err.last().copied().unwrap_or(0.0) * 4.0;
    let finite = big < lim && e < lim;
    RefOut { y: cur, state, err: e, err_state, finite }
}

pub const ENTRIES: u8 = 18;
/// All ways of filtering a slice with sections.
pub fn run_entry<F: Flt>(entry: u8, x: &[F], sos: &mut [Sos<F>]) -> Vec<F> {
    match entry {
        0 => sosfilt_dyn(x.iter(), sos),
        1 => sosfilt_dyn(x.iter().copied(), sos),
        2 => sosfilt_dyn(x.iter().filter(|_| true), sos),
        3 => sosfilt_dyn(x, sos),
        4 => sosfilt_st(x.iter(), sos).collect(),
        5 => sosfilt_st(x.to_vec(), sos).collect(),
        6 => x.iter().map(|v| sosfilt_item(*v, sos)).collect(),
        7 => x.iter().map(|v| sosfilt_item(v, sos)).collect(),
        8 => {
            // lazily, pulled one by one
            let mut it = sosfilt_st(x.iter(), sos);
            let mut out = vec![];
            while let Some(v) = it.next() {
                out.push(v);
            }
            out
        }
        9 => match F::fast(x, sos) {
            Some(v) => v,
            None => sosfilt_dyn(x.to_vec(), sos),
        },
        // inexact size hints
        10..=14 => sosfilt_dyn(Hinted::new(x, entry - 9), sos),
        _ => sosfilt_st(Hinted::new(x, entry), sos).collect(),
    }
}

pub fn coeffs_untouched<F: Flt>(secs: &[Sec], sos: &[Sos<F>]) -> R {
    ensure!(secs.len() == sos.len(), "number of sections changed");
    for (i, (s, o)) in secs.iter().zip(sos).enumerate() {
        let ok = (0..3).all(|k| o.b[k].d() == s.b[k]) && o.a[0].d() == 1.0 && (0..2).all(|k| o.a[k + 1].d() == s.a[k]);
        ensure!(ok, "coefficients of section {i} changed: {:?} vs {:?}", o, s);
    }
    Ok(())
}

fn cmp_out(what: &str, got: &[f64], want: &[f64], err: f64) -> R {
    ensure!(got.len() == want.len(), "{what}: {} outputs for {} inputs", got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        ensure!((g - w).abs() <= err, "{what}: y[{i}] = {g:e}, expected {w:e} (tolerance {err:e})");
    }
    Ok(())
}

fn cmp_state<F: Flt>(what: &str, sos: &[Sos<F>], r: &RefOut) -> R {
    for (i, o) in sos.iter().enumerate() {
        let (w, e) = (r.state[i], r.err_state[i]);
        ensure!(
            (o.zi0.d() - w[0]).abs() <= e[0] && (o.zi1.d() - w[1]).abs() <= e[1],
            "{what}: state of section {i} is ({:e}, {:e}), expected ({:e}, {:e}) (tolerance {:e}, {:e})",
            o.zi0.d(), o.zi1.d(), w[0], w[1], e[0], e[1]
        );
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Casc {
    single: bool,
    entry: u8,
    secs: Vec<Sec>,
    x: Vec<f64>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongCasc {
    single: bool,
    entry: u8,
    secs: Vec<Sec>,
    x: Long,
}

fn c01_check_t<F: Flt>(c: &Casc, cx: &mut Cx) -> R {
    let secs = round_secs(F::SINGLE, &c.secs);
    let x: Vec<f64> = c.x.iter().map(|v| rnd(F::SINGLE, *v)).collect();
    let r = sos_ref(&secs, &x, F::E, 0.0);
    if !r.finite {
        cx.label("range exceeded");
        return Ok(());
    }
    let xs: Vec<F> = x.iter().map(|v| F::f(*v)).collect();
    let mut sos = to_sos::<F>(&secs);
    let y = must("filter", || run_entry(c.entry, &xs, &mut sos))?;
    let yd: Vec<f64> = y.iter().map(|v| v.d()).collect();
    cmp_out("output", &yd, &r.y, r.err)?;
    cmp_state("final", &sos, &r)?;
    coeffs_untouched(&secs, &sos)?;
    // the rule: the signal and the cascade do something, and the tolerance is small against the output
    let peak = r.y.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    cx.nt(!secs.is_empty() && x.len() > 2 && r.err < 1e-3 * peak);
    cx.label(format!("entry {}{}", c.entry, if F::SINGLE { " f32" } else { " f64" }));
    cx.label(format!("sections {}", match secs.len() { 0 => "0".into(), n if n <= 20 => format!("{n:02}"), _ => ">20".into() }));
    cx.label(format!("len%4={}", x.len() % 4));
    if x.len() > 1000 {
        cx.label("long");
    }
    Ok(())
}

fn c01_check(c: &Casc, cx: &mut Cx) -> R {
    if c.single {
        c01_check_t::<f32>(c, cx)
    } else {
        c01_check_t::<f64>(c, cx)
    }
}

fn casc_strategy(maxlen: usize) -> BoxedStrategy<Casc> {
    (any::<bool>(), 0..ENTRIES, secs_strategy(false), signal(len(maxlen), 4), level())
        .prop_map(|(single, entry, secs, x, l)| {
            let k = boost(single, l, 75, 600);
            Casc { single, entry, secs: scale_states(secs, k), x: scaled(x, k) }
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct IntCase {
    ty: u8,
    secs: Vec<Sec>,
    x: Vec<i64>,
}

fn c01_int(c: &IntCase, cx: &mut Cx) -> R {
    let secs = round_secs(true, &c.secs);
    let mut sos = to_sos::<f32>(&secs);
    let mut z = vec![f32::NAN; c.x.len()];
    let conv: Vec<f64>;
    macro_rules! go {
        ($t:ty) => {{
            let xs: Vec<$t> = c.x.iter().map(|v| *v as $t).collect();
            conv = xs.iter().map(|v| *v as isize as f32 as f64).collect();
            must("integer filter", || sosfilt_ifast32_st(&xs, &mut sos, &mut z))?;
        }};
    }
    match c.ty {
        0 => go!(i8),
        1 => go!(i16),
        2 => go!(u8),
        _ => go!(isize),
    }
    let r = sos_ref(&secs, &conv, f32::E, 0.0);
    if !r.finite {
        cx.label("range exceeded");
        return Ok(());
    }
    let yd: Vec<f64> = z.iter().map(|v| *v as f64).collect();
    cmp_out("integer output", &yd, &r.y, r.err)?;
    cmp_state("integer final", &sos, &r)?;
    coeffs_untouched(&secs, &sos)?;
    let peak = r.y.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    cx.nt(!secs.is_empty() && conv.len() > 2 && r.err < 1e-3 * peak);
    cx.label(format!("type {}", ["i8", "i16", "u8", "isize"][c.ty.min(3) as usize]));
    cx.label(format!("sections {:02}", secs.len().min(21)));
    cx.label(format!("len%4={}", conv.len() % 4));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mismatch {
    n: usize,
    m: usize,
    secs: usize,
    int: bool,
}
fn c01_mismatch(c: &Mismatch, cx: &mut Cx) -> R {
    if c.n == c.m {
        return Ok(());
    }
    let mut sos = vec![Sos::new([1.0f32, 0.5, 0.25], [1.0, -0.5, 0.25]); c.secs];
    let mut z = vec![0.0f32; c.m];
    if c.int {
        rejects("mismatched output buffer", || sosfilt_ifast32_st(&vec![1i16; c.n], &mut sos, &mut z))?;
    } else {
        rejects("mismatched output buffer", || sosfilt_fast32_st(&vec![1f32; c.n], &mut sos, &mut z))?;
    }
    cx.nt(true);
    Ok(())
}

pub fn c01() -> Property {
    Property {
        id: "C01",
        subs: vec![
            sub("recurrence", "sections, states, signal and entry point generated; non-trivial: at least one section, more than 2 samples, tolerance below 0.1% of the output peak",
                12_000, 150_000, |t| casc_strategy(if t { 4000 } else { 700 }), c01_check),
            sub("long", "as recurrence with up to 6 sections and thousands of samples", 240, 4000,
                |_| (any::<bool>(), 0..ENTRIES, (0usize..=10).prop_flat_map(|n| prop::collection::vec(sec_strategy(false), n)), signal((2000usize..9000).boxed(), 3))
                    .prop_map(|(single, entry, secs, x)| Casc { single, entry, secs, x }), c01_check),
            sub("very_long", "up to four sections, tens of thousands of samples to beyond the range of 16-bit counters", 6, 300,
                |_| (any::<bool>(), 0..ENTRIES, prop::collection::vec(sec_strategy(true), 1..=4), long(140_000)).prop_map(|(single, entry, secs, x)| LongCasc { single, entry, secs, x }),
                |c: &LongCasc, cx: &mut Cx| c01_check(&Casc { single: c.single, entry: c.entry, secs: c.secs.clone(), x: c.x.data() }, cx)),
            sub("many_sections", "cascades of 40 to 700 sections on short signals", 40, 2000,
                |_| (any::<bool>(), 0..ENTRIES, (40usize..700).prop_flat_map(|n| (prop::collection::vec(sec_strategy(true), 1..9), Just(n))), signal((1usize..40).boxed(), 3))
                    .prop_map(|(single, entry, (base, n), x)| {
                        // passed-through sections with an occasional real one keep the signal alive
                        let id = Sec { b: [1.0, 0.0, 0.0], a: [0.0, 0.0], z: [0.0, 0.0] };
                        let secs = (0..n).map(|i| if (i * 7 + n) % 40 == 0 { base[i % base.len()].clone() } else { Sec { b: [id.b[0], 0.125 * ((i % 3) as f64 - 1.0), 0.0], a: [0.0625 * ((i % 5) as f64 - 2.0), 0.0], z: id.z } }).collect();
                        Casc { single, entry, secs, x }
                    }), c01_check),
            sub("integer_samples", "integer sample types; non-trivial as recurrence", 8_000, 80_000,
                |_| (0u8..4, secs_strategy(false), len(300).prop_flat_map(|n| prop::collection::vec(prop_oneof![-200i64..200, -40000i64..40000, any::<i32>().prop_map(|v| v as i64), (any::<i64>(), 0u32..40).prop_map(|(v, s)| v >> s)], n)))
                    .prop_map(|(ty, secs, x)| IntCase { ty, secs, x }), c01_int),
            sub("mismatch", "output buffer length differs from input length", 1500, 10_000,
                |_| (0usize..20, 0usize..20, 0usize..12, any::<bool>()).prop_map(|(n, m, secs, int)| Mismatch { n, m, secs, int }), c01_mismatch),
        ],
        assumptions: vec!["a0 = 1 in every section (documented section format)", "finite samples, coefficients and states that do not overflow the sample type"],
    }
}

// ---------------------------------------------------------------- C02

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Piece {
    /// filter the next n samples through an entry point
    Feed(u8, usize),
    /// open a lazy filter over the rest of the signal, pull k samples, drop it
    Lazy(usize),
    /// open a lazy filter over the next n samples, pull k <= n, then drop it: only k are consumed
    Partial(usize, usize),
    /// open and drop without pulling
    Touch,
    /// pull through an adaptor that skips: all samples passed over are filtered, only some are seen
    Nth(usize, usize),
    /// the lazy filter as an argument of another lazy filter over no sections, folded
    Fold(usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stream {
    single: bool,
    secs: Vec<Sec>,
    x: Vec<f64>,
    pieces: Vec<Piece>,
    /// after this many pieces a copy of the sections is kept; the tail is filtered again from it
    checkpoint: usize,
    tail_entry: u8,
}

fn c02_t<F: Flt>(c: &Stream, cx: &mut Cx) -> R {
    let secs = round_secs(F::SINGLE, &c.secs);
    let x: Vec<f64> = c.x.iter().map(|v| rnd(F::SINGLE, *v)).collect();
    let xs: Vec<F> = x.iter().map(|v| F::f(*v)).collect();
    let r = sos_ref(&secs, &x, F::E, 0.0);
    if !r.finite {
        cx.label("range exceeded");
        return Ok(());
    }
    let mut sos = to_sos::<F>(&secs);
    let mut out: Vec<f64> = vec![];
    let mut pos = 0usize;
    let mut saved: Option<(usize, Vec<Sos<F>>)> = None;
    let mut used = std::collections::BTreeSet::new();
    for (i, p) in c.pieces.iter().enumerate() {
        if i == c.checkpoint {
            saved = Some((pos, sos.clone()));
        }
        let left = xs.len() - pos;
        match p {
            Piece::Feed(e, n) => {
                let n = (*n).min(left);
                let y = must("filter", || run_entry(*e, &xs[pos..pos + n], &mut sos))?;
                ensure!(y.len() == n, "piece of {n} samples gave {} outputs", y.len());
                out.extend(y.iter().map(|v| v.d()));
                pos += n;
                used.insert(*e);
            }
            Piece::Lazy(k) => {
                let k = (*k).min(left);
                let y: Vec<F> = must("lazy filter", || sosfilt_st(xs[pos..].iter(), &mut sos).take(k).collect())?;
                ensure!(y.len() == k, "lazy filter gave {} of {k} outputs", y.len());
                out.extend(y.iter().map(|v| v.d()));
                pos += k;
                used.insert(100);
            }
            Piece::Partial(n, k) => {
                let n = (*n).min(left);
                let k = (*k).min(n);
                let y: Vec<F> = must("lazy filter", || {
                    let mut it = sosfilt_st(xs[pos..pos + n].to_vec(), &mut sos);
                    (0..k).filter_map(|_| it.next()).collect()
                })?;
                ensure!(y.len() == k, "lazy filter gave {} of {k} outputs", y.len());
                out.extend(y.iter().map(|v| v.d()));
                pos += k;
                used.insert(101);
            }
            Piece::Nth(n, step) => {
                let n = (*n).min(left);
                let step = *step + 1;
                let y: Vec<F> = must("lazy filter", || sosfilt_st(xs[pos..pos + n].iter(), &mut sos).step_by(step).collect())?;
                ensure!(y.len() == n.div_ceil(step), "lazy filter gave {} of {} outputs", y.len(), n.div_ceil(step));
                // step_by does not pull beyond the last item it yields unless it looks for another one
                let full = &r.y[pos..pos + n];
                for (j, v) in y.iter().enumerate() {
                    ensure!((v.d() - full[j * step]).abs() <= r.err, "skipping through the lazy filter: sample {} is {v:?}, expected {}", pos + j * step, full[j * step]);
                }
                out.extend_from_slice(full);
                pos += n;
                used.insert(102);
            }
            Piece::Fold(n) => {
                let n = (*n).min(left);
                let y = must("lazy filter", || {
                    let it = sosfilt_st(xs[pos..pos + n].iter(), &mut sos);
                    let (lo, hi) = it.size_hint();
                    let v = it.fold(vec![], |mut v: Vec<f64>, s| { v.push(s.d()); v });
                    (v, lo, hi)
                })?;
                ensure!(y.1 <= n && y.2.is_none_or(|h| h >= n), "size hint {:?} for {n} samples", (y.1, y.2));
                ensure!(y.0.len() == n, "lazy filter gave {} of {n} outputs", y.0.len());
                out.extend(y.0);
                pos += n;
                used.insert(103);
            }
            Piece::Touch => {
                must("lazy filter", || drop(sosfilt_st(xs[pos..].iter(), &mut sos)))?;
            }
        }
    }
    // rest in one go
    let y = must("filter", || run_entry(c.tail_entry, &xs[pos..], &mut sos))?;
    out.extend(y.iter().map(|v| v.d()));
    cmp_out("stream", &out, &r.y, r.err)?;
    cmp_state("after the stream", &sos, &r)?;
    coeffs_untouched(&secs, &sos)?;
    // the library's own one-shot result
    let mut one = to_sos::<F>(&secs);
    let y1 = must("one-shot filter", || run_entry(0, &xs, &mut one))?;
    for (i, (a, b)) in out.iter().zip(&y1).enumerate() {
        ensure!((a - b.d()).abs() <= 2.0 * r.err, "stream differs from one-shot at {i}: {a:e} vs {:e}", b.d());
    }
    if let Some((p, mut s)) = saved {
        let y = must("filter from a copy", || run_entry((c.tail_entry + 3) % ENTRIES, &xs[p..], &mut s))?;
        let y: Vec<f64> = y.iter().map(|v| v.d()).collect();
        cmp_out("restart from a copy", &y, &r.y[p..], r.err)?;
        cmp_state("after restart from a copy", &s, &r)?;
        cx.label("restarted from copy");
    }
    let peak = r.y.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    cx.nt(!secs.is_empty() && x.len() > 4 && c.pieces.len() >= 2 && r.err < 1e-3 * peak);
    cx.label(format!("distinct entry points {}", used.len().min(6)));
    cx.label(format!("pieces {}", c.pieces.len().min(9)));
    cx.label(format!("sections {:02}", secs.len().min(21)));
    Ok(())
}
fn c02_check(c: &Stream, cx: &mut Cx) -> R {
    if c.single {
        c02_t::<f32>(c, cx)
    } else {
        c02_t::<f64>(c, cx)
    }
}

pub fn c02() -> Property {
    fn pieces() -> BoxedStrategy<Vec<Piece>> {
        let n = || prop_oneof![3 => 0usize..=9, 2 => (0usize..=8).prop_map(|k| 4 * k), 1 => 0usize..=80];
        let p = prop_oneof![
            8 => (0..ENTRIES, n()).prop_map(|(e, n)| Piece::Feed(e, n)),
            2 => n().prop_map(Piece::Lazy),
            2 => (n(), n()).prop_map(|(a, b)| Piece::Partial(a, b)),
            1 => Just(Piece::Touch),
            1 => (n(), 0usize..6).prop_map(|(n, s)| Piece::Nth(n, s)),
            1 => n().prop_map(Piece::Fold),
        ];
        prop::collection::vec(p, 0..14).boxed()
    }
    Property {
        id: "C02",
        subs: vec![sub(
            "stream",
            "history of filter calls over consecutive pieces, mixed entry points, partially pulled lazy filters, copy and restart; non-trivial: at least one section, 5 samples, 2 calls, tolerance below 0.1% of peak",
            12_000, 200_000,
            |_| (any::<bool>(), secs_strategy(false), signal((0usize..260).boxed(), 4), pieces(), 0usize..14, 0..ENTRIES, level())
                .prop_map(|(single, secs, x, pieces, checkpoint, tail_entry, l)| {
                    let k = boost(single, l, 75, 600);
                    Stream { single, secs: scale_states(secs, k), x: scaled(x, k), pieces, checkpoint, tail_entry }
                }),
            c02_check,
        )],
        assumptions: vec!["a0 = 1 in every section", "finite values within range"],
    }
}

// ---------------------------------------------------------------- C03

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Zi {
    single: bool,
    b: Vec<f64>,
    a: Vec<f64>,
}

fn c03_lf_t<F: Flt>(c: &Zi, cx: &mut Cx) -> R {
    let b: Vec<f64> = c.b.iter().map(|v| rnd(F::SINGLE, *v)).collect();
    let a: Vec<f64> = c.a.iter().map(|v| rnd(F::SINGLE, *v)).collect();
    let m = b.len();
    let (sa, saa): (f64, f64) = (a.iter().sum(), a.iter().map(|v| v.abs()).sum());
    // as in SciPy, leading zeros of the denominator are dropped
    let lead = a.iter().take_while(|v| **v == 0.0).count();
    if lead == m || sa.abs() < 1e-4 * saa || (a[lead].abs() < 1e-6 * saa) {
        cx.label("pole at 1 or degenerate");
        return Ok(());
    }
    let bf: Vec<F> = b.iter().map(|v| F::f(*v)).collect();
    let af: Vec<F> = a.iter().map(|v| F::f(*v)).collect();
    let zi = must("lfilter_zi", || lfilter_zi_dyn(&bf, &af))?;
    ensure!(zi.len() == m - 1, "state has {} entries for {m} coefficients", zi.len());
    let zi: Vec<f64> = zi.iter().map(|v| v.d()).collect();
    // normalise
    let a0 = a[lead];
    let bn: Vec<f64> = b.iter().map(|v| v / a0).collect();
    let an: Vec<f64> = (0..m).map(|i| a.get(i + lead).map_or(0.0, |v| v / a0)).collect();
    let (ab, aa): (f64, f64) = (bn.iter().map(|v| v.abs()).sum(), an.iter().map(|v| v.abs()).sum());
    let y = bn[0] + zi[0];
    let san: f64 = an.iter().sum();
    let sbn: f64 = bn.iter().sum();
    let mag = ab + bn[0].abs() * aa + (zi[0].abs() + y.abs()) * aa;
    let tol = 16.0 * m as f64 * F::E * mag + if F::SINGLE { 1e-36 } else { 1e-300 };
    ensure!((y * san - sbn).abs() <= tol, "step output starts at {y:e}, not at the zero-frequency gain {:e} (residual {:e}, tolerance {tol:e})", sbn / san, y * san - sbn);
    for k in 0..m - 1 {
        let next = if k + 1 < m - 1 { zi[k + 1] } else { 0.0 };
        let res = next + bn[k + 1] - an[k + 1] * y - zi[k];
        ensure!(res.abs() <= tol, "state entry {k} is not stationary: {:e} becomes {:e} (tolerance {tol:e})", zi[k], zi[k] + res);
    }
    let scale = zi.iter().fold(y.abs(), |m, v| m.max(v.abs()));
    cx.nt(m >= 3 && scale > 1e3 * tol);
    cx.label(format!("taps {}", if m <= 4 { m.to_string() } else if m <= 12 { "5-12".into() } else { ">12".into() }));
    cx.label(if lead > 0 { "leading zeros" } else if a[0] == 1.0 { "a0 = 1" } else { "a0 != 1" });
    cx.label(if F::SINGLE { "f32" } else { "f64" });
    Ok(())
}
fn c03_lf(c: &Zi, cx: &mut Cx) -> R {
    if c.b.len() != c.a.len() || c.b.len() < 2 {
        return Ok(());
    }
    if c.single {
        c03_lf_t::<f32>(c, cx)
    } else {
        c03_lf_t::<f64>(c, cx)
    }
}

/// Steady state of each section for a unit step into the cascade, with an error bound on the level.
pub fn zi_ref(secs: &[Sec], eps: f64) -> Option<Vec<([f64; 2], f64)>> {
    let mut u = 1.0f64;
    let mut ue = 0.0f64;
    let mut out = vec![];
    for s in secs {
        let sa = 1.0 + s.a[0] + s.a[1];
        let saa = 1.0 + s.a[0].abs() + s.a[1].abs();
        let sb: f64 = s.b.iter().sum();
        let sbb: f64 = s.b.iter().map(|v| v.abs()).sum();
        if sa.abs() < 1e-5 * saa {
            return None;
        }
        let g = sb / sa;
        let y = g;
        // unit-input state
        let z1 = s.b[2] - s.a[1] * y;
        let z0 = s.b[1] - s.a[0] * y + z1;
        let ge = 8.0 * eps * (sbb + g.abs() * saa) / sa.abs();
        let ze = 16.0 * eps * (sbb + s.b[0].abs() * saa + (z0.abs() + y.abs()) * saa) + saa * ge + s.b[0].abs() * saa / sa.abs() * 8.0 * eps * saa;
        out.push(([u * z0, u * z1], u.abs() * ze + ue * (z0.abs() + z1.abs() + ze)));
        ue = ue * g.abs() + u.abs() * ge + 4.0 * eps * (u * g).abs();
        u *= g;
    }
    Some(out)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ZiSos {
    single: bool,
    secs: Vec<Sec>,
}
fn c03_sos_t<F: Flt>(c: &ZiSos, cx: &mut Cx) -> R {
    let secs = round_secs(F::SINGLE, &c.secs);
    let Some(z) = zi_ref(&secs, F::E) else {
        cx.label("pole at 1");
        return Ok(());
    };
    let mut sos = to_sos::<F>(&secs);
    must("sosfilt_zi", || sosfilt_zi_dyn::<F, _, Sos<F>>(sos.iter_mut()))?;
    coeffs_untouched(&secs, &sos)?;
    let mut nt = false;
    for (i, (o, (w, e))) in sos.iter().zip(&z).enumerate() {
        let e = 2.0 * e + 1e-300 + if F::SINGLE { 1e-40 } else { 0.0 };
        ensure!(
            (o.zi0.d() - w[0]).abs() <= e && (o.zi1.d() - w[1]).abs() <= e,
            "section {i}: state ({:e}, {:e}), steady state is ({:e}, {:e}) (tolerance {e:e})", o.zi0.d(), o.zi1.d(), w[0], w[1]
        );
        nt |= i > 0 && w[0].abs().max(w[1].abs()) > 1e3 * e;
    }
    // and the observable consequence: a step comes out settled from the first sample on
    let init: Vec<Sec> = secs.iter().zip(&z).map(|(s, z)| Sec { b: s.b, a: s.a, z: z.0 }).collect();
    let r = sos_ref(&init, &[1.0; 40], F::E, 0.0);
    let ones = [F::f(1.0); 40];
    let y = must("filter", || sosfilt_dyn(ones.iter(), &mut sos))?;
    // transport of the state error through the cascade
    let zerr = z.iter().map(|z| z.1).sum::<f64>();
    let gain = r.err / (4.0 * F::E) / 2.0 + 1.0;
    let (g, tol) = (r.y.first().copied().unwrap_or(1.0), r.err + zerr * gain);
    if tol < 1e-2 && r.finite {
        for (i, v) in y.iter().enumerate() {
            ensure!((v.d() - g).abs() <= tol + 1e-9 * (!F::SINGLE as u8 as f64) + 1e-4 * (F::SINGLE as u8 as f64) * gain.min(10.0), "step response {:e} at sample {i}, settled value {g:e} (tolerance {tol:e})", v.d());
        }
        cx.label("step response checked");
    }
    cx.nt(nt);
    cx.label(format!("sections {:02}", secs.len().min(21)));
    cx.label(if F::SINGLE { "f32" } else { "f64" });
    Ok(())
}
fn c03_sos(c: &ZiSos, cx: &mut Cx) -> R {
    if c.single {
        c03_sos_t::<f32>(c, cx)
    } else {
        c03_sos_t::<f64>(c, cx)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ZiBad {
    nb: usize,
    na: usize,
    zeros: bool,
}
fn c03_bad(c: &ZiBad, cx: &mut Cx) -> R {
    let b = vec![1.0f64; c.nb];
    let a = vec![if c.zeros { 0.0 } else { 0.5 }; c.na];
    if c.nb != c.na || c.zeros {
        rejects("lfilter_zi input", || lfilter_zi_dyn(&b, &a))?;
        cx.nt(true);
    }
    Ok(())
}

pub fn c03() -> Property {
    Property {
        id: "C03",
        subs: vec![
            sub("coefficients", "b, a of equal length 2..48; non-trivial: at least 3 taps and a state well above the tolerance", 16_000, 300_000,
                |_| (any::<bool>(), prop_oneof![3 => 2usize..=6, 2 => 2usize..=16, 1 => 2usize..=48]).prop_flat_map(|(single, m)| {
                    let coef = || prop_oneof![4 => -2.0f64..2.0, 2 => (-4i32..=4).prop_map(|v| v as f64), 1 => Just(0.0)];
                    (prop::collection::vec(coef(), m), prop::collection::vec(coef(), m - 1), prop_oneof![3 => Just(1.0), 3 => 0.1f64..8.0, 1 => -8.0f64..-0.1, 1 => Just(2.0), 1 => Just(-1.0)], prop_oneof![5 => Just(0), 1 => 1..=m - 1], level(), level())
                        .prop_map(move |(b, at, a0, lead, lb, la)| { let mut a = vec![0.0; lead]; a.push(a0); a.extend(at); a.truncate(m); Zi { single, b: scaled(b, boost(single, lb, 30, 300)), a: scaled(a, boost(single, la, 30, 300)) } })
                }), c03_lf),
            sub("cascade", "sections with arbitrary previous state; non-trivial: a later section's state is well above the tolerance", 12_000, 200_000,
                |_| (any::<bool>(), secs_strategy(true)).prop_map(|(single, secs)| ZiSos { single, secs }), c03_sos),
            sub("rejects", "unequal lengths or all-zero denominator", 800, 4000,
                |_| (1usize..12, 1usize..12, any::<bool>()).prop_map(|(nb, na, zeros)| ZiBad { nb, na, zeros }), c03_bad),
        ],
        assumptions: vec!["the filter has no pole at (or numerically at) z = 1", "at least two coefficients, denominator not all zero"],
    }
}

// ---------------------------------------------------------------- C04

fn edge_of(secs: &[Sec]) -> usize {
    let bz = secs.iter().filter(|s| s.b[2] == 0.0).count();
    let az = secs.iter().filter(|s| s.a[1] == 0.0).count();
    3 * (2 * secs.len() + 1 - bz.min(az))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ff {
    single: bool,
    secs: Vec<Sec>,
    /// signal length relative to the shortest accepted one
    extra: i64,
    x: Vec<f64>,
    #[serde(deserialize_with = "way_of")]
    owned: u8,
    #[serde(default)]
    level: i32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongFf {
    single: bool,
    #[serde(deserialize_with = "way_of")]
    owned: u8,
    secs: Vec<Sec>,
    x: Long,
}

fn ff_ref(secs: &[Sec], x: &[f64], eps: f64) -> Option<(Vec<f64>, f64)> {
    let edge = edge_of(secs);
    let n = x.len();
    let mut ext = Vec::with_capacity(n + 2 * edge);
    for i in 0..edge {
        ext.push(2.0 * x[0] - x[edge - i]);
    }
    ext.extend_from_slice(x);
    for i in 0..edge {
        ext.push(2.0 * x[n - 1] - x[n - 2 - i]);
    }
    let z = zi_ref(secs, eps)?;
    let zrel = z.iter().map(|(w, e)| e / (w[0].abs() + w[1].abs() + 1e-30)).fold(0.0, f64::max);
    if zrel > 1e-2 && z.iter().any(|(w, e)| *e > 1e-3 * (1.0 + w[0].abs())) {
        return None;
    }
    let init = |s: f64| -> Vec<Sec> {
        secs.iter().zip(&z).map(|(q, z)| Sec { b: q.b, a: q.a, z: [z.0[0] * s, z.0[1] * s] }).collect()
    };
    // the state error, as extra noise relative to the size of the signals involved
    let zabs: f64 = z.iter().map(|z| z.1).sum();
    let f = sos_ref(&init(ext[0]), &ext, eps, 0.0);
    let l1 = l1_gains(secs, ext.len());
    let ext_err = 4.0 * eps * x.iter().fold(0.0f64, |m, v| m.max(v.abs())) + if eps > 1e-10 { 1e-37 } else { 1e-300 };
    let fe = f.err + zabs * ext[0].abs() * l1.1 + ext_err * l1.0;
    let mut rev: Vec<f64> = f.y.clone();
    rev.reverse();
    let b = sos_ref(&init(rev[0]), &rev, eps, 0.0);
    let zi_mag: f64 = z.iter().map(|z| z.0[0].abs() + z.0[1].abs()).sum();
    let be = b.err + zabs * rev[0].abs() * l1.1 + fe * (l1.0 + zi_mag * l1.1);
    if !f.finite || !b.finite {
        return None;
    }
    let mut y = b.y;
    y.reverse();
    Some((y[edge..edge + n].to_vec(), 2.0 * be))
}

/// (L1 norm of the cascade's impulse response, sum of L1 norms of the responses to a unit state error in each section)
fn l1_gains(secs: &[Sec], len: usize) -> (f64, f64) {
    let run = |from: usize, mut h: Vec<f64>| -> f64 {
        for s in &secs[from..] {
            let (mut z0, mut z1) = (0.0, 0.0);
            for v in h.iter_mut() {
                let x = *v;
                let y = s.b[0] * x + z0;
                z0 = s.b[1] * x - s.a[0] * y + z1;
                z1 = s.b[2] * x - s.a[1] * y;
                *v = y;
            }
        }
        h.iter().map(|v| v.abs()).sum()
    };
    let mut imp = vec![0.0; len];
    if len > 0 {
        imp[0] = 1.0;
    }
    let g = run(0, imp.clone());
    let mut tot = 0.0;
    for j in 0..secs.len() {
        let mut h = vec![0.0f64; len];
        let (mut y1, mut y2) = (0.0, 0.0);
        for (t, v) in h.iter_mut().enumerate() {
            let y = if t == 0 { 1.0 } else { 0.0 } - secs[j].a[0] * y1 - secs[j].a[1] * y2;
            y2 = y1;
            y1 = y;
            *v = y;
        }
        tot += 2.0 * run(j + 1, h);
    }
    (g.max(1.0), tot.max(1.0))
}

fn c04_t<F: Flt>(c: &Ff, cx: &mut Cx) -> R {
    let secs = round_secs(F::SINGLE, &c.secs);
    let edge = edge_of(&secs);
    let n = (edge as i64 + 1 + c.extra).max(0) as usize;
    let k = boost(F::SINGLE, c.level, 75, 600);
    let x: Vec<f64> = (0..n).map(|i| rnd(F::SINGLE, k * if c.x.is_empty() { 1.0 } else { c.x[i % c.x.len()] + (i / c.x.len()) as f64 })).collect();
    let xs: Vec<F> = x.iter().map(|v| F::f(*v)).collect();
    let sos = to_sos::<F>(&secs);
    if n <= edge {
        rejects("signal not longer than the padding", || passed!(c.owned, xs, |it| sosfiltfilt_dyn(it, &sos)))?;
        cx.label("too short");
        cx.nt(true);
        return Ok(());
    }
    let Some((want, err)) = ff_ref(&secs, &x, F::E) else {
        cx.label("ill conditioned or out of range");
        return Ok(());
    };
    let y = must("sosfiltfilt", || passed!(c.owned, xs, |it| sosfiltfilt_dyn(it, &sos)))?;
    let yd: Vec<f64> = y.iter().map(|v| v.d()).collect();
    let peak = want.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    cmp_out("forward-backward output", &yd, &want, err)?;
    for (o, s) in sos.iter().zip(&secs) {
        ensure!(o.zi0.d() == s.z[0] && o.zi1.d() == s.z[1], "the given sections were changed");
    }
    coeffs_untouched(&secs, &sos)?;
    cx.nt(!secs.is_empty() && err < 1e-3 * peak);
    if err >= 1e-3 * peak {
        cx.label("tolerance large");
    }
    cx.label(format!("sections {:02}", secs.len().min(21)));
    cx.label(if c.extra == 0 { "shortest accepted" } else { "longer" });
    if edge != 3 * (2 * secs.len() + 1) {
        cx.label("reduced padding");
    }
    cx.label(if F::SINGLE { "f32" } else { "f64" });
    Ok(())
}
fn c04_check(c: &Ff, cx: &mut Cx) -> R {
    if c.single {
        c04_t::<f32>(c, cx)
    } else {
        c04_t::<f64>(c, cx)
    }
}

pub fn c04() -> Property {
    Property {
        id: "C04",
        subs: vec![sub(
            "forward_backward",
            "sections with arbitrary stored state, signal length relative to the padding length (shortest accepted, rejected, longer); non-trivial: at least one section and tolerance below 0.1% of peak, or a rejected short signal",
            9_000, 120_000,
            |_| (any::<bool>(), prop_oneof![5 => 0usize..=5, 2 => 0usize..=14], prop_oneof![2 => -8i64..=0, 2 => 0i64..=1, 5 => 0i64..=200], way(), level())
                .prop_flat_map(|(single, n, extra, owned, l)| (prop::collection::vec(sec_strategy(true), n), signal((1usize..300).boxed(), 3))
                    .prop_map(move |(secs, x)| Ff { single, secs, extra, x, owned, level: l })),
            c04_check,
        ),
        sub("very_long", "as above, up to three sections and 10 000 to 140 000 samples", 2, 200,
            |_| (any::<bool>(), way(), prop::collection::vec(sec_strategy(true), 1..=3), long(140_000)).prop_map(|(single, owned, secs, x)| LongFf { single, owned, secs, x }),
            |c: &LongFf, cx: &mut Cx| {
                let x = c.x.data();
                let f = Ff { single: c.single, secs: c.secs.clone(), extra: x.len() as i64 - 1 - edge_of(&round_secs(c.single, &c.secs)) as i64, x, owned: c.owned, level: 0 };
                c04_check(&f, cx)
            })],
        assumptions: vec!["a0 = 1, no pole at z = 1", "finite values within range"],
    }
}
