//! C15: Savitzky-Golay filters.
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use crate::p_sos::Flt;
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{One, ToPrimitive, Zero};
use proptest::prelude::*;
use sci_rs::na::DMatrix;
use sci_rs::signal::filter::{savgol_coeffs_dyn, savgol_filter_dyn};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

/// For every derivative order d: the weights w with sum_k w[k] * f(pos_k) = f^(d)(0)/d! for the least-squares
/// polynomial of the given order, and the conditioning of the Vandermonde system.
pub struct Fit {
    w: Vec<Vec<f64>>,
    kappa: f64,
}

/// Exact (rational) solution of the normal equations: w_d = A^T (A A^T)^-1 e_d.
fn fit(window: usize, order: usize) -> Arc<Fit> {
    static CACHE: OnceLock<Mutex<HashMap<(usize, usize), Arc<Fit>>>> = OnceLock::new();
    let cache = CACHE.get_or_init(Default::default);
    if let Some(f) = cache.lock().unwrap().get(&(window, order)) {
        return f.clone();
    }
    let m = order + 1;
    // positions are half-integers for even windows: twice the position is an integer
    let pos: Vec<BigInt> = (0..window).map(|i| BigInt::from(window as i64 - 1 - 2 * i as i64)).collect();
    let half = |p: &BigInt, e: usize| BigRational::new(p.pow(e as u32), BigInt::from(2).pow(e as u32));
    // augmented [G | I]
    let mut g: Vec<Vec<BigRational>> = (0..m)
        .map(|i| {
            let mut r: Vec<BigRational> = (0..m).map(|j| pos.iter().map(|p| half(p, i + j)).fold(BigRational::zero(), |a, b| a + b)).collect();
            r.extend((0..m).map(|j| if i == j { BigRational::one() } else { BigRational::zero() }));
            r
        })
        .collect();
    for c in 0..m {
        let p = (c..m).find(|r| !g[*r][c].is_zero()).expect("distinct positions");
        g.swap(c, p);
        let d = g[c][c].clone();
        g[c].iter_mut().for_each(|v| *v = &*v / &d);
        for r in 0..m {
            if r != c && !g[r][c].is_zero() {
                let f = g[r][c].clone();
                for k in 0..2 * m {
                    let t = &g[c][k] * &f;
                    g[r][k] -= t;
                }
            }
        }
    }
    let w = (0..m)
        .map(|d| {
            pos.iter()
                .map(|p| {
                    let mut s = BigRational::zero();
                    for i in 0..m {
                        s += &g[i][m + d] * half(p, i);
                    }
                    s.to_f64().unwrap()
                })
                .collect()
        })
        .collect();
    let a = DMatrix::<f64>::from_fn(m, window, |i, j| ((window as f64 - 1.0) / 2.0 - j as f64).powi(i as i32));
    // rows scaled to unit length: the conditioning that the choice of units for the powers does not affect
    let mut a = a;
    a.row_iter_mut().for_each(|mut r| {
        let n = r.norm();
        r /= n;
    });
    let sv = a.singular_values();
    let kappa = sv.max() / sv.min();
    let f = Arc::new(Fit { w, kappa });
    cache.lock().unwrap().insert((window, order), f.clone());
    f
}

fn fact(n: usize) -> f64 {
    (1..=n).map(|v| v as f64).product()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Par {
    single: bool,
    window: usize,
    order: usize,
    deriv: Option<usize>,
    delta: Option<f64>,
}

/// Reference coefficients and their tolerance (Euclidean norm); None when the problem is too ill conditioned to judge.
fn reference<F: Flt>(p: &Par) -> Option<(Vec<f64>, f64)> {
    let d = p.deriv.unwrap_or(0);
    if d > p.order {
        return Some((vec![0.0; p.window], 0.0));
    }
    let delta = rnd(F::SINGLE, p.delta.unwrap_or(1.0));
    let f = fit(p.window, p.order);
    let s = fact(d) / delta.powi(d as i32);
    if !(1e-25..1e25).contains(&s.abs()) {
        return None;
    }
    let w: Vec<f64> = f.w[d].iter().map(|v| v * s).collect();
    let rel = 64.0 * F::E * (f.kappa + d as f64);
    if !(rel < 1e-2) {
        return None;
    }
    let tol = rel * norm(&w);
    Some((w, tol))
}

fn coeffs<F: Flt>(p: &Par, cx: &mut Cx) -> R {
    if p.window == 0 {
        return rejects("a window of length 0", || savgol_coeffs_dyn::<F>(0, p.order, p.deriv, p.delta.map(F::f)));
    }
    if p.order >= p.window {
        cx.nt(true);
        cx.label("rejected");
        return rejects(&format!("order {} with window {}", p.order, p.window), || savgol_coeffs_dyn::<F>(p.window, p.order, p.deriv, p.delta.map(F::f)));
    }
    let got = must("savgol_coeffs_dyn", || savgol_coeffs_dyn::<F>(p.window, p.order, p.deriv, p.delta.map(F::f)))?;
    ensure!(got.len() == p.window, "{} coefficients for a window of {}", got.len(), p.window);
    let Some((want, tol)) = reference::<F>(p) else {
        cx.label("ill conditioned, length only");
        return Ok(());
    };
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        ensure!(cx.within((g.d() - w).abs(), tol), "coefficient {i} is {g:?}, the least-squares fit gives {w} (tolerance {tol:e}, {p:?})");
    }
    cx.nt(p.window > 1);
    cx.label(if p.window % 2 == 0 { "even window" } else { "odd window" });
    cx.label(if p.deriv.unwrap_or(0) > p.order { "derivative above order" } else if p.deriv.unwrap_or(0) > 0 { "derivative" } else { "smoothing" });
    cx.label(if p.single { "f32" } else { "f64" });
    Ok(())
}
fn coeffs_check(p: &Par, cx: &mut Cx) -> R {
    if p.single {
        coeffs::<f32>(p, cx)
    } else {
        coeffs::<f64>(p, cx)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FilCase {
    p: Par,
    /// 0 borrowed, 1 owned, 2 through an adaptor without a useful size hint
    it: u8,
    x: Vec<f64>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongFil {
    p: Par,
    it: u8,
    x: Long,
}

fn run_filter<F: Flt>(p: &Par, it: u8, x: &[F]) -> Vec<F> {
    let (w, o, d, s) = (p.window, p.order, p.deriv, p.delta.map(F::f));
    match it {
        0 => savgol_filter_dyn(x.iter(), w, o, d, s),
        1 => savgol_filter_dyn(x.to_vec().into_iter(), w, o, d, s),
        3.. => savgol_filter_dyn(Hinted::new(x, it), w, o, d, s),
        _ => {
            let mut k = 0;
            savgol_filter_dyn(
                std::iter::from_fn(|| {
                    k += 1;
                    x.get(k - 1).copied()
                }),
                w, o, d, s,
            )
        }
    }
}

fn filter<F: Flt>(c: &FilCase, cx: &mut Cx) -> R {
    let p = &c.p;
    let x: Vec<f64> = c.x.iter().map(|v| rnd(F::SINGLE, *v)).collect();
    let xf: Vec<F> = x.iter().map(|v| F::f(*v)).collect();
    if p.window % 2 == 0 || p.window < p.order + 2 {
        cx.nt(true);
        cx.label("rejected");
        return rejects(&format!("filtering with window {} and order {}", p.window, p.order), || run_filter(p, c.it, &xf));
    }
    let got = must("savgol_filter_dyn", || run_filter(p, c.it, &xf))?;
    ensure!(got.len() == x.len(), "{} samples for a signal of {} ({p:?})", got.len(), x.len());
    if x.is_empty() {
        cx.nt(true);
        cx.label("empty");
        return Ok(());
    }
    let Some((w, tol)) = reference::<F>(p) else {
        cx.label("ill conditioned, length only");
        return Ok(());
    };
    let h = (p.window / 2) as i64;
    let n = x.len() as i64;
    let big = x.iter().fold(0.0f64, |m, v| m.max(v.abs())) * w.iter().map(|v| v.abs()).sum::<f64>();
    let floor = if F::SINGLE { 1e-36 } else { 1e-300 };
    if big > if F::SINGLE { 1e36 } else { 1e300 } {
        cx.label("range exceeded");
        return Ok(());
    }
    for i in 0..n {
        let (mut s, mut abs, mut sq) = (Acc::default(), 0.0, 0.0);
        for (k, wk) in w.iter().enumerate() {
            let v = x[(i + h - k as i64).clamp(0, n - 1) as usize];
            s.mac(*wk, v);
            abs += (wk * v).abs();
            sq += v * v;
        }
        let t = 2.0 * (tol * sq.sqrt() + F::E * (p.window as f64 + 2.0) * abs) + floor;
        let g = got[i as usize];
        ensure!(cx.within((g.d() - s.get()).abs(), t), "sample {i} of {n} is {g:?}, the fit over its window gives {} (tolerance {t:e}, {p:?})", s.get());
    }
    cx.nt(n > 1 && p.deriv.unwrap_or(0) <= p.order);
    cx.label(if n < p.window as i64 { "shorter than the window" } else { "longer than the window" });
    cx.label(if p.deriv.unwrap_or(0) > 0 { "derivative" } else { "smoothing" });
    cx.label(if p.single { "f32" } else { "f64" });
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PolyCase {
    p: Par,
    n: usize,
    centre: f64,
    /// polynomial coefficients in (t - centre)/scale, lowest first; at most order + 1 are used
    c: Vec<f64>,
}
/// Polynomials up to the order are reproduced / differentiated away from the edges.
fn poly<F: Flt>(c: &PolyCase, cx: &mut Cx) -> R {
    let p = &c.p;
    if p.window % 2 == 0 || p.window < p.order + 2 || c.n < p.window {
        return Ok(());
    }
    let d = p.deriv.unwrap_or(0);
    let delta = rnd(F::SINGLE, p.delta.unwrap_or(1.0));
    let Some((w, tol)) = reference::<F>(p) else { return Ok(()) };
    let co: Vec<f64> = c.c.iter().take(p.order + 1).copied().collect();
    // u = (i - centre*(n-1)) / half-window: of moderate size within a window near the centre
    let h = (p.window / 2).max(1) as f64;
    let u = |i: f64| (i - c.centre * (c.n - 1) as f64) / h;
    let x: Vec<f64> = (0..c.n).map(|i| co.iter().rev().fold(0.0, |a, b| a * u(i as f64) + b)).map(|v| rnd(F::SINGLE, v)).collect();
    let xf: Vec<F> = x.iter().map(|v| F::f(*v)).collect();
    let got = must("savgol_filter_dyn", || run_filter(p, 0, &xf))?;
    ensure!(got.len() == x.len(), "{} samples for a signal of {}", got.len(), x.len());
    let hw = p.window / 2;
    for i in hw..c.n - hw {
        // d-th derivative with respect to time: u' = 1/(h*delta)
        let mut want = 0.0;
        for (e, v) in co.iter().enumerate().rev() {
            if e >= d {
                let f: f64 = ((e - d + 1)..=e).map(|q| q as f64).product();
                want += v * f * u(i as f64).powi((e - d) as i32);
            }
        }
        want /= (h * delta).powi(d as i32);
        let win = &x[i - hw..=i + hw];
        let abs: f64 = win.iter().rev().zip(&w).map(|(a, b)| (a * b).abs()).sum();
        // rounding of the samples and of the polynomial values themselves: relative to the sum of absolute terms
        let big: f64 = (i - hw..=i + hw).map(|j| co.iter().rev().fold(0.0, |a, b| a * u(j as f64).abs() + b.abs())).fold(0.0, f64::max);
        let l1: f64 = w.iter().map(|v| v.abs()).sum();
        let t = 2.0 * (tol * norm(win) + F::E * (p.window as f64 + 2.0) * abs + F::E * 4.0 * (p.order as f64 + 2.0) * big * l1);
        ensure!(cx.within((got[i].d() - want).abs(), t), "polynomial {co:?}: sample {i} is {:?}, derivative {d} there is {want} (tolerance {t:e}, {p:?})", got[i]);
    }
    cx.nt(co.iter().any(|v| *v != 0.0) && d <= p.order);
    cx.label(format!("derivative {d}"));
    Ok(())
}

fn delta() -> BoxedStrategy<Option<f64>> {
    prop_oneof![3 => Just(None), 1 => Just(Some(1.0)), 3 => logu(1e-3, 1e3).prop_map(Some), 1 => logu(1e-3, 1e3).prop_map(|v| Some(-v)), 1 => logu(1e-9, 1e9).prop_map(Some), 1 => prop::sample::select(vec![0.5, 2.0, 0.1, 0.01, 3.0]).prop_map(Some)].boxed()
}
fn deriv(order: usize) -> BoxedStrategy<Option<usize>> {
    prop_oneof![2 => Just(None), 5 => (0..=order).prop_map(Some), 1 => (0..=order + 3).prop_map(Some)].boxed()
}
fn par(maxw: usize, odd: bool) -> BoxedStrategy<Par> {
    (any::<bool>(), prop_oneof![4 => 0usize..14, 3 => 0usize..maxw], 0usize..=8)
        .prop_flat_map(move |(single, w, o)| {
            // single precision is only well conditioned for low orders
            let o = if single && w > 20 { o % 4 } else { o };
            let w = if odd { w | 1 } else { w };
            // mostly valid pairs
            let mk = move |valid: bool| if valid { (w.max(o + 2) | odd as usize, o) } else { (w, o) };
            (prop::bool::weighted(0.85).prop_map(mk)).prop_flat_map(move |(window, order)| (deriv(order), delta()).prop_map(move |(deriv, delta)| Par { single, window, order, deriv, delta }))
        })
        .boxed()
}

pub fn c15() -> Property {
    Property {
        id: "C15",
        subs: vec![
            sub_enum(
                "coeffs-all",
                "every window length, order and derivative within the bounds, both precisions, two spacings; non-trivial: more than one tap, or a rejected order",
                |t| {
                    let (mw, mo) = if t { (101, 10) } else { (40, 8) };
                    let mut v = vec![];
                    for window in 1..=mw {
                        for order in 0..=mo.min(window + 1) {
                            for d in 0..=order + 2 {
                                for single in [false, true] {
                                    let deriv = if d == order + 2 { None } else { Some(d) };
                                    let delta = if (window + order + d) % 2 == 0 { None } else { Some([0.5, 2.0, 0.1, 7.0, -1.5][(window + d) % 5]) };
                                    v.push(Par { single, window, order, deriv, delta });
                                }
                            }
                        }
                    }
                    v
                },
                coeffs_check,
            ),
            sub_enum(
                "coeffs-high",
                "orders 9 to 26 with windows from one above the order to four times the order, every derivative, double precision; non-trivial: well enough conditioned to be judged",
                |t| {
                    let mut v = vec![];
                    let step = if t { 1 } else { 3 };
                    for order in (9..=26usize).step_by(step).chain([20, 22, 26]) {
                        for window in [order + 1, order + 2, order + 7, 2 * order + 1, 4 * order] {
                            for d in 0..=order + 1 {
                                let delta = [None, Some(0.5), Some(2.0), Some(0.1), Some(-3.0)][(window + d) % 5];
                                v.push(Par { single: false, window, order, deriv: Some(d), delta });
                            }
                        }
                    }
                    v
                },
                |p: &Par, cx: &mut Cx| coeffs::<f64>(p, cx),
            ),
            sub(
                "coeffs",
                "generated window, order, derivative, spacing; non-trivial: more than one tap, or a rejected order",
                20_000, 300_000,
                |t| par(if t { 101 } else { 60 }, false),
                coeffs_check,
            ),
            sub(
                "filter",
                "generated parameters and signals (shorter and longer than the window, empty), three kinds of iterator; non-trivial: more than one sample and a derivative within the order, an empty signal, or a rejected call",
                20_000, 400_000,
                |t| (prop_oneof![8 => par(if t { 101 } else { 40 }, true), 1 => par(40, false)], 0u8..8, signal(len(if t { 600 } else { 120 }), 3), level()).prop_map(|(p, it, x, l)| { let k = boost(p.single, l, 75, 450); FilCase { p, it, x: scaled(x, k) } }),
                |c: &FilCase, cx: &mut Cx| if c.p.single { filter::<f32>(c, cx) } else { filter::<f64>(c, cx) },
            ),
            sub(
                "long",
                "as filter with 10 000 to 140 000 samples",
                4, 400,
                |_| (par(20, true), 0u8..8, long(140_000)).prop_map(|(p, it, x)| LongFil { p, it, x }),
                |c: &LongFil, cx: &mut Cx| { let d = FilCase { p: c.p.clone(), it: c.it, x: c.x.data() }; if c.p.single { filter::<f32>(&d, cx) } else { filter::<f64>(&d, cx) } },
            ),
            sub(
                "polynomial",
                "generated polynomials of degree up to the order; non-trivial: a non-zero polynomial and a derivative within the order",
                15_000, 300_000,
                |_| (par(40, true), 0usize..60, 0.0f64..1.0, prop::collection::vec(prop_oneof![1 => Just(0.0), 3 => -3.0f64..3.0], 9))
                    .prop_map(|(p, extra, centre, c)| PolyCase { n: p.window + extra, p, centre, c }),
                |c: &PolyCase, cx: &mut Cx| if c.p.single { poly::<f32>(c, cx) } else { poly::<f64>(c, cx) },
            ),
        ],
        assumptions: vec![
            "values are judged only where 64 * eps * condition number < 1%: beyond that only the number of coefficients or samples is",
            "finite non-zero sample spacing, results within the exponent range",
        ],
    }
}
