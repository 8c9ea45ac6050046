//! C18 square wave, C19 Bessel functions, C22 companion matrices.
use crate::core::*;
use crate::{ensure, passed};
use crate::gen::*;
use crate::p_sos::Flt;
use ndarray::{Array, Array1, Array2, Array3, ArrayD, Axis, IxDyn};
use proptest::prelude::*;
use sci_rs::linalg::companion_dyn;
use sci_rs::signal::wave::square;
use sci_rs::special::Bessel;
use serde::{Deserialize, Serialize};
use std::f64::consts::PI;

// ------------------------------------------------------------------------------------------ C18
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SqCase {
    single: bool,
    #[serde(deserialize_with = "nan_or")]
    duty: f64,
    /// 0: 1-d owned, 1: 1-d strided view, 2: 2-d, 3: 2-d transposed view, 4: 3-d, 5: dynamic, 6: 0-d, 7: 2-d reversed view
    shape: u8,
    cols: usize,
    t: Vec<f64>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongSq {
    single: bool,
    duty: f64,
    shape: u8,
    cols: usize,
    x: Long,
    span: f64,
}

/// Some(expected sign) unless the instant is within rounding of a switching point.
fn sq_expect<F: Flt>(t: f64, duty: f64) -> Option<f64> {
    if duty == 0.0 {
        return Some(-1.0);
    }
    if t == 0.0 {
        return Some(1.0);
    }
    let tp = F::two_pi().d();
    // exactly on the switching point of the first period, where nothing rounds
    if [0.5, 0.25, 0.125, 0.0625].contains(&duty) && t == tp * duty {
        return Some(-1.0);
    }
    // with duty 1 the level does not depend on the remainder, except where it rounds to the period
    if duty == 1.0 && (t >= 0.0 || t % tp < -1e-3) {
        return Some(1.0);
    }
    let x = t.rem_euclid(tp);
    let z = 8.0 * F::E * t.abs().max(tp);
    let thr = tp * duty;
    if x < z || tp - x < z || (x - thr).abs() < z {
        return None;
    }
    Some(if x < thr { 1.0 } else { -1.0 })
}

fn sq_compare<F: Flt, D: ndarray::Dimension>(t: ndarray::ArrayView<F, D>, g: &Array<F, D>, duty: f64, cx: &mut Cx) -> R {
    ensure!(t.shape() == g.shape(), "shape {:?} for an input of shape {:?}", g.shape(), t.shape());
    let (mut hi, mut lo) = (0, 0);
    for (i, (t, g)) in t.iter().zip(g.iter()).enumerate() {
        let (t, g) = (t.d(), g.d());
        ensure!(g == 1.0 || g == -1.0, "value {g} at t = {t}");
        if let Some(w) = sq_expect::<F>(t, duty) {
            ensure!(g == w, "square wave of duty {duty} at t = {t:?} (element {i} in logical order, remainder {}) is {g}, should be {w}", t.rem_euclid(F::two_pi().d()));
            if w > 0.0 {
                hi += 1
            } else {
                lo += 1
            }
        }
    }
    cx.nt(hi > 0 && lo > 0 || (duty == 0.0 && lo > 0) || (duty == 1.0 && hi > 0));
    Ok(())
}

fn c18_t<F: Flt>(c: &SqCase, cx: &mut Cx) -> R {
    let duty = rnd(c.single, c.duty);
    let d = F::f(duty);
    let top = if c.single { f32::MAX as f64 } else { f64::MAX };
    let v: Vec<F> = c.t.iter().map(|t| F::f(t.clamp(-top, top))).collect();
    let n = v.len();
    if !(0.0..=1.0).contains(&duty) {
        cx.nt(true);
        cx.label("bad duty");
        return rejects(&format!("duty {duty}"), || square(&Array1::from_vec(v.clone()), d));
    }
    let cols = c.cols.max(1);
    let rows = n / cols;
    let two = || Array2::from_shape_vec((rows, cols), v[..rows * cols].to_vec()).unwrap();
    cx.label(["1-d", "strided", "2-d", "transposed", "3-d", "dynamic", "0-d", "reversed"][c.shape as usize % 8]);
    cx.label(if c.single { "f32" } else { "f64" });
    match c.shape % 8 {
        0 => {
            let a = Array1::from_vec(v);
            sq_compare(a.view(), &must("square", || square(&a, d))?, duty, cx)
        }
        1 => {
            let a = Array1::from_vec(v);
            let s = a.slice(ndarray::s![..;cols as isize]);
            sq_compare(s, &must("square", || square(&s, d))?, duty, cx)
        }
        2 => {
            let a = two();
            sq_compare(a.view(), &must("square", || square(&a, d))?, duty, cx)
        }
        3 => {
            let a = two();
            let s = a.t();
            sq_compare(s, &must("square", || square(&s, d))?, duty, cx)
        }
        4 => {
            let r = rows / 2;
            let a = Array3::from_shape_vec((2, r, cols), v[..2 * r * cols].to_vec()).unwrap();
            let mut s = a.view();
            s.swap_axes(0, 2);
            sq_compare(s, &must("square", || square(&s, d))?, duty, cx)
        }
        5 => {
            let a = ArrayD::from_shape_vec(IxDyn(&[rows, 1, cols]), v[..rows * cols].to_vec()).unwrap();
            sq_compare(a.view(), &must("square", || square(&a, d))?, duty, cx)
        }
        6 => {
            let a = ndarray::arr0(v.first().copied().unwrap_or(F::f(1.0)));
            sq_compare(a.view(), &must("square", || square(&a, d))?, duty, cx)
        }
        _ => {
            let a = two();
            let mut s = a.view();
            s.invert_axis(Axis(0));
            sq_compare(s, &must("square", || square(&s, d))?, duty, cx)
        }
    }
}

fn time() -> BoxedStrategy<f64> {
    prop_oneof![
        4 => -30.0f64..30.0,
        2 => -7.0f64..7.0,
        2 => (-40i32..40).prop_map(|k| k as f64 * PI / 8.0),
        1 => Just(0.0),
        1 => Just(-0.0),
        1 => (-4i32..5, prop::sample::select(vec![1e-3, 1e-6, 1e-9, -1e-3, -1e-6, -1e-9])).prop_map(|(k, e)| k as f64 * 2.0 * PI + e),
        1 => (-1.0f64..1.0, 0i32..12).prop_map(|(m, e)| m * 10f64.powi(e)),
        1 => (-100_000i64..100_000).prop_map(|k| k as f64),
        1 => (-1.0f64..1.0, -320i32..0).prop_map(|(m, e)| m * 10f64.powi(e)),
        1 => (-1.0f64..1.0, 12i32..=308).prop_map(|(m, e)| m * 10f64.powi(e)),
    ]
    .boxed()
}

pub fn c18() -> Property {
    Property {
        id: "C18",
        subs: vec![sub(
            "square",
            "arrays of times (owned, strided, transposed, reversed, 0 to 3 dimensions) and duties; non-trivial: both levels are decided by the rule (one for duty 0 or 1), or a rejected duty",
            60_000, 1_500_000,
            |_| (any::<bool>(),
                 prop_oneof![6 => 0.0f64..1.0, 1 => Just(0.0), 1 => Just(1.0), 3 => (0u32..=16).prop_map(|k| k as f64 / 16.0),
                             1 => prop::sample::select(vec![-0.1, 1.0001, 1.5, -1e-9, f64::NAN, f64::INFINITY, -3.0, 2.0, 100.0])],
                 0u8..8, 1usize..7, prop::collection::vec(time(), 0..40)).prop_map(|(single, duty, shape, cols, t)| SqCase { single, duty, shape, cols, t }),
            |c: &SqCase, cx: &mut Cx| if c.single { c18_t::<f32>(c, cx) } else { c18_t::<f64>(c, cx) },
        ),
        sub("long", "as square with 10 000 to 200 000 instants over some thousand periods", 4, 400,
            |_| (any::<bool>(), 0.0f64..1.0, prop::sample::select(vec![0u8, 1, 2, 3, 4, 5, 7]), 1usize..700, long(200_000), logu(1.0, 5e3)).prop_map(|(single, duty, shape, cols, x, span)| LongSq { single, duty, shape, cols, x, span }),
            |c: &LongSq, cx: &mut Cx| {
                let d = SqCase { single: c.single, duty: c.duty, shape: c.shape, cols: c.cols, t: c.x.data().into_iter().map(|v| v * c.span).collect() };
                if d.single { c18_t::<f32>(&d, cx) } else { c18_t::<f64>(&d, cx) }
            })],
        assumptions: vec!["finite times", "instants within 8 roundings of the time from a switching point are not judged (except 0, duties 0 and 1 and exact binary fractions of the period)"],
    }
}

// ------------------------------------------------------------------------------------------ C19
/// exp(-x) I0(x) for x >= 0 with a relative error of at most a few dozen units of 1e-17 * x.
fn i0e_ref(x: f64) -> f64 {
    if x < 20.0 {
        // sum of (x^2/4)^k / k!^2, all terms positive
        let q = x * x / 4.0;
        let mut t = 1.0;
        let mut s = Acc::default();
        s.add(1.0);
        let mut k = 1.0;
        while t > s.get() * 1e-18 {
            t *= q / (k * k);
            s.add(t);
            k += 1.0;
        }
        s.get() * (-x).exp()
    } else {
        // asymptotic series; its smallest term is below exp(-2x) < 1e-17
        let mut t = 1.0;
        let mut s = Acc::default();
        s.add(1.0);
        for k in 1..200 {
            let f = (2 * k - 1) as f64;
            let nt = t * f * f / (k as f64 * 8.0 * x);
            if nt >= t || nt < 1e-19 {
                break;
            }
            t = nt;
            s.add(t);
        }
        s.get() / (2.0 * PI).sqrt() / x.sqrt()
    }
}

trait Bes: Flt + Bessel {
    /// above this exp(x) overflows
    const TOP: f64;
}
impl Bes for f64 {
    const TOP: f64 = 709.0;
}
impl Bes for f32 {
    const TOP: f64 = 88.0;
}

fn bessel_point<F: Bes>(x: f64, cx: &mut Cx) -> R {
    let top = if F::SINGLE { f32::MAX as f64 } else { f64::MAX };
    let xf = F::f(x.clamp(-top, top));
    let x = xf.d();
    let a = x.abs();
    let e = must("i0e", || xf.i0e())?;
    let u = must("i0", || xf.i0())?;
    let w = i0e_ref(a);
    let tol = 40.0 * F::E;
    ensure!(cx.within((e.d() - w).abs() / w, tol), "i0e({x:?}) is {e:?}, should be {w}");
    if a <= F::TOP {
        let w = w * a.exp();
        ensure!(cx.within((u.d() - w).abs() / w, tol), "i0({x:?}) is {u:?}, should be {w}");
        if a < F::TOP * 0.9 {
            let p = u.d() * (-a).exp();
            ensure!(cx.within((p - e.d()).abs() / w.max(e.d()).min(e.d()), tol), "i0({x:?}) * exp(-|x|) is {p}, i0e is {e:?}");
        }
    } else {
        // beyond the range of exp: the true value is at least exp(TOP)/sqrt(2 pi x)
        ensure!(u.d() > 1e30, "i0({x:?}) is {u:?}");
    }
    let m = F::f(-x);
    ensure!(m.i0() == u && m.i0e() == e, "not even at {x:?}: {:?} {u:?}, {:?} {e:?}", m.i0(), m.i0e());
    if x == 0.0 {
        ensure!((u.d() - 1.0).abs() <= tol && (e.d() - 1.0).abs() <= tol, "i0(0) = {u:?}, i0e(0) = {e:?}");
    }
    cx.label(if a <= 8.0 { "first interval" } else if a <= F::TOP { "second interval" } else { "scaled only" });
    cx.nt(x != 0.0);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BesCase {
    single: bool,
    cols: usize,
    x: Vec<f64>,
}
fn bes_t<F: Bes>(c: &BesCase, cx: &mut Cx) -> R {
    for x in &c.x {
        bessel_point::<F>(*x, cx)?;
    }
    let top = if F::SINGLE { f32::MAX as f64 } else { f64::MAX };
    #[cfg(feature = "full")]
    containers(&c.x.iter().map(|x| F::f(x.clamp(-top, top))).collect::<Vec<F>>(), c.cols)?;
    let _ = top;
    Ok(())
}
/// Vectors and arrays exist in the std configuration only.
#[cfg(feature = "full")]
fn containers<F: Bes>(v: &Vec<F>, cols: usize) -> R {
    let (s0, se): (Vec<F>, Vec<F>) = v.iter().map(|x| (x.i0(), x.i0e())).unzip();
    ensure!(must("i0 of a vector", || v.i0())? == s0 && must("i0e of a vector", || v.i0e())? == se, "the vector version differs from the elements: {v:?}");
    let nested: Vec<Vec<F>> = v.chunks(cols.max(1)).map(|c| c.to_vec()).collect();
    let flat: Vec<F> = must("i0e of nested vectors", || nested.i0e())?.concat();
    ensure!(flat == se, "nested vectors differ from the elements");
    let cols = cols.max(1);
    let rows = v.len() / cols;
    let a = ArrayD::from_shape_vec(IxDyn(&[rows, 1, cols]), v[..rows * cols].to_vec()).unwrap();
    for a in [a.clone(), a.t().to_owned(), a.clone().reversed_axes(), a.permuted_axes(IxDyn(&[2, 0, 1]))] {
        let (g0, ge) = (must("i0 of an array", || a.i0())?, must("i0e of an array", || a.i0e())?);
        ensure!(g0.shape() == a.shape() && ge.shape() == a.shape(), "shape {:?} for {:?}", g0.shape(), a.shape());
        for ((x, p), q) in a.iter().zip(g0.iter()).zip(ge.iter()) {
            ensure!(*p == x.i0() && *q == x.i0e(), "array element at {x:?} differs from the scalar");
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongBes {
    single: bool,
    cols: usize,
    x: Long,
    span: f64,
}
fn bes_long<F: Bes>(c: &LongBes, cx: &mut Cx) -> R {
    let v: Vec<F> = c.x.data().iter().map(|x| F::f(*x * c.span)).collect();
    #[cfg(feature = "full")]
    long_containers(&v, c)?;
    for x in v.iter().step_by(997) {
        bessel_point::<F>(x.d(), cx)?;
    }
    Ok(())
}
#[cfg(feature = "full")]
fn long_containers<F: Bes>(v: &Vec<F>, c: &LongBes) -> R {
    let (s0, se): (Vec<F>, Vec<F>) = v.iter().map(|x| (x.i0(), x.i0e())).unzip();
    ensure!(must("i0 of a vector", || v.i0())? == s0 && must("i0e of a vector", || v.i0e())? == se, "the vector version differs from the elements ({} of them)", v.len());
    let rows = v.len() / c.cols;
    let a = ArrayD::from_shape_vec(IxDyn(&[rows, c.cols]), v[..rows * c.cols].to_vec()).unwrap().reversed_axes();
    let (g0, ge) = (must("i0 of an array", || a.i0())?, must("i0e of an array", || a.i0e())?);
    ensure!(g0.shape() == a.shape() && ge.shape() == a.shape(), "shape {:?} for {:?}", g0.shape(), a.shape());
    for ((i, p), q) in a.indexed_iter().zip(g0.iter()).zip(ge.iter()) {
        let k = i.0[1] * c.cols + i.0[0];
        ensure!(*p == s0[k] && *q == se[k], "array element {i:?} differs from the scalar");
    }
    Ok(())
}

fn bes_arg() -> BoxedStrategy<f64> {
    prop_oneof![
        4 => -10.0f64..10.0,
        3 => -100.0f64..100.0,
        2 => -708.0f64..708.0,
        2 => (7.9f64..8.1, any::<bool>()).prop_map(|(v, s)| if s { v } else { -v }),
        1 => prop::sample::select(vec![0.0, -0.0, 8.0, -8.0, 8.000000000000002, 8.000001, 7.999999, 1.0, 2.0, 4.0, 16.0, 32.0, 0.5, 88.0, 709.0]),
        2 => (-1.0f64..1.0, -30i32..30).prop_map(|(m, e)| m * 10f64.powi(e)),
        1 => (-1.0f64..1.0, -320i32..=308).prop_map(|(m, e)| m * 10f64.powi(e)),
    ]
    .boxed()
}

pub fn c19() -> Property {
    Property {
        id: "C19",
        subs: vec![
            sub(
                "bessel",
                "arguments around 0, the switch at 8, the overflow of exp and 60 (or all) decades; scalars, vectors, nested vectors, arrays in several layouts; non-trivial: a non-zero argument",
                30_000, 1_000_000,
                |_| (any::<bool>(), 1usize..4, prop::collection::vec(bes_arg(), 1..10)).prop_map(|(single, cols, x)| BesCase { single, cols, x }),
                |c: &BesCase, cx: &mut Cx| if c.single { bes_t::<f32>(c, cx) } else { bes_t::<f64>(c, cx) },
            ),
            sub(
                "long",
                "vectors and arrays of 10 000 to 140 000 arguments against the scalar function",
                2, 200,
                |_| (any::<bool>(), 1usize..400, long(140_000), logu(1.0, 200.0)).prop_map(|(single, cols, x, span)| LongBes { single, cols, x, span }),
                |c: &LongBes, cx: &mut Cx| if c.single { bes_long::<f32>(c, cx) } else { bes_long::<f64>(c, cx) },
            ),
            sub_enum(
                "grid",
                "a grid over [-40, 40] and beyond, both precisions; non-trivial: a non-zero argument",
                |t| {
                    let n: i64 = if t { 400_000 } else { 16_000 };
                    (-n..=n).map(|i| BesCase { single: i % 2 == 0, cols: 1, x: vec![i as f64 * 40.0 / n as f64, i as f64 * 700.0 / n as f64] }).collect()
                },
                |c: &BesCase, cx: &mut Cx| {
                    for x in &c.x {
                        if c.single { bessel_point::<f32>(*x, cx)? } else { bessel_point::<f64>(*x, cx)? }
                    }
                    Ok(())
                },
            ),
        ],
        assumptions: vec!["the unscaled function is judged up to |x| = 709 (f64) and 88 (f32), where exp does not overflow; above that only that it is huge or infinite"],
    }
}

// ------------------------------------------------------------------------------------------ C22
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CompCase {
    /// 0 f64, 1 f32, 2 i32, 3 i64
    ty: u8,
    #[serde(deserialize_with = "way_of")]
    borrowed: u8,
    /// coefficients beyond the stated size
    extra: usize,
    a: Vec<f64>,
}
fn comp_check(c: &CompCase, cx: &mut Cx) -> R {
    macro_rules! go {
        ($t:ty, $eps:expr, $conv:expr) => {{
            let conv = $conv;
            let a: Vec<$t> = c.a.iter().map(|v| conv(*v)).collect();
            if a.is_empty() {
                cx.nt(true);
                cx.label("empty");
                return rejects("an empty sequence", || companion_dyn::<$t, $t, _>(a.iter().copied(), 3));
            }
            let extra = c.extra.min(a.len().saturating_sub(2));
            let m = a.len() - extra;
            if m < 2 || a[0] == (0 as $t) {
                return Ok(());
            }
            let got = call(|| passed!(c.borrowed, a, |it| companion_dyn(it, m)));
            let got = match got {
                Ok(g) => g,
                Err(e) => {
                    ensure!(extra > 0, "companion matrix of {m} coefficients panicked: {e}");
                    cx.nt(true);
                    cx.label("longer than stated: rejected");
                    return Ok(());
                }
            };
            ensure!(got.shape() == (m - 1, m - 1), "shape {:?} for {m} coefficients", got.shape());
            for i in 0..m - 1 {
                for j in 0..m - 1 {
                    let g = got[(i, j)];
                    if i == 0 {
                        let w = -a[j + 1] / a[0];
                        ensure!(((g - w) as f64).abs() <= $eps * (w as f64).abs(), "entry (0, {j}) is {g}, should be {w} (size {m}, {} coefficients)", a.len());
                    } else {
                        let w = if j + 1 == i { 1 as $t } else { 0 as $t };
                        ensure!(g == w, "entry ({i}, {j}) is {g}, should be {w} (size {m}, {} coefficients)", a.len());
                    }
                }
            }
            cx.nt(m > 2);
            cx.label(stringify!($t));
        }};
    }
    match c.ty % 4 {
        0 => go!(f64, 2.0 * f64::EPSILON, |v: f64| v),
        1 => go!(f32, 2.0 * f32::EPSILON as f64, |v: f64| v as f32),
        2 => go!(i32, 0.0, |v: f64| v.clamp(-1e6, 1e6) as i32),
        _ => go!(i64, 0.0, |v: f64| v.clamp(-1e15, 1e15) as i64),
    }
    Ok(())
}

pub fn c22() -> Property {
    Property {
        id: "C22",
        subs: vec![sub(
            "companion",
            "coefficient sequences of 0 to 40 items of four types, stated size equal to or below the length; non-trivial: at least three coefficients, or a rejected call",
            60_000, 1_000_000,
            |_| (0u8..4, way(), prop_oneof![4 => Just(0usize), 1 => 1usize..4], prop_oneof![3 => prop::collection::vec(real(4), 0..8), 1 => prop::collection::vec(real(4), 0..40), 1 => prop::collection::vec((-30i32..30).prop_map(|v| v as f64), 0..12)])
                .prop_map(|(ty, borrowed, extra, a)| CompCase { ty, borrowed, extra, a }),
            comp_check,
        ),
        sub("large", "as companion with up to 700 coefficients", 10, 1000,
            |_| (0u8..4, way(), prop_oneof![4 => Just(0usize), 1 => 1usize..400], prop_oneof![3 => 40usize..700, 1 => (-3i64..=3).prop_map(|d| (256 + d) as usize), 1 => (-3i64..=3).prop_map(|d| (128 + d) as usize)])
                .prop_flat_map(|(ty, borrowed, extra, n)| prop::collection::vec(real(4), n).prop_map(move |mut a| { if a[0] as i64 == 0 { a[0] = 2.0; } CompCase { ty, borrowed, extra, a } })),
            comp_check)],
        assumptions: vec!["a sequence longer than the stated size may be rejected or truncated, but must not change other entries"],
    }
}
