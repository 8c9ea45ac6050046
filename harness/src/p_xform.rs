//! C09-C11: root transforms and conversions.
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use crate::p_design::*;
use crate::p_sos::Flt;
use proptest::prelude::*;
use sci_rs::na::Complex;
use sci_rs::signal::filter::design::*;
use serde::{Deserialize, Serialize};
use std::f64::consts::PI;

/// One real root, one conjugate pair, or several copies of either.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Item {
    re: f64,
    im: f64,
    rep: usize,
    /// last-place perturbations of the conjugate (re, im), in units of eps
    jit: (i8, i8),
    /// magnitude times this power of ten
    #[serde(default)]
    dec: f64,
}

fn shuffle<T>(v: &mut [T], mut seed: u64) {
    for i in (1..v.len()).rev() {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        v.swap(i, ((seed >> 33) as usize) % (i + 1));
    }
}

/// The root list the items stand for, rounded to the precision in use.
fn expand(items: &[Item], single: bool, order: u64, jitter: bool) -> Vec<C> {
    let eps = if single { f32::EPSILON as f64 } else { f64::EPSILON };
    let mut v = vec![];
    for it in items {
        let s = if it.dec == 0.0 { 1.0 } else { 10f64.powf(it.dec) };
        for _ in 0..it.rep.max(1) {
            if it.im == 0.0 {
                let im = if jitter { it.jit.1 as f64 * eps * it.re * s } else { 0.0 };
                v.push(c(rnd(single, it.re * s), rnd(single, im)));
            } else {
                let (re, im) = (rnd(single, it.re * s), rnd(single, it.im * s));
                v.push(c(re, im));
                let (mut r2, mut i2) = (re, -im);
                if jitter {
                    r2 += it.jit.0 as f64 * eps * re;
                    i2 += it.jit.1 as f64 * eps * im;
                }
                v.push(c(rnd(single, r2), rnd(single, i2)));
            }
        }
    }
    if order != 0 {
        shuffle(&mut v, order);
    }
    v
}

/// `kind`: 0 anywhere in the s-plane, 1 left half plane, 2 z-plane (mostly inside the circle)
fn item(kind: u8, zero_ok: bool) -> BoxedStrategy<Item> {
    let mag = if kind == 2 { prop_oneof![4 => 0.01f64..0.999, 1 => Just(1.0), 1 => 1.0f64..1.5, 1 => logu(1e-3, 0.1).prop_map(|x| 1.0 - x)].boxed() } else { prop_oneof![3 => 0.2f64..3.0, 2 => logu(0.02, 50.0), 1 => (1i32..6).prop_map(|i| i as f64)].boxed() };
    let ang = if kind == 1 { prop_oneof![3 => 1.6f64..3.1, 1 => Just(2.0)].boxed() } else { prop_oneof![4 => 0.02f64..3.12, 1 => Just(1.5707963267948966), 1 => Just(0.7853981633974483)].boxed() };
    let zero = if zero_ok { 1 } else { 0 };
    (
        prop_oneof![
            2 => (mag.clone(), any::<bool>()).prop_map(move |(m, s)| (if s || kind == 1 { -m } else { m }, 0.0)),
            3 => (mag.clone(), ang).prop_map(|(m, a)| { let re = m * a.cos(); (if re.abs() < 1e-15 { 0.0 } else { re }, m * a.sin()) }),
            // shared real parts
            1 => (mag.clone(), 1i32..4).prop_map(move |(m, r)| (if kind == 2 { 0.25 * (r - 2) as f64 } else if kind == 1 { -(r as f64) } else { (r - 2) as f64 }, m * 0.7)),
            zero => Just((0.0, 0.0)),
            zero => Just((-1.0, 0.0)),
            zero => Just((1.0, 0.0)),
        ],
        prop_oneof![6 => Just(1usize), 1 => Just(2usize), 1 => 2usize..4],
        (-3i8..=3, -3i8..=3),
    )
        .prop_map(|((re, im), rep, jit)| Item { re, im, rep, jit, dec: 0.0 })
        .boxed()
}

/// Spread the magnitudes of the roots over the decades -span..span, each item on its own.
fn spread(items: BoxedStrategy<Vec<Item>>, span: f64) -> BoxedStrategy<Vec<Item>> {
    (items, prop::collection::vec(-span..span, 8), prop::bool::weighted(0.25), any::<u8>())
        .prop_map(|(mut v, d, on, which)| {
            if on {
                for (i, it) in v.iter_mut().enumerate() {
                    if which >> (i % 8) & 1 == 1 {
                        it.dec = d[i % 8];
                    }
                }
            }
            v
        })
        .boxed()
}

fn zpk_in<F: Flt>(z: &[C], p: &[C], k: f64) -> ZpkFormatFilter<F> {
    let cv = |v: &[C]| v.iter().map(|x| Complex::new(F::f(x.re), F::f(x.im))).collect::<Vec<_>>();
    ZpkFormatFilter::new(cv(z), cv(p), F::f(k))
}

fn log_span(roots: &[&[C]], extra: f64) -> f64 {
    roots.iter().flat_map(|r| r.iter()).map(|r| if r.norm() == 0.0 { 0.0 } else { r.norm().log10().abs() + extra }).sum()
}

// ------------------------------------------------------------ C09

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Xf {
    single: bool,
    /// 0 lp, 1 hp, 2 bp, 3 bs
    kind: u8,
    z: Vec<Item>,
    p: Vec<Item>,
    k: f64,
    order: u64,
    wo: Option<f64>,
    bw: Option<f64>,
    pts: Vec<(f64, f64)>,
}

fn apply<F: Flt>(kind: u8, f: ZpkFormatFilter<F>, wo: Option<f64>, bw: Option<f64>) -> ZpkFormatFilter<F> {
    let (wo, bw) = (wo.map(F::f), bw.map(F::f));
    match kind {
        0 => lp2lp_zpk_dyn(f, wo),
        1 => lp2hp_zpk_dyn(f, wo),
        2 => lp2bp_zpk_dyn(f, wo, bw),
        _ => lp2bs_zpk_dyn(f, wo, bw),
    }
}

/// multiset comparison of roots, within `tol` relative to `scale`
fn same_roots(a: &[C], b: &[C], tol: impl Fn(&C) -> f64) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut left: Vec<C> = b.to_vec();
    for x in a {
        let Some((i, d)) = left.iter().enumerate().map(|(i, y)| (i, (x - y).norm())).min_by(|p, q| p.1.total_cmp(&q.1)) else { return false };
        if !(d <= tol(x)) {
            return false;
        }
        left.swap_remove(i);
    }
    true
}

fn c09_t<F: Flt>(t: &Xf, cx: &mut Cx) -> R {
    let z = expand(&t.z, F::SINGLE, t.order, false);
    let p = expand(&t.p, F::SINGLE, t.order ^ 77, false);
    let k = rnd(F::SINGLE, t.k);
    let (wo, bw) = (t.wo.map(|v| rnd(F::SINGLE, v)), t.bw.map(|v| rnd(F::SINGLE, v)));
    let (w1, b1) = (wo.unwrap_or(1.0), bw.unwrap_or(1.0));
    if z.len() > p.len() {
        rejects("a prototype with more zeros than poles", || zpk_of(&apply::<F>(t.kind, zpk_in(&z, &p, k), wo, bw)))?;
        cx.nt(true);
        cx.label("improper");
        return Ok(());
    }
    let lim = if F::SINGLE { 16.0 } else { 130.0 };
    if log_span(&[&z, &p], 0.5 + w1.log10().abs() + b1.log10().abs()) > lim {
        cx.label("outside the exponent range");
        return Ok(());
    }
    let g = must("band transform", || zpk_of(&apply::<F>(t.kind, zpk_in(&z, &p, k), wo, bw)))?;
    let proto = Zpk { z: z.clone(), p: p.clone(), k };
    let deg = p.len() - z.len();
    // reference roots
    let mut pairs: Vec<[C; 2]> = vec![];
    let mut quad = |q: &C| -> [C; 2] {
        let tt = if t.kind == 2 { q * b1 } else { c(b1, 0.0) / q };
        let d = (tt * tt / 4.0 - w1 * w1).sqrt();
        let big = if (tt / 2.0 + d).norm() >= (tt / 2.0 - d).norm() { tt / 2.0 + d } else { tt / 2.0 - d };
        let r = [big, c(w1 * w1, 0.0) / big];
        pairs.push(r);
        r
    };
    let map1 = |q: &C| if t.kind == 0 { q * w1 } else { c(w1, 0.0) / q };
    let mut rz: Vec<C>;
    let rp: Vec<C>;
    if t.kind < 2 {
        rz = z.iter().map(map1).collect();
        rp = p.iter().map(map1).collect();
        if t.kind == 1 {
            rz.extend(vec![c(0.0, 0.0); deg]);
        }
    } else {
        rz = z.iter().flat_map(&mut quad).collect();
        rp = p.iter().flat_map(&mut quad).collect();
        if t.kind == 2 {
            rz.extend(vec![c(0.0, 0.0); deg]);
        } else {
            rz.extend((0..2 * deg).map(|i| c(0.0, if i % 2 == 0 { w1 } else { -w1 })));
        }
    }
    ensure!(g.p.len() == rp.len(), "{} poles, expected {}", g.p.len(), rp.len());
    ensure!(g.z.len() == rz.len(), "{} zeros, expected {}", g.z.len(), rz.len());
    let roots = Zpk { z: rz.clone(), p: rp.clone(), k: 1.0 };
    let eps = F::E;
    let mut checked = 0;
    let mut bad: Option<String> = None;
    let mut pts: Vec<C> = t.pts.iter().map(|(lr, th)| c(th.cos(), th.sin()) * (w1 * 10f64.powf(*lr))).collect();
    // and some near the roots, wherever they are
    let all: Vec<C> = rz.iter().chain(&rp).filter(|r| r.norm() > 0.0).copied().collect();
    if !all.is_empty() {
        pts.extend(t.pts.iter().enumerate().map(|(i, (lr, th))| { let r = all[(t.order as usize / 7 + i) % all.len()]; r + c(th.cos(), th.sin()) * (r.norm() * 10f64.powf(*lr)) }));
    }
    for s in pts {
        let q = match t.kind {
            0 => s / w1,
            1 => c(w1, 0.0) / s,
            2 => (s * s + w1 * w1) / (s * b1),
            _ => s * b1 / (s * s + w1 * w1),
        };
        let h = proto.eval(q);
        let dq = match t.kind {
            0 | 1 => q.norm(),
            2 => (s.norm_sqr() + w1 * w1) / (b1 * s.norm()),
            _ => q.norm_sqr() * (s.norm_sqr() + w1 * w1) / (b1 * s.norm()),
        };
        let mut cond = 8.0 * (1.0 + p.len() as f64) + roots.cond(s);
        cond += 4.0 * dq * z.iter().chain(&p).map(|r| 1.0 / (q - r).norm()).sum::<f64>();
        cond += pairs.iter().map(|[b, r]| b.norm() / (s - r).norm()).sum::<f64>();
        let tol = 24.0 * eps * cond;
        if !(tol < 1e-3) || !h.norm().is_finite() || h.norm() < 1e-200 || h.norm() > 1e200 {
            continue;
        }
        checked += 1;
        let got = g.eval(s);
        if !((got - h).norm() <= tol * h.norm()) && bad.is_none() {
            bad = Some(format!("transform {} (wo {w1}, bw {b1}) of z {z:?} p {p:?} k {k}: H({s}) = {got}, expected {h} (tolerance {tol:e})", ["lowpass", "highpass", "bandpass", "bandstop"][t.kind as usize]));
        }
    }
    if let Some(m) = bad {
        // The listed defect: exactly these wrong zeros and this wrong gain, and correct poles.
        if !z.is_empty() && (t.kind == 1 || t.kind == 3) {
            let i = c(0.0, 1.0);
            let den = prod(p.iter().map(|p| -p));
            let (bz, bk, key) = if t.kind == 1 {
                let mut v: Vec<C> = z.iter().map(|q| i * (2.0 * w1) / q).collect();
                v.extend(vec![c(0.0, 0.0); deg]);
                (v, k * (prod(z.iter().map(|q| q - 1.0)) / den).re, "KF-LP2HP-ZEROS")
            } else {
                let mut v: Vec<C> = vec![];
                for q in &z {
                    let h = i * b1 / q;
                    let y = c(h.re * h.re - w1 * w1, 0.0).sqrt().im;
                    v.push(c(h.re, y));
                    v.push(c(h.re, -y));
                }
                v.extend((0..2 * deg).map(|i| c(0.0, if i % 2 == 0 { w1 } else { -w1 })));
                (v, k * z.iter().map(|q| q.re).product::<f64>() / den.re, "KF-LP2BS-ZEROS")
            };
            let hmax = z.iter().map(|q| b1 / q.norm()).fold(0.0, f64::max);
            let near = |x: &C| 4.0 * eps.sqrt() * (x.norm() + w1) + if t.kind == 3 { 16.0 * eps * hmax } else { 0.0 };
            let bmax = pairs.iter().map(|p| p[0].norm()).fold(0.0, f64::max);
            let kt = 64.0 * eps * (4.0 + z.len() as f64 + z.iter().map(|q| (q.norm() + 1.0) / (q - 1.0).norm().max(1e-300)).sum::<f64>()) * k.abs() * (prod(z.iter().map(|q| q - 1.0)).norm().max(z.iter().map(|q| q.norm()).product())) / den.norm();
            let good_poles = same_roots(&g.p, &rp, |x| 8.0 * eps.sqrt() * (x.norm() + w1) + 16.0 * eps * bmax);
            if good_poles && same_roots(&g.z, &bz, near) && (g.k - bk).abs() <= kt {
                cx.known(key, m);
                return Ok(());
            }
        }
        return Err(m);
    }
    cx.nt(checked >= 2 && p.len() >= 1);
    cx.label(format!("{} {}", ["lp", "hp", "bp", "bs"][t.kind as usize], if z.is_empty() { "all-pole" } else if deg == 0 { "equal counts" } else { "fewer zeros" }));
    cx.label(if wo.is_none() || bw.is_none() { "default parameter" } else { "explicit parameters" });
    cx.label(if F::SINGLE { "f32" } else { "f64" });
    Ok(())
}
fn c09_check(t: &Xf, cx: &mut Cx) -> R {
    if t.single { c09_t::<f32>(t, cx) } else { c09_t::<f64>(t, cx) }
}
fn xf(kinds: &'static [u8]) -> BoxedStrategy<Xf> {
    let freq = || prop_oneof![1 => Just(None), 2 => (0.1f64..10.0).prop_map(Some), 1 => logu(1e-2, 1e3).prop_map(Some), 1 => logu(1e-7, 1e9).prop_map(Some)];
    (
        prop::bool::weighted(0.3),
        prop::sample::select(kinds),
        prop_oneof![2 => Just(vec![]).boxed(), 3 => spread(prop::collection::vec(item(0, false), 0..3).boxed(), 10.0)],
        spread(prop_oneof![prop::collection::vec(item(1, false), 1..4), prop::collection::vec(item(0, false), 0..4)].boxed(), 10.0),
        prop_oneof![2 => 0.1f64..10.0, 1 => -10.0f64..-0.1, 1 => Just(1.0)],
        any::<u64>(),
        freq(),
        freq(),
        prop::collection::vec((-1.2f64..1.2, 0.0f64..6.3), 3..7),
    )
        .prop_map(|(single, kind, z, p, k, order, wo, bw, pts)| Xf { single, kind, z, p, k, order, wo, bw, pts })
        .boxed()
}

pub fn c09() -> Property {
    Property {
        id: "C09",
        subs: vec![
            sub("lowpass", "prototypes of up to about 15 roots, scaled; non-trivial: a pole and at least 2 well-conditioned points, or an improper prototype", 60_000, 700_000, |_| xf(&[0]), c09_check),
            sub("highpass", "inverted", 60_000, 700_000, |_| xf(&[1]), c09_check),
            sub("bandpass", "wide and narrow", 60_000, 700_000, |_| xf(&[2]), c09_check),
            sub("bandstop", "wide and narrow", 60_000, 700_000, |_| xf(&[3]), c09_check),
        ],
        assumptions: vec!["conjugate-closed roots, none at the origin", "products of the root magnitudes stay inside the exponent range", "points at which the response is numerically determined (conditioning * eps below 1e-3)"],
    }
}

// ------------------------------------------------------------ C10

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bl {
    single: bool,
    z: Vec<Item>,
    p: Vec<Item>,
    k: f64,
    order: u64,
    /// root scale relative to the sampling rate
    scale: f64,
    fs: f64,
    pts: Vec<(f64, f64)>,
}
fn c10_t<F: Flt>(t: &Bl, cx: &mut Cx) -> R {
    let fs = rnd(F::SINGLE, t.fs);
    let sc = |v: Vec<C>| -> Vec<C> { v.into_iter().map(|r| c(rnd(F::SINGLE, r.re * t.scale * fs), rnd(F::SINGLE, r.im * t.scale * fs))).collect() };
    let z = sc(expand(&t.z, F::SINGLE, t.order, false));
    let p = sc(expand(&t.p, F::SINGLE, t.order ^ 99, false));
    let k = rnd(F::SINGLE, t.k);
    if z.len() > p.len() {
        rejects("an analog filter with more zeros than poles", || zpk_of(&bilinear_zpk_dyn::<F>(zpk_in(&z, &p, k), F::f(fs))))?;
        cx.nt(true);
        cx.label("improper");
        return Ok(());
    }
    let lim = if F::SINGLE { 16.0 } else { 130.0 };
    let lf = fs.log10().abs() + 1.0;
    let span: f64 = (p.len() + z.len()) as f64 * 0.3 + z.iter().chain(&p).map(|r| (2.0 * fs + r.norm()).log10().abs()).sum::<f64>();
    if span > lim || lf * 2.0 > lim {
        cx.label("outside the exponent range");
        return Ok(());
    }
    let g = must("bilinear transform", || zpk_of(&bilinear_zpk_dyn::<F>(zpk_in(&z, &p, k), F::f(fs))))?;
    ensure!(g.z.len() == p.len() && g.p.len() == p.len(), "{} zeros and {} poles from {} and {}", g.z.len(), g.p.len(), z.len(), p.len());
    let f2 = 2.0 * fs;
    let m = |r: &C| (r + f2) / (c(f2, 0.0) - r);
    let amp = |r: &C| (f2 + r.norm()) / (c(f2, 0.0) - r).norm();
    let eps = F::E;
    // missing zeros
    let at_m1 = g.z.iter().filter(|x| (*x + 1.0).norm() <= 4.0 * eps).count();
    ensure!(at_m1 >= p.len() - z.len(), "{at_m1} zeros at z = -1, {} expected", p.len() - z.len());
    // poles and imaginary-axis zeros
    let stable = p.iter().all(|r| r.re < 0.0 && 1.0 - m(r).norm() > 32.0 * eps);
    if stable {
        ensure!(g.p.iter().all(|x| x.norm() < 1.0), "a left-half-plane pole landed on or outside the unit circle: {:?} from {p:?}", g.p);
    }
    if z.iter().all(|r| r.re == 0.0) && !z.is_empty() {
        ensure!(g.z.iter().all(|x| (x.norm() - 1.0).abs() <= 32.0 * eps), "imaginary-axis zeros landed off the unit circle: {:?}", g.z);
    }
    let a = Zpk { z: z.clone(), p: p.clone(), k };
    let mut checked = 0;
    let mut pts: Vec<C> = t.pts.iter().map(|(lr, th)| c(th.cos(), th.sin()) * 10f64.powf(*lr)).collect();
    // and some whose distance from z = -1 or z = 1 is like that of a root
    let all: Vec<C> = z.iter().chain(&p).copied().collect();
    if !all.is_empty() {
        for (i, (lr, th)) in t.pts.iter().enumerate() {
            let r = all[(t.order as usize / 7 + i) % all.len()];
            let w = c(th.cos(), th.sin()) * 10f64.powf(*lr);
            pts.push(c(-1.0, 0.0) + w * (c(2.0 * f2, 0.0) / (c(f2, 0.0) - r)));
            pts.push(c(1.0, 0.0) + w * (r * 2.0 / (c(f2, 0.0) - r)));
        }
    }
    for x in pts {
        let s = (x - 1.0) / (x + 1.0) * f2;
        let h = a.eval(s);
        let kap = (x.norm() + 1.0) * (1.0 / (x - 1.0).norm() + 1.0 / (x + 1.0).norm());
        let mut cond = 8.0 + 8.0 * p.len() as f64;
        for r in z.iter().chain(&p) {
            let y = m(r);
            cond += amp(r) * (1.0 + (1.0 + y.norm()) * (1.0 + 0.0) / (x - y).norm()) + (s.norm() * kap + r.norm()) / (s - r).norm();
        }
        cond += (p.len() - z.len()) as f64 * (x.norm() + 1.0) / (x + 1.0).norm();
        let tol = 24.0 * eps * cond;
        if !(tol < 1e-3) || !h.norm().is_finite() || h.norm() < 1e-200 || h.norm() > 1e200 {
            continue;
        }
        checked += 1;
        let got = g.eval(x);
        ensure!((got - h).norm() <= tol * h.norm(), "bilinear (fs {fs}) of z {z:?} p {p:?} k {k}: H({x}) = {got}, analog response {h} (tolerance {tol:e})");
    }
    cx.nt(checked >= 2 && !p.is_empty());
    cx.label(if z.is_empty() { "all-pole" } else if z.len() == p.len() { "equal counts" } else { "fewer zeros" });
    cx.label(if stable { "stable" } else { "other" });
    cx.label(if F::SINGLE { "f32" } else { "f64" });
    Ok(())
}
fn c10_check(t: &Bl, cx: &mut Cx) -> R {
    if t.single { c10_t::<f32>(t, cx) } else { c10_t::<f64>(t, cx) }
}
pub fn c10() -> Property {
    Property {
        id: "C10",
        subs: vec![sub(
            "bilinear",
            "root sets of up to about 20 roots, scales and rates over decades; non-trivial: a pole and at least 2 well-conditioned points, or an improper filter",
            160_000, 2_000_000,
            |_| (prop::bool::weighted(0.3), prop_oneof![1 => Just(vec![]).boxed(), 1 => prop::collection::vec((0.1f64..5.0, 1usize..3).prop_map(|(m, rep)| Item { re: 0.0, im: m, rep, jit: (0, 0), dec: 0.0 }), 1..4).boxed(), 4 => spread(prop::collection::vec(item(0, true), 0..4).boxed(), 11.0)],
                spread(prop_oneof![3 => prop::collection::vec(item(1, false), 0..6), 1 => prop::collection::vec(item(0, true), 0..4)].boxed(), 11.0),
                prop_oneof![2 => 0.1f64..10.0, 1 => -10.0f64..-0.1, 1 => Just(1.0)], any::<u64>(),
                prop_oneof![3 => 0.05f64..3.0, 1 => logu(1e-3, 1e2), 1 => Just(1.0)], prop_oneof![4 => 0.3f64..5.0, 2 => logu(1e-3, 1e6), 1 => logu(1e-9, 1e12), 1 => Just(2.0), 1 => Just(1.0)],
                prop::collection::vec((-0.7f64..0.7, 0.0f64..6.3), 3..7))
                .prop_map(|(single, z, p, k, order, scale, fs, pts)| Bl { single, z, p, k, order, scale, fs, pts }),
            c10_check,
        )],
        assumptions: vec!["conjugate-closed roots, none equal to 2 fs", "products stay inside the exponent range of the type", "points at which the response is numerically determined"],
    }
}

// ------------------------------------------------------------ C11

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Conv {
    single: bool,
    z: Vec<Item>,
    p: Vec<Item>,
    k: f64,
    order: u64,
    jitter: bool,
    /// extra order handed to zpk2tf
    extra: usize,
    /// all roots times this power of two, in percent of what the precision allows
    #[serde(default)]
    level: i32,
    pts: Vec<(f64, f64)>,
}

/// Coefficients of the polynomial with the given roots, and of the one with their magnitudes.
fn poly_ref(r: &[C]) -> (Vec<C>, Vec<f64>) {
    let mut a = vec![c(1.0, 0.0)];
    let mut m = vec![1.0];
    for x in r {
        let mut b = vec![c(0.0, 0.0); a.len() + 1];
        let mut n = vec![0.0; a.len() + 1];
        for i in 0..a.len() {
            b[i] += a[i];
            b[i + 1] -= a[i] * x;
            n[i] += m[i];
            n[i + 1] += m[i] * x.norm();
        }
        a = b;
        m = n;
    }
    (a, m)
}
fn times(v: Vec<C>, s: f64) -> Vec<C> {
    v.into_iter().map(|x| x * s).collect()
}
fn poly_t<F: Flt>(t: &Conv, cx: &mut Cx) -> R {
    let level = boost(F::SINGLE, t.level, 12, 60);
    let z = times(expand(&t.z, F::SINGLE, t.order, t.jitter), level);
    let p = times(expand(&t.p, F::SINGLE, t.order ^ 5, t.jitter), level);
    let (a, m) = poly_ref(&z);
    if m.iter().chain(&poly_ref(&p).1).any(|v| *v > if F::SINGLE { 1e30 } else { 1e280 }) {
        cx.label("range exceeded");
        return Ok(());
    }
    let zz: Vec<Complex<F>> = z.iter().map(|x| Complex::new(F::f(x.re), F::f(x.im))).collect();
    let g = must("poly_dyn", || poly_dyn(&zz))?;
    ensure!(g.len() == z.len() + 1, "{} coefficients from {} roots", g.len(), z.len());
    ensure!(g[0].re.d() == 1.0 && g[0].im.d() == 0.0, "not monic: {:?}", g[0]);
    let e = 8.0 * F::E * (z.len() as f64 + 1.0);
    // what is lost to underflow is multiplied by the roots that follow
    let tiny = |r: &[C]| if F::SINGLE { 1e-36 } else { 1e-290 } * r.iter().map(|x| x.norm().max(1.0)).product::<f64>();
    let (tz, tp) = (tiny(&z), tiny(&p));
    let tiny = tz;
    for i in 0..a.len() {
        let y = c(g[i].re.d(), g[i].im.d());
        ensure!((y - a[i]).norm() <= e * m[i] + tiny, "coefficient {i} of the polynomial with roots {z:?} is {y}, expected {} (tolerance {:e})", a[i], e * m[i]);
        if !t.jitter {
            ensure!(y.im == 0.0, "coefficient {i} of a real polynomial has imaginary part {}", y.im);
        }
    }
    // real-typed roots
    let rr: Vec<F> = z.iter().map(|x| F::f(x.re)).collect();
    let (a, m) = poly_ref(&z.iter().map(|x| c(x.re, 0.0)).collect::<Vec<_>>());
    let g = must("poly_dyn on real roots", || poly_dyn(&rr))?;
    ensure!(g.len() == a.len(), "{} coefficients from {} real roots", g.len(), z.len());
    for i in 0..a.len() {
        ensure!((g[i].d() - a[i].re).abs() <= e * m[i] + tiny, "coefficient {i} of the polynomial with real roots is {}, expected {}", g[i].d(), a[i].re);
    }
    // arbitrary complex lists stay complex: drop the last root, which usually breaks the symmetry
    if zz.len() > 1 {
        let (a, m) = poly_ref(&z[..z.len() - 1]);
        let g = must("poly_dyn on arbitrary roots", || poly_dyn(&zz[..zz.len() - 1].to_vec()))?;
        for i in 0..a.len() {
            let y = c(g[i].re.d(), g[i].im.d());
            ensure!((y - a[i]).norm() <= e * m[i] + tiny, "coefficient {i} of the polynomial with unsymmetric roots is {y}, expected {}", a[i]);
        }
    }
    // transfer function
    let k = rnd(F::SINGLE, t.k);
    let f = zpk_in::<F>(&z, &p, k);
    let n = z.len().max(p.len());
    let order = n + t.extra;
    let ba = must("zpk2tf_dyn", || zpk2tf_dyn(order, &f.z, &f.p, f.k))?;
    ensure!(ba.b.len() == order + 1 && ba.a.len() == order + 1, "lengths {} and {} for order {order}", ba.b.len(), ba.a.len());
    for (name, r, g, gain) in [("numerator", &z, &ba.b, k), ("denominator", &p, &ba.a, 1.0)] {
        let (q, m) = poly_ref(r);
        let off = n - r.len();
        let tiny = if name == "numerator" { tz * gain.abs().max(1.0) } else { tp };
        for i in 0..order + 1 {
            let (want, lim) = if i >= off && i - off < q.len() { (q[i - off].re * gain, e * m[i - off] * gain.abs() + tiny) } else { (0.0, 0.0) };
            ensure!((g[i].d() - want).abs() <= lim, "{name} coefficient {i} of {order} is {}, expected {want} (roots z {z:?} p {p:?} k {k})", g[i].d());
        }
    }
    // real-typed roots through the same function
    let (zr, pr): (Vec<F>, Vec<F>) = (z.iter().map(|x| F::f(x.re)).collect(), p.iter().map(|x| F::f(x.re)).collect());
    let ba2 = must("zpk2tf_dyn on real roots", || zpk2tf_dyn(order, &zr, &pr, F::f(k)))?;
    let (q, m) = poly_ref(&z.iter().map(|x| c(x.re, 0.0)).collect::<Vec<_>>());
    for i in 0..q.len() {
        ensure!((ba2.b[i + n - z.len()].d() - q[i].re * k).abs() <= e * m[i] * k.abs() + tiny * k.abs().max(1.0), "real-typed numerator coefficient {i} differs");
    }
    cx.nt(z.len() + p.len() >= 2);
    cx.label(if z.len() == p.len() { "equal counts" } else if z.len() < p.len() { "fewer zeros" } else { "more zeros" });
    cx.label(if t.jitter { "perturbed" } else { "exact conjugates" });
    Ok(())
}
fn poly_check(t: &Conv, cx: &mut Cx) -> R {
    if t.single { poly_t::<f32>(t, cx) } else { poly_t::<f64>(t, cx) }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SosCase {
    conv: Conv,
    analog: bool,
    /// 0 default, 1 minimal, 2 nearest
    pairing: u8,
    /// add a complex root without conjugate: 0 no, 1 zero, 2 pole; 3, 4: with an inexact conjugate
    lone: u8,
    /// log10 of the relative mismatch, and its direction
    #[serde(default)]
    off: (f64, f64),
    /// the lone root; None: (0.37, 0.61). With `twin`, it repeats a complex root of the list instead, or its conjugate
    #[serde(default)]
    at: Option<(f64, f64)>,
    #[serde(default)]
    twin: Option<usize>,
}
fn sos_t<F: Flt>(t: &SosCase, cx: &mut Cx) -> R {
    let v = &t.conv;
    let level = boost(F::SINGLE, v.level, 20, 60);
    let mut z = times(expand(&v.z, F::SINGLE, v.order, v.jitter), level);
    let mut p = times(expand(&v.p, F::SINGLE, v.order ^ 5, v.jitter), level);
    if t.lone > 0 {
        let l = if t.lone % 2 == 1 { &mut z } else { &mut p };
        let complex: Vec<C> = l.iter().filter(|q| q.im.abs() > 0.05 * q.norm()).copied().collect();
        let x = match (t.twin, t.at) {
            (Some(i), _) if !complex.is_empty() => complex[i % complex.len()],
            (_, Some((re, im))) => c(re, im) * level,
            _ => c(0.37, 0.61) * level,
        };
        l.push(x);
        if t.lone > 2 {
            // single precision resolves less
            let rel = 10f64.powf(if F::SINGLE { t.off.0 * 0.3 } else { t.off.0 });
            l.push(x.conj() + c(t.off.1.cos(), t.off.1.sin()) * rel * x.norm());
            let n = l.len();
            l.swap(0, n - 1);
        }
    }
    let k = rnd(F::SINGLE, v.k);
    let pairing = || match t.pairing { 0 => None, 1 => Some(ZpkPairing::Minimal), _ => Some(ZpkPairing::Nearest) };
    let minimal = t.pairing == 1 || (t.pairing == 0 && t.analog);
    let n = z.len().max(p.len());
    let get = || zpk2sos_dyn::<F>(n, zpk_in(&z, &p, k), pairing(), Some(t.analog)).sos.iter().map(|s| (s.b.map(|v| v.d()), s.a.map(|v| v.d()), s.zi0.d(), s.zi1.d())).collect::<Vec<_>>();
    let reject = if t.analog && t.pairing == 2 { Some("nearest pairing for an analog filter") }
        else if minimal && z.len() > p.len() { Some("more zeros than poles with minimal pairing") }
        else if t.lone > 0 { Some("a complex root without conjugate") } else { None };
    if let Some(why) = reject {
        rejects(why, get)?;
        cx.nt(true);
        cx.label(format!("rejected: {why}"));
        return Ok(());
    }
    let s = call(get).map_err(|m| format!("sections from z {z:?} p {p:?} k {k} (analog {}, pairing {}) panicked: {m}", t.analog, t.pairing))?;
    let sections = if minimal { p.len() } else { n }.div_ceil(2).max(1);
    ensure!(s.len() == sections, "{} sections for {} zeros and {} poles", s.len(), z.len(), p.len());
    ensure!(s.iter().all(|x| x.2 == 0.0 && x.3 == 0.0), "sections do not start at rest");
    if !t.analog {
        ensure!(s.iter().all(|x| x.1[0] == 1.0), "a digital section is not monic: {s:?}");
    }
    let secs: Vec<_> = s.iter().map(|x| (x.0, x.1)).collect();
    if t.analog || p.iter().all(|x| x.norm() < 1.9) {
        worst_last::<F>(&secs, t.analog)?;
        nearest::<F>(&z, &p, &secs, t.analog, minimal, k, cx)?;
    }
    let form = Form::Sos(secs);
    let mut zpk = Zpk { z: z.clone(), p: p.clone(), k };
    if !minimal {
        // the digital conversion first pads the shorter list with roots at the origin
        zpk.z.resize(n, c(0.0, 0.0));
        zpk.p.resize(n, c(0.0, 0.0));
    }
    let mut checked = 0;
    let mut pts: Vec<C> = v.pts.iter().map(|(lr, th)| c(th.cos(), th.sin()) * (10f64.powf(*lr) * level)).collect();
    let all: Vec<C> = z.iter().chain(&p).filter(|r| r.norm() > 0.0).copied().collect();
    if !all.is_empty() {
        pts.extend(v.pts.iter().enumerate().map(|(i, (lr, th))| { let r = all[(v.order as usize / 7 + i) % all.len()]; r + c(th.cos(), th.sin()) * (r.norm() * 10f64.powf(*lr)) }));
    }
    for x in pts {
        let h = zpk.eval(x);
        let tol = 24.0 * F::E * (4.0 + 4.0 * n as f64 + form.cond(x) + 16.0 * z.iter().chain(&p).map(|r| (x.norm() + r.norm()) / (x - r).norm()).sum::<f64>());
        if !(tol < 1e-3) || !h.norm().is_finite() || h.norm() < 1e-250 || h.norm() > 1e250 {
            continue;
        }
        checked += 1;
        let got = form.eval(x);
        ensure!((got - h).norm() <= tol * h.norm(), "sections have response {got} at {x}, the roots {h} (z {z:?} p {p:?} k {k}, analog {}, pairing {}, tolerance {tol:e})", t.analog, t.pairing);
    }
    cx.nt(checked >= 2 && n >= 2);
    cx.label(format!("{} pairing {}", if t.analog { "analog" } else { "digital" }, t.pairing));
    cx.label(if z.len() == p.len() { "equal counts" } else if z.len() < p.len() { "fewer zeros" } else { "more zeros" });
    cx.label(format!("{} roots", if v.jitter { "perturbed" } else { "exact" }));
    Ok(())
}
/// Going from the last section to the first, the pole nearest to the border of stability shares its section with
/// the nearest zero there is, as long as that is not the only real one.
fn nearest<F: Flt>(z: &[C], p: &[C], secs: &[([f64; 3], [f64; 3])], analog: bool, minimal: bool, k: f64, cx: &mut Cx) -> R {
    if k == 0.0 {
        return Ok(());
    }
    let mut left = z.to_vec();
    if !minimal {
        let n = z.len().max(p.len());
        left.resize(n + n % 2, c(0.0, 0.0));
    }
    let slack = 16.0 * F::E.sqrt();
    let size = z.iter().chain(p).map(|x| x.norm()).fold(0.0, f64::max);
    let real = |x: &C| x.im.abs() <= slack * x.norm();
    for (i, (b, a)) in secs.iter().enumerate().rev() {
        if left.is_empty() {
            break;
        }
        let mut pr = quad_roots(a);
        let zr = quad_roots(b);
        if !analog && minimal && a[2] == 0.0 && b[2] == 0.0 {
            // a short section, or roots at the origin
            break;
        }
        let key = |x: &C| if analog { x.re.abs() } else { (1.0 - x.norm()).abs() };
        pr.sort_by(|x, y| key(x).total_cmp(&key(y)));
        let Some(p1) = pr.first().copied() else { break };
        // which of two equally critical poles came first is not determined
        if pr.len() == 2 && real(&p1) && (key(&pr[1]) - key(&p1)).abs() <= slack * (size + if analog { 0.0 } else { 1.0 }) {
            break;
        }
        if left.iter().filter(|x| real(x)).count() == 1 {
            break;
        }
        let p1 = c(p1.re, p1.im.abs());
        // the last real pole of an odd number only takes a real zero
        let single = pr.len() == 1;
        let mut d: Vec<(f64, C)> = left.iter().filter(|x| if single { real(x) } else { x.im >= 0.0 || real(x) }).map(|x| ((x - p1).norm(), *x)).collect();
        d.sort_by(|x, y| x.0.total_cmp(&y.0));
        let tie = |x: f64, y: f64| (x - y).abs() <= slack * (size + p1.norm());
        // the nearest one, and whatever cannot be told apart from it
        if d.is_empty() {
            continue;
        }
        let ok = d.iter().take_while(|x| tie(x.0, d[0].0)).any(|x| zr.iter().any(|y| (y - x.1).norm() <= slack * (size + y.norm())));
        ensure!(ok, "section {i} of {} pairs the pole {p1} with the zeros {zr:?}, but {} is nearest (z {z:?} p {p:?})", secs.len(), d[0].1);
        if d.len() > 1 && !tie(d[0].0, d[1].0) {
            cx.label("pairing judged");
        }
        for y in zr {
            if let Some(j) = (0..left.len()).min_by(|s, t| (left[*s] - y).norm().total_cmp(&(left[*t] - y).norm())) {
                if (left[j] - y).norm() > slack * (size + y.norm()) {
                    return Ok(());
                }
                left.swap_remove(j);
            }
        }
    }
    Ok(())
}
fn sos_check(t: &SosCase, cx: &mut Cx) -> R {
    if t.conv.single { sos_t::<f32>(t, cx) } else { sos_t::<f64>(t, cx) }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Flat {
    rows: Vec<[f64; 6]>,
    cut: i8,
    claim: i8,
}
fn flat_check(t: &Flat, cx: &mut Cx) -> R {
    let mut v: Vec<f64> = t.rows.iter().flatten().copied().collect();
    if t.cut < 0 {
        v.truncate(v.len().saturating_sub((-t.cut) as usize));
    } else {
        v.extend((0..t.cut).map(|i| i as f64));
    }
    let order = (t.rows.len() as i64 + t.claim as i64).max(0) as usize;
    let get = || Sos::from_scipy_dyn(order, v.clone());
    if order * 6 != v.len() {
        rejects("a section array of the wrong length", || get().len())?;
        cx.nt(true);
        cx.label("rejected");
        return Ok(());
    }
    let s = must("from_scipy_dyn", get)?;
    ensure!(s.len() == order, "{} sections from {order} rows", s.len());
    for (i, x) in s.iter().enumerate() {
        let row: Vec<f64> = x.b.iter().chain(&x.a).copied().collect();
        ensure!(row.iter().zip(&v[6 * i..6 * i + 6]).all(|(a, b)| a.to_bits() == b.to_bits()), "row {i} is {row:?}, given {:?}", &v[6 * i..6 * i + 6]);
        ensure!(x.zi0 == 0.0 && x.zi1 == 0.0, "section {i} does not start at rest");
    }
    cx.nt(order >= 2);
    cx.label("accepted");
    Ok(())
}

fn conv(kind: u8) -> BoxedStrategy<Conv> {
    (
        prop::bool::weighted(0.3),
        spread(prop::collection::vec(item(kind, true), 0..5).boxed(), if kind == 2 { 4.0 } else { 8.0 }),
        spread(prop::collection::vec(item(kind, true), 0..5).boxed(), if kind == 2 { 4.0 } else { 8.0 }),
        prop_oneof![2 => 0.1f64..10.0, 1 => -10.0f64..-0.1, 1 => Just(1.0)],
        any::<u64>(),
        any::<bool>(),
        (prop_oneof![2 => Just(0usize), 1 => 0usize..5], level()),
        prop::collection::vec((-0.8f64..0.8, 0.0f64..6.3), 3..7),
        // often force equal counts
        any::<bool>(),
    )
        .prop_map(|(single, z, p, k, order, jitter, (extra, level), pts, same)| {
            let p = if same { z.iter().map(|i| Item { re: i.re * 0.7 - 0.05, im: i.im * 0.8, ..i.clone() }).collect() } else { p };
            Conv { single, z, p, k, order, jitter, extra, level, pts }
        })
        .boxed()
}

pub fn c11() -> Property {
    Property {
        id: "C11",
        subs: vec![
            sub("coefficients", "root lists of up to about 25 roots through poly_dyn and zpk2tf_dyn, every coefficient compared; non-trivial: at least 2 roots", 80_000, 900_000, |_| prop_oneof![conv(0), conv(2)], poly_check),
            sub("sections", "root lists through zpk2sos_dyn, responses compared; non-trivial: at least 2 roots and 2 well-conditioned points, or a rejection", 160_000, 2_000_000,
                |_| (prop_oneof![3 => conv(2), 2 => conv(0)], prop::bool::weighted(0.35), prop_oneof![3 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)], prop_oneof![14 => Just(0u8), 2 => 1u8..3, 3 => 3u8..5], -10.0f64..-0.5, prop_oneof![1 => 0.0f64..6.3, 1 => (0u8..4).prop_map(|k| k as f64 * PI / 2.0)],
                    prop::option::of((-2.0f64..2.0, prop_oneof![0.1f64..3.0, -3.0f64..-0.1])), prop::option::weighted(0.3, 0usize..8))
                    .prop_map(|(conv, analog, pairing, lone, o, d, at, twin)| SosCase { conv, analog, pairing, lone, off: (o, d), at, twin }), sos_check),
            sub("flat", "flat SciPy arrays of matching and mismatching length; non-trivial: 2 rows or a rejection", 20_000, 200_000,
                |_| (prop::collection::vec(prop::array::uniform6(real(3)), 0..8), prop_oneof![4 => Just(0i8), 1 => -7i8..7], prop_oneof![4 => Just(0i8), 1 => -2i8..3]).prop_map(|(rows, cut, claim)| Flat { rows, cut, claim }), flat_check),
        ],
        assumptions: vec!["conjugates equal to within a few units in the last place, or exactly", "an order argument of at least the number of roots", "points at which the response is numerically determined"],
    }
}
