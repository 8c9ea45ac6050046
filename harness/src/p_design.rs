//! C06-C08, C12: filter design.
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use crate::p_sos::Flt;
use proptest::prelude::*;
use sci_rs::na::Complex;
use sci_rs::signal::filter::design::*;
use serde::{Deserialize, Serialize};
use std::f64::consts::PI;

pub type C = Complex<f64>;
pub fn c(re: f64, im: f64) -> C {
    Complex::new(re, im)
}
pub fn prod(it: impl IntoIterator<Item = C>) -> C {
    it.into_iter().fold(c(1.0, 0.0), |a, b| a * b)
}

/// Zeros, poles, gain in f64.
#[derive(Clone, Debug)]
pub struct Zpk {
    pub z: Vec<C>,
    pub p: Vec<C>,
    pub k: f64,
}
impl Zpk {
    pub fn eval(&self, s: C) -> C {
        // interleave to avoid overflow of the separate products
        let mut h = c(self.k, 0.0);
        let n = self.z.len().max(self.p.len());
        for i in 0..n {
            if let Some(z) = self.z.get(i) {
                h *= s - z;
            }
            if let Some(p) = self.p.get(i) {
                h /= s - p;
            }
        }
        h
    }
    /// Conditioning of the response at s with respect to relative root errors:
    /// sum of (|s|+|r|)/|s-r|, with close neighbours (whose individual errors are amplified but
    /// correlated) entering as products.
    pub fn cond(&self, s: C) -> f64 {
        let mut t = 0.0;
        for set in [&self.z, &self.p] {
            for (i, r) in set.iter().enumerate() {
                let d = (s - r).norm();
                if d == 0.0 {
                    return f64::INFINITY;
                }
                let u = (s.norm() + r.norm()) / d;
                t += u;
                let mut best = f64::INFINITY;
                let mut bu = 0.0;
                for (j, q) in set.iter().enumerate() {
                    if i != j && (q - r).norm() < best && (q - r).norm() > 0.0 {
                        best = (q - r).norm();
                        bu = (s.norm() + q.norm()) / (s - q).norm();
                    }
                }
                t += u * bu;
            }
        }
        t
    }
    /// Conditioning of the expanded polynomials at s.
    pub fn poly_cond(&self, s: C) -> f64 {
        let mut t = 0.0;
        for set in [&self.z, &self.p] {
            let mut u = set.len() as f64;
            for r in set {
                u *= (s.norm() + r.norm()) / (s - r).norm();
            }
            t += u;
        }
        t
    }
}

pub fn zpk_of<F: Flt>(f: &ZpkFormatFilter<F>) -> Zpk {
    let cv = |v: &Vec<Complex<F>>| v.iter().map(|x| c(x.re.d(), x.im.d())).collect();
    Zpk { z: cv(&f.z), p: cv(&f.p), k: f.k.d() }
}

/// Plain form of any design result.
#[derive(Clone, Debug)]
pub enum Form {
    Ba(Vec<f64>, Vec<f64>),
    Zpk(Zpk),
    Sos(Vec<([f64; 3], [f64; 3])>),
}
pub fn form_of<F: Flt>(f: DigitalFilter<F>) -> Form {
    match f {
        DigitalFilter::Ba(f) => Form::Ba(f.b.iter().map(|v| v.d()).collect(), f.a.iter().map(|v| v.d()).collect()),
        DigitalFilter::Zpk(f) => Form::Zpk(zpk_of(&f)),
        DigitalFilter::Sos(f) => Form::Sos(f.sos.iter().map(|s| (s.b.map(|v| v.d()), s.a.map(|v| v.d()))).collect()),
    }
}
/// Quotient without the intermediate squares of the textbook formula leaving the exponent range.
pub fn div(a: C, b: C) -> C {
    let k = b.re.abs().max(b.im.abs());
    if k == 0.0 || !k.is_finite() { a / b } else { a / k / (b / k) }
}
fn horner(p: &[f64], s: C) -> C {
    p.iter().fold(c(0.0, 0.0), |a, b| a * s + c(*b, 0.0))
}
impl Form {
    /// Response at s (analog) or z (digital): polynomials in descending powers.
    pub fn eval(&self, s: C) -> C {
        match self {
            Form::Ba(b, a) => {
                // the two lists have one length; common powers cancel
                let n = b.iter().zip(a).rposition(|(p, q)| *p != 0.0 || *q != 0.0).map_or(0, |i| i + 1);
                div(horner(&b[..n], s), horner(&a[..n], s))
            }
            Form::Zpk(z) => z.eval(s),
            Form::Sos(v) => v.iter().fold(c(1.0, 0.0), |h, (b, a)| h * div(horner(b, s), horner(a, s))),
        }
    }
    /// Conditioning of evaluating this form at s (beyond that of its roots).
    pub fn cond(&self, s: C) -> f64 {
        match self {
            Form::Ba(b, a) => {
                let n = b.len() as f64;
                let f = |p: &[f64]| {
                    let m: f64 = p.iter().fold(0.0, |x, v| x * s.norm() + v.abs());
                    m / horner(p, s).norm()
                };
                n * (f(b) + f(a))
            }
            Form::Zpk(_) => 1.0,
            Form::Sos(v) => v
                .iter()
                .map(|(b, a)| {
                    let f = |p: &[f64; 3]| {
                        let (q0, q1, q2) = (p[0].abs(), p[1].abs(), p[2].abs());
                        let mid = q1.max(2.0 * (q0 * q2).sqrt());
                        let r = s.norm();
                        let m = q0 * r * r + mid * r + q2;
                        if m == 0.0 { 1.0 } else { m / horner(p, s).norm() }
                    };
                    4.0 * (f(b) + f(a))
                })
                .sum(),
        }
    }
}

// ------------------------------------------------------------ prototypes (textbook formulas)

pub fn butter_proto(n: usize) -> Zpk {
    // left-half-plane 2n-th roots of (-1)^(n+1)
    let p = (1..=n).map(|k| { let th = PI * (2.0 * k as f64 + n as f64 - 1.0) / (2.0 * n as f64); c(th.cos(), th.sin()) }).collect();
    Zpk { z: vec![], p, k: 1.0 }
}
/// epsilon^2 of a dB value, without cancellation
pub fn eps2(db: f64) -> f64 {
    (db / 10.0 * std::f64::consts::LN_10).exp_m1()
}
pub fn cheb1_proto(n: usize, rp: f64) -> Zpk {
    let e = eps2(rp).sqrt();
    if n == 0 {
        return Zpk { z: vec![], p: vec![], k: 10f64.powf(-rp / 20.0) };
    }
    let mu = (1.0 / e).asinh() / n as f64;
    let p: Vec<C> = (1..=n).map(|k| { let ph = (n as f64 + 1.0 - 2.0 * k as f64) * PI / (2.0 * n as f64); c(-mu.sinh() * ph.cos(), mu.cosh() * ph.sin()) }).collect();
    let mut k = prod(p.iter().map(|p| -p)).re;
    if n % 2 == 0 {
        k /= (1.0 + e * e).sqrt();
    }
    Zpk { z: vec![], p, k }
}
pub fn cheb2_proto(n: usize, rs: f64) -> Zpk {
    if n == 0 {
        return Zpk { z: vec![], p: vec![], k: 1.0 };
    }
    let mu = eps2(rs).sqrt().asinh() / n as f64;
    let mut z = vec![];
    let mut p = vec![];
    for k in 1..=n {
        let ph = (n as f64 + 1.0 - 2.0 * k as f64) * PI / (2.0 * n as f64);
        if 2 * k != n + 1 {
            z.push(c(0.0, 1.0 / ph.sin()));
        }
        p.push(c(1.0, 0.0) / c(-mu.sinh() * ph.cos(), mu.cosh() * ph.sin()));
    }
    let k = (prod(p.iter().map(|p| -p)) / prod(z.iter().map(|z| -z))).re;
    Zpk { z, p, k }
}
/// |T_n(v)|
fn cheb_t(n: usize, v: f64) -> f64 {
    let v = v.abs();
    if v <= 0.7 {
        // keeps the relative accuracy near the zero of the odd ones
        let t = n as f64 * v.asin();
        if n % 2 == 1 { t.sin().abs() } else { t.cos().abs() }
    } else if v <= 1.0 { (n as f64 * v.acos()).cos().abs() } else { (n as f64 * v.acosh()).cosh() }
}

// ------------------------------------------------------------ requests

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Req {
    pub single: bool,
    /// 0 Butterworth, 1 Chebyshev I, 2 Chebyshev II
    pub fam: u8,
    pub order: usize,
    /// 0 lowpass, 1 highpass, 2 bandpass, 3 bandstop
    pub band: u8,
    pub analog: bool,
    /// digital: relative to Nyquist; analog: rad/s
    pub wn: Vec<f64>,
    pub fs: Option<f64>,
    pub ripple: f64,
    /// through the general designer instead of the family's own function
    pub general: bool,
    /// 0 coefficients, 1 zeros/poles/gain, 2 sections
    pub out: u8,
    /// where to look: fraction of the axis
    pub at: Vec<f64>,
}

pub fn band(b: u8) -> FilterBandType {
    match b {
        0 => FilterBandType::Lowpass,
        1 => FilterBandType::Highpass,
        2 => FilterBandType::Bandpass,
        _ => FilterBandType::Bandstop,
    }
}
pub fn outform(o: u8) -> FilterOutputType {
    match o {
        0 => FilterOutputType::Ba,
        1 => FilterOutputType::Zpk,
        _ => FilterOutputType::Sos,
    }
}

pub fn design<F: Flt>(r: &Req, out: u8) -> DigitalFilter<F> {
    let wn: Vec<F> = match r.fs {
        Some(fs) => r.wn.iter().map(|w| F::f(w * fs / 2.0)).collect(),
        None => r.wn.iter().map(|w| F::f(*w)).collect(),
    };
    let fs = r.fs.map(F::f);
    let (b, an, o) = (Some(band(r.band)), Some(r.analog), Some(outform(out)));
    let rip = F::f(r.ripple);
    match (r.fam, r.general) {
        (0, false) => butter_dyn(r.order, wn, b, an, o, fs),
        (1, false) => cheby1_dyn(r.order, rip, wn, b, an, o, fs),
        (2, false) => cheby2_dyn(r.order, rip, wn, b, an, o, fs),
        (0, true) => iirfilter_dyn(r.order, wn, None, None, b, Some(FilterType::Butterworth), an, o, fs),
        (1, true) => iirfilter_dyn(r.order, wn, Some(rip), None, b, Some(FilterType::ChebyshevI), an, o, fs),
        _ => iirfilter_dyn(r.order, wn, None, Some(rip), b, Some(FilterType::ChebyshevII), an, o, fs),
    }
}

/// The reference: prototype, its band-transformed roots (for conditioning and counts), and the map
/// from real frequency to the prototype's frequency variable.
pub struct Ref {
    pub proto: Zpk,
    pub roots: Zpk,
    /// warped edges
    edges: Vec<f64>,
    band: u8,
    analog: bool,
    /// number of poles expected
    pub n_poles: usize,
    pub n_zeros: usize,
    /// what lp2hp/lp2bs are known to produce when the prototype has finite zeros
    pub known_bad: Option<Zpk>,
    /// root pairs of the band transforms, larger one first
    pairs: Vec<[C; 2]>,
}

pub fn reference(r: &Req, wn: &[f64], ripple: f64) -> Ref {
    let proto = match r.fam {
        0 => butter_proto(r.order),
        1 => cheb1_proto(r.order, ripple),
        _ => cheb2_proto(r.order, ripple),
    };
    let edges: Vec<f64> = if r.analog { wn.to_vec() } else { wn.iter().map(|w| (PI * w / 2.0).tan()).collect() };
    let (n, nz) = (proto.p.len(), proto.z.len());
    let deg = n - nz;
    let mut pairs: Vec<[C; 2]> = vec![];
    let mut quad = |q: C, inv: bool| -> [C; 2] {
        // roots of s^2 - t s + wo^2 with t = q bw (bandpass) or bw / q (bandstop)
        let bw = edges[1] - edges[0];
        let wo2 = edges[0] * edges[1];
        let t = if inv { c(bw, 0.0) / q } else { q * bw };
        let d = (t * t / 4.0 - wo2).sqrt();
        // avoid cancellation
        let big = if (t / 2.0 + d).norm() >= (t / 2.0 - d).norm() { t / 2.0 + d } else { t / 2.0 - d };
        pairs.push([big, c(wo2, 0.0) / big]);
        [big, c(wo2, 0.0) / big]
    };
    let zero = c(0.0, 0.0);
    let mut a = Zpk { z: vec![], p: vec![], k: 1.0 };
    match r.band {
        0 => {
            a.z = proto.z.iter().map(|q| q * edges[0]).collect();
            a.p = proto.p.iter().map(|q| q * edges[0]).collect();
        }
        1 => {
            a.z = proto.z.iter().map(|q| c(edges[0], 0.0) / q).collect();
            a.p = proto.p.iter().map(|q| c(edges[0], 0.0) / q).collect();
            a.z.extend(vec![zero; deg]);
        }
        2 => {
            a.z = proto.z.iter().flat_map(|q| quad(*q, false)).collect();
            a.p = proto.p.iter().flat_map(|q| quad(*q, false)).collect();
            a.z.extend(vec![zero; deg]);
        }
        _ => {
            a.z = proto.z.iter().flat_map(|q| quad(*q, true)).collect();
            a.p = proto.p.iter().flat_map(|q| quad(*q, true)).collect();
            let wo = (edges[0] * edges[1]).sqrt();
            a.z.extend((0..2 * deg).map(|i| c(0.0, if i % 2 == 0 { wo } else { -wo })));
        }
    }
    let known_bad = if nz > 0 && (r.band == 1 || r.band == 3) {
        let mut bad = Zpk { z: vec![], p: a.p.clone(), k: 0.0 };
        let den = prod(proto.p.iter().map(|p| -p));
        if r.band == 1 {
            bad.z = proto.z.iter().map(|q| c(-2.0 * edges[0], 0.0) / q * c(0.0, -1.0)).collect();
            bad.z.extend(vec![zero; deg]);
            bad.k = proto.k * (prod(proto.z.iter().map(|q| q - c(1.0, 0.0))) / den).re;
        } else {
            // the gain is multiplied by the real parts of the (imaginary) zeros: everything vanishes
            bad.k = 0.0;
        }
        Some(bad)
    } else {
        None
    };
    let roots = if r.analog { a } else { bilin(&a, true) };
    let n_poles = roots.p.len();
    let n_zeros = roots.z.len();
    Ref { proto, roots, edges, band: r.band, analog: r.analog, n_poles, n_zeros, known_bad, pairs }
}
fn bilin(a: &Zpk, pad: bool) -> Zpk {
    let one = c(1.0, 0.0);
    let m = |s: &C| (one + s) / (one - s);
    let mut z: Vec<C> = a.z.iter().map(m).collect();
    if pad {
        z.extend(vec![-one; a.p.len().saturating_sub(a.z.len())]);
    }
    Zpk { z, p: a.p.iter().map(m).collect(), k: a.k }
}
impl Ref {
    /// warped frequency of the axis position w
    fn omega(&self, w: f64) -> f64 {
        if self.analog { w } else { (PI * w / 2.0).tan() }
    }
    /// prototype frequency
    pub fn v(&self, w: f64) -> f64 {
        let o = self.omega(w);
        let e = &self.edges;
        match self.band {
            0 => o / e[0],
            1 => -e[0] / o,
            b => {
                let wo = (e[0] * e[1]).sqrt();
                let bw = e[1] - e[0];
                let t = (o - wo) * (o + wo);
                if b == 2 { t / (bw * o) } else { -bw * o / t }
            }
        }
    }
    pub fn h(&self, w: f64) -> C {
        self.proto.eval(c(0.0, self.v(w)))
    }
    pub fn h_bad(&self, w: f64) -> Option<C> {
        // evaluated in the analog plane of the warped variable
        self.known_bad.as_ref().map(|b| if b.k == 0.0 { c(0.0, 0.0) } else { b.eval(c(0.0, self.omega(w))) })
    }
    /// the point at which the returned filter is evaluated
    pub fn point(&self, w: f64) -> C {
        if self.analog { c(0.0, w) } else { c((PI * w).cos(), (PI * w).sin()) }
    }
    pub fn places(&self, r: &Req, wn: &[f64]) -> Vec<f64> {
        let mut v = vec![];
        for (i, t) in r.at.iter().enumerate() {
            if r.analog {
                let base = wn[i % wn.len()];
                v.push(base * 10f64.powf(4.0 * t - 2.0));
            } else {
                match i % 3 {
                    0 => v.push(*t),
                    1 => v.push(wn[0] + (wn[wn.len() - 1].max(wn[0] * 1.2) - wn[0]) * t),
                    _ => v.push(wn[i % wn.len()] * (0.5 + t)),
                }
            }
        }
        v.extend_from_slice(wn);
        if wn.len() == 2 {
            v.push((wn[0] + wn[1]) / 2.0);
            v.push((wn[0] * wn[1]).sqrt());
        }
        v.retain(|w| *w > 0.0 && (r.analog || *w < 1.0));
        v
    }
    /// Sensitivity of the response at w to relative errors (in units of eps) of the band edges,
    /// which pre-warping and rescaling by the sampling rate introduce.
    fn edge_cond(&self, w: f64) -> f64 {
        let ec = if self.analog {
            1.0
        } else {
            1.0 + self.edges.iter().map(|t| { let a = t.atan(); a / (a.sin() * a.cos()) }).fold(1.0, f64::max)
        };
        let v = self.v(w).abs();
        if !v.is_finite() {
            return f64::INFINITY;
        }
        let dv = match self.band {
            0 | 1 => v,
            b => {
                let bw = v * (self.edges[0] + self.edges[1]) / (self.edges[1] - self.edges[0]);
                bw + self.vcond(w) * if b == 2 { 1.0 } else { v * v }
            }
        };
        let s = c(0.0, self.v(w));
        let o = c(0.0, self.omega(w));
        // the smaller root of a pair is formed by cancellation
        let canc: f64 = self.pairs.iter().map(|[b, s]| b.norm() / (o - s).norm()).sum();
        canc + ec * dv * self.proto.z.iter().chain(&self.proto.p).map(|r| 1.0 / (s - r).norm()).sum::<f64>()
    }
    /// conditioning of the band variable itself at w
    fn vcond(&self, w: f64) -> f64 {
        if self.band < 2 {
            return 1.0;
        }
        let o = self.omega(w);
        let e = &self.edges;
        // relative to a shift of the edges: |dv| ~ eps * (o^2 + wo^2) / (bw o)
        (o * o + e[0] * e[1]) / ((e[1] - e[0]) * o)
    }
}

/// Values as the library will see them (rounded), plus how far off the frequency scale may be.
pub fn seen(r: &Req) -> (Vec<f64>, f64) {
    let ripple = rnd(r.single, r.ripple);
    let wn = r
        .wn
        .iter()
        .map(|w| match r.fs {
            Some(fs) => 2.0 * rnd(r.single, rnd(false, w * fs / 2.0)) / rnd(r.single, fs),
            None => rnd(r.single, *w),
        })
        .collect();
    (wn, ripple)
}

/// Products the library forms must stay in range of the type.
fn in_range(r: &Req, rf: &Ref) -> bool {
    // complex division squares the magnitude of the denominator
    let lim = if r.single { 17.0 } else { 140.0 };
    let mut lg = 0.0f64;
    for e in &rf.edges {
        lg = lg.max((4.0 * e).log10().abs());
        if !r.analog {
            lg = lg.max((6.0 + 4.0 * e).log10());
        }
    }
    if rf.edges.len() == 2 {
        lg = lg.max((4.0 * (rf.edges[1] - rf.edges[0])).log10().abs());
    }
    for p in rf.proto.p.iter().chain(&rf.proto.z) {
        lg = lg.max(p.norm().log10().abs() + 0.7);
    }
    lg * 2.0 * (r.order.max(1) as f64) < lim
}

/// The design check proper. `forms`: which outputs to look at.
pub fn check_design<F: Flt>(r: &Req, cx: &mut Cx) -> R {
    let (wn, ripple) = seen(r);
    if wn.len() == 2 && !(wn[0] * (1.0 + 4.0 * F::E) < wn[1]) || wn.iter().any(|w| !(*w > 0.0) || (!r.analog && *w >= 1.0)) {
        cx.label("edges coincide in this precision");
        return Ok(());
    }
    let rf = reference(r, &wn, ripple);
    if !in_range(r, &rf) {
        cx.label("outside the exponent range");
        return Ok(());
    }
    let eps = F::E;
    let f = match call(|| form_of(design::<F>(r, r.out))) {
        Ok(f) => f,
        Err(m) => return Err(format!("a valid design request panicked: {m}")),
    };
    // structure
    match (&f, r.out) {
        (Form::Ba(b, a), 0) => {
            ensure!(b.len() == a.len(), "numerator and denominator have lengths {} and {}", b.len(), a.len());
            ensure!(a[0] == 1.0, "denominator is not monic");
        }
        (Form::Zpk(z), 1) => {
            ensure!(z.p.len() == rf.n_poles, "{} poles, expected {}", z.p.len(), rf.n_poles);
            ensure!(z.z.len() == rf.n_zeros, "{} zeros, expected {}", z.z.len(), rf.n_zeros);
            let real_tol = if F::SINGLE { 2e-2 } else { 1e-5 };
            for set in [&z.p, &z.z] {
                for x in set.iter() {
                    if x.im.abs() > real_tol * x.norm() {
                        ensure!(set.iter().any(|y| (y - x.conj()).norm() <= real_tol * x.norm()), "root {x} has no conjugate");
                    }
                }
            }
            let big = rf.pairs.iter().map(|[b, _]| b.norm()).fold(0.0, f64::max);
            let slack = 64.0 * eps * (1.0 + rf.pairs.iter().map(|[b, s]| 2.0 * b.norm() / (c(1.0, 0.0) - s).norm_sqr()).fold(0.0, f64::max));
            for (i, x) in z.p.iter().enumerate() {
                if r.analog {
                    ensure!(x.re < 0.0 || rf.roots.p.iter().any(|q| -q.re < 64.0 * eps * (q.norm() + big)), "pole {i} = {x} is not in the left half plane");
                } else {
                    ensure!(x.norm() < 1.0 || rf.roots.p.iter().any(|q| 1.0 - q.norm() < slack), "pole {i} = {x} is not inside the unit circle");
                }
            }
        }
        (Form::Sos(s), 2) => {
            ensure!(s.len() == rf.n_poles.div_ceil(2).max(1), "{} sections for {} poles", s.len(), rf.n_poles);
        }
        _ => return Err("the output has a different form than requested".into()),
    }
    let e2 = eps2(ripple);
    let rip_cond = match r.fam { 1 => 4.0 * (1.0 + 1.0 / e2), 2 => 4.0 * (1.0 + 1.0 / e2), _ => 0.0 };
    let mut checked = 0;
    let mut bad_ok = 0;
    let mut first_err: Option<String> = None;
    for w in rf.places(r, &wn) {
        let h = rf.h(w);
        let x = rf.point(w);
        let mut cond = 1.0 + r.order as f64 * 8.0 + rf.roots.cond(x) + rf.vcond(w) * (r.order as f64 + 1.0) + rf.edge_cond(w) + rip_cond;
        if r.out == 0 {
            cond += rf.roots.poly_cond(x);
        }
        if r.out == 2 {
            // sections: errors of pairs
            cond += f.cond(x);
        }
        let tol = 48.0 * eps * cond;
        let got = f.eval(x);
        if tol < 0.02 && h.norm() > 1e-290 && h.norm().is_finite() {
            checked += 1;
            let d = (got - h).norm() / h.norm();
            if !(d <= tol) {
                // the listed transform defect?
                if let Some(b) = rf.h_bad(w) {
                    let mut bc = 1.0;
                    if let Some(kb) = &rf.known_bad {
                        if kb.k != 0.0 {
                            let a = Zpk { z: kb.z.clone(), p: kb.p.clone(), k: 1.0 };
                            bc += a.cond(c(0.0, rf.omega(w)));
                            if r.out == 0 {
                                bc += a.poly_cond(c(0.0, rf.omega(w))) + bilin(&a, true).poly_cond(x);
                            }
                            bc += bilin(&a, true).cond(x);
                        }
                    }
                    let bt = (tol + 96.0 * eps * bc).min(0.05);
                    if (got - b).norm() <= bt * b.norm() + 1e-13 * eps {
                        bad_ok += 1;
                        continue;
                    }
                }
                let name = ["Butterworth", "Chebyshev I", "Chebyshev II"][r.fam as usize];
                first_err.get_or_insert(format!(
                    "{name} order {} {:?} {} response at {w:.9} is {got}, expected {h} (|v| = {:.6}, relative error {d:.3e}, tolerance {tol:.3e})",
                    r.order, band(r.band), if r.analog { "analog" } else { "digital" }, rf.v(w)
                ));
            } else {
                // magnitude law, independent of the pole formulas
                let v = rf.v(w);
                let m2 = match r.fam {
                    0 => 1.0 / (1.0 + v.abs().powi(2 * r.order as i32)),
                    1 => { let t = cheb_t(r.order, v); 1.0 / (1.0 + e2 * t * t) }
                    _ => { let t = cheb_t(r.order, 1.0 / v); 1.0 - 1.0 / (1.0 + e2 / (t * t)) * (e2 / (t * t)) + 0.0 * t }
                };
                let m2 = if r.fam == 2 { let t = cheb_t(r.order, 1.0 / v); let q = t * t / e2; let _ = m2; if r.order == 0 { 1.0 } else { q / (1.0 + q) } } else { m2 };
                // sensitivity of the law to its own argument
                let sens = 64.0 * eps * (r.order as f64 + 1.0).powi(2) * (1.0 + v.abs().min(1.0 / v.abs())) * rf.vcond(w).max(1.0) * 8.0;
                if r.order > 0 && sens < 1e-3 && m2 > 1e-200 {
                    let dm = (got.norm_sqr() - m2).abs() / m2;
                    // near ripple extrema of Chebyshev responses relative error stays bounded by |T| <= 1
                    let t = cheb_t(r.order, if r.fam == 2 { 1.0 / v } else { v });
                    let zero = if r.fam == 0 { 0.0 } else { 64.0 * f64::EPSILON * (r.order as f64 + 1.0) / t.max(1e-300) };
                    let lim = 2.5 * tol + sens + zero + if r.fam == 2 { sens / m2.sqrt().min(1.0) } else { 0.0 };
                    ensure!(dm <= lim || lim > 0.02, "squared gain at {w:.9} is {:.9e}, the magnitude law gives {m2:.9e} (tolerance {lim:.2e})", got.norm_sqr());
                }
            }
        }
    }
    if let Some(m) = first_err {
        return Err(m);
    }
    if bad_ok > 0 {
        let key = if r.band == 1 { "KF-LP2HP-ZEROS" } else { "KF-LP2BS-ZEROS" };
        cx.known(key, format!("Chebyshev II order {} {:?} {}", r.order, band(r.band), if r.analog { "analog" } else { "digital" }));
    }
    cx.nt(checked >= 3 && r.order >= 1);
    cx.label(format!("fam {} {:?} {} {}", r.fam, band(r.band), if r.analog { "analog" } else { "digital" }, ["ba", "zpk", "sos"][r.out as usize]));
    cx.label(if F::SINGLE { "f32" } else { "f64" });
    cx.label(format!("order {}", if r.order <= 8 { r.order.to_string() } else { ">8".into() }));
    cx.label(format!("points checked {}", if checked == 0 { "0" } else if checked < 3 { "1-2" } else { ">=3" }));
    if r.fs.is_some() {
        cx.label("fs given");
    }
    Ok(())
}
fn check_req(r: &Req, cx: &mut Cx) -> R {
    if r.single { check_design::<f32>(r, cx) } else { check_design::<f64>(r, cx) }
}

pub fn req(fams: &'static [u8], outs: &'static [u8], max_order: usize) -> BoxedStrategy<Req> {
    let digital = |n: usize| -> BoxedStrategy<Vec<f64>> {
        let one = prop_oneof![
            8 => 0.01f64..0.99,
            4 => (1i32..=99).prop_map(|i| i as f64 / 100.0),
            2 => logu(1e-4, 0.1),
            2 => logu(1e-4, 0.1).prop_map(|x| 1.0 - x),
            1 => prop_oneof![1 => logu(1e-7, 1e-3), 1 => logu(1e-13, 1e-7)],
            1 => logu(1e-7, 1e-3).prop_map(|x| 1.0 - x),
        ].boxed();
        if n == 1 {
            one.prop_map(|w| vec![w]).boxed()
        } else {
            prop_oneof![
                4 => (one.clone(), 0.02f64..0.98).prop_map(|(w, t)| vec![w, w + (1.0 - w) * t]),
                2 => (one.clone(), prop_oneof![3 => logu(1e-3, 0.3), 1 => logu(1e-7, 1e-2)]).prop_map(|(w, t)| vec![w * (1.0 - t / 2.0), (w * (1.0 + t / 2.0)).min(0.5 + w / 2.0)]),
                1 => (logu(1e-3, 0.1), logu(1e-3, 0.1)).prop_map(|(a, b)| vec![a, 1.0 - b]),
                1 => (1i32..=98, 1i32..=98).prop_map(|(a, b)| { let (a, b) = (a.min(b), a.max(b) + 1); vec![a as f64 / 100.0, b as f64 / 100.0] }),
            ].boxed()
        }
    };
    let analog = |n: usize| -> BoxedStrategy<Vec<f64>> {
        let one = prop_oneof![4 => logu(0.05, 50.0), 2 => logu(1e-3, 1e4), 1 => logu(1e-8, 1e10), 2 => Just(1.0)].boxed();
        if n == 1 { one.prop_map(|w| vec![w]).boxed() } else { (one, logu(0.01, 100.0)).prop_map(|(w, t)| vec![w, w * (1.0 + t)]).boxed() }
    };
    (
        prop::bool::weighted(0.3),
        prop::sample::select(fams),
        prop_oneof![6 => 1usize..=6, 2 => 1usize..=max_order, 1 => Just(0usize)],
        0u8..4,
        prop::bool::weighted(0.25),
        any::<bool>(),
        prop::sample::select(outs),
        prop::collection::vec(0.001f64..0.999, 3..9),
    )
        .prop_flat_map(move |(single, fam, order, band, an, general, out, at)| {
            let n = if band < 2 { 1 } else { 2 };
            let wn = if an { analog(n) } else { digital(n) };
            let fs = if an { Just(None).boxed() } else { prop_oneof![2 => Just(None), 2 => prop_oneof![4 => logu(0.1, 1e6), 1 => logu(1e-9, 1e12)].prop_map(Some), 1 => (0i32..12).prop_map(|e| Some(2f64.powi(e)))].boxed() };
            let ripple = if fam == 1 { prop_oneof![6 => 0.05f64..6.0, 2 => logu(0.01, 40.0), 1 => logu(1e-5, 300.0)].boxed() } else { prop_oneof![6 => 10.0f64..80.0, 2 => logu(0.5, 120.0), 1 => logu(0.001, 320.0)].boxed() };
            let at = at.clone();
            (wn, fs, ripple).prop_map(move |(wn, fs, ripple)| Req { single, fam, order, band, analog: an, wn, fs, ripple, general, out, at: at.clone() })
        })
        .boxed()
}

/// High orders: the roots themselves, one by one.
fn high_t<F: Flt>(r: &Req, cx: &mut Cx) -> R {
    let (wn, ripple) = seen(r);
    if wn.len() == 2 && !(wn[0] * (1.0 + 4.0 * F::E) < wn[1]) || wn.iter().any(|w| !(*w > 0.0) || (!r.analog && *w >= 1.0)) {
        return Ok(());
    }
    let rf = reference(r, &wn, ripple);
    let f = call(|| form_of(design::<F>(r, 1))).map_err(|m| format!("a valid design request of order {} panicked: {m}", r.order))?;
    let Form::Zpk(z) = &f else { return Err("the output has a different form than requested".into()) };
    ensure!(z.p.len() == rf.n_poles, "{} poles, expected {}", z.p.len(), rf.n_poles);
    ensure!(z.z.len() == rf.n_zeros, "{} zeros, expected {}", z.z.len(), rf.n_zeros);
    let rel = if F::SINGLE { 2e-3 } else { 1e-6 };
    // the smaller root of a pair is formed by cancellation
    let canc = 32.0 * F::E * rf.pairs.iter().map(|[b, s]| if r.analog { b.norm() } else { 2.0 * b.norm() / (c(1.0, 0.0) - s).norm_sqr() }).fold(0.0, f64::max);
    let known = rf.known_bad.is_some();
    for (name, got, want) in [("pole", &z.p, &rf.roots.p), ("zero", &z.z, &rf.roots.z)] {
        if name == "zero" && known {
            continue;
        }
        let mut left = want.clone();
        for (i, x) in got.iter().enumerate() {
            let near = (0..left.len()).min_by(|a, b| (left[*a] - x).norm().total_cmp(&(left[*b] - x).norm()));
            let Some(k) = near else { return Err(format!("too many {name}s")) };
            let w = left.swap_remove(k);
            ensure!((w - x).norm() <= rel * w.norm() + canc + if r.analog { 0.0 } else { rel * 1e-3 }, "order {} {:?} {}: {name} {i} is {x}, the nearest one of the design is {w}", r.order, band(r.band), if r.analog { "analog" } else { "digital" });
        }
    }
    if in_range(r, &rf) {
        cx.label("gain in range");
    }
    cx.nt(r.order > 20);
    cx.label(format!("{:?} {}", band(r.band), if r.analog { "analog" } else { "digital" }));
    cx.label(format!("order {}", if r.order <= 64 { "<= 64" } else if r.order <= 128 { "<= 128" } else if r.order <= 256 { "<= 256" } else { "> 256" }));
    Ok(())
}
fn high_check(r: &Req, cx: &mut Cx) -> R {
    if r.single { high_t::<f32>(r, cx) } else { high_t::<f64>(r, cx) }
}
fn high_req(fams: &'static [u8], max: usize) -> BoxedStrategy<Req> {
    (req(fams, &[1], 6), prop_oneof![2 => 20usize..70, 1 => 60usize..140, 1 => 120usize..max])
        .prop_map(|(mut r, n)| {
            r.order = n;
            // band filters have nearly double roots that single precision does not separate
            r.single &= r.band < 2 && n < 130;
            r
        })
        .boxed()
}

pub fn c06() -> Property {
    Property {
        id: "C06",
        subs: vec![
            sub("zpk", "complete Butterworth requests, zeros/poles/gain output; non-trivial: order >= 1 and at least 3 frequencies at which the conditioning allows a meaningful comparison", 60_000, 900_000, |_| req(&[0], &[1], 20), check_req),
            sub("sos", "as zpk with section output", 60_000, 900_000, |_| req(&[0], &[2], 16), check_req),
            sub("ba", "as zpk with coefficient output", 40_000, 600_000, |_| req(&[0], &[0], 10), check_req),
            sub("high_order", "orders of 20 to 400, every root compared; non-trivial: order above 20", 300, 10_000, |_| high_req(&[0], 400), high_check),
        ],
        assumptions: vec!["designs whose intermediate products stay inside the exponent range of the float type", "frequencies at which the response is numerically determined (conditioning * eps below 2%)"],
    }
}

// ------------------------------------------------------------ C07

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Proto {
    single: bool,
    two: bool,
    n: usize,
    ripple: f64,
    v: Vec<f64>,
}
fn proto_t<F: Flt>(c_: &Proto, cx: &mut Cx) -> R {
    let ripple = rnd(F::SINGLE, c_.ripple);
    let got = must("prototype", || if c_.two { zpk_of(&cheb2ap_dyn::<F>(c_.n, F::f(ripple))) } else { zpk_of(&cheb1ap_dyn::<F>(c_.n, F::f(ripple))) })?;
    let want = if c_.two { cheb2_proto(c_.n, ripple) } else { cheb1_proto(c_.n, ripple) };
    ensure!(got.p.len() == c_.n && got.z.len() == want.z.len(), "order {}: {} poles, {} zeros", c_.n, got.p.len(), got.z.len());
    let e2 = eps2(ripple);
    let mut checked = 0;
    let mut vs = c_.v.clone();
    vs.extend([0.0, 1.0]);
    for v in vs {
        let s = c(0.0, v);
        let h = want.eval(s);
        let cond = 8.0 * (c_.n as f64 + 1.0) + want.cond(s) + 4.0 / e2;
        let tol = 48.0 * F::E * cond;
        if tol > 0.01 {
            continue;
        }
        let g = got.eval(s);
        ensure!((g - h).norm() <= tol * h.norm(), "prototype order {} response at j{v} is {g}, expected {h} (tolerance {tol:e})", c_.n);
        if v == 1.0 && c_.n > 0 {
            let db = -20.0 * g.norm().log10();
            ensure!((db - ripple).abs() <= 10.0 * tol + 1e-3 * F::SINGLE as u8 as f64, "attenuation at the unit cut-off is {db} dB, expected {ripple}");
        }
        checked += 1;
    }
    for x in &got.p {
        ensure!(x.re < 0.0, "prototype pole {x} not in the left half plane");
        ensure!(got.p.iter().any(|y| (y - x.conj()).norm() <= 64.0 * F::E * x.norm()), "prototype pole {x} has no conjugate");
    }
    for x in &got.z {
        ensure!(got.z.iter().any(|y| (y - x.conj()).norm() <= 64.0 * F::E * x.norm()), "prototype zero {x} has no conjugate");
    }
    cx.nt(checked >= 2 && c_.n >= 1);
    cx.label(format!("type {} order {}", 1 + c_.two as u8, if c_.n <= 8 { c_.n.to_string() } else { ">8".into() }));
    Ok(())
}
fn proto_check(c_: &Proto, cx: &mut Cx) -> R {
    if c_.single { proto_t::<f32>(c_, cx) } else { proto_t::<f64>(c_, cx) }
}

/// Extrema of the magnitude over the band, found on a grid: the ripple is reached and never exceeded.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Equi {
    req: Req,
}
fn equi_check(e: &Equi, cx: &mut Cx) -> R {
    let r = &e.req;
    let (wn, ripple) = seen(r);
    if wn.len() == 2 && wn[0] >= wn[1] {
        return Ok(());
    }
    let f = must("design", || form_of(design::<f64>(r, r.out)))?;
    let rf = reference(r, &wn, ripple);
    let g1 = 10f64.powf(-ripple / 20.0);
    // positions expressed through the prototype's variable, so that every band type is covered
    let n = r.order as f64;
    let inside = |v: f64| if r.fam == 1 { v.abs() <= 1.0 } else { v.abs() >= 1.0 };
    let (mut touch_hi, mut touch_lo) = (0, 0);
    let mut any = 0;
    for k in 0..=2 * r.order {
        // Chebyshev extrema and zeros: v = cos(k pi / 2n)
        let u = (k as f64 * PI / (2.0 * n)).cos();
        if u <= 1e-9 {
            continue;
        }
        let v = if r.fam == 1 { u } else { 1.0 / u };
        let Some(w) = unv(&rf, v, r) else { continue };
        if !(w > 0.0) || (!r.analog && w >= 1.0) {
            continue;
        }
        let x = rf.point(w);
        let tol = 48.0 * f64::EPSILON * (8.0 * n + rf.roots.cond(x) + rf.vcond(w) * n + rf.edge_cond(w) + if r.out == 0 { rf.roots.poly_cond(x) } else { 0.0 } + f.cond(x) + 8.0 / eps2(ripple));
        if tol > 1e-4 || !inside(v) && (v.abs() - 1.0).abs() > 1e-9 {
            continue;
        }
        any += 1;
        let h = f.eval(x).norm();
        let bad = rf.h_bad(w).map(|b| (b.norm() - h).abs() <= 1e-6 * b.norm() + 1e-25).unwrap_or(false);
        if r.fam == 1 {
            ensure!(h <= 1.0 + 2.0 * tol && h >= g1 * (1.0 - 2.0 * tol), "pass-band gain {h} at {w} outside [{g1}, 1]");
            if (h - 1.0).abs() < 1e-6 + 2.0 * tol { touch_hi += 1 }
            if (h - g1).abs() < 1e-6 + 2.0 * tol { touch_lo += 1 }
        } else if h > g1 * (1.0 + 2.0 * tol) + tol * 1e-6 {
            if bad {
                cx.known(if r.band == 1 { "KF-LP2HP-ZEROS" } else { "KF-LP2BS-ZEROS" }, format!("Chebyshev II order {} {:?}", r.order, band(r.band)));
                return Ok(());
            }
            return Err(format!("stop-band gain {h} at {w} exceeds {g1}"));
        } else if (h - g1).abs() < 1e-6 * g1 + 2.0 * tol * g1 {
            touch_lo += 1
        } else if bad {
            cx.known(if r.band == 1 { "KF-LP2HP-ZEROS" } else { "KF-LP2BS-ZEROS" }, format!("Chebyshev II order {} {:?}", r.order, band(r.band)));
            return Ok(());
        }
    }
    if any > r.order {
        ensure!(touch_lo >= 1, "the requested ripple is never reached ({any} extrema inspected)");
        if r.fam == 1 && r.order >= 2 {
            ensure!(touch_hi >= 1, "unit gain is never reached in the pass band");
        }
        cx.nt(true);
    }
    cx.label(format!("fam {} {:?}", r.fam, band(r.band)));
    Ok(())
}
/// axis position with prototype frequency v (positive branch)
fn unv(rf: &Ref, v: f64, r: &Req) -> Option<f64> {
    let e = &rf.edges;
    let o = match r.band {
        0 => v * e[0],
        1 => e[0] / v,
        b => {
            let (wo2, bw) = (e[0] * e[1], e[1] - e[0]);
            let t = if b == 2 { v * bw } else { bw / v };
            // positive root of o^2 - t o - wo2 = 0
            t / 2.0 + (t * t / 4.0 + wo2).sqrt()
        }
    };
    let w = if r.analog { o } else { 2.0 * o.atan() / PI };
    if w.is_finite() { Some(w) } else { None }
}

pub fn c07() -> Property {
    Property {
        id: "C07",
        subs: vec![
            sub("prototypes", "analog prototypes of order 0..300; non-trivial: order >= 1 and at least 2 well-conditioned frequencies", 40_000, 500_000,
                |_| (prop::bool::weighted(0.3), any::<bool>(), prop_oneof![40 => 0usize..=8, 15 => 0usize..=20, 1 => 20usize..=300], prop_oneof![4 => 0.05f64..60.0, 2 => logu(0.01, 120.0), 1 => logu(1e-5, 320.0), 1 => 100.0f64..320.0], prop::collection::vec(prop_oneof![0.0f64..2.0, logu(0.01, 100.0)], 2..8))
                    .prop_map(|(single, two, n, ripple, v)| Proto { single: single && n < 40, two, n, ripple, v }), proto_check),
            sub("zpk", "complete Chebyshev requests, zeros/poles/gain; non-trivial as for Butterworth", 60_000, 700_000, |_| req(&[1, 2], &[1], 16), check_req),
            sub("sos", "section output", 60_000, 700_000, |_| req(&[1, 2], &[2], 14), check_req),
            sub("ba", "coefficient output", 40_000, 500_000, |_| req(&[1, 2], &[0], 8), check_req),
            sub("high_order", "orders of 20 to 250, every root compared (without the zeros of a known finding); non-trivial: order above 20", 300, 10_000, |_| high_req(&[1, 2], 250), high_check),
            sub("equiripple", "gain inspected at all theoretical extrema of the ripple band; non-trivial: more extrema inspected than the order", 20_000, 300_000,
                |_| req(&[1, 2], &[1, 2], 10).prop_filter_map("f64, order >= 1", |mut r| { if r.order == 0 { r.order = 1; } r.single = false; Some(Equi { req: r }) }), equi_check),
        ],
        assumptions: vec!["positive ripple/attenuation", "designs whose intermediate products stay inside the exponent range of the float type", "frequencies at which the response is numerically determined"],
    }
}

// ------------------------------------------------------------ C08

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Forms {
    req: Req,
    /// points: radius (log10) and angle
    pts: Vec<(f64, f64)>,
}
fn forms_t<F: Flt>(q: &Forms, cx: &mut Cx) -> R {
    let r = &q.req;
    let (wn, ripple) = seen(r);
    if wn.len() == 2 && !(wn[0] * (1.0 + 4.0 * F::E) < wn[1]) || wn.iter().any(|w| !(*w > 0.0) || (!r.analog && *w >= 1.0)) {
        return Ok(());
    }
    let rf = reference(r, &wn, ripple);
    if !in_range(r, &rf) {
        cx.label("outside the exponent range");
        return Ok(());
    }
    let get = |o: u8| call(|| form_of(design::<F>(r, o))).map_err(|m| format!("design with output {o} panicked: {m}"));
    let Form::Zpk(zpk) = get(1)? else { return Err("zpk output has a different form".into()) };
    let ba = get(0)?;
    let sos = get(2)?;
    let Form::Ba(b, a) = &ba else { return Err("ba output has a different form".into()) };
    let Form::Sos(sv) = &sos else { return Err("sos output has a different form".into()) };
    ensure!(b.len() == a.len() && a[0] == 1.0, "coefficient form is not monic or of unequal lengths");
    ensure!(sv.len() == zpk.p.len().div_ceil(2).max(1), "{} sections for {} poles", sv.len(), zpk.p.len());
    if !r.analog {
        let maxr = zpk.p.iter().map(|p| p.norm()).fold(0.0, f64::max);
        // a nearly double root moves by the square root of a coefficient error
        let slack = 8.0 * F::E.sqrt();
        for (i, (_, a)) in sv.iter().enumerate() {
            ensure!(a[0] == 1.0, "section {i} is not monic: {a:?}");
            let d = (c(a[1] * a[1] / 4.0 - a[2], 0.0)).sqrt();
            let (p, q) = (c(-a[1] / 2.0, 0.0) + d, c(-a[1] / 2.0, 0.0) - d);
            ensure!(p.norm().max(q.norm()) <= maxr + slack, "section {i} has a pole of radius {} (largest pole radius {maxr})", p.norm().max(q.norm()));
            if maxr < 1.0 - slack {
                ensure!(p.norm().max(q.norm()) < 1.0, "section {i} is unstable");
            }
        }
    }
    worst_last::<F>(sv, r.analog)?;
    let mut ok = 0;
    let fz = Form::Zpk(zpk.clone());
    let center = if r.analog { (wn.iter().map(|w| w.ln()).sum::<f64>() / wn.len() as f64).exp() } else { 1.0 };
    for (lr, th) in &q.pts {
        let x = c(th.cos(), th.sin()) * (10f64.powf(*lr) * center);
        let h = fz.eval(x);
        for (name, f, extra) in [("ba", &ba, zpk.poly_cond(x)), ("sos", &sos, sos.cond(x) + 200.0 * single_cond(&zpk, x))] {
            let tol = 24.0 * F::E * (zpk.p.len() as f64 * 4.0 + 4.0 + extra);
            if tol > 1e-3 || !h.norm().is_finite() || h.norm() > 1e30 || (h.norm() < 1e-30 && zpk.k != 0.0) {
                continue;
            }
            let g = f.eval(x);
            ensure!((g - h).norm() <= tol * h.norm(), "{name} form has response {g} at {x}, zeros/poles/gain form {h} (tolerance {tol:e}); order {} {:?} family {}", r.order, band(r.band), r.fam);
            ok += 1;
        }
    }
    cx.nt(ok >= 4 && r.order >= 1);
    cx.label(format!("fam {} {:?} {}", r.fam, band(r.band), if r.analog { "analog" } else { "digital" }));
    cx.label(format!("order {}", if r.order <= 8 { r.order.to_string() } else { ">8".into() }));
    cx.label(if F::SINGLE { "f32" } else { "f64" });
    Ok(())
}
/// Roots of a quadratic of degree 2, 1 or 0 in descending powers (as many leading zeros as it is short of degree 2).
pub fn quad_roots(a: &[f64; 3]) -> Vec<C> {
    if a[0] == 0.0 {
        return if a[1] == 0.0 { vec![] } else { vec![c(-a[2] / a[1], 0.0)] };
    }
    let (p, q) = (a[1] / a[0], a[2] / a[0]);
    let d = c(p * p / 4.0 - q, 0.0).sqrt();
    let (r, s) = (c(-p / 2.0, 0.0) + d, c(-p / 2.0, 0.0) - d);
    if d.im != 0.0 || d.re == 0.0 {
        return vec![r, s];
    }
    // real roots: the smaller one through the product
    let big = if r.norm() > s.norm() { r } else { s };
    vec![big, c(q, 0.0) / big]
}
/// How near the poles of a section come to the border of stability, and the rounding of that.
pub fn border<F: Flt>(a: &[f64; 3], analog: bool) -> (f64, f64) {
    let r = quad_roots(a);
    let size = r.iter().map(|x| x.norm()).fold(0.0, f64::max);
    let d = r.iter().map(|x| if analog { x.re.abs() } else { (1.0 - x.norm()).abs() }).fold(f64::INFINITY, f64::min);
    // a nearly double root moves by the square root of a coefficient error
    (d, 8.0 * F::E.sqrt() * if analog { size } else { size + 1.0 })
}
/// Sections come in the order of their poles' distance to the border of stability, the nearest last.
pub fn worst_last<F: Flt>(sv: &[([f64; 3], [f64; 3])], analog: bool) -> R {
    let d: Vec<(f64, f64)> = sv.iter().map(|(_, a)| border::<F>(a, analog)).collect();
    for i in 1..d.len() {
        ensure!(d[i].0 <= d[i - 1].0 + d[i].1 + d[i - 1].1, "section {} of {} has poles nearer to the border of stability ({:e}) than the next one ({:e})", i - 1, d.len(), d[i - 1].0, d[i].0);
    }
    Ok(())
}
fn single_cond(z: &Zpk, x: C) -> f64 {
    z.z.iter().chain(&z.p).map(|r| (x.norm() + r.norm()) / (x - r).norm()).sum::<f64>() / 25.0
}
fn forms_check(q: &Forms, cx: &mut Cx) -> R {
    if q.req.single { forms_t::<f32>(q, cx) } else { forms_t::<f64>(q, cx) }
}

pub fn c08() -> Property {
    Property {
        id: "C08",
        subs: vec![sub("forms", "complete requests of every family; the three outputs compared at generated complex points; non-trivial: order >= 1 and at least 4 well-conditioned comparisons", 60_000, 1_000_000,
            |_| (req(&[0, 1, 2], &[1], 14), prop::collection::vec((-0.6f64..0.6, 0.0f64..6.3), 4..8)).prop_map(|(req, pts)| Forms { req, pts }), forms_check)],
        assumptions: vec!["positive ripple/attenuation", "designs whose intermediate products stay inside the exponent range of the float type"],
    }
}

// ------------------------------------------------------------ C12

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Val {
    single: bool,
    /// 0 butter, 1 cheby1, 2 cheby2, 3 general
    func: u8,
    ftype: Option<u8>,
    order: usize,
    wn: Vec<f64>,
    rp: Option<f64>,
    rs: Option<f64>,
    btype: Option<u8>,
    analog: Option<bool>,
    output: Option<u8>,
    fs: Option<f64>,
}
fn val_call<F: Flt>(v: &Val) -> Form {
    let wn: Vec<F> = v.wn.iter().map(|w| F::f(*w)).collect();
    let b = v.btype.map(band);
    let o = v.output.map(outform);
    let fs = v.fs.map(F::f);
    form_of(match v.func {
        0 => butter_dyn(v.order, wn, b, v.analog, o, fs),
        1 => cheby1_dyn(v.order, F::f(v.rp.unwrap_or(1.0)), wn, b, v.analog, o, fs),
        2 => cheby2_dyn(v.order, F::f(v.rs.unwrap_or(40.0)), wn, b, v.analog, o, fs),
        _ => {
            let ft = v.ftype.map(|t| match t { 0 => FilterType::Butterworth, 1 => FilterType::ChebyshevI, _ => FilterType::ChebyshevII });
            iirfilter_dyn(v.order, wn, v.rp.map(F::f), v.rs.map(F::f), b, ft, v.analog, o, fs)
        }
    })
}
/// Does the documentation accept this request? Err(reason) if not.
fn acceptable(v: &Val) -> Result<(), &'static str> {
    let analog = v.analog.unwrap_or(false);
    let b = v.btype.unwrap_or(if v.func == 3 { 2 } else { 0 });
    if v.wn.len() > 2 { return Err("more than two frequencies"); }
    if analog && v.fs.is_some() { return Err("fs with analog"); }
    if v.wn.iter().any(|w| *w <= 0.0) { return Err("frequency not positive"); }
    if v.wn.len() != if b < 2 { 1 } else { 2 } { return Err("number of frequencies"); }
    if v.wn.len() == 2 && v.wn[0] >= v.wn[1] { return Err("edges not increasing"); }
    let nyq = v.fs.map(|f| f / 2.0).unwrap_or(1.0);
    if !analog && v.wn.iter().any(|w| *w >= nyq) { return Err("at or above Nyquist"); }
    let (rp, rs) = match v.func { 0 => (None, None), 1 => (v.rp.or(Some(1.0)), None), 2 => (None, v.rs.or(Some(40.0))), _ => (v.rp, v.rs) };
    if rp.is_some_and(|r| r < 0.0) { return Err("negative ripple"); }
    if rs.is_some_and(|r| r < 0.0) { return Err("negative attenuation"); }
    let ft = match v.func { 3 => v.ftype.unwrap_or(0), f => f };
    if ft == 1 && rp.is_none() { return Err("missing ripple"); }
    if ft == 2 && rs.is_none() { return Err("missing attenuation"); }
    Ok(())
}
/// The same request with every option spelled out, Nyquist-normalised, through the general designer.
fn explicit(v: &Val) -> Val {
    let fs = v.fs;
    Val {
        func: 3,
        ftype: Some(match v.func { 3 => v.ftype.unwrap_or(0), f => f }),
        rp: match v.func { 0 => None, 1 => v.rp.or(Some(1.0)), 2 => None, _ => v.rp },
        rs: match v.func { 0 => None, 2 => v.rs.or(Some(40.0)), 1 => None, _ => v.rs },
        btype: Some(v.btype.unwrap_or(if v.func == 3 { 2 } else { 0 })),
        analog: Some(v.analog.unwrap_or(false)),
        output: Some(v.output.unwrap_or(0)),
        fs: None,
        wn: v.wn.iter().map(|w| fs.map(|f| 2.0 * w / f).unwrap_or(*w)).collect(),
        ..v.clone()
    }
}
fn val_t<F: Flt>(v: &Val, cx: &mut Cx) -> R {
    // what the library sees after rounding to its precision
    let v = Val { wn: v.wn.iter().map(|w| rnd(F::SINGLE, *w)).collect(), fs: v.fs.map(|f| rnd(F::SINGLE, f)), rp: v.rp.map(|x| rnd(F::SINGLE, x)), rs: v.rs.map(|x| rnd(F::SINGLE, x)), ..v.clone() };
    match acceptable(&v) {
        Err(why) => {
            rejects(&format!("a request that is invalid ({why})"), || val_call::<F>(&v))?;
            cx.nt(true);
            cx.label(format!("rejected: {why}"));
        }
        Ok(()) => {
            let f = call(|| val_call::<F>(&v)).map_err(|m| format!("a valid request was rejected: {m}"))?;
            let want_out = v.output.unwrap_or(0);
            let kind = match &f { Form::Ba(..) => 0, Form::Zpk(_) => 1, Form::Sos(_) => 2 };
            ensure!(kind == want_out, "output form {kind}, requested {want_out}");
            let e = explicit(&v);
            if acceptable(&e).is_err() {
                return Ok(());
            }
            let g = call(|| val_call::<F>(&e)).map_err(|m| format!("the explicit form of a valid request was rejected: {m}"))?;
            let tol = if F::SINGLE { 2e-2 } else { 1e-6 };
            // moderate designs only: compare the numbers; a different default shows up as O(1)
            let scale = |x: &[f64]| x.iter().fold(0.0f64, |m, v| m.max(v.abs()));
            let close = |a: &[f64], b: &[f64]| a.len() == b.len() && { let s = scale(a).max(scale(b)); a.iter().zip(b).all(|(x, y)| (x - y).abs() <= tol * s || (x.is_nan() && y.is_nan())) };
            let same = match (&f, &g) {
                (Form::Ba(b1, a1), Form::Ba(b2, a2)) => close(b1, b2) && close(a1, a2),
                (Form::Zpk(x), Form::Zpk(y)) => {
                    let set = |p: &[C], q: &[C]| p.len() == q.len() && p.iter().all(|r| q.iter().any(|s| (r - s).norm() <= tol.sqrt() * 0.2 * (1.0 + r.norm())));
                    set(&x.p, &y.p) && set(&x.z, &y.z) && ((x.k - y.k).abs() <= tol * x.k.abs().max(y.k.abs()) * (1.0 + v.order as f64) || (x.k.is_nan() && y.k.is_nan()))
                }
                (Form::Sos(s1), Form::Sos(s2)) => s1.len() == s2.len() && {
                    // as filters: compare the response (section order may legitimately differ between near-ties)
                    let mut ok = true;
                    for th in [0.3f64, 1.1, 1.9, 2.7] {
                        let x = c(th.cos(), th.sin()) * 1.7;
                        let (h1, h2) = (f.eval(x), g.eval(x));
                        ok &= (h1 - h2).norm() <= 50.0 * tol * h1.norm().max(h2.norm()) || h1.norm().is_nan() && h2.norm().is_nan();
                    }
                    ok
                },
                _ => false,
            };
            ensure!(same, "omitted options do not mean their documented defaults: {f:?} vs explicit {g:?}");
            let omitted = [v.btype.is_none(), v.analog.is_none(), v.output.is_none(), v.fs.is_some(), v.ftype.is_none() && v.func == 3].iter().filter(|b| **b).count();
            cx.nt(v.order > 0);
            cx.label(format!("accepted, {omitted} options defaulted or converted"));
        }
    }
    cx.label(format!("function {}", v.func));
    Ok(())
}
fn val_check(v: &Val, cx: &mut Cx) -> R {
    if v.single { val_t::<f32>(v, cx) } else { val_t::<f64>(v, cx) }
}

/// Neighbouring values of the precision in use.
fn nudge(single: bool, x: f64, by: i32) -> f64 {
    if single {
        f32::from_bits((x as f32).to_bits().wrapping_add(by as u32)) as f64
    } else {
        f64::from_bits(x.to_bits().wrapping_add(by as i64 as u64))
    }
}
fn verdict<F: Flt>(v: &Val, cx: &mut Cx) -> R {
    let v = Val { wn: v.wn.iter().map(|w| rnd(F::SINGLE, *w)).collect(), fs: v.fs.map(|f| rnd(F::SINGLE, f)), rp: v.rp.map(|x| rnd(F::SINGLE, x)), rs: v.rs.map(|x| rnd(F::SINGLE, x)), ..v.clone() };
    match acceptable(&v) {
        Err(why) => {
            rejects(&format!("a request that is invalid ({why})"), || val_call::<F>(&v))?;
            cx.label(format!("rejected: {why}"));
        }
        Ok(()) => {
            let f = call(|| val_call::<F>(&v)).map_err(|m| format!("a valid request was rejected: {m}"))?;
            let Form::Zpk(z) = f else { return Err("not the requested zeros/poles/gain form".into()) };
            let n = v.order * v.wn.len();
            ensure!(z.p.len() == n, "{} poles for order {} and {} frequencies", z.p.len(), v.order, v.wn.len());
            cx.label("accepted");
        }
    }
    cx.nt(true);
    Ok(())
}
fn verdicts() -> BoxedStrategy<Val> {
    (any::<bool>(), 0u8..4, prop::option::of(0u8..3), prop_oneof![3 => 0usize..9, 1 => 0usize..61], 0u8..4, any::<bool>(), prop_oneof![2 => Just(None), 2 => (-20i32..40).prop_map(|e| Some(2f64.powi(e)))])
        .prop_flat_map(|(single, func, ftype, order, btype, analog, fs)| {
            let fs = if analog { None } else { fs };
            let nyq = fs.map_or(1.0, |f| f / 2.0);
            let by = || prop_oneof![1 => Just(0i32), 2 => -2i32..=2, 1 => -200i32..=200];
            // a frequency anywhere, or next to Nyquist, or tiny
            let top = if analog { 1e12 } else { 0.999 };
            let one = prop_oneof![
                4 => logu(1e-12, top).prop_map(move |w| w * nyq),
                2 => by().prop_map(move |b| nudge(single, nyq, b)),
                1 => Just(0.0),
                1 => logu(1e-12, 1.0).prop_map(move |w| -w * nyq),
                1 => logu(1e-9, 1e-3).prop_map(move |w| (1.0 - w) * nyq),
            ].boxed();
            let wn = if btype < 2 {
                one.prop_map(|w| vec![w]).boxed()
            } else {
                prop_oneof![
                    3 => (one.clone(), by()).prop_map(move |(w, b)| vec![w, nudge(single, w, b)]),
                    1 => (one.clone(), one.clone()).prop_map(|(a, b)| vec![a, b]),
                    2 => (one.clone(), one).prop_map(|(a, b)| vec![a.min(b), a.max(b)]),
                ].boxed()
            };
            let ripple = || prop_oneof![1 => Just(None), 4 => logu(1e-4, 1e2).prop_map(Some), 1 => logu(1e-30, 1e4).prop_map(|v| Some(-v)), 1 => logu(1e-12, 1e3).prop_map(Some)];
            (wn, ripple(), ripple()).prop_map(move |(wn, rp, rs)| Val { single, func, ftype, order, wn, rp, rs, btype: Some(btype), analog: Some(analog), output: Some(1), fs })
        })
        .boxed()
}

pub fn c12() -> Property {
    Property {
        id: "C12",
        subs: vec![sub("requests", "all option combinations, valid and invalid in known ways; non-trivial: an invalid request, or a valid one of order >= 1 compared with its fully explicit form", 60_000, 800_000,
            |_| {
                let good1 = prop_oneof![0.05f64..0.95, (1i32..=19).prop_map(|i| i as f64 / 20.0)];
                let any1 = prop_oneof![5 => good1.boxed(), 1 => Just(0.0), 1 => -2.0f64..0.0, 1 => Just(1.0), 1 => 1.0f64..3.0].boxed();
                let wn = prop_oneof![
                    6 => (0.05f64..0.9).prop_map(|w| vec![w]),
                    6 => (0.05f64..0.6, 0.05f64..0.35).prop_map(|(w, d)| vec![w, w + d]),
                    2 => any1.clone().prop_map(|w| vec![w]),
                    3 => (any1.clone(), any1.clone()).prop_map(|(a, b)| vec![a, b]),
                    1 => any1.clone().prop_map(|a| vec![a, a]),
                    1 => prop::collection::vec(any1, 0..5),
                ];
                (any::<bool>(), 0u8..4, prop::option::of(0u8..3), 0usize..6, wn,
                 prop_oneof![1 => Just(None), 3 => (0.1f64..5.0).prop_map(Some), 1 => (-5.0f64..-1e-6).prop_map(Some)],
                 prop_oneof![1 => Just(None), 3 => (10.0f64..60.0).prop_map(Some), 1 => (-5.0f64..-1e-6).prop_map(Some)],
                 prop::option::of(0u8..4), prop::option::weighted(0.6, prop::bool::weighted(0.3)), prop::option::of(0u8..3),
                 prop_oneof![4 => Just(None), 3 => logu(0.5, 1e4).prop_map(Some), 2 => (0i32..10).prop_map(|e| Some(2f64.powi(e)))])
                .prop_flat_map(|(single, func, ftype, order, wn, rp, rs, btype, analog, output, fs)| {
                    // with a sampling rate, the frequencies are usually meant relative to it
                    let scaled: Vec<f64> = match fs { Some(f) => wn.iter().map(|w| w * f / 2.0).collect(), None => wn.clone() };
                    // usually a band type that fits the number of frequencies
                    let fit = if wn.len() == 2 { 2u8..4 } else { 0u8..2 };
                    (prop_oneof![4 => Just(scaled), 1 => Just(wn)], prop_oneof![2 => Just(btype), 3 => fit.prop_map(Some)])
                        .prop_map(move |(wn, btype)| Val { single, func, ftype, order, wn, rp, rs, btype, analog, output, fs })
                })
            }, val_check),
            sub("verdicts", "requests on either side of each bound by as little as one rounding (edges, Nyquist, zero, ripple), at extreme frequencies, rates and ripples, orders up to 60, zeros/poles/gain output: accepted or rejected; every case is non-trivial", 60_000, 800_000,
            |_| verdicts(), |v: &Val, cx: &mut Cx| if v.single { verdict::<f32>(v, cx) } else { verdict::<f64>(v, cx) })],
        assumptions: vec!["only the implemented families (Butterworth, Chebyshev I and II); zero ripple and NaN arguments are not considered"],
    }
}
