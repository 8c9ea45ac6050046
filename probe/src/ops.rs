//! Calls into the public interface of sci-rs, as data. Shared by the harness (std build, in process), the
//! default-features probe and the AddressSanitizer probe.
use num_traits::Float;
use sci_rs::na::{Complex, DMatrix, RealField};
use sci_rs::signal::filter::design::*;
use sci_rs::signal::filter::*;
use sci_rs::special::{Bessel, Combinatoric, Factorial};
use sci_rs::stats;
use serde::{Deserialize, Serialize};

/// Floats that survive JSON: non-finite ones are written as strings.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct X(pub f64);
impl Serialize for X {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0.is_finite() {
            s.serialize_f64(self.0)
        } else {
            s.serialize_str(&self.0.to_string())
        }
    }
}
impl<'de> Deserialize<'de> for X {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<X, D::Error> {
        #[derive(Deserialize)]
        #[serde(untagged)]
        enum E {
            N(f64),
            S(String),
        }
        Ok(X(match E::deserialize(d)? {
            E::N(v) => v,
            E::S(s) => s.parse().map_err(serde::de::Error::custom)?,
        }))
    }
}

pub trait Num: RealField + Float + Copy + Default + core::iter::Sum + Bessel {
    const SINGLE: bool;
    fn f(v: X) -> Self;
    fn d(self) -> f64;
    fn fast(x: &[Self], sos: &mut [Sos<Self>], z: &mut [Self]);
    fn ifast(x: &[i16], sos: &mut [Sos<Self>], z: &mut [Self]);
}
impl Num for f64 {
    const SINGLE: bool = false;
    fn f(v: X) -> f64 {
        v.0
    }
    fn d(self) -> f64 {
        self
    }
    fn fast(_: &[f64], _: &mut [Sos<f64>], _: &mut [f64]) {}
    fn ifast(_: &[i16], _: &mut [Sos<f64>], _: &mut [f64]) {}
}
impl Num for f32 {
    const SINGLE: bool = true;
    fn f(v: X) -> f32 {
        v.0 as f32
    }
    fn d(self) -> f64 {
        self as f64
    }
    fn fast(x: &[f32], sos: &mut [Sos<f32>], z: &mut [f32]) {
        sosfilt_fast32_st(x, sos, z)
    }
    fn ifast(x: &[i16], sos: &mut [Sos<f32>], z: &mut [f32]) {
        sosfilt_ifast32_st(x, sos, z)
    }
}

type V = Vec<X>;
type CV = Vec<(X, X)>;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// b0 b1 b2 a0 a1 a2 zi0 zi1 per section. how: 0 dyn, 1 iterator, 2 item by item, 3 fast32, 4 integer fast32
    SosFilt { how: u8, sos: Vec<[X; 8]>, x: V, zlen: usize },
    FiltFilt { sos: Vec<[X; 8]>, x: V },
    SosZi { sos: Vec<[X; 8]> },
    LfilterZi { b: V, a: V },
    FromScipy { order: usize, v: V },
    /// direct: call odd_ext
    Pad { direct: bool, mode: u8, padlen: Option<usize>, ntaps: usize, axis: usize, rows: usize, cols: usize, x: V },
    Savgol { filter: bool, window: usize, order: usize, deriv: Option<usize>, delta: Option<X>, x: V },
    /// api: 0 iirfilter, 1 butter, 2 cheby1, 3 cheby2
    Design { api: u8, order: usize, wn: V, rp: Option<X>, rs: Option<X>, btype: Option<u8>, ftype: Option<u8>, analog: Option<bool>, output: Option<u8>, fs: Option<X> },
    Prototype { cheb2: bool, n: usize, r: X },
    /// which: 0 lp2lp, 1 lp2hp, 2 lp2bp, 3 lp2bs, 4 bilinear
    Xform { which: u8, z: CV, p: CV, k: X, wo: Option<X>, bw: Option<X> },
    Zpk2Tf { order: usize, z: CV, p: CV, k: X },
    Zpk2Sos { order: usize, z: CV, p: CV, k: X, pairing: Option<u8>, analog: Option<bool> },
    Poly { z: CV },
    /// f: 0 mean 1 median 2 variance 3 stdev 4 mad 5 zscore 6 mod_zscore 7 autocorr 8 lag_diff 9 rmssd
    Stat { f: u8, k: usize, x: V },
    AutoFast { which: u8, x: V },
    RmsFast { which: u8, x: V },
    Square { duty: X, shape: u8, t: V },
    I0 { scaled: bool, x: V },
    /// f: 0 comb 1 comb_rep 2 perm 3 stirling2 4 factorial 5 factorial2 6 factorialk; ty indexes i8 u8 i16 ... i128 u128
    Int { f: u8, ty: u8, n: i64, k: i64 },
    Companion { m: usize, a: V },
    /// std only. f: 0 fftconvolve 1 convolve 2 correlate
    Conv { f: u8, mode: u8, x: V, y: V },
    Resample { n: usize, x: V },
    BesselVec { scaled: bool, cols: usize, x: V },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Call {
    pub single: bool,
    pub op: Op,
}

/// What a call returned. kind: 0 numbers, 1 zeros/poles/gain, 2 transfer function, 3 sections.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Out {
    pub kind: u8,
    /// lengths, shapes, counts
    pub dims: Vec<usize>,
    pub vals: V,
}

fn plain<F: Num>(v: &[F]) -> Out {
    Out { kind: 0, dims: vec![v.len()], vals: v.iter().map(|v| X(v.d())).collect() }
}
fn zpk<F: Num>(f: &ZpkFormatFilter<F>) -> Out {
    let mut vals = vec![X(f.k.d())];
    for c in f.z.iter().chain(&f.p) {
        vals.push(X(c.re.d()));
        vals.push(X(c.im.d()));
    }
    Out { kind: 1, dims: vec![f.z.len(), f.p.len()], vals }
}
fn ba<F: Num>(f: &BaFormatFilter<F>) -> Out {
    Out { kind: 2, dims: vec![f.b.len(), f.a.len()], vals: f.b.iter().chain(&f.a).map(|v| X(v.d())).collect() }
}
fn sections<F: Num>(s: &[Sos<F>], states: bool) -> Out {
    let mut vals = vec![];
    for s in s {
        vals.extend(s.b.iter().chain(&s.a).map(|v| X(v.d())));
        if states {
            vals.push(X(s.zi0.d()));
            vals.push(X(s.zi1.d()));
        }
    }
    Out { kind: if states { 0 } else { 3 }, dims: vec![s.len()], vals }
}
fn filt<F: Num>(f: &DigitalFilter<F>) -> Out {
    match f {
        DigitalFilter::Ba(f) => ba(f),
        DigitalFilter::Zpk(f) => zpk(f),
        DigitalFilter::Sos(f) => sections(&f.sos, false),
    }
}

fn vec<F: Num>(x: &V) -> Vec<F> {
    x.iter().map(|v| F::f(*v)).collect()
}
fn cvec<F: Num>(x: &CV) -> Vec<Complex<F>> {
    x.iter().map(|v| Complex::new(F::f(v.0), F::f(v.1))).collect()
}
fn sos<F: Num>(s: &[[X; 8]]) -> Vec<Sos<F>> {
    s.iter()
        .map(|s| {
            let v = s.map(F::f);
            let mut o = Sos::new([v[0], v[1], v[2]], [v[3], v[4], v[5]]);
            o.zi0 = v[6];
            o.zi1 = v[7];
            o
        })
        .collect()
}

fn auto<const N: usize, const M: usize, const S: usize>(x: &V) -> Out {
    let mut y = [0f32; N];
    for (i, v) in y.iter_mut().enumerate() {
        *v = x.get(i % x.len().max(1)).map_or(i as f32, |v| v.0 as f32);
    }
    let mut o = [0f32; M];
    let v = stats::autocorr_fast32::<N, M, S>(&mut y, &mut o);
    let mut r = vec![X(v as f64)];
    r.extend(o.iter().chain(&y).map(|v| X(*v as f64)));
    Out { kind: 0, dims: vec![r.len()], vals: r }
}
fn rms<const N: usize>(x: &V) -> Out {
    let mut y = [0f32; N];
    for (i, v) in y.iter_mut().enumerate() {
        *v = x.get(i % x.len().max(1)).map_or(i as f32, |v| v.0 as f32);
    }
    plain(&[stats::rms_fast32::<N>(&y)])
}

fn run_t<F: Num>(op: &Op) -> Option<Out> {
    Some(match op {
        Op::SosFilt { how, sos: s, x, zlen } => {
            let mut s = sos::<F>(s);
            let x = vec::<F>(x);
            let y = match how % 5 {
                0 => sosfilt_dyn(x.iter(), &mut s),
                1 => sosfilt_st(x.iter(), &mut s).collect(),
                2 => x.iter().map(|v| sosfilt_item(*v, &mut s)).collect(),
                3 => {
                    let mut z = vec![F::zero(); *zlen];
                    F::fast(&x, &mut s, &mut z);
                    z
                }
                _ => {
                    let mut z = vec![F::zero(); *zlen];
                    let xi: Vec<i16> = x.iter().map(|v| v.d() as i16).collect();
                    F::ifast(&xi, &mut s, &mut z);
                    z
                }
            };
            let mut o = plain(&y);
            o.vals.extend(sections(&s, true).vals);
            o
        }
        Op::FiltFilt { sos: s, x } => plain(&sosfiltfilt_dyn(vec::<F>(x).iter(), &sos::<F>(s))),
        Op::SosZi { sos: s } => {
            let mut s = sos::<F>(s);
            sosfilt_zi_dyn::<_, _, Sos<F>>(s.iter_mut());
            sections(&s, true)
        }
        Op::LfilterZi { b, a } => plain(&lfilter_zi_dyn(&vec::<F>(b), &vec::<F>(a))),
        Op::FromScipy { order, v } => sections(&Sos::from_scipy_dyn(*order, vec::<F>(v)), false),
        Op::Pad { direct, mode, padlen, ntaps, axis, rows, cols, x } => {
            let x = vec::<F>(x);
            let m = DMatrix::from_fn(*rows, *cols, |i, j| if x.is_empty() { F::zero() } else { x[(i * 7 + j) % x.len()] });
            let (e, m) = if *direct {
                let n = padlen.unwrap_or(*ntaps);
                (n, odd_ext_dyn(m, n, *axis))
            } else {
                let p = match mode % 4 {
                    0 => Pad::None,
                    1 => Pad::Even,
                    2 => Pad::Odd,
                    _ => Pad::Constant,
                };
                pad(p, *padlen, m, *axis, *ntaps)
            };
            let mut o = plain(m.as_slice());
            o.dims = vec![e, m.nrows(), m.ncols()];
            o
        }
        Op::Savgol { filter, window, order, deriv, delta, x } => plain(&if *filter {
            savgol_filter_dyn(vec::<F>(x).iter(), *window, *order, *deriv, delta.map(F::f))
        } else {
            savgol_coeffs_dyn::<F>(*window, *order, *deriv, delta.map(F::f))
        }),
        Op::Design { api, order, wn, rp, rs, btype, ftype, analog, output, fs } => {
            let band = btype.map(|b| match b % 4 {
                0 => FilterBandType::Lowpass,
                1 => FilterBandType::Highpass,
                2 => FilterBandType::Bandpass,
                _ => FilterBandType::Bandstop,
            });
            let out = output.map(|o| match o % 3 {
                0 => FilterOutputType::Ba,
                1 => FilterOutputType::Zpk,
                _ => FilterOutputType::Sos,
            });
            let fam = ftype.map(|t| match t % 5 {
                0 => FilterType::Butterworth,
                1 => FilterType::ChebyshevI,
                2 => FilterType::ChebyshevII,
                3 => FilterType::CauerElliptic,
                _ => FilterType::BesselThomson(BesselThomsonNorm::Phase),
            });
            let (wn, rp, rs, fs) = (vec::<F>(wn), rp.map(F::f), rs.map(F::f), fs.map(F::f));
            filt(&match api % 4 {
                0 => iirfilter_dyn(*order, wn, rp, rs, band, fam, *analog, out, fs),
                1 => butter_dyn(*order, wn, band, *analog, out, fs),
                2 => cheby1_dyn(*order, rp.unwrap_or(F::one()), wn, band, *analog, out, fs),
                _ => cheby2_dyn(*order, rs.unwrap_or(F::one()), wn, band, *analog, out, fs),
            })
        }
        Op::Prototype { cheb2, n, r } => zpk(&if *cheb2 { cheb2ap_dyn(*n, F::f(*r)) } else { cheb1ap_dyn(*n, F::f(*r)) }),
        Op::Xform { which, z, p, k, wo, bw } => {
            let f = ZpkFormatFilter::new(cvec::<F>(z), cvec(p), F::f(*k));
            let (wo, bw) = (wo.map(F::f), bw.map(F::f));
            zpk(&match which % 5 {
                0 => lp2lp_zpk_dyn(f, wo),
                1 => lp2hp_zpk_dyn(f, wo),
                2 => lp2bp_zpk_dyn(f, wo, bw),
                3 => lp2bs_zpk_dyn(f, wo, bw),
                _ => bilinear_zpk_dyn(f, wo.unwrap_or(F::one())),
            })
        }
        Op::Zpk2Tf { order, z, p, k } => ba(&zpk2tf_dyn(*order, &cvec::<F>(z), &cvec(p), F::f(*k))),
        Op::Zpk2Sos { order, z, p, k, pairing, analog } => {
            let pr = pairing.map(|p| if p % 2 == 0 { ZpkPairing::Nearest } else { ZpkPairing::Minimal });
            sections(&zpk2sos_dyn(*order, ZpkFormatFilter::new(cvec::<F>(z), cvec(p), F::f(*k)), pr, *analog).sos, false)
        }
        Op::Poly { z } => {
            let p = poly_dyn(&cvec::<F>(z));
            let v: Vec<F> = p.iter().flat_map(|c| [c.re, c.im]).collect();
            plain(&v)
        }
        Op::Stat { f, k, x } => {
            let x = vec::<F>(x);
            let one = |r: (F, usize)| Out { kind: 0, dims: vec![r.1], vals: vec![X(r.0.d())] };
            match f % 10 {
                0 => one(stats::mean(x.iter())),
                1 => one(stats::median(x.iter())),
                2 => one(stats::variance(x.iter())),
                3 => one(stats::stdev(x.iter())),
                4 => one(stats::median_abs_deviation(x.iter())),
                5 => plain(&stats::zscore(x.iter()).collect::<Vec<F>>()),
                6 => plain(&stats::mod_zscore(x.iter()).collect::<Vec<F>>()),
                7 => plain(&[stats::autocorr::<_, F>(x.iter(), *k)]),
                8 => plain(&stats::lag_diff::<_, F>(x.iter()).collect::<Vec<F>>()),
                _ => plain(&[stats::rmssd::<_, F>(x.iter())]),
            }
        }
        Op::AutoFast { which, x } => match which % 8 {
            0 => auto::<1, 1, 0>(x),
            1 => auto::<4, 4, 0>(x),
            2 => auto::<7, 6, 1>(x),
            3 => auto::<10, 3, 4>(x),
            4 => auto::<33, 20, 2>(x),
            5 => auto::<5, 5, 1>(x),
            6 => auto::<0, 0, 0>(x),
            _ => auto::<16, 16, 0>(x),
        },
        Op::RmsFast { which, x } => match which % 6 {
            0 => rms::<0>(x),
            1 => rms::<1>(x),
            2 => rms::<4>(x),
            3 => rms::<7>(x),
            4 => rms::<10>(x),
            _ => rms::<33>(x),
        },
        Op::Square { duty, shape, t } => {
            let t = ndarray::Array1::from_vec(vec::<F>(t));
            let r = match shape % 3 {
                0 => sci_rs::signal::wave::square(&t, F::f(*duty)),
                1 => sci_rs::signal::wave::square(&t.slice(ndarray::s![..;-2]), F::f(*duty)),
                _ => sci_rs::signal::wave::square(&t.slice(ndarray::s![..;3]), F::f(*duty)),
            };
            plain(&r.to_vec())
        }
        Op::I0 { scaled, x } => {
            let v: Vec<F> = vec::<F>(x).iter().map(|x| if *scaled { x.i0e() } else { x.i0() }).collect();
            plain(&v)
        }
        Op::Int { f, ty, n, k } => {
            macro_rules! go {
                ($t:ty) => {{
                    let (n, k) = (*n as $t, *k as $t);
                    (match f % 7 {
                        0 => n.comb(k),
                        1 => n.comb_rep(k),
                        2 => n.perm(k),
                        3 => n.stirling2(k),
                        4 => n.factorial(),
                        5 => n.factorial2(),
                        _ => n.factorialk(k),
                    }) as f64
                }};
            }
            let v = match ty % 10 {
                0 => go!(i8),
                1 => go!(u8),
                2 => go!(i16),
                3 => go!(u16),
                4 => go!(i32),
                5 => go!(u32),
                6 => go!(i64),
                7 => go!(u64),
                8 => go!(i128),
                _ => go!(u128),
            };
            Out { kind: 0, dims: vec![1], vals: vec![X(v)] }
        }
        Op::Companion { m, a } => {
            let r = sci_rs::linalg::companion_dyn::<F, F, _>(vec::<F>(a).into_iter(), *m);
            let mut o = plain(r.as_slice());
            o.dims = vec![r.nrows(), r.ncols()];
            o
        }
        _ => return None,
    })
}

#[cfg(feature = "full")]
fn run_std<F: Num + rustfft::FftNum>(op: &Op) -> Option<Out> {
    use sci_rs::signal::{convolve::*, resample::resample};
    Some(match op {
        Op::Conv { f, mode, x, y } => {
            let (x, y) = (vec::<F>(x), vec::<F>(y));
            let m = match mode % 3 {
                0 => ConvolveMode::Full,
                1 => ConvolveMode::Valid,
                _ => ConvolveMode::Same,
            };
            plain(&match f % 3 {
                0 => fftconvolve(&x, &y, m),
                1 => convolve(&x, &y, m),
                _ => correlate(&x, &y, m),
            })
        }
        Op::Resample { n, x } => plain(&resample(&vec::<F>(x), *n)),
        Op::BesselVec { scaled, cols, x } => {
            let x = vec::<F>(x);
            let c = (*cols).max(1);
            let a = ndarray::ArrayD::from_shape_vec(ndarray::IxDyn(&[x.len() / c, c]), x[..x.len() / c * c].to_vec()).unwrap();
            let (v, a) = if *scaled { (x.i0e(), a.t().to_owned().i0e()) } else { (x.i0(), a.t().to_owned().i0()) };
            let mut o = plain(&v);
            o.vals.extend(a.iter().map(|v| X(v.d())));
            o
        }
        _ => return None,
    })
}

/// None: not available in this build.
pub fn run(c: &Call) -> Option<Out> {
    let r = if c.single { run_t::<f32>(&c.op) } else { run_t::<f64>(&c.op) };
    #[cfg(feature = "full")]
    let r = r.or_else(|| if c.single { run_std::<f32>(&c.op) } else { run_std::<f64>(&c.op) });
    r
}
