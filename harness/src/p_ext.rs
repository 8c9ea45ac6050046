//! C05: padding.
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use proptest::prelude::*;
use sci_rs::na::{Complex, DMatrix, DVector, Dyn, OMatrix, RowDVector, SMatrix};
use sci_rs::signal::filter::{odd_ext_dyn, pad, Pad};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PadCase {
    mode: u8,
    axis: usize,
    /// None: 3 * ntaps
    padlen: Option<usize>,
    ntaps: usize,
    rows: usize,
    cols: usize,
    /// 0 DMatrix, 1 DVector / RowDVector, 2 static shapes
    shape: u8,
    /// 0 f64, 1 f32, 2 i32, 3 i64, 4 u16 (not odd), 5 complex
    ty: u8,
    vals: Vec<f64>,
    /// call odd_ext directly
    direct: bool,
    /// floats: amplitude in percent of the exponent range
    #[serde(default)]
    level: i32,
    /// floats: every so many values is NaN or infinite (0: none); not with odd extension
    #[serde(default)]
    special: usize,
}

trait El: Copy + std::fmt::Debug + PartialEq + 'static + sci_rs::na::Scalar + num_traits::Zero + num_traits::One + std::ops::Sub<Output = Self> {
    const EPS: f64;
    /// largest level of the exponent, 0 for integers
    const MAXEXP: i32 = 0;
    const UNSIGNED: bool = false;
    fn of(v: f64) -> Self;
    /// real (and imaginary) part
    fn parts(self) -> [f64; 2];
}
impl El for f64 { const EPS: f64 = f64::EPSILON; const MAXEXP: i32 = 1000; fn of(v: f64) -> Self { v } fn parts(self) -> [f64; 2] { [self, 0.0] } }
impl El for f32 { const EPS: f64 = f32::EPSILON as f64; const MAXEXP: i32 = 100; fn of(v: f64) -> Self { v as f32 } fn parts(self) -> [f64; 2] { [self as f64, 0.0] } }
impl El for i32 { const EPS: f64 = 0.0; fn of(v: f64) -> Self { v as i32 } fn parts(self) -> [f64; 2] { [self as f64, 0.0] } }
impl El for i64 { const EPS: f64 = 0.0; fn of(v: f64) -> Self { v as i64 } fn parts(self) -> [f64; 2] { [self as f64, 0.0] } }
impl El for u16 { const EPS: f64 = 0.0; const UNSIGNED: bool = true; fn of(v: f64) -> Self { v.abs().min(60_000.0) as u16 } fn parts(self) -> [f64; 2] { [self as f64, 0.0] } }
impl El for Complex<f64> { const EPS: f64 = f64::EPSILON; const MAXEXP: i32 = 1000; fn of(v: f64) -> Self { Complex::new(v, v * 0.5 - 1.0) } fn parts(self) -> [f64; 2] { [self.re, self.im] } }

fn mode(m: u8) -> Pad {
    match m {
        0 => Pad::None,
        1 => Pad::Even,
        2 => Pad::Odd,
        _ => Pad::Constant,
    }
}

fn call_it<T: El>(c: &PadCase, rows: usize, cols: usize, f: &dyn Fn(usize, usize) -> T) -> Result<(usize, OMatrix<T, Dyn, Dyn>), String> {
    macro_rules! stat {
        ($r:literal, $k:literal) => {{
            let m = SMatrix::<T, $r, $k>::from_fn(|i, j| f(i, j));
            call(move || if c.direct { (c.padlen.unwrap_or(c.ntaps * 3), odd_ext_dyn(m, c.padlen.unwrap_or(c.ntaps * 3), c.axis)) } else { pad(mode(c.mode), c.padlen, m, c.axis, c.ntaps) })
        }};
    }
    macro_rules! dy {
        ($m:expr) => {{
            let m = $m;
            call(move || if c.direct { (c.padlen.unwrap_or(c.ntaps * 3), odd_ext_dyn(m, c.padlen.unwrap_or(c.ntaps * 3), c.axis)) } else { pad(mode(c.mode), c.padlen, m, c.axis, c.ntaps) })
        }};
    }
    match (c.shape, rows, cols) {
        (2, 2, 3) => stat!(2, 3),
        (2, 3, 2) => stat!(3, 2),
        (2, 4, 4) => stat!(4, 4),
        (2, 7, 1) => stat!(7, 1),
        (2, 1, 7) => stat!(1, 7),
        (2, 5, 6) => stat!(5, 6),
        (1, _, 1) => dy!(DVector::from_fn(rows, |i, _| f(i, 0))),
        (1, 1, _) => dy!(RowDVector::from_fn(cols, |_, j| f(0, j))),
        _ => dy!(DMatrix::from_fn(rows, cols, |i, j| f(i, j))),
    }
}

fn c05_t<T: El>(c: &PadCase, cx: &mut Cx) -> R {
    let (rows, cols) = match c.shape {
        2 => [(2, 3), (3, 2), (4, 4), (7, 1), (1, 7), (5, 6)][(c.rows + c.cols) % 6],
        1 => if c.axis == 1 { (1, c.cols) } else { (c.rows, 1) },
        _ => (c.rows, c.cols),
    };
    if c.vals.is_empty() {
        return Ok(());
    }
    // a value per cell, distinct along both axes
    let odd = c.direct || c.mode == 2;
    if T::UNSIGNED && odd {
        return Ok(());
    }
    let k = 2f64.powi(c.level * T::MAXEXP / 100);
    let f = |i: usize, j: usize| {
        let at = i * 31 + j * 17;
        if c.special > 0 && !odd && T::MAXEXP > 0 && at % c.special == 0 {
            return T::of([f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0][at % 4]);
        }
        T::of(k * ((c.vals[at % c.vals.len()] * 4.0).trunc() / 4.0 + (i as f64) * 3.0 - (j as f64) * 7.0))
    };
    // equal, bit for bit
    let same = |a: T, b: T| (0..2).all(|q| a.parts()[q].to_bits() == b.parts()[q].to_bits() || a.parts()[q].is_nan() && b.parts()[q].is_nan());
    let ext = if c.axis == 0 { rows } else { cols };
    let n = if !c.direct && c.mode == 0 { 0 } else { c.padlen.unwrap_or(3 * c.ntaps) };
    let got = call_it::<T>(c, rows, cols, &f);
    if c.axis > 1 {
        ensure!(got.is_err(), "axis {} was accepted", c.axis);
        cx.nt(true);
        cx.label("bad axis");
        return Ok(());
    }
    if n >= ext && !(c.direct && n == 0) {
        ensure!(got.is_err(), "padding by {n} along an extent of {ext} was accepted: {got:?}");
        cx.nt(true);
        cx.label("too long");
        return Ok(());
    }
    let (edge, m) = got.map_err(|e| format!("padding {rows}x{cols} by {n} along axis {} (mode {}) panicked: {e}", c.axis, c.mode))?;
    ensure!(edge == n, "reported edge {edge}, expected {n}");
    let (er, ec) = if c.axis == 0 { (rows + 2 * n, cols) } else { (rows, cols + 2 * n) };
    ensure!(m.shape() == (er, ec), "shape {:?}, expected ({er}, {ec})", m.shape());
    for i in 0..er {
        for j in 0..ec {
            let (p, q) = if c.axis == 0 { (i, j) } else { (j, i) };
            let at = |k: usize| if c.axis == 0 { f(k, q) } else { f(q, k) };
            let g = m[(i, j)];
            if p >= n && p < n + ext {
                ensure!(same(g, at(p - n)), "middle changed at ({i}, {j}): {g:?} instead of {:?}", at(p - n));
                continue;
            }
            let (end, mirror) = if p < n { (0, n - p) } else { (ext - 1, ext - 2 - (p - n - ext)) };
            if !odd {
                let want = if c.mode == 1 { at(mirror) } else { at(end) };
                ensure!(same(g, want), "extension at ({i}, {j}) is {g:?}, expected {want:?} (mode {}, n {n}, {rows}x{cols}, axis {})", c.mode, c.axis);
                continue;
            }
            let (e, r, g) = (at(end).parts(), at(mirror).parts(), g.parts());
            // multiplying complex numbers mixes the parts
            let size = 2.0 * (e[0].abs() + e[1].abs()) + r[0].abs() + r[1].abs();
            for q in 0..2 {
                let want = 2.0 * e[q] - r[q];
                ensure!((g[q] - want).abs() <= T::EPS * 4.0 * size, "odd extension at ({i}, {j}) is {g:?}, expected {want} (part {q}, n {n}, {rows}x{cols}, axis {})", c.axis);
            }
        }
    }
    cx.nt(n > 0 && rows * cols > 1);
    cx.label(format!("mode {} axis {}", if c.direct { 9 } else { c.mode }, c.axis));
    cx.label(if n + 1 == ext { "largest accepted" } else if n == 0 { "zero" } else { "inner" });
    cx.label(format!("type {}", c.ty));
    Ok(())
}
fn c05_check(c: &PadCase, cx: &mut Cx) -> R {
    match c.ty {
        0 => c05_t::<f64>(c, cx),
        1 => c05_t::<f32>(c, cx),
        2 => c05_t::<i32>(c, cx),
        3 => c05_t::<i64>(c, cx),
        4 => c05_t::<u16>(c, cx),
        _ => c05_t::<Complex<f64>>(c, cx),
    }
}

pub fn c05() -> Property {
    Property {
        id: "C05",
        subs: vec![sub(
            "pad",
            "mode, axis, explicit or tap-derived length, shape, element type; non-trivial: at least one padded sample, or a rejected call",
            25_000, 400_000,
            |_| (0u8..4, prop_oneof![8 => 0usize..2, 1 => 2usize..5], prop_oneof![3 => (0usize..24).prop_map(Some), 1 => Just(None)], 0usize..5,
                 prop_oneof![12 => 1usize..8, 8 => 1usize..40, 1 => Just(0)], prop_oneof![12 => 1usize..8, 8 => 1usize..40, 1 => Just(0)], 0u8..3, 0u8..6,
                 prop::collection::vec(real(2), 1..40), (prop::bool::weighted(0.25), level(), prop_oneof![5 => Just(0usize), 1 => 1usize..9]))
                .prop_flat_map(|(mode, axis, padlen, ntaps, rows, cols, shape, ty, vals, (direct, level, special))| {
                    // often choose the pad length relative to the extent
                    let ext = if axis == 1 { cols } else { rows };
                    prop_oneof![2 => Just(padlen), 3 => (0..=ext + 1).prop_map(Some)].prop_map(move |padlen| PadCase { mode, axis, padlen, ntaps, rows, cols, shape, ty, vals: vals.clone(), direct, level, special })
                }),
            c05_check,
        ),
        sub("large", "as pad with extents of hundreds to 140 000 along the padded axis, explicit and tap-derived lengths", 40, 1500,
            |_| (0u8..4, 0usize..2, prop_oneof![3 => 200usize..700, 2 => 700usize..10_000, 1 => 30_000usize..140_000, 1 => 65_530usize..65_545], 1usize..4, 0.0f64..1.0, 0u8..2, 0u8..4, prop::collection::vec(real(2), 1..40), (prop::bool::weighted(0.25), any::<bool>()))
                .prop_map(|(mode, axis, big, small, t, shape, ty, vals, (direct, taps))| {
                    let (rows, cols) = if axis == 0 { (big, small) } else { (small, big) };
                    let n = ((big - 1) as f64 * t) as usize;
                    PadCase { mode, axis, padlen: if taps { None } else { Some(n) }, ntaps: if taps { n / 3 } else { 0 }, rows, cols, shape, ty, vals, direct, level: 0, special: 0 }
                }),
            c05_check)],
        assumptions: vec!["integer values for which 2*edge - value does not overflow"],
    }
}
