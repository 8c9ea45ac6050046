//! C20-C21: combinatorics and factorials against big-integer references.
use crate::core::*;
use crate::ensure;
use num_bigint::BigInt;
use num_traits::{One, Signed, Zero};
use proptest::prelude::*;
use sci_rs::special::{Combinatoric, Factorial};
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use std::str::FromStr;

pub const TYPES: [&str; 12] = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "i128", "u128", "isize", "usize"];
const FUNS: [&str; 4] = ["comb", "comb_rep", "perm", "stirling2"];
const FACS: [&str; 3] = ["factorial", "factorial2", "factorialk"];

macro_rules! dispatch {
    ($ty:expr, $f:ident ( $($a:expr),* )) => {
        match $ty % 12 {
            0 => $f::<i8>($($a),*), 1 => $f::<u8>($($a),*), 2 => $f::<i16>($($a),*), 3 => $f::<u16>($($a),*),
            4 => $f::<i32>($($a),*), 5 => $f::<u32>($($a),*), 6 => $f::<i64>($($a),*), 7 => $f::<u64>($($a),*),
            8 => $f::<i128>($($a),*), 9 => $f::<u128>($($a),*), 10 => $f::<isize>($($a),*), _ => $f::<usize>($($a),*),
        }
    };
}

pub fn range(ty: u8) -> (BigInt, BigInt) {
    let bits = [8u32, 8, 16, 16, 32, 32, 64, 64, 128, 128, 64, 64][ty as usize % 12];
    let two = BigInt::from(2);
    if ty % 2 == 0 {
        (-two.pow(bits - 1), two.pow(bits - 1) - 1)
    } else {
        (BigInt::zero(), two.pow(bits) - 1)
    }
}

/// C(n, k) for 0 <= k <= n, or None as soon as it exceeds `max`.
fn comb_ref(n: &BigInt, k: &BigInt, max: &BigInt) -> Option<BigInt> {
    let k = k.min(&(n - k)).clone();
    let mut r = BigInt::one();
    let mut i = BigInt::zero();
    while i < k {
        // C(n, i+1); increasing while i < n/2, so exceeding max is final
        r = r * (n - &i) / (&i + 1);
        i += 1;
        if r > *max {
            return None;
        }
    }
    Some(r)
}
fn perm_ref(n: &BigInt, k: &BigInt, max: &BigInt) -> Option<BigInt> {
    let mut r = BigInt::one();
    let mut i = BigInt::zero();
    while i < *k {
        r *= n - &i;
        i += 1;
        if r > *max {
            return None;
        }
        if (n - &i).is_one() {
            break; // the remaining factor is 1
        }
    }
    Some(r)
}
/// Largest k for which a Stirling number is evaluated (the library needs time proportional to k).
const STIRLING_K: u32 = 20_000;
fn stirling_ref(n: &BigInt, k: &BigInt, max: &BigInt) -> Option<BigInt> {
    if n == k {
        return Some(BigInt::one());
    }
    if k.is_zero() {
        return Some(BigInt::zero());
    }
    if k.is_one() {
        return Some(BigInt::one());
    }
    if *k > BigInt::from(STIRLING_K) || n - k > BigInt::from(130) {
        return None;
    }
    let d: usize = (n - k).to_string().parse().unwrap();
    let k: u64 = k.to_string().parse().unwrap();
    // complete homogeneous symmetric polynomials of 1..=j, from the recurrence S(n,k) = k S(n-1,k) + S(n-1,k-1)
    let mut row = vec![BigInt::one(); 1]; // row[e] = S(j + e, j)
    row.resize(d + 1, BigInt::zero());
    for j in 1..=k {
        for e in 1..=d {
            let t = &row[e - 1] * j;
            row[e] += t;
        }
        if row[d] > *max {
            return None;
        }
    }
    Some(row[d].clone())
}

/// The defined value, when it fits the type (None: not judged).
fn value(f: u8, n: &BigInt, k: &BigInt, max: &BigInt) -> Option<BigInt> {
    if n.is_negative() || k.is_negative() {
        return Some(BigInt::zero());
    }
    match f % 4 {
        0 => if k > n { Some(BigInt::zero()) } else { comb_ref(n, k, max) },
        1 => if n.is_zero() { Some(BigInt::zero()) } else { comb_ref(&(n + k - 1), k, max) },
        2 => if k > n { Some(BigInt::zero()) } else { perm_ref(n, k, max) },
        _ => if k > n { Some(BigInt::zero()) } else { stirling_ref(n, k, max) },
    }
    .filter(|v| v <= max)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CombCase {
    ty: u8,
    f: u8,
    n: String,
    k: String,
}

fn call_comb<T: Combinatoric + FromStr + Debug + ToString + Copy>(f: u8, n: &str, k: &str) -> Result<String, String> {
    let p = |s: &str| T::from_str(s).map_err(|_| format!("{s} does not fit"));
    let (n, k) = (p(n)?, p(k)?);
    must(FUNS[f as usize % 4], || match f % 4 {
        0 => n.comb(k),
        1 => n.comb_rep(k),
        2 => n.perm(k),
        _ => n.stirling2(k),
    })
    .map(|v| v.to_string())
}

fn comb_check(c: &CombCase, cx: &mut Cx) -> R {
    let (lo, hi) = range(c.ty);
    let (n, k) = (BigInt::from_str(&c.n).unwrap(), BigInt::from_str(&c.k).unwrap());
    if n < lo || n > hi || k < lo || k > hi {
        return Ok(());
    }
    let Some(w) = value(c.f, &n, &k, &hi) else {
        cx.label("does not fit");
        return Ok(());
    };
    let g = dispatch!(c.ty, call_comb(c.f, &c.n, &c.k)).map_err(|e| format!("{}: {n}.{}({k}) should be {w}: {e}", TYPES[c.ty as usize % 12], FUNS[c.f as usize % 4]))?;
    ensure!(g == w.to_string(), "{}: {n}.{}({k}) is {g}, should be {w}", TYPES[c.ty as usize % 12], FUNS[c.f as usize % 4]);
    cx.label(FUNS[c.f as usize % 4]);
    cx.label(if n.is_negative() || k.is_negative() { "negative argument" } else if w.is_zero() { "zero" } else if w.is_one() { "one" } else if &w * 4 > hi { "near the maximum" } else { "inside" });
    cx.nt(true);
    Ok(())
}

fn comb_8bit(_: bool) -> Vec<CombCase> {
    let mut v = vec![];
    for f in 0..4 {
        for n in -128i32..256 {
            for k in -128i32..256 {
                for ty in 0..2 {
                    let (lo, hi) = if ty == 0 { (-128, 127) } else { (0, 255) };
                    if n >= lo && n <= hi && k >= lo && k <= hi {
                        v.push(CombCase { ty, f, n: n.to_string(), k: k.to_string() });
                    }
                }
            }
        }
    }
    v
}

/// Largest n in [lo, hi] for which `fits` holds (monotone), or None.
fn last(lo: BigInt, hi: BigInt, fits: &dyn Fn(&BigInt) -> bool) -> Option<BigInt> {
    if !fits(&lo) {
        return None;
    }
    let (mut a, mut b) = (lo, hi + 1);
    while &b - &a > BigInt::one() {
        let m: BigInt = (&a + &b) / 2;
        if fits(&m) {
            a = m
        } else {
            b = m
        }
    }
    Some(a)
}

/// For every type, function and small k: the largest arguments whose value fits, and their neighbours.
fn comb_edges(thorough: bool) -> Vec<CombCase> {
    let mut v = vec![];
    for ty in 2..12u8 {
        let (_, hi) = range(ty);
        let mut push = |f: u8, n: &BigInt, k: &BigInt| {
            for dn in -2..=1i32 {
                v.push(CombCase { ty, f, n: (n + dn).to_string(), k: k.to_string() });
            }
        };
        for kk in 0..140u32 {
            let k = BigInt::from(kk);
            if kk >= 1 {
                if let Some(n) = last(k.clone(), hi.clone(), &|n| comb_ref(n, &k, &hi).is_some()) {
                    push(0, &n, &k);
                    // the symmetric choice
                    for d in -2..=1i32 {
                        let n = &n + d;
                        push(0, &n, &(&n - &k));
                    }
                }
                if let Some(n) = last(BigInt::one(), hi.clone(), &|n| comb_ref(&(n + &k - 1), &k, &hi).is_some()) {
                    push(1, &n, &k);
                    // many draws from few kinds: C(n+k-1, k) = C(n+k-1, n-1)
                    push(1, &(&k + 1), &n);
                }
                if let Some(n) = last(k.clone(), hi.clone(), &|n| perm_ref(n, &k, &hi).is_some()) {
                    push(2, &n, &k);
                }
            }
            // Stirling: for this k the largest n, and for this difference the largest k
            if let Some(n) = last(k.clone(), &k + 130, &|n| stirling_ref(n, &k, &hi).is_some()) {
                push(3, &n, &k);
            }
            if (1..60).contains(&kk) {
                let top = BigInt::from(if thorough { STIRLING_K } else { 3000 });
                if let Some(m) = last(BigInt::from(2), top, &|m| stirling_ref(&(m + &k), m, &hi).is_some()) {
                    push(3, &(&m + &k), &m);
                }
            }
        }
    }
    v
}

/// Numbers of the type: small, close to the ends, around powers of two, log-uniform, negative.
fn number(ty: u8) -> BoxedStrategy<BigInt> {
    let (lo, hi) = range(ty);
    let bits = hi.bits() as u32;
    let (l2, h2, h3) = (lo.clone(), hi.clone(), hi.clone());
    prop_oneof![
        8 => (0u32..40).prop_map(BigInt::from),
        4 => (0u32..200).prop_map(BigInt::from),
        2 => (0u32..5).prop_map(move |d| &h2 - d),
        2 => (0..bits, -2i32..=2).prop_map(|(b, d)| BigInt::from(2).pow(b) + d),
        4 => (any::<u128>(), 0..bits).prop_map(move |(r, s)| (BigInt::from(r) >> (128 - bits) as usize >> s as usize).min(h3.clone())),
        1 => (1u32..300).prop_map(|d| -BigInt::from(d)),
        1 => (0u32..3).prop_map(move |d| &l2 + d),
    ]
    .prop_map(move |v| v.max(lo.clone()).min(hi.clone()))
    .boxed()
}

fn comb_gen() -> BoxedStrategy<CombCase> {
    (2u8..12, 0u8..4)
        .prop_flat_map(|(ty, f)| {
            let (lo, hi) = range(ty);
            (number(ty), number(ty), 0u8..8).prop_map(move |(a, b, how)| {
                let (n, k) = match how {
                    // few from many, all but few from many, or unrelated
                    0..=2 => (a.clone().max(b.clone()), a.min(b) % 40),
                    3..=5 => {
                        let n = a.clone().max(b.clone());
                        let k = &n - a.min(b) % 40;
                        (n, k)
                    }
                    _ => (a, b),
                };
                CombCase { ty, f, n: n.max(lo.clone()).min(hi.clone()).to_string(), k: k.max(lo.clone()).min(hi.clone()).to_string() }
            })
        })
        .boxed()
}

pub fn c20() -> Property {
    Property {
        id: "C20",
        subs: vec![
            sub_enum("8-bit", "all pairs of i8 and of u8, four functions; non-trivial: the value fits the type", comb_8bit, comb_check),
            sub_enum("edges", "for ten wider types and every k below 140: the largest arguments whose value fits, and their neighbours; non-trivial: the value fits", comb_edges, comb_check),
            sub("generated", "ten wider types: small, huge, boundary, related and negative arguments; non-trivial: the value fits the type", 80_000, 1_500_000, |_| comb_gen(), comb_check),
        ],
        assumptions: vec!["Stirling numbers with k up to 20000 (their cost grows with k)", "values that do not fit the type are not judged"],
    }
}

// ------------------------------------------------------------------------------------------ C21
#[derive(Clone, Debug, Serialize, Deserialize)]
struct FacCase {
    ty: u8,
    f: u8,
    n: String,
    k: String,
}
fn fac_ref(n: &BigInt, k: &BigInt, max: &BigInt) -> Option<BigInt> {
    if n.is_negative() {
        return Some(BigInt::zero());
    }
    let mut r = BigInt::one();
    let mut t = n.clone();
    while t.is_positive() {
        r *= &t;
        t -= k;
        if r > *max {
            return None;
        }
    }
    Some(r)
}
fn call_fac<T: Factorial + FromStr + Debug + ToString + Copy>(f: u8, n: &str, k: &str) -> Result<Result<String, String>, String> {
    let p = |s: &str| T::from_str(s).map_err(|_| format!("{s} does not fit"));
    let (n, k) = (p(n)?, p(k)?);
    Ok(call(|| match f % 3 {
        0 => n.factorial(),
        1 => n.factorial2(),
        _ => n.factorialk(k),
    })
    .map(|v| v.to_string()))
}
fn fac_check(c: &FacCase, cx: &mut Cx) -> R {
    let (lo, hi) = range(c.ty);
    let n = BigInt::from_str(&c.n).unwrap();
    let k = match c.f % 3 {
        0 => BigInt::one(),
        1 => BigInt::from(2),
        _ => BigInt::from_str(&c.k).unwrap(),
    };
    if n < lo || n > hi || k < lo || k > hi {
        return Ok(());
    }
    let what = format!("{}: {n}.{}{}", TYPES[c.ty as usize % 12], FACS[c.f as usize % 3], if c.f % 3 == 2 { format!("({k})") } else { "()".into() });
    if !k.is_positive() {
        cx.nt(true);
        cx.label("step rejected");
        let g = dispatch!(c.ty, call_fac(c.f, &c.n, &k.to_string()))?;
        ensure!(g.is_err(), "{what} was accepted and gave {g:?}");
        return Ok(());
    }
    let Some(w) = fac_ref(&n, &k, &hi) else {
        cx.label("does not fit");
        return Ok(());
    };
    let g = dispatch!(c.ty, call_fac(c.f, &c.n, &k.to_string()))?.map_err(|e| format!("{what} should be {w}: panicked with {e}"))?;
    ensure!(g == w.to_string(), "{what} is {g}, should be {w}");
    cx.label(FACS[c.f as usize % 3]);
    cx.label(if n.is_negative() { "negative" } else if &w * 8 > hi { "near the maximum" } else if k > n { "step above n" } else { "inside" });
    cx.nt(true);
    Ok(())
}
/// Every argument of the (double) factorial, 8-bit pairs, and the largest fitting n for every step below 400.
fn fac_enum(_: bool) -> Vec<FacCase> {
    let mut v = vec![];
    for ty in 0..12u8 {
        let (lo, hi) = range(ty);
        for f in 0..2u8 {
            for n in -130..70i32 {
                v.push(FacCase { ty, f, n: n.to_string(), k: "1".into() });
            }
            v.push(FacCase { ty, f, n: lo.to_string(), k: "1".into() });
        }
        if ty < 2 {
            for n in -128..256 {
                for k in -128..256 {
                    v.push(FacCase { ty, f: 2, n: n.to_string(), k: k.to_string() });
                }
            }
            continue;
        }
        for k in 1..400u32 {
            let k = BigInt::from(k);
            // the largest product for every residue
            let n = last(BigInt::zero(), hi.clone(), &|n| fac_ref(n, &k, &hi).is_some());
            if let Some(n) = n {
                for d in -3..=3i32 {
                    v.push(FacCase { ty, f: 2, n: (&n + d).to_string(), k: k.to_string() });
                    v.push(FacCase { ty, f: 2, n: (&n - &k + d).to_string(), k: k.to_string() });
                }
            }
        }
    }
    v
}
fn fac_gen() -> BoxedStrategy<FacCase> {
    (2u8..12)
        .prop_flat_map(|ty| (number(ty), number(ty), 0u8..6, 0u32..4).prop_map(move |(a, b, how, m)| {
            let (lo, hi) = range(ty);
            let (n, k) = match how {
                0 | 1 => (a, b),
                2 => (a.clone().max(b.clone()), a.min(b)),
                3 => (a.clone().min(b.clone()), a.max(b)),
                // a few factors only: n about m steps
                4 => (&b * m + a % 50, b),
                _ => (a.clone(), &a / (m + 1) + b % 5),
            };
            FacCase { ty, f: 2, n: n.max(lo.clone()).min(hi.clone()).to_string(), k: k.max(lo).min(hi).to_string() }
        }))
        .boxed()
}

pub fn c21() -> Property {
    Property {
        id: "C21",
        subs: vec![
            sub_enum("enumerated", "twelve types: every n of the factorial and double factorial, all 8-bit pairs, for every step below 400 the largest fitting n and its neighbours; non-trivial: the product fits, or the step is rejected", fac_enum, fac_check),
            sub("generated", "n and step over the whole range of ten types; non-trivial: the product fits, or the step is rejected", 80_000, 1_500_000, |_| fac_gen(), fac_check),
        ],
        assumptions: vec!["products that do not fit the type are not judged"],
    }
}
