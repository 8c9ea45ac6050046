//! C23 (memory safety) and C24 (default build vs std build): calls as data, run in probe processes.
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use crate::ops::*;
use crate::p_sos::sec_strategy;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

/// Which probe answers.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Kind {
    Asan,
    Valgrind,
    Default,
}

struct Probe {
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
}
thread_local! { static PROBES: RefCell<HashMap<Kind, Probe>> = RefCell::new(HashMap::new()); }

fn path(var: &str, default: &str) -> String {
    std::env::var(var).unwrap_or_else(|_| default.to_string())
}

fn spawn(kind: Kind) -> Probe {
    let asan = path("VERIF_ASAN", "/verif/target/asan/x86_64-unknown-linux-gnu/wrapping/probe");
    let plain = path("VERIF_PROBE", "/verif/target/probe/release/probe");
    let mut c = match kind {
        Kind::Asan => {
            let mut c = Command::new(asan);
            c.env("ASAN_OPTIONS", "detect_leaks=0:exitcode=99:allocator_may_return_null=1:symbolize=0:max_allocation_size_mb=4096");
            c
        }
        Kind::Default => Command::new(plain),
        Kind::Valgrind => {
            let mut c = Command::new("valgrind");
            c.args(["-q", "--error-exitcode=97", "--exit-on-first-error=yes", "--leak-check=no"]).arg(plain);
            c
        }
    };
    let mut child = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).env("RUST_BACKTRACE", "0").spawn().unwrap_or_else(|e| {
        eprintln!("cannot start the {kind:?} probe: {e}");
        std::process::exit(2)
    });
    let stdin = child.stdin.take().unwrap();
    let stdout = BufReader::new(child.stdout.take().unwrap());
    Probe { child, stdin, stdout }
}

#[derive(Deserialize, Debug)]
struct Reply {
    ok: Option<Out>,
    panic: Option<String>,
    #[serde(default)]
    absent: bool,
}

/// Ok(replies), or Err(what happened) when the probe died.
fn ask(kind: Kind, calls: &[Call]) -> Result<Vec<Reply>, String> {
    PROBES.with(|m| {
        let mut m = m.borrow_mut();
        let p = m.entry(kind).or_insert_with(|| spawn(kind));
        let line = serde_json::to_string(calls).unwrap();
        let mut ans = String::new();
        let sent = writeln!(p.stdin, "{line}").and_then(|_| p.stdin.flush()).is_ok();
        if sent && p.stdout.read_line(&mut ans).is_ok() && ans.ends_with('\n') {
            return Ok(serde_json::from_str(&ans).expect("probe reply"));
        }
        let mut p = m.remove(&kind).unwrap();
        drop(p.stdin);
        let mut err = String::new();
        let _ = p.child.stderr.take().unwrap().read_to_string(&mut err);
        let st = p.child.wait();
        use std::os::unix::process::ExitStatusExt;
        if st.as_ref().is_ok_and(|s| s.signal() == Some(9)) {
            eprintln!("the {kind:?} probe was killed from outside");
            std::process::exit(2);
        }
        let gist: Vec<&str> = err.lines().filter(|l| l.contains("ERROR") || l.contains("SUMMARY") || l.contains("READ of") || l.contains("WRITE of") || l.contains("nvalid") || l.contains("ninitialised") || l.contains("panicked") || l.contains("abort") || l.contains("alloc")).take(6).collect();
        Err(format!("the process died ({st:?}): {}", gist.join(" / ")))
    })
}

// ---------------------------------------------------------------------------------------------
// generators

fn xs(v: Vec<f64>) -> Vec<X> {
    v.into_iter().map(X).collect()
}

/// Any float at all.
fn wild() -> BoxedStrategy<X> {
    prop_oneof![
        10 => real(3).prop_map(X),
        1 => prop::sample::select(vec![f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, f64::MAX, f64::MIN_POSITIVE, 1e-320, -1.0, 1.0, 0.0, 0.5, 1e300]).prop_map(X),
    ]
    .boxed()
}
fn finite() -> BoxedStrategy<X> {
    real(2).prop_map(X).boxed()
}
fn wv(max: usize, clean: bool) -> BoxedStrategy<Vec<X>> {
    let n = prop_oneof![6 => 0usize..=12.min(max), 2 => 0..=max];
    n.prop_flat_map(move |n| prop::collection::vec(if clean { finite() } else { wild() }, n)).boxed()
}
fn opt<T: std::fmt::Debug + Clone + 'static>(s: BoxedStrategy<T>) -> BoxedStrategy<Option<T>> {
    prop_oneof![1 => Just(None), 2 => s.prop_map(Some)].boxed()
}
fn count() -> BoxedStrategy<usize> {
    prop_oneof![8 => 0usize..12, 3 => 0usize..80, 1 => prop::sample::select(vec![100usize, 255, 256, 1000, 1001])].boxed()
}
/// Counts at the ends of the range, only where a call has to reject them before doing any work.
fn extreme() -> BoxedStrategy<usize> {
    prop::sample::select(vec![usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX / 3, usize::MAX / 3 + 1, 1 << 63]).boxed()
}
fn croots() -> BoxedStrategy<Vec<(X, X)>> {
    let pair = (-1.2f64..1.2, 0.0f64..1.2).prop_map(|(a, b)| vec![(X(a), X(b)), (X(a), X(-b))]);
    let rl = (-1.2f64..1.2).prop_map(|a| vec![(X(a), X(0.0))]);
    let odd = (wild(), wild()).prop_map(|p| vec![p]);
    prop::collection::vec(prop_oneof![4 => pair, 3 => rl, 1 => odd], 0..5).prop_map(|v| v.concat()).boxed()
}
fn sections_wild() -> BoxedStrategy<Vec<[X; 8]>> {
    let s = prop_oneof![
        4 => sec_strategy(false).prop_map(|s| [X(s.b[0]), X(s.b[1]), X(s.b[2]), X(1.0), X(s.a[0]), X(s.a[1]), X(s.z[0]), X(s.z[1])]),
        1 => prop::collection::vec(wild(), 8).prop_map(|v| <[X; 8]>::try_from(v).unwrap()),
    ];
    prop::collection::vec(s, 0..8).boxed()
}

/// Any call, valid or not; `std_too`: including the functions that need the std feature.
fn wild_op(std_too: bool) -> BoxedStrategy<Op> {
    let sosf = (0u8..5, sections_wild(), wv(70, false), prop_oneof![4 => Just(None), 1 => count().prop_map(Some)])
        .prop_map(|(how, sos, x, z)| Op::SosFilt { how, sos, zlen: z.unwrap_or(x.len()), x });
    let ff = (sections_wild(), wv(120, false)).prop_map(|(sos, x)| Op::FiltFilt { sos, x });
    let zi = sections_wild().prop_map(|sos| Op::SosZi { sos });
    let lzi = prop_oneof![
        2 => (wv(12, false), wv(12, false)).prop_map(|(b, a)| Op::LfilterZi { b, a }),
        3 => (0usize..9).prop_flat_map(|n| (prop::collection::vec(wild(), n), prop::collection::vec(prop_oneof![3 => wild(), 1 => Just(X(0.0))], n))).prop_map(|(b, a)| Op::LfilterZi { b, a }),
    ];
    let scipy = (prop_oneof![3 => 0usize..8, 1 => extreme()], wv(40, false), any::<bool>()).prop_map(|(order, v, fit)| Op::FromScipy { order: if fit { v.len() / 6 } else { order }, v });
    let pad = (any::<bool>(), 0u8..4, opt(prop_oneof![6 => count(), 1 => extreme()].boxed()), prop_oneof![6 => 0usize..8, 1 => extreme()], prop_oneof![8 => 0usize..2, 1 => 2usize..9], 0usize..20, 0usize..20, wv(12, false))
        .prop_map(|(direct, mode, padlen, ntaps, axis, rows, cols, x)| Op::Pad { direct, mode, padlen, ntaps, axis, rows, cols, x });
    // small extents with a pad length around the extent
    let pad2 = (any::<bool>(), 0u8..4, 0usize..2, 1usize..8, 1usize..8, 0usize..3, wv(12, false))
        .prop_map(|(direct, mode, axis, rows, cols, d, x)| {
            let e = if axis == 0 { rows } else { cols };
            Op::Pad { direct, mode, padlen: Some((e + d).saturating_sub(2)), ntaps: 0, axis, rows, cols, x }
        });
    let sg = (any::<bool>(), prop_oneof![3 => 0usize..30, 1 => prop::sample::select(vec![51usize, 101, 100])], prop_oneof![6 => 0usize..10, 1 => extreme()], opt(prop_oneof![6 => 0usize..8, 1 => extreme()].boxed()), opt(wild()), wv(60, false))
        .prop_map(|(filter, window, order, deriv, delta, x)| Op::Savgol { filter, window, order, deriv, delta, x });
    let design = (0u8..4, 0usize..12, prop_oneof![3 => prop::collection::vec((0.01f64..1.1).prop_map(X), 0..4), 1 => wv(4, false)], opt(wild()), opt(wild()), opt((0u8..4).boxed()), opt((0u8..5).boxed()), opt(any::<bool>().boxed()), opt((0u8..3).boxed()), opt(wild()))
        .prop_map(|(api, order, wn, rp, rs, btype, ftype, analog, output, fs)| Op::Design { api, order, wn, rp, rs, btype, ftype, analog, output, fs });
    let proto = (any::<bool>(), 0usize..20, wild()).prop_map(|(cheb2, n, r)| Op::Prototype { cheb2, n, r });
    let xf = (0u8..5, croots(), croots(), wild(), opt(wild()), opt(wild())).prop_map(|(which, z, p, k, wo, bw)| Op::Xform { which, z, p, k, wo, bw });
    let tf = (0usize..12, croots(), croots(), wild()).prop_map(|(order, z, p, k)| Op::Zpk2Tf { order, z, p, k });
    let zs = (0usize..12, croots(), croots(), wild(), opt((0u8..2).boxed()), opt(any::<bool>().boxed())).prop_map(|(order, z, p, k, pairing, analog)| Op::Zpk2Sos { order, z, p, k, pairing, analog });
    let poly = croots().prop_map(|z| Op::Poly { z });
    let st = (0u8..10, prop_oneof![6 => 0usize..80, 1 => extreme()], wv(60, false)).prop_map(|(f, k, x)| Op::Stat { f, k, x });
    let af = (0u8..8, wv(33, false)).prop_map(|(which, x)| Op::AutoFast { which, x });
    let rf = (0u8..6, wv(33, false)).prop_map(|(which, x)| Op::RmsFast { which, x });
    let sq = (wild(), 0u8..3, wv(20, false)).prop_map(|(duty, shape, t)| Op::Square { duty, shape, t });
    let i0 = (any::<bool>(), wv(20, false)).prop_map(|(scaled, x)| Op::I0 { scaled, x });
    let int = (0u8..7, 0u8..10, prop_oneof![8 => -5i64..40, 1 => any::<i64>()], prop_oneof![8 => -5i64..40, 1 => -200i64..200])
        .prop_filter("bounded work", |(f, _, n, k)| {
            // loops proportional to an argument are kept short
            (match f { 2 | 3 => (-300..300).contains(k) && (*f != 3 || n.abs() < 300), 0 | 1 => true, _ => n.abs() < 300 || *f == 6 && *k > 1 << 40 })
                && (*f > 1 || (-300..300).contains(n))
        })
        .prop_map(|(f, ty, n, k)| Op::Int { f, ty, n, k });
    let comp = (prop_oneof![8 => 0usize..12], wv(14, false), 0u8..4).prop_map(|(m, a, fit)| Op::Companion { m: if fit == 0 { a.len() } else if fit == 1 { a.len().saturating_sub(1) } else { m }, a });
    let base = prop_oneof![
        4 => sosf, 2 => ff, 1 => zi, 2 => lzi, 1 => scipy, 2 => pad, 2 => pad2, 2 => sg, 4 => design, 1 => proto, 2 => xf, 1 => tf, 2 => zs, 1 => poly, 3 => st, 1 => af, 1 => rf, 1 => sq, 1 => i0, 2 => int, 2 => comp
    ];
    if !std_too {
        return base.boxed();
    }
    let conv = (0u8..3, 0u8..3, wv(70, false), wv(70, false)).prop_map(|(f, mode, x, y)| Op::Conv { f, mode, x, y });
    let rs = (count(), wv(70, false)).prop_map(|(n, x)| Op::Resample { n, x });
    let bv = (any::<bool>(), 0usize..5, wv(20, false)).prop_map(|(scaled, cols, x)| Op::BesselVec { scaled, cols, x });
    prop_oneof![38 => base, 3 => conv, 2 => rs, 1 => bv].boxed()
}

/// Work that could be disproportionate (nothing in the library bounds it) is left out.
fn affordable(c: &Call) -> bool {
    match &c.op {
        // a negative number as an unsigned one is astronomically large, and these functions count up to it
        Op::Int { ty, n, k, .. } if ty % 2 == 1 && (*n < 0 || *k < 0) => false,
        // factorialk takes (n/k) steps
        Op::Int { f: 6, n, k, .. } => *n < 300 || *k > 1 << 40,
        _ => true,
    }
}

fn wild_calls(std_too: bool, max: usize) -> BoxedStrategy<Vec<Call>> {
    prop::collection::vec((any::<bool>(), wild_op(std_too)).prop_map(|(single, op)| Call { single, op }), 1..=max).boxed()
}

fn name(op: &Op) -> String {
    let s = format!("{op:?}");
    s.split([' ', '{']).next().unwrap_or("?").to_string()
}

// ---------------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Seq {
    calls: Vec<Call>,
}

fn c23(kind: Kind, s: &Seq, cx: &mut Cx) -> R {
    let mut calls: Vec<Call> = s.calls.iter().filter(|c| affordable(c)).cloned().collect();
    if calls.is_empty() {
        return Ok(());
    }
    // afterwards the library still works
    calls.push(Call { single: false, op: Op::Stat { f: 0, k: 0, x: vec![X(1.0), X(2.0), X(6.0)] } });
    let r = ask(kind, &calls)?;
    ensure!(r.len() == calls.len(), "{} replies to {} calls", r.len(), calls.len());
    let last = r.last().unwrap();
    ensure!(last.ok.as_ref().is_some_and(|o| o.vals == [X(3.0)]), "after these calls the mean of 1, 2, 6 is {last:?}");
    for (c, r) in calls.iter().zip(&r).take(calls.len() - 1) {
        if r.absent {
            continue;
        }
        cx.label(format!("{} {}", name(&c.op), if r.panic.is_some() { "rejected" } else { "returned" }));
        cx.nt(true);
    }
    Ok(())
}

pub fn c23p() -> Property {
    Property {
        id: "C23",
        subs: vec![
            sub(
                "asan",
                "sequences of one to four arbitrary calls in a process instrumented with AddressSanitizer, release arithmetic; non-trivial: at least one call reached the library",
                60_000, 2_000_000,
                |_| wild_calls(true, 4).prop_map(|calls| Seq { calls }),
                |s: &Seq, cx: &mut Cx| c23(Kind::Asan, s, cx),
            ),
            sub(
                "memcheck",
                "the same under valgrind (uninitialised reads) in the default build; non-trivial: at least one call reached the library",
                2_400, 60_000,
                |_| wild_calls(false, 3).prop_map(|calls| Seq { calls }),
                |s: &Seq, cx: &mut Cx| c23(Kind::Valgrind, s, cx),
            ),
        ],
        assumptions: vec![
            "counts for which the requested result fits in memory (extreme counts are only passed where the call must reject them)",
            "AddressSanitizer sees accesses outside an allocation, memcheck reads of uninitialised memory; the re-exported Kalman, g-h and Gaussian filter crates are not exercised",
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// C24

fn run_here(c: &Call) -> Result<Option<Out>, String> {
    call(|| run(c))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    call: Call,
}

/// Frequency response of a section cascade at a complex frequency.
fn sos_at(v: &[X], s: crate::p_design::C, analog: bool) -> crate::p_design::C {
    use crate::p_design::c;
    let u = if analog { s } else { s.inv() };
    v.chunks(6)
        .map(|q| {
            let f = |i: usize| c(q[i].0, 0.0);
            if analog {
                (f(0) * u * u + f(1) * u + f(2)) / (f(3) * u * u + f(4) * u + f(5))
            } else {
                (f(0) + f(1) * u + f(2) * u * u) / (f(3) + f(4) * u + f(5) * u * u)
            }
        })
        .product()
}

/// Do two results agree up to rounding of elementary functions?
fn agree(c: &Call, a: &Out, b: &Out, cx: &mut Cx) -> R {
    let eps = if c.single { f32::EPSILON as f64 } else { f64::EPSILON };
    let v = |o: &Out| o.vals.iter().map(|x| x.0).collect::<Vec<f64>>();
    let (x, y) = (v(a), v(b));
    let big = |x: &[f64]| x.iter().filter(|v| v.is_finite()).fold(0.0f64, |m, v| m.max(v.abs()));
    let near = |cx: &mut Cx, p: f64, q: f64, tol: f64| p == q || (p.is_nan() && q.is_nan()) || cx.within((p - q).abs(), tol);
    match a.kind {
        0 => {
            let elementwise = matches!(c.op, Op::I0 { .. });
            let scale = match &c.op {
                // the terms that are summed, which may cancel
                Op::Savgol { filter: true, window, order, deriv, delta, x: input } => {
                    let l1: f64 = sci_rs::signal::filter::savgol_coeffs_dyn::<f64>(*window, *order, *deriv, delta.map(|d| d.0)).iter().map(|w| w.abs()).sum();
                    l1 * big(&input.iter().map(|x| x.0).collect::<Vec<_>>())
                }
                _ => big(&x),
            };
            for (i, (p, q)) in x.iter().zip(&y).enumerate() {
                let tol = if elementwise { 32.0 * eps * p.abs() } else { 1000.0 * eps * scale };
                ensure!(near(cx, *p, *q, tol), "value {i}: {p} with std, {q} without");
            }
        }
        1 => {
            ensure!(near(cx, x[0], y[0], 64.0 * eps.sqrt() * x[0].abs()), "gain {} with std, {} without", x[0], y[0]);
            let nz = a.dims[0];
            for (lo, hi) in [(0, nz), (nz, nz + a.dims[1])] {
                let pick = |v: &[f64]| (lo..hi).map(|i| (v[1 + 2 * i], v[2 + 2 * i])).collect::<Vec<_>>();
                let (p, mut q) = (pick(&x), pick(&y));
                let scale = big(&x[1..]);
                for r in p {
                    let d = |s: &(f64, f64)| (s.0 - r.0).hypot(s.1 - r.1);
                    let Some(best) = (0..q.len()).min_by(|i, j| d(&q[*i]).total_cmp(&d(&q[*j]))) else { continue };
                    let dist = d(&q[best]);
                    ensure!(!dist.is_finite() || cx.within(dist, 16.0 * eps.sqrt() * scale), "root {r:?} with std, nearest without is {:?}", q[best]);
                    q.swap_remove(best);
                }
            }
        }
        2 => {
            let nb = a.dims[0];
            for (lo, hi) in [(0, nb), (nb, x.len())] {
                let scale = big(&x[lo..hi]);
                for i in lo..hi {
                    ensure!(near(cx, x[i], y[i], 16.0 * eps.sqrt() * scale), "coefficient {i}: {} with std, {} without", x[i], y[i]);
                }
            }
        }
        _ => {
            let analog = matches!(&c.op, Op::Design { analog: Some(true), .. } | Op::Zpk2Sos { analog: Some(true), .. });
            let pts: Vec<_> = (0..9)
                .map(|i| {
                    let w = 0.15 + 0.33 * i as f64;
                    if analog { crate::p_design::c(0.3, w) } else { crate::p_design::c((0.1f64).exp() * w.cos(), (0.1f64).exp() * w.sin()) }
                })
                .collect();
            let h: Vec<_> = pts.iter().map(|s| (sos_at(&a.vals, *s, analog), sos_at(&b.vals, *s, analog))).collect();
            let scale = h.iter().map(|p| p.0.norm()).filter(|v| v.is_finite()).fold(0.0, f64::max);
            for ((p, q), s) in h.iter().zip(&pts) {
                let d = (p - q).norm();
                ensure!(!d.is_finite() || cx.within(d, 64.0 * eps.sqrt() * scale), "response of the sections at {s}: {p} with std, {q} without");
            }
        }
    }
    Ok(())
}

/// Numbers whose squares and products overflow or vanish leave the outcome to the rounding of intermediate results.
fn moderate(v: &serde_json::Value) -> bool {
    match v {
        serde_json::Value::Array(a) => a.iter().all(moderate),
        serde_json::Value::Object(o) => o.values().all(moderate),
        serde_json::Value::Number(n) if n.is_f64() => n.as_f64().is_some_and(|v| v == 0.0 || (1e-12..1e12).contains(&v.abs())),
        _ => true,
    }
}

fn c24(p: &Pair, values: bool, cx: &mut Cx) -> R {
    let c = &p.call;
    if !affordable(c) || !moderate(&serde_json::to_value(c).unwrap()) {
        return Ok(());
    }
    let here = run_here(c);
    let there = ask(Kind::Default, std::slice::from_ref(c))?.pop().ok_or("no reply")?;
    match (&here, &there) {
        (Err(m), r) if r.panic.is_none() => Err(format!("{}: rejected with std ({m}), accepted without: {:?}", name(&c.op), r.ok)),
        (Ok(Some(o)), r) if r.panic.is_some() => Err(format!("{}: accepted with std ({:?}), rejected without: {:?}", name(&c.op), o.dims, r.panic)),
        (Ok(Some(a)), Reply { ok: Some(b), .. }) => {
            ensure!(a.dims == b.dims && a.kind == b.kind && a.vals.len() == b.vals.len(), "{}: dimensions {:?} with std, {:?} without", name(&c.op), a.dims, b.dims);
            if values {
                agree(c, a, b, cx).map_err(|e| format!("{} ({}): {e}", name(&c.op), if c.single { "f32" } else { "f64" }))?;
            }
            cx.nt(!a.vals.is_empty());
            cx.label(format!("{} returned", name(&c.op)));
            Ok(())
        }
        (Err(_), _) => {
            cx.nt(true);
            cx.label(format!("{} rejected", name(&c.op)));
            Ok(())
        }
        (a, b) => Err(format!("{}: {a:?} with std, {b:?} without", name(&c.op))),
    }
}

/// Well-formed, well-conditioned calls.
fn valid_op() -> BoxedStrategy<Op> {
    let secs = || prop::collection::vec(sec_strategy(true).prop_map(|s| [X(s.b[0]), X(s.b[1]), X(s.b[2]), X(1.0), X(s.a[0]), X(s.a[1]), X(s.z[0]), X(s.z[1])]), 1..7).boxed();
    let sosf = (0u8..5, secs(), wv(120, true)).prop_map(|(how, sos, x)| Op::SosFilt { how, sos, zlen: x.len(), x });
    let ff = (secs(), signal(len(160), 2)).prop_map(|(sos, x)| Op::FiltFilt { sos, x: xs(x) });
    let zi = secs().prop_map(|sos| Op::SosZi { sos });
    let lzi = (2usize..7).prop_flat_map(|n| (prop::collection::vec(finite(), n), prop::collection::vec((0.01f64..0.3).prop_map(X), n - 1)))
        .prop_flat_map(|(b, a)| (Just(b), Just(a), prop_oneof![2 => Just(1.0), 1 => 0.2f64..5.0, 1 => -5.0f64..-0.2], 0usize..3))
        .prop_map(|(mut b, mut a, a0, lead)| {
            // the same filter times a constant, behind leading zeros of the denominator
            a.iter_mut().for_each(|v| v.0 *= a0);
            a.insert(0, X(a0));
            if lead == 1 { a.insert(0, X(0.0)); b.push(X(0.5)); }
            Op::LfilterZi { b, a }
        });
    let scipy = (1usize..6).prop_flat_map(|n| prop::collection::vec(finite(), 6 * n)).prop_map(|v| Op::FromScipy { order: v.len() / 6, v });
    let pad = (any::<bool>(), 0u8..4, opt((0usize..20).boxed()), 0usize..5, 0usize..2, 1usize..25, 1usize..25, wv(12, true))
        .prop_map(|(direct, mode, padlen, ntaps, axis, rows, cols, x)| Op::Pad { direct, mode, padlen, ntaps, axis, rows, cols, x });
    let sg = (any::<bool>(), 1usize..12, 0usize..5, opt((0usize..6).boxed()), opt(logu(0.1, 10.0).prop_map(X).boxed()), signal(len(80), 2))
        .prop_map(|(filter, h, order, deriv, delta, x)| Op::Savgol { filter, window: (2 * h + 1).max(order + 2) | 1, order, deriv, delta, x: xs(x) });
    let design = (0u8..4, 1usize..7, 0.12f64..0.45, 0.15f64..0.45, 0.3f64..3.0, 15.0f64..60.0, 0u8..4, 0u8..3, any::<bool>(), opt((0u8..3).boxed()), opt(logu(1.0, 1e3).boxed()))
        .prop_map(|(api, order, lo, width, rp, rs, btype, ftype, analog, output, fs)| {
            let fs = if analog { None } else { fs };
            let s = fs.map_or(1.0, |f| f / 2.0);
            let wn = if btype < 2 { vec![X((lo + width / 2.0) * s)] } else { vec![X(lo * s), X((lo + width) * s)] };
            Op::Design { api, order, wn, rp: Some(X(rp)), rs: Some(X(rs)), btype: Some(btype), ftype: Some(ftype), analog: Some(analog), output, fs: fs.map(X) }
        });
    let proto = (any::<bool>(), prop_oneof![4 => 0usize..10, 1 => 10usize..40], 0.02f64..60.0).prop_map(|(cheb2, n, r)| Op::Prototype { cheb2, n, r: X(r) });
    let roots = |lo: f64, hi: f64, ims: f64| {
        let pair = (lo..hi, 0.05f64..ims).prop_map(|(a, b)| vec![(X(a), X(b)), (X(a), X(-b))]);
        let rl = (lo..hi).prop_map(|a| vec![(X(a), X(0.0))]);
        prop::collection::vec(prop_oneof![2 => pair, 1 => rl], 0..3).prop_map(|v| v.concat()).boxed()
    };
    let zp = move |lo: f64, hi: f64, ims: f64| (roots(lo, hi, ims), roots(lo, hi, ims)).prop_map(|(z, p)| if z.len() > p.len() { (p, z) } else { (z, p) }).boxed();
    let xf = (0u8..5, zp(-2.0, -0.1, 2.0), 0.2f64..4.0, opt(logu(0.2, 5.0).prop_map(X).boxed()), opt(logu(0.2, 5.0).prop_map(X).boxed()))
        .prop_map(|(which, (z, p), k, wo, bw)| Op::Xform { which, z, p, k: X(k), wo, bw });
    let tf = (zp(-1.0, 1.0, 1.0), 0.2f64..4.0).prop_map(|((z, p), k)| Op::Zpk2Tf { order: z.len().max(p.len()), z, p, k: X(k) });
    let zs = (zp(-0.9, 0.9, 0.4), 0.2f64..4.0, opt((0u8..2).boxed()), any::<bool>()).prop_map(|((z, p), k, pairing, analog)| Op::Zpk2Sos { order: z.len().max(p.len()), z, p, k: X(k), pairing: if analog { None } else { pairing }, analog: Some(analog) });
    let poly = zp(-1.5, 1.5, 1.5).prop_map(|(_, z)| Op::Poly { z });
    let st = (0u8..10, 0usize..12, signal(len(200), 3)).prop_map(|(f, k, x)| Op::Stat { f, k, x: xs(x) });
    let af = (0u8..8, wv(33, true)).prop_map(|(which, x)| Op::AutoFast { which, x });
    let rf = (0u8..6, wv(33, true)).prop_map(|(which, x)| Op::RmsFast { which, x });
    let sq = (0.0f64..=1.0, 0u8..3, prop::collection::vec((-100.0f64..100.0).prop_map(X), 0..30)).prop_map(|(duty, shape, t)| Op::Square { duty: X(duty), shape, t });
    let i0 = (any::<bool>(), prop::collection::vec(prop_oneof![-80.0f64..80.0, -9.0f64..9.0, real(12).prop_map(|v| if v.abs() < 80.0 { v } else { v.signum() * 8.0 })].prop_map(X), 1..20)).prop_map(|(scaled, x)| Op::I0 { scaled, x });
    let int = (0u8..7, 0u8..10, -5i64..40, -5i64..40).prop_map(|(f, ty, n, k)| Op::Int { f, ty, n, k });
    let comp = prop::collection::vec(finite(), 2..10).prop_map(|a| Op::Companion { m: a.len(), a });
    prop_oneof![
        3 => sosf, 2 => ff, 1 => zi, 1 => lzi, 1 => scipy, 2 => pad, 2 => sg, 6 => design, 1 => proto, 3 => xf, 1 => tf, 2 => zs, 1 => poly, 4 => st, 1 => af, 1 => rf, 1 => sq, 2 => i0, 2 => int, 1 => comp
    ]
    .boxed()
}

/// Every valid design, however ill conditioned.
fn any_design() -> BoxedStrategy<Op> {
    (0u8..4, 1usize..13, logu(1e-3, 0.9), logu(1e-3, 1.0), 0.05f64..4.0, 1.0f64..80.0, 0u8..4, 0u8..3, any::<bool>(), prop_oneof![1 => Just(0u8), 1 => Just(1), 3 => Just(2)])
        .prop_map(|(api, order, lo, width, rp, rs, btype, ftype, analog, output)| {
            let wn = if btype < 2 { vec![X(lo)] } else { vec![X(lo), X(lo + (0.98 - lo) * width)] };
            Op::Design { api, order, wn, rp: Some(X(rp)), rs: Some(X(rs)), btype: Some(btype), ftype: Some(ftype), analog: Some(analog), output: Some(output), fs: None }
        })
        .boxed()
}

/// The checks of the other properties, in the default configuration of the library.
const ELSEWHERE: [&str; 20] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22"];

fn default_build() -> std::path::PathBuf {
    path("VERIF_NOSTD", "/verif/target/nostd/release/check").into()
}
/// A case that fails in the default build is a difference if it passes in this one.
fn only_there(id: &str, f: &serde_json::Value) -> bool {
    if f["case"]["seed"].is_u64() {
        return true;
    }
    crate::find(id).is_some_and(|p| matches!(crate::replay_value(&p, f), Ok(Outcome::Pass { .. } | Outcome::Known(..))))
}
fn elsewhere() -> Sub {
    let run = |cfg: &RunCfg| -> SubReport {
        let mut stats = Stats::default();
        let mut failure = None;
        let env = [("VERIF_SCALE", format!("{}", cfg.scale * if cfg.thorough { 0.1 } else { 0.025 })), ("VERIF_LIMIT_S", "25".to_string()), ("VERIF_HASHES", "1".to_string())];
        for id in ELSEWHERE {
            if !cfg.thorough && started().elapsed().as_secs() > quick_limit() {
                break;
            }
            let Some(r) = crate::collect(&default_build(), &env, id) else {
                eprintln!("no result from the checks of {id} in the default build");
                std::process::exit(2);
            };
            let n = r["evaluations"].as_u64().unwrap_or(0);
            stats.evaluations += n;
            let own: Vec<u64> = r["hashes"].as_array().map(|a| a.iter().filter_map(|v| v.as_u64()).collect()).unwrap_or_default();
            stats.nontrivial += own.len() as u64;
            stats.distinct.extend(own.iter().map(|h| h ^ hash_of(&id)));
            stats.labels.insert(format!("cases of {id}"), n);
            if let Some(s) = r["samples"].get(0) {
                stats.samples.push(serde_json::json!({"property": id, "sample": s}));
            }
            if !r["failure"].is_null() {
                let f = &r["failure"];
                if only_there(id, f) {
                    failure = Some(Failure {
                        sub: "default-build".into(),
                        case: serde_json::json!({"id": id, "sub": f["sub"], "case": f["case"]}),
                        message: format!("in the default build, but not with std, {id} fails: {}", f["message"].as_str().unwrap_or("")),
                    });
                    break;
                }
                stats.labels.insert(format!("{id} fails in both builds"), 1);
            }
        }
        SubReport { stats, failure }
    };
    let replay = |v: &serde_json::Value| -> Result<Outcome, String> {
        let id = v["id"].as_str().ok_or("no id")?;
        let f = std::env::temp_dir().join(format!("verif-default-{}.json", std::process::id()));
        crate::write_json(&f, &serde_json::json!({"property": id, "sub": v["sub"], "case": v["case"]}));
        let st = crate::replay_status(&default_build(), &f);
        let _ = std::fs::remove_file(&f);
        Ok(if !st.success() && st.code() != Some(2) && only_there(id, v) {
            Outcome::Fail(format!("in the default build, but not with std, this case of {id} fails"))
        } else {
            Outcome::Pass { nontrivial: true, labels: vec![], ratio: 0.0 }
        })
    };
    Sub {
        name: "default-build",
        rule: "the checks of C01 to C12 and C15 to C22 at reduced scale against the default build; a case that fails there and passes with std is a violation; non-trivial as there",
        exhaustive: false,
        run: Box::new(run),
        replay: Box::new(replay),
    }
}

pub fn c24p() -> Property {
    Property {
        id: "C24",
        subs: vec![
            sub(
                "values",
                "well-formed calls, both precisions, compared between the std and the default build; non-trivial: the call returned at least one number, or was rejected",
                60_000, 1_500_000,
                |_| (any::<bool>(), valid_op()).prop_map(|(single, op)| Pair { call: Call { single, op } }),
                |p: &Pair, cx: &mut Cx| c24(p, true, cx),
            ),
            sub(
                "verdicts",
                "arbitrary calls: both builds accept or reject them, with the same dimensions; non-trivial: at least one number, or a rejected call",
                40_000, 1_000_000,
                |_| (any::<bool>(), wild_op(false)).prop_map(|(single, op)| Pair { call: Call { single, op } }),
                |p: &Pair, cx: &mut Cx| c24(p, false, cx),
            ),
            sub(
                "designs",
                "valid designs of every family, band, domain and output over three decades of band edges: both builds return a filter of the same size; non-trivial: a filter was returned",
                40_000, 1_000_000,
                |_| (any::<bool>(), any_design()).prop_map(|(single, op)| Pair { call: Call { single, op } }),
                |p: &Pair, cx: &mut Cx| {
                    c24(p, false, cx)?;
                    ensure!(cx.labels.iter().all(|l| l != "Design rejected"), "a valid design is rejected: {:?}", p.call);
                    Ok(())
                },
            ),
            elsewhere(),
        ],
        assumptions: vec![
            "designs and conversions agree up to 64 square roots of the rounding unit (the two builds use different elementary functions, and roots of quadratics amplify their rounding), everything else up to 1000 units",
            "the crate does not build without the alloc feature, so only the default and the std configuration exist",
        ],
    }
}
