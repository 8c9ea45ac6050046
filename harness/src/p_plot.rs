//! C25: debug plotting. The caller runs in a child process whose search path holds only a stand-in interpreter:
//! this very binary under the name `python`, which either misbehaves or runs the script it is given with the
//! real Python and stub plotting modules that record what is plotted.
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const PYTHON: &str = "/usr/bin/python3";
const LIMIT: Duration = Duration::from_secs(30);

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Mode {
    /// run the script
    Run,
    /// read everything, linger, fail
    Fail,
    /// print to standard output and error, then as Fail
    Noise,
    /// read half a pipe buffer, die of a signal
    Die,
    /// exit at once without reading
    Early,
    /// close the input, exit later
    Close,
    /// read slowly
    Slow,
    /// read everything, end after this many milliseconds
    Linger(u64),
    /// no such program
    Missing,
    /// a file that cannot be executed
    NotExecutable,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    mode: Mode,
    series: Vec<Vec<f32>>,
    /// each series is repeated this often
    times: usize,
}
impl Case {
    fn data(&self) -> Vec<Vec<f32>> {
        self.series.iter().map(|s| s.iter().copied().cycle().take(s.len() * self.times).collect()).collect()
    }
}

const STUB: &str = r#"
import sys, types, json, os
out = []
class Arr(list):
    def max(self):
        if not len(self): raise ValueError("zero-size array")
        return max(self)
    def min(self): return min(self)
    def __truediv__(self, d):
        r = Arr()
        for v in self:
            try: r.append(v / d)
            except ZeroDivisionError: r.append(float("nan") if v == 0 or v != v else float("inf"))
        return r
def correlate(a, b, mode="full", method="auto"):
    a, b = list(a), list(b)
    if not a or not b: raise ValueError("empty")
    n, m = len(a), len(b)
    assert mode == "full"
    if n > 600: return Arr([1.0] * (n + m - 1))
    r = Arr()
    for k in range(-(m - 1), n):
        s = 0.0
        for j in range(m):
            if 0 <= j + k < n: s += a[j + k] * b[j]
        r.append(s)
    return r
class Any:
    def __getattr__(self, n): return lambda *a, **k: Any()
    def __getitem__(self, k): return k
class Cell(tuple): pass
class GridSpec(Any):
    def __init__(self, nrows=1, ncols=1, *a, **k): self.n = (nrows, ncols)
    def __getitem__(self, k):
        if not isinstance(k, tuple): k = divmod(k, self.n[1])
        if len(k) != 2: raise IndexError("too many indices")
        if not all(isinstance(i, int) for i in k): return None
        k = tuple(i + n if i < 0 else i for i, n in zip(k, self.n))
        if not all(0 <= i < n for i, n in zip(k, self.n)): raise IndexError("index is out of bounds for the grid")
        return Cell(k)
def place(a):
    if len(a) == 1 and isinstance(a[0], Cell): return a[0]
    if len(a) == 1 and isinstance(a[0], int) and 100 <= a[0] <= 999: a = tuple(map(int, str(a[0])))
    if len(a) == 3 and all(isinstance(i, int) for i in a):
        if not 1 <= a[2] <= a[0] * a[1]: raise ValueError("num must be within the grid")
        return divmod(a[2] - 1, a[1])
    return None
class Axes(Any):
    def __init__(self, a): self.at = place(a)
    def plot(self, *a, **k): out.append([self.at, [[float(v) for v in x] for x in a if not isinstance(x, str)], k.get("label")]); return [Any()]
class Fig(Any):
    def add_subplot(self, *a, **k): return Axes(a)
    def add_gridspec(self, *a, **k): return GridSpec(*a, **k)
plt = types.ModuleType("matplotlib.pyplot")
plt.figure = lambda *a, **k: Fig()
current = [Axes(())]
def subplot(*a, **k):
    current[0] = Axes(a)
    return current[0]
plt.subplot = subplot
plt.gca = lambda: current[0]
plt.plot = lambda *a, **k: current[0].plot(*a, **k)
shown = []
plt.show = lambda *a, **k: shown.append(1)
for n in ("legend", "xlabel", "title", "tight_layout", "close", "suptitle"): setattr(plt, n, lambda *a, **k: Any())
grid = types.ModuleType("matplotlib.gridspec")
grid.GridSpec = GridSpec
mpl = types.ModuleType("matplotlib"); mpl.pyplot = plt; mpl.gridspec = grid
sig = types.ModuleType("scipy.signal"); sig.correlate = correlate
sci = types.ModuleType("scipy"); sci.signal = sig
for m in (mpl, plt, grid, sci, sig): sys.modules[m.__name__] = m
src = sys.stdin.read()
err = None
try: exec(compile(src, "<stdin>", "exec"), {"__name__": "__main__"})
except BaseException as e: err = repr(e)
with open(os.environ["VERIF_STANDIN_OUT"], "w") as f: json.dump({"err": err, "plots": [[p[0], [[repr(v) for v in x] for x in p[1]], p[2]] for p in out], "shown": len(shown)}, f)
"#;

/// The stand-in interpreter.
pub fn standin() -> i32 {
    let var = |n: &str| std::env::var(n).unwrap_or_default();
    let (mode, dir) = (var("VERIF_STANDIN_MODE"), PathBuf::from(var("VERIF_STANDIN_DIR")));
    let read_all = || {
        let mut v = vec![];
        let _ = std::io::stdin().read_to_end(&mut v);
        let _ = std::fs::write(dir.join("script"), &v);
    };
    let linger = |code: i32| {
        std::thread::sleep(Duration::from_millis(20));
        let _ = std::fs::write(dir.join("ended"), b"1");
        code
    };
    match mode.as_str() {
        "Run" => {
            let s = Command::new(PYTHON).args(["-S", "-E"]).arg(dir.join("stub.py")).env("VERIF_STANDIN_OUT", dir.join("plots.json")).status();
            linger(s.ok().and_then(|s| s.code()).unwrap_or(1))
        }
        "Fail" => {
            read_all();
            linger(3)
        }
        "Noise" => {
            let _ = std::io::stdout().write_all(&[b'#'; 100_000]);
            let _ = std::io::stderr().write_all(&[b'#'; 100_000]);
            read_all();
            linger(0)
        }
        "Die" => {
            let mut b = [0u8; 32768];
            let _ = std::io::stdin().read(&mut b);
            std::process::abort()
        }
        "Close" => {
            use std::os::fd::FromRawFd;
            // SAFETY: nothing else in this process uses standard input
            drop(unsafe { std::fs::File::from_raw_fd(0) });
            std::thread::sleep(Duration::from_millis(20));
            0
        }
        m if m.starts_with("Linger") => {
            read_all();
            let ms = m.trim_matches(|c: char| !c.is_ascii_digit()).parse().unwrap_or(0);
            std::thread::sleep(Duration::from_millis(ms));
            linger(0)
        }
        "Slow" => {
            let mut all = vec![];
            let mut b = [0u8; 4096];
            let mut i = std::io::stdin();
            while let Ok(n) = i.read(&mut b) {
                if n == 0 {
                    break;
                }
                all.extend_from_slice(&b[..n]);
                if all.len() < 200_000 {
                    std::thread::sleep(Duration::from_micros(300));
                }
            }
            let _ = std::fs::write(dir.join("script"), &all);
            linger(0)
        }
        _ => 0,
    }
}

/// The calling process: plots, then reports whether the interpreter had ended by then.
pub fn caller(data: &Path, dir: &Path) -> i32 {
    let series: Vec<Vec<f32>> = serde_json::from_str(&std::fs::read_to_string(data).unwrap()).unwrap();
    sci_rs::plot::python_plot(series.iter().map(|s| s.as_slice()).collect());
    let ended = dir.join("ended").exists();
    print!("RETURNED {ended}");
    let _ = std::io::stdout().flush();
    0
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn scratch() -> Scratch {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let d = std::env::temp_dir().join(format!("verif-plot-{}-{n}", std::process::id()));
    std::fs::create_dir_all(d.join("bin")).unwrap();
    Scratch(d)
}

fn infra(e: impl std::fmt::Display) -> ! {
    eprintln!("plot harness: {e}");
    std::process::exit(2)
}

fn check(c: &Case, cx: &mut Cx) -> R {
    let data = c.data();
    let s = scratch();
    let d = &s.0;
    let me = std::env::current_exe().unwrap_or_else(|e| infra(e));
    let python = d.join("bin/python");
    match c.mode {
        Mode::Missing => {}
        Mode::NotExecutable => std::fs::write(&python, "").unwrap_or_else(|e| infra(e)),
        _ => std::os::unix::fs::symlink(&me, &python).unwrap_or_else(|e| infra(e)),
    }
    std::fs::write(d.join("stub.py"), STUB).unwrap_or_else(|e| infra(e));
    std::fs::write(d.join("data.json"), serde_json::to_string(&data).unwrap()).unwrap_or_else(|e| infra(e));
    let out = std::fs::File::create(d.join("stdout")).unwrap_or_else(|e| infra(e));
    let err = std::fs::File::create(d.join("stderr")).unwrap_or_else(|e| infra(e));
    let mut child = Command::new(&me)
        .arg("plot-caller")
        .arg(d.join("data.json"))
        .arg(d)
        .env("PATH", d.join("bin"))
        .env("VERIF_STANDIN_MODE", format!("{:?}", c.mode))
        .env("VERIF_STANDIN_DIR", d)
        .stdin(Stdio::null())
        .stdout(out)
        .stderr(err)
        .spawn()
        .unwrap_or_else(|e| infra(e));
    let t = Instant::now();
    let st = loop {
        match child.try_wait() {
            Ok(Some(st)) => break st,
            Ok(None) if t.elapsed() > LIMIT => {
                let _ = child.kill();
                let _ = child.wait();
                return Err(format!("plotting did not return within {} s ({:?}, {} series)", LIMIT.as_secs(), c.mode, data.len()));
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(if t.elapsed().as_millis() < 200 { 1 } else { 10 })),
            Err(e) => infra(e),
        }
    };
    let stdout = std::fs::read(d.join("stdout")).unwrap_or_default();
    let stderr = String::from_utf8_lossy(&std::fs::read(d.join("stderr")).unwrap_or_default()).into_owned();
    ensure!(st.code() == Some(0), "the calling process ended with {st} ({:?}): {}", c.mode, &stderr[..stderr.len().min(300)]);
    let said = String::from_utf8_lossy(&stdout).into_owned();
    ensure!(said.starts_with("RETURNED ") && said.len() < 20, "{} bytes from the interpreter appeared on standard output ({:?}): {:?}", said.len(), c.mode, &said[..said.len().min(80)]);
    ensure!(!stderr.contains("####"), "output of the interpreter appeared on standard error");
    let n: usize = data.iter().map(|s| s.len()).sum();
    cx.label(format!("{}{}", if let Mode::Linger(_) = c.mode { "Linger".into() } else { format!("{:?}", c.mode) }, if n > 20_000 { ", beyond the pipe buffer" } else { "" }));
    let reads = matches!(c.mode, Mode::Run | Mode::Fail | Mode::Noise | Mode::Slow | Mode::Linger(_));
    if reads {
        ensure!(said == "RETURNED true", "the call returned before the interpreter had ended ({:?})", c.mode);
    }
    if matches!(c.mode, Mode::Fail | Mode::Noise | Mode::Slow | Mode::Linger(_)) {
        // the whole script arrives, once
        let script = std::fs::read_to_string(d.join("script")).unwrap_or_default();
        let size: usize = script.len();
        ensure!(size > n, "the script has {size} bytes for {n} values");
    }
    if c.mode == Mode::Run {
        let t = std::fs::read_to_string(d.join("plots.json")).map_err(|e| format!("the script left no record: {e}"))?;
        let v: serde_json::Value = serde_json::from_str(&t).unwrap_or_else(|e| infra(e));
        let plots = v["plots"].as_array().unwrap();
        // a series without samples has no autocorrelation, the script stops there
        let upto = data.iter().position(|s| s.is_empty()).unwrap_or(data.len());
        if upto == data.len() {
            ensure!(v["err"].is_null(), "the script fails: {}", v["err"]);
            ensure!(v["shown"] == 1, "the figure is shown {} times", v["shown"]);
            ensure!(plots.len() == 2 * data.len(), "{} curves for {} series", plots.len(), data.len());
        } else {
            ensure!(plots.len() >= 2 * upto, "{} curves before the empty series {upto}", plots.len());
        }
        let nums = |v: &serde_json::Value| -> Vec<f64> { v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().parse().unwrap_or(f64::NAN)).collect() };
        // each series beside its autocorrelation, nothing on top of anything else
        let at = |k: usize| -> Option<(i64, i64)> { Some((plots[k][0].get(0)?.as_i64()?, plots[k][0].get(1)?.as_i64()?)) };
        let mut taken = std::collections::BTreeSet::new();
        for i in 0..upto {
            if let (Some(s), Some(r)) = (at(2 * i), at(2 * i + 1)) {
                ensure!(s.0 == r.0 && r.1 == s.1 + 1, "series {i} is drawn at {s:?}, its autocorrelation at {r:?}");
                ensure!(taken.insert(s) && taken.insert(r), "series {i} is drawn over another one");
            }
        }
        for (i, s) in data.iter().take(upto).enumerate() {
            let curves = plots[2 * i][1].as_array().unwrap();
            ensure!(curves.len() == 1, "series {i} is plotted against something else");
            let got = nums(&curves[0]);
            ensure!(got.len() == s.len(), "series {i}: {} of {} samples", got.len(), s.len());
            for (j, (g, w)) in got.iter().zip(s).enumerate() {
                ensure!((*g as f32).to_bits() == w.to_bits(), "series {i}, sample {j} is {g}, given {w}");
            }
            let ac = plots[2 * i + 1][1].as_array().unwrap();
            ensure!(ac.len() == 2, "the autocorrelation of series {i} is plotted without lags");
            let (lags, r) = (nums(&ac[0]), nums(&ac[1]));
            let n = s.len() as i64;
            ensure!(lags == (1 - n..n).map(|k| k as f64).collect::<Vec<_>>(), "lags of series {i} are {lags:?}");
            ensure!(r.len() == lags.len(), "series {i}: {} autocorrelations for {} lags", r.len(), lags.len());
            let x: Vec<f64> = got;
            let acf = |k: i64| -> f64 { (0..n).filter(|j| (0..n).contains(&(j + k))).map(|j| x[j as usize] * x[(j + k) as usize]).sum() };
            let e = acf(0);
            if e > 0.0 && e.is_finite() && n <= 600 {
                for (k, g) in (1 - n..n).zip(&r) {
                    ensure!(cx.within((g - acf(k) / e).abs(), 1e-9), "autocorrelation of series {i} at lag {k} is {g}");
                }
            }
        }
        cx.nt(upto > 0);
    } else {
        cx.nt(n > 0);
    }
    Ok(())
}

fn value() -> BoxedStrategy<f32> {
    prop_oneof![
        4 => real(3).prop_map(|v| v as f32),
        2 => any::<u32>().prop_map(|b| { let f = f32::from_bits(b); if f.is_finite() { f } else { 1.5 } }),
        1 => prop::sample::select(vec![0.0f32, -0.0, 1.0, -1.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, -1e-45, 16777216.0, 1e16, 1e7, 0.1]),
    ]
    .boxed()
}

fn series(max: usize) -> BoxedStrategy<Vec<Vec<f32>>> {
    prop::collection::vec(prop_oneof![8 => prop::collection::vec(value(), 1..=max), 1 => Just(vec![])], 0..5).boxed()
}

pub fn c25() -> Property {
    Property {
        id: "C25",
        subs: vec![
            sub(
                "content",
                "the script is run by Python with recording stand-ins for the plotting modules; non-trivial: at least one non-empty series was plotted",
                600, 30_000,
                |_| series(30).prop_map(|series| Case { mode: Mode::Run, series, times: 1 }),
                check,
            ),
            sub(
                "many",
                "up to 60 series; non-trivial: as above",
                60, 1_000,
                |_| prop::collection::vec(prop::collection::vec(value(), 1..=6), 5..=60).prop_map(|series| Case { mode: Mode::Run, series, times: 1 }),
                check,
            ),
            sub(
                "size",
                "long series, up to far beyond the pipe buffer (autocorrelation values only up to 600 samples); non-trivial: as above",
                80, 2_000,
                |_| (prop::collection::vec(prop::collection::vec(value(), 1..=40), 1..4), prop_oneof![2 => 2usize..15, 3 => 15usize..800]).prop_map(|(series, times)| Case { mode: Mode::Run, series, times }),
                check,
            ),
            sub(
                "faults",
                "interpreter failing, noisy, dying, exiting or closing its input unread, slow, missing, not executable, with data below and beyond the pipe buffer; non-trivial: some data",
                1_600, 40_000,
                |_| {
                    let mode = prop::sample::select(vec![Mode::Fail, Mode::Noise, Mode::Die, Mode::Early, Mode::Close, Mode::Slow, Mode::Missing, Mode::NotExecutable]);
                    (mode, series(40), prop_oneof![2 => Just(1usize), 1 => 2usize..2000]).prop_map(|(mode, series, times)| Case { mode, series, times })
                },
                check,
            ),
            sub(
                "patient",
                "an interpreter that takes 0.3 to 12 s to end, as one does that shows a window; non-trivial: some data",
                24, 300,
                |_| (prop_oneof![5 => 300u64..2500, 1 => 2500u64..12000], series(40), prop_oneof![2 => Just(1usize), 1 => 2usize..500]).prop_map(|(ms, series, times)| Case { mode: Mode::Linger(ms), series, times }),
                check,
            ),
        ],
        assumptions: vec!["an interpreter that never ends is outside the property: the call waits for it", "finite values only: Rust prints others in a form Python does not know"],
    }
}
