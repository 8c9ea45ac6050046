//! Engine: runs generated cases of a sub-check on fixed shards, shrinks failures, replays saved
//! cases and records what was actually covered.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

pub const SHARDS: u64 = 8;

/// Result of one case.
#[derive(Debug, Clone)]
pub enum Outcome {
    /// Held; `nontrivial` by the sub-check's rule; labels classify the case.
    Pass { nontrivial: bool, labels: Vec<String>, ratio: f64 },
    /// Does not hold.
    Fail(String),
    /// Does not hold in exactly the way a listed known finding describes.
    Known(&'static str, String),
}

/// Collector a check writes into.
#[derive(Default)]
pub struct Cx {
    pub labels: Vec<String>,
    pub nontrivial: bool,
    pub known: Option<(&'static str, String)>,
    /// Largest error / tolerance seen in this case.
    pub ratio: f64,
}
impl Cx {
    /// Is `err` within `tol`? Records how much of the tolerance was used.
    pub fn within(&mut self, err: f64, tol: f64) -> bool {
        if err == 0.0 {
            return true;
        }
        if !(err <= tol) {
            return false;
        }
        self.ratio = self.ratio.max(err / tol);
        true
    }
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into());
    }
    pub fn nt(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    pub fn known(&mut self, id: &'static str, what: impl Into<String>) {
        if self.known.is_none() {
            self.known = Some((id, what.into()));
        }
    }
}

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{m} at {l}"));
    }));
}

/// Call library code: `Err(message)` when it panics.
pub fn call<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}
/// Call library code that must not panic.
pub fn must<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    call(f).map_err(|m| format!("{what} panicked on valid input: {m}"))
}
/// Call library code that must reject its input.
pub fn rejects<T: Debug>(what: &str, f: impl FnOnce() -> T) -> R {
    match call(f) {
        Ok(v) => {
            let mut s = format!("{v:?}");
            s.truncate(300);
            Err(format!("{what} was accepted, returned {s}"))
        }
        Err(_) => Ok(()),
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub known: BTreeMap<String, (u64, String)>,
    pub ratio: f64,
}
impl Stats {
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.nontrivial += o.nontrivial;
        self.distinct.extend(o.distinct);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
        self.ratio = self.ratio.max(o.ratio);
        for (k, v) in o.known {
            let e = self.known.entry(k).or_insert((0, v.1.clone()));
            e.0 += v.0;
        }
    }
}

pub struct Failure {
    pub sub: String,
    pub case: serde_json::Value,
    pub message: String,
}

pub struct RunCfg {
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
    /// Directory in which each shard records the case it is about to run (crash diagnosis).
    pub trace: Option<std::path::PathBuf>,
}

pub struct SubReport {
    pub stats: Stats,
    pub failure: Option<Failure>,
}

pub struct Sub {
    pub name: &'static str,
    pub rule: &'static str,
    pub exhaustive: bool,
    #[allow(clippy::type_complexity)]
    pub run: Box<dyn Fn(&RunCfg) -> SubReport>,
    #[allow(clippy::type_complexity)]
    pub replay: Box<dyn Fn(&serde_json::Value) -> Result<Outcome, String>>,
}

fn eval<C>(check: &dyn Fn(&C, &mut Cx) -> R, c: &C) -> Outcome {
    let mut cx = Cx::default();
    match catch_unwind(AssertUnwindSafe(|| check(c, &mut cx))) {
        Ok(Ok(())) => match cx.known {
            Some((id, w)) => Outcome::Known(id, w),
            None => Outcome::Pass { nontrivial: cx.nontrivial, labels: cx.labels, ratio: cx.ratio },
        },
        Ok(Err(m)) => Outcome::Fail(m),
        Err(_) => Outcome::Fail(format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
    }
}

/// A single case may take this long; they normally take well under a second.
pub const CASE_LIMIT_S: u64 = 60;

/// A quick run stops generating after this long (only reached when the code under test has become very slow).
pub const QUICK_LIMIT_S: u64 = 400;
pub fn quick_limit() -> u64 {
    static T: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
    *T.get_or_init(|| std::env::var("VERIF_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(QUICK_LIMIT_S))
}
pub fn started() -> std::time::Instant {
    static T: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
    *T.get_or_init(std::time::Instant::now)
}

type HangHandler = Box<dyn Fn(Failure) + Send + Sync>;
/// Called (once, never returns) when a case does not end within the limit.
pub static ON_HANG: std::sync::OnceLock<HangHandler> = std::sync::OnceLock::new();

/// What each shard is running, for the watchdog.
struct Watch<C> {
    cur: Vec<Mutex<Option<(std::time::Instant, C)>>>,
    done: Mutex<u64>,
    cv: std::sync::Condvar,
}
impl<C: Clone + Serialize> Watch<C> {
    fn new() -> Self {
        Watch { cur: (0..SHARDS).map(|_| Mutex::new(None)).collect(), done: Mutex::new(0), cv: Default::default() }
    }
    fn start(&self, sh: usize, c: &C) {
        *self.cur[sh].lock().unwrap() = Some((std::time::Instant::now(), c.clone()));
    }
    fn end(&self, sh: usize) {
        *self.cur[sh].lock().unwrap() = None;
        *self.done.lock().unwrap() += 1;
        self.cv.notify_all();
    }
    fn run(&self, name: &str) {
        let mut d = self.done.lock().unwrap();
        while *d < SHARDS {
            d = self.cv.wait_timeout(d, std::time::Duration::from_millis(500)).unwrap().0;
            for m in &self.cur {
                if let Some((t, c)) = &*m.lock().unwrap() {
                    if t.elapsed().as_secs() >= CASE_LIMIT_S {
                        let f = Failure {
                            sub: name.to_string(),
                            case: serde_json::to_value(c).unwrap(),
                            message: format!("the call did not return within {CASE_LIMIT_S} s"),
                        };
                        if let Some(h) = ON_HANG.get() {
                            h(f);
                        }
                    }
                }
            }
        }
    }
}

fn fnv(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

fn clip(v: serde_json::Value) -> serde_json::Value {
    use serde_json::Value as V;
    match v {
        V::Array(mut a) => {
            let n = a.len();
            if n > 16 {
                a.truncate(12);
                let mut a: Vec<V> = a.into_iter().map(clip).collect();
                a.push(V::String(format!("... {n} items")));
                V::Array(a)
            } else {
                V::Array(a.into_iter().map(clip).collect())
            }
        }
        V::Object(o) => V::Object(o.into_iter().map(|(k, v)| (k, clip(v))).collect()),
        v => v,
    }
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// A generated sub-check: `quick`/`thorough` are total case counts over all shards.
pub fn sub<C, S>(
    name: &'static str,
    rule: &'static str,
    quick: u64,
    thorough: u64,
    strat: impl Fn(bool) -> S + Send + Sync + 'static + Copy,
    check: impl Fn(&C, &mut Cx) -> R + Send + Sync + 'static + Copy,
) -> Sub
where
    C: Serialize + DeserializeOwned + Debug + Clone + Send + 'static,
    S: Strategy<Value = C> + 'static,
{
    let run = move |cfg: &RunCfg| -> SubReport {
        let total = ((if cfg.thorough { thorough } else { quick }) as f64 * cfg.scale).max(8.0) as u64;
        let per = total.div_ceil(SHARDS);
        let stop = AtomicBool::new(false);
        let out = Mutex::new((Stats::default(), None::<(u64, Failure)>));
        let watch = Watch::<C>::new();
        std::thread::scope(|sc| {
            let watch = &watch;
            sc.spawn(move || watch.run(name));
            for sh in 0..SHARDS {
                let (stop, out) = (&stop, &out);
                let builder = std::thread::Builder::new().stack_size(64 << 20);
                builder
                    .spawn_scoped(sc, move || {
                        let mut seed = [0u8; 32];
                        let mut h = fnv(format!("{}/{}/{}", cfg.seed, name, sh).as_bytes());
                        for ch in seed.chunks_mut(8) {
                            ch.copy_from_slice(&h.to_le_bytes());
                            h = fnv(&h.to_le_bytes());
                        }
                        let conf = Config {
                            cases: per as u32,
                            failure_persistence: None,
                            max_shrink_iters: 4000,
                            ..Config::default()
                        };
                        let mut runner = TestRunner::new_with_rng(
                            conf,
                            TestRng::from_seed(RngAlgorithm::ChaCha, &seed),
                        );
                        let strategy: BoxedStrategy<C> = strat(cfg.thorough).boxed();
                        let mut st = Stats::default();
                        for i in 0..per {
                            if stop.load(Ordering::Relaxed) || (!cfg.thorough && started().elapsed().as_secs() > quick_limit()) {
                                break;
                            }
                            let mut tree = match strategy.new_tree(&mut runner) {
                                Ok(t) => t,
                                Err(e) => {
                                    eprintln!("generator of {name} gave up: {e}");
                                    std::process::exit(2);
                                }
                            };
                            let c = tree.current();
                            if let Some(d) = &cfg.trace {
                                let v = serde_json::json!({"sub": name, "case": &c});
                                let _ = std::fs::write(d.join(format!("shard{sh}.json")), v.to_string());
                            }
                            st.evaluations += 1;
                            watch.start(sh as usize, &c);
                            match eval(&check, &c) {
                                Outcome::Pass { nontrivial, labels, ratio } => {
                                    st.ratio = st.ratio.max(ratio);
                                    if nontrivial {
                                        st.nontrivial += 1;
                                        let js = serde_json::to_string(&c).unwrap();
                                        st.distinct.insert(fnv(js.as_bytes()));
                                    }
                                    for l in labels {
                                        *st.labels.entry(l).or_default() += 1;
                                    }
                                    if (sh == 0 && i < 2) || (sh == 1 && i == per / 2) {
                                        st.samples.push(clip(
                                            serde_json::json!({"sub": name, "case": &c, "nontrivial": nontrivial}),
                                        ));
                                    }
                                }
                                Outcome::Known(id, w) => {
                                    let e = st.known.entry(id.to_string()).or_insert((0, w));
                                    e.0 += 1;
                                }
                                Outcome::Fail(first) => {
                                    stop.store(true, Ordering::Relaxed);
                                    // shrink
                                    let mut best = (c, first);
                                    let mut iters = 0;
                                    let t0 = std::time::Instant::now();
                                    'shrink: while iters < 4000 && t0.elapsed().as_secs() < 60 {
                                        iters += 1;
                                        if !tree.simplify() {
                                            break;
                                        }
                                        loop {
                                            let c2 = tree.current();
                                            watch.start(sh as usize, &c2);
                                            if let Outcome::Fail(m) = eval(&check, &c2) {
                                                best = (c2, m);
                                                continue 'shrink;
                                            }
                                            iters += 1;
                                            if iters >= 4000 || !tree.complicate() {
                                                break 'shrink;
                                            }
                                        }
                                    }
                                    let f = Failure {
                                        sub: name.to_string(),
                                        case: serde_json::to_value(&best.0).unwrap(),
                                        message: best.1,
                                    };
                                    let mut o = out.lock().unwrap();
                                    if o.1.as_ref().is_none_or(|x| x.0 > sh) {
                                        o.1 = Some((sh, f));
                                    }
                                    break;
                                }
                            }
                        }
                        watch.end(sh as usize);
                        out.lock().unwrap().0.merge(st);
                    })
                    .expect("spawn");
            }
        });
        let (stats, failure) = out.into_inner().unwrap();
        SubReport { stats, failure: failure.map(|f| f.1) }
    };
    let replay = move |v: &serde_json::Value| -> Result<Outcome, String> {
        let c: C = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
        Ok(eval(&check, &c))
    };
    Sub { name, rule, exhaustive: false, run: Box::new(run), replay: Box::new(replay) }
}

/// An enumerated sub-check over a finite list of cases (every one is run).
pub fn sub_enum<C>(
    name: &'static str,
    rule: &'static str,
    cases: impl Fn(bool) -> Vec<C> + Send + Sync + 'static + Copy,
    check: impl Fn(&C, &mut Cx) -> R + Send + Sync + 'static + Copy,
) -> Sub
where
    C: Serialize + DeserializeOwned + Debug + Clone + Send + Sync + 'static,
{
    let run = move |cfg: &RunCfg| -> SubReport {
        let all = cases(cfg.thorough);
        let out = Mutex::new((Stats::default(), None::<(usize, Failure)>));
        let watch = Watch::<C>::new();
        std::thread::scope(|sc| {
            let watch = &watch;
            sc.spawn(move || watch.run(name));
            for sh in 0..SHARDS as usize {
                let (out, all) = (&out, &all);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut st = Stats::default();
                        for (i, c) in all.iter().enumerate().skip(sh).step_by(SHARDS as usize) {
                            if let Some(d) = &cfg.trace {
                                let v = serde_json::json!({"sub": name, "case": c});
                                let _ = std::fs::write(d.join(format!("shard{sh}.json")), v.to_string());
                            }
                            st.evaluations += 1;
                            watch.start(sh, c);
                            match eval(&check, c) {
                                Outcome::Pass { nontrivial, labels, ratio } => {
                                    st.ratio = st.ratio.max(ratio);
                                    if nontrivial {
                                        st.nontrivial += 1;
                                        let js = serde_json::to_string(&c).unwrap();
                                        st.distinct.insert(fnv(js.as_bytes()));
                                    }
                                    for l in labels {
                                        *st.labels.entry(l).or_default() += 1;
                                    }
                                    if i == all.len() / 3 || i == all.len() / 2 {
                                        st.samples.push(clip(serde_json::json!({"sub": name, "case": c, "nontrivial": nontrivial})));
                                    }
                                }
                                Outcome::Known(id, w) => {
                                    st.known.entry(id.to_string()).or_insert((0, w)).0 += 1;
                                }
                                Outcome::Fail(m) => {
                                    let f = Failure { sub: name.to_string(), case: serde_json::to_value(c).unwrap(), message: m };
                                    let mut o = out.lock().unwrap();
                                    if o.1.as_ref().is_none_or(|x| x.0 > i) {
                                        o.1 = Some((i, f));
                                    }
                                    break;
                                }
                            }
                        }
                        watch.end(sh);
                        out.lock().unwrap().0.merge(st);
                    })
                    .expect("spawn");
            }
        });
        let (stats, failure) = out.into_inner().unwrap();
        SubReport { stats, failure: failure.map(|f| f.1) }
    };
    let replay = move |v: &serde_json::Value| -> Result<Outcome, String> {
        let c: C = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
        Ok(eval(&check, &c))
    };
    Sub { name, rule, exhaustive: true, run: Box::new(run), replay: Box::new(replay) }
}

/// What a property's check consists of.
pub struct Property {
    pub id: &'static str,
    pub subs: Vec<Sub>,
    pub assumptions: Vec<&'static str>,
}

/// Counts the memory each thread holds, for the checks that bound it.
pub struct Meter;
thread_local! {
    static HELD: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
    static PEAK: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}
fn held(d: i64) {
    let _ = HELD.try_with(|h| {
        let v = h.get() + d;
        h.set(v);
        let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
    });
}
unsafe impl std::alloc::GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        held(l.size() as i64);
        unsafe { std::alloc::System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        held(l.size() as i64);
        unsafe { std::alloc::System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        held(-(l.size() as i64));
        unsafe { std::alloc::System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        held(n as i64 - l.size() as i64);
        unsafe { std::alloc::System.realloc(p, l, n) }
    }
}
#[global_allocator]
static METER: Meter = Meter;

/// The most memory that is held at a time during a call, in bytes.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let before = HELD.with(|h| h.get());
    PEAK.with(|p| p.set(before));
    let r = f();
    (r, (PEAK.with(|p| p.get()) - before).max(0) as usize)
}
