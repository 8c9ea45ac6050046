mod core;
mod gen;
#[cfg(feature = "full")]
#[path = "../../probe/src/ops.rs"]
mod ops;
mod p_design;
#[cfg(feature = "full")]
mod p_conv;
mod p_ext;
mod p_int;
mod p_misc;
#[cfg(feature = "full")]
mod p_ops;
#[cfg(feature = "full")]
mod p_plot;
mod p_savgol;
mod p_sos;
mod p_stats;
mod p_xform;

use crate::core::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::time::Instant;

fn properties() -> Vec<fn() -> Property> {
    #[allow(unused_mut)]
    let mut v: Vec<fn() -> Property> = vec![p_sos::c01, p_sos::c02, p_sos::c03, p_sos::c04, p_ext::c05, p_design::c06, p_design::c07, p_design::c08, p_xform::c09, p_xform::c10, p_xform::c11, p_design::c12, p_savgol::c15, p_stats::c16, p_stats::c17, p_misc::c18, p_misc::c19, p_int::c20, p_int::c21, p_misc::c22];
    #[cfg(feature = "full")]
    v.extend::<[fn() -> Property; 5]>([p_conv::c13, p_conv::c14, p_ops::c23p, p_ops::c24p, p_plot::c25]);
    v
}

pub fn find(id: &str) -> Option<Property> {
    properties().into_iter().map(|f| f()).find(|p| p.id == id)
}

fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}

/// Known findings listed for a property: key -> description.
fn known_findings(id: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    if let Ok(t) = std::fs::read_to_string(root().join("known_findings.txt")) {
        for l in t.lines() {
            // finding: property=C09 key=KF-X description
            if let Some(r) = l.strip_prefix("finding: ") {
                let mut it = r.splitn(3, ' ');
                let (p, k, d) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
                if p == format!("property={id}") {
                    m.insert(k.trim_start_matches("key=").to_string(), d.to_string());
                }
            }
        }
    }
    m
}

pub fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}
fn env_thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

/// Quick case counts are multiplied by this, so that a quick run takes about ten seconds.
fn quick_factor(id: &str) -> f64 {
    match id {
        "C01" | "C06" | "C07" | "C09" | "C11" | "C13" | "C14" | "C15" | "C20" => 10.0,
        "C23" => 2.0,
        "C24" => 6.0,
        "C25" => 1.0,
        _ => 20.0,
    }
}

/// Regression cases: committed minimal reproductions, run before anything is generated.
fn regressions(id: &str) -> Vec<PathBuf> {
    let mut v: Vec<PathBuf> = std::fs::read_dir(root().join("regressions").join(id))
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
        .unwrap_or_default();
    v.retain(|p| p.extension().is_some_and(|e| e == "json"));
    v.sort();
    v
}

pub fn replay_value(p: &Property, v: &serde_json::Value) -> Result<Outcome, String> {
    let name = v["sub"].as_str().ok_or("no sub")?;
    let s = p.subs.iter().find(|s| s.name == name).ok_or(format!("no sub-check {name}"))?;
    (s.replay)(&v["case"])
}

pub fn write_json(path: &Path, v: &serde_json::Value) {
    if let Some(d) = path.parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(path, serde_json::to_string_pretty(v).unwrap() + "\n").unwrap_or_else(|e| {
        eprintln!("cannot write {}: {e}", path.display());
        std::process::exit(2)
    });
}

/// The worker does all the testing; its result goes to `out`.
fn worker(id: &str, out: &Path, trace: Option<PathBuf>) {
    started();
    let p = find(id).unwrap();
    let scale = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0) * if env_thorough() { 1.0 } else { quick_factor(id) };
    let only = std::env::var("VERIF_SUB").ok();
    let cfg = RunCfg { seed: env_seed(), thorough: env_thorough(), scale, trace };
    let known = known_findings(id);
    let hang_out = out.to_path_buf();
    let _ = ON_HANG.set(Box::new(move |f| {
        let v = serde_json::json!({
            "evaluations": 1, "regressions": 0, "distinct_nontrivial": 0, "subs": [], "samples": [f.case.clone()], "known": [],
            "failure": {"sub": f.sub, "case": f.case, "message": f.message}, "rule": "the run ended at a call that did not return", "assumptions": [],
        });
        let _ = std::fs::write(&hang_out, v.to_string());
        std::process::exit(0);
    }));
    let mut total = Stats::default();
    let mut subs = vec![];
    let mut failure: Option<Failure> = None;
    let mut known_seen: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut regs = 0u64;
    for f in regressions(id) {
        let v: serde_json::Value = match std::fs::read_to_string(&f).map_err(|e| e.to_string()).and_then(|t| serde_json::from_str(&t).map_err(|e| e.to_string())) {
            Ok(v) => v,
            Err(e) => {
                eprintln!("bad regression file {}: {e}", f.display());
                std::process::exit(2)
            }
        };
        if only.as_ref().is_some_and(|o| v["sub"].as_str() != Some(o)) {
            continue;
        }
        if let Some(d) = &cfg.trace {
            let _ = std::fs::write(d.join("shard0.json"), v.to_string());
        }
        regs += 1;
        let (done, seen) = std::sync::mpsc::channel::<()>();
        let (sub, case) = (v["sub"].as_str().unwrap_or("?").to_string(), v["case"].clone());
        std::thread::spawn(move || {
            if seen.recv_timeout(std::time::Duration::from_secs(CASE_LIMIT_S)) == Err(std::sync::mpsc::RecvTimeoutError::Timeout) {
                (ON_HANG.get().unwrap())(Failure { sub, case, message: format!("the call did not return within {CASE_LIMIT_S} s") });
            }
        });
        let replayed = replay_value(&p, &v);
        drop(done);
        match replayed {
            Ok(Outcome::Fail(m)) => {
                failure.get_or_insert(Failure { sub: v["sub"].as_str().unwrap().into(), case: v["case"].clone(), message: m });
            }
            Ok(Outcome::Known(k, w)) => {
                known_seen.entry(k.to_string()).or_insert((0, w)).0 += 1;
            }
            Ok(_) => {}
            Err(e) => {
                eprintln!("bad regression file {}: {e}", f.display());
                std::process::exit(2)
            }
        }
    }
    for s in &p.subs {
        if failure.is_some() {
            break;
        }
        if only.as_ref().is_some_and(|o| o != s.name) {
            continue;
        }
        let t = Instant::now();
        let r = (s.run)(&cfg);
        let st = r.stats;
        for (k, v) in &st.known {
            known_seen.entry(k.clone()).or_insert((0, v.1.clone())).0 += v.0;
        }
        subs.push(serde_json::json!({
            "name": s.name, "rule": s.rule, "exhaustive": s.exhaustive, "evaluations": st.evaluations, "nontrivial": st.nontrivial,
            "distinct_nontrivial": st.distinct.len(), "labels": st.labels,
            "known_finding_cases": st.known.values().map(|x| x.0).sum::<u64>(),
            "max_error_over_tolerance": st.ratio, "wall_s": (t.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        }));
        total.evaluations += st.evaluations;
        total.nontrivial += st.nontrivial;
        // sub-checks have different case types, so hashes are offset by the sub name
        let h = hash_of(&s.name);
        total.distinct.extend(st.distinct.iter().map(|d| d ^ h));
        total.samples.extend(st.samples.into_iter().take(3));
        failure = r.failure;
    }
    // A "known" outcome that the file does not list is a violation.
    if failure.is_none() {
        for (k, (_, w)) in &known_seen {
            if !known.contains_key(k) {
                failure = Some(Failure { sub: "?".into(), case: serde_json::Value::Null, message: format!("unlisted finding {k}: {w}") });
            }
        }
    }
    let v = serde_json::json!({
        "evaluations": total.evaluations + regs, "regressions": regs,
        "distinct_nontrivial": total.distinct.len(), "subs": subs, "samples": total.samples,
        "known": known_seen.iter().map(|(k, v)| serde_json::json!({"key": k, "cases": v.0, "example": v.1})).collect::<Vec<_>>(),
        "failure": failure.map(|f| serde_json::json!({"sub": f.sub, "case": f.case, "message": f.message})),
        "rule": p.subs.iter().map(|s| format!("{}: {}", s.name, s.rule)).collect::<Vec<_>>().join(" | "),
        "assumptions": p.assumptions,
    });
    let mut v = v;
    if std::env::var_os("VERIF_HASHES").is_some() {
        v["hashes"] = total.distinct.iter().copied().collect();
    }
    std::fs::write(out, v.to_string()).unwrap();
}

fn spawn_worker(exe: &Path, env: &[(&str, String)], id: &str, out: &Path, trace: Option<&Path>) -> std::process::ExitStatus {
    let mut c = std::process::Command::new(exe);
    c.arg("worker").arg(id).arg(out).envs(env.iter().map(|(k, v)| (k, v)));
    if let Some(t) = trace {
        c.arg(t);
    }
    c.status().expect("spawn worker")
}

fn signal_of(s: &std::process::ExitStatus) -> Option<i32> {
    use std::os::unix::process::ExitStatusExt;
    s.signal()
}

pub fn replay_status(exe: &Path, file: &Path) -> std::process::ExitStatus {
    std::process::Command::new(exe)
        .arg("replay")
        .arg(file)
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .expect("spawn replay")
}

/// Run a worker process of the given executable, and find the case when it crashes.
pub fn collect(exe: &Path, env: &[(&str, String)], id: &str) -> Option<serde_json::Value> {
    let scratch = std::env::temp_dir().join(format!("verif-{id}-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&scratch);
    let outf = scratch.join("result.json");
    let st = spawn_worker(exe, env, id, &outf, None);
    let mut result: Option<serde_json::Value> =
        std::fs::read_to_string(&outf).ok().and_then(|t| serde_json::from_str(&t).ok());
    if !st.success() {
        match signal_of(&st) {
            // SIGKILL: out of memory or killed from outside; not a verdict
            Some(sig) if sig != 9 && sig != 15 => {
                // Crash in the code under test: find the case.
                let tr = scratch.join("trace");
                let _ = std::fs::create_dir_all(&tr);
                let st2 = spawn_worker(exe, env, id, &outf, Some(&tr));
                let mut found = None;
                for sh in 0..SHARDS {
                    let f = tr.join(format!("shard{sh}.json"));
                    let Ok(t) = std::fs::read_to_string(&f) else { continue };
                    let Ok(mut v) = serde_json::from_str::<serde_json::Value>(&t) else { continue };
                    v["property"] = id.into();
                    let f2 = tr.join(format!("try{sh}.json"));
                    write_json(&f2, &v);
                    if signal_of(&replay_status(exe, &f2)).is_some_and(|s| s != 9) {
                        found = Some(v);
                        break;
                    }
                }
                let case = found.unwrap_or(serde_json::json!({"sub": "crash", "case": {"seed": env_seed(), "second_run_signal": signal_of(&st2)}}));
                result = Some(serde_json::json!({
                    "evaluations": 0, "distinct_nontrivial": 0, "subs": [], "samples": [case.clone()], "known": [], "rule": "the run crashed", "assumptions": [],
                    "failure": {"sub": case["sub"], "case": case["case"], "message": format!("the process crashed with signal {sig}")}
                }));
            }
            _ => {
                eprintln!("worker ended abnormally: {st}");
                let _ = std::fs::remove_dir_all(&scratch);
                return None;
            }
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    if result.is_none() {
        eprintln!("worker left no result");
    }
    result
}

fn run(id: &str) -> i32 {
    let t0 = Instant::now();
    if find(id).is_none() {
        eprintln!("unknown property {id}");
        return 2;
    }
    let Some(r) = collect(&std::env::current_exe().unwrap(), &[], id) else { return 2 };
    let known = known_findings(id);
    let mut code = 0;
    for k in r["known"].as_array().unwrap() {
        let key = k["key"].as_str().unwrap();
        if let Some(d) = known.get(key) {
            println!("KNOWN-FINDING: property={id} {key} {d} ({} cases this run, e.g. {})", k["cases"], k["example"].as_str().unwrap_or(""));
        }
    }
    if !r["failure"].is_null() {
        let f = &r["failure"];
        let seed = env_seed();
        let path = root().join("replays").join(format!("{id}-{}-{seed}.json", f["sub"].as_str().unwrap_or("x")));
        write_json(&path, &serde_json::json!({"property": id, "sub": f["sub"], "case": f["case"], "message": f["message"], "replay_with": format!("/verif/run.sh replay {}", path.display())}));
        println!("{}: {}", f["sub"].as_str().unwrap_or(""), f["message"].as_str().unwrap_or(""));
        println!("VIOLATION property={id} replay={}", path.display());
        code = 1;
    }
    let tier = if env_thorough() { "thorough" } else { "quick" };
    write_json(
        &root().join("evidence").join(format!("{id}.json")),
        &serde_json::json!({
            "property": id, "tier": tier, "seed": env_seed(), "level": "exploration",
            "coverage": {
                "evaluations": r["evaluations"], "distinct_nontrivial": r["distinct_nontrivial"],
                "rule": r["rule"], "samples": r["samples"], "sub_checks": r["subs"],
                "regressions_replayed": r["regressions"], "known_findings_hit": r["known"],
            },
            "assumptions": r["assumptions"], "wall_s": t0.elapsed().as_secs_f64(),
            "violations": if r["failure"].is_null() { 0 } else { 1 },
        }),
    );
    println!("{id} {tier} seed={} evaluations={} distinct_nontrivial={} wall={:.1}s exit={code}", env_seed(), r["evaluations"], r["distinct_nontrivial"], t0.elapsed().as_secs_f64());
    code
}

fn main() {
    #[cfg(feature = "full")]
    if std::env::args().next().is_some_and(|a| Path::new(&a).file_name().is_some_and(|f| f == "python")) {
        std::process::exit(p_plot::standin());
    }
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => run(&a[2]),
        Some("worker") => {
            worker(&a[2], Path::new(&a[3]), a.get(4).map(PathBuf::from));
            0
        }
        Some("replay") => {
            let t = std::fs::read_to_string(&a[2]).expect("read replay file");
            let v: serde_json::Value = serde_json::from_str(&t).expect("json");
            let id = v["property"].as_str().expect("property");
            let p = find(id).expect("property");
            let (id2, file) = (id.to_string(), a[2].clone());
            std::thread::spawn(move || {
                std::thread::sleep(std::time::Duration::from_secs(CASE_LIMIT_S));
                println!("the call did not return within {CASE_LIMIT_S} s\nVIOLATION property={id2} replay={file}");
                std::process::exit(1);
            });
            match replay_value(&p, &v) {
                Ok(Outcome::Fail(m)) => {
                    println!("{m}\nVIOLATION property={id} replay={}", a[2]);
                    1
                }
                Ok(o) => {
                    println!("{o:?}");
                    0
                }
                Err(e) => {
                    eprintln!("{e}");
                    2
                }
            }
        }
        #[cfg(feature = "full")]
        Some("plot-caller") => p_plot::caller(Path::new(&a[2]), Path::new(&a[3])),
        Some("list") => {
            for p in properties() {
                let p = p();
                println!("{} {}", p.id, p.subs.iter().map(|s| s.name).collect::<Vec<_>>().join(" "));
            }
            0
        }
        _ => {
            eprintln!("usage: check run ID | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
