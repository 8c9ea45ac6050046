//! Reads one JSON list of calls per line, performs them in order and answers with one JSON list of results:
//! {"ok": Out} | {"panic": message} | {"absent": true}.
mod ops;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout().lock();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { return };
        let calls: Vec<ops::Call> = serde_json::from_str(&line).expect("calls");
        let res: Vec<serde_json::Value> = calls
            .iter()
            .map(|c| match catch_unwind(AssertUnwindSafe(|| ops::run(c))) {
                Ok(Some(o)) => serde_json::json!({ "ok": o }),
                Ok(None) => serde_json::json!({ "absent": true }),
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    serde_json::json!({ "panic": m })
                }
            })
            .collect();
        if writeln!(out, "{}", serde_json::to_string(&res).unwrap()).and_then(|_| out.flush()).is_err() {
            return;
        }
    }
}
