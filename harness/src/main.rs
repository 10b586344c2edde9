//! nxh: conformance harness. Replays vectors (NDJSON produced by TLC from the
//! TLA+ specifications in /verif/spec) against the real nom-exif library.
//!
//!   nxh run VECTORS.ndjson REPORT.json [jobs] [timeout_s]   parent: shards over worker processes
//!   nxh worker                                              child: one vector per stdin line
//!   nxh one VECTOR.json                                     run one vector, print the result
mod alloc;
mod cmp;
mod kinds;
mod obs;
mod parent;
mod reader;
mod render;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => parent::run(&args[2..]),
        Some("worker") => worker(),
        Some("one") => one(&args[2]),
        Some("bytes") => {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let v = v.get("vector").cloned().unwrap_or(v);
            use std::io::Write;
            std::io::stdout().write_all(&render::render(&v["parts"])).unwrap();
            0
        }
        _ => {
            eprintln!("usage: nxh run|worker|one");
            2
        }
    };
    std::process::exit(code);
}

pub fn run_vector(v: &serde_json::Value) -> serde_json::Value {
    use std::panic::{catch_unwind, AssertUnwindSafe};
    let r = catch_unwind(AssertUnwindSafe(|| kinds::dispatch(v)));
    match r {
        Ok(Ok(n)) => serde_json::json!({"ok":true,"n":n}),
        Ok(Err(viol)) => serde_json::json!({"ok":false,"viol":viol.msg,"detail":viol.detail}),
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            serde_json::json!({"ok":false,"viol":format!("panic: {m} @ {}", last_panic())})
        }
    }
}

use std::sync::Mutex;
static LAST: Mutex<String> = Mutex::new(String::new());
pub fn last_panic() -> String {
    LAST.lock().map(|s| s.clone()).unwrap_or_default()
}
fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        if let Ok(mut l) = LAST.lock() {
            *l = i.location().map(|l| l.to_string()).unwrap_or_default();
        }
    }));
}

fn one(path: &str) -> i32 {
    quiet_panics();
    let s = std::fs::read_to_string(path).unwrap();
    let v: serde_json::Value = serde_json::from_str(&s).unwrap();
    let v = v.get("vector").cloned().unwrap_or(v);
    let r = run_vector(&v);
    println!("{}", serde_json::to_string_pretty(&r).unwrap());
    if r["ok"] == true { 0 } else { 1 }
}

fn worker() -> i32 {
    quiet_panics();
    use std::io::{BufRead, Write};
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { return 0 };
        let v: serde_json::Value = match serde_json::from_str(&line) {
            Ok(v) => v,
            Err(e) => {
                let _ = writeln!(out, "{}", serde_json::json!({"ok":false,"tool":format!("bad vector: {e}")}));
                let _ = out.flush();
                continue;
            }
        };
        let r = run_vector(&v);
        if writeln!(out, "{r}").is_err() || out.flush().is_err() {
            return 0;
        }
    }
    0
}
