//! Shards vectors over worker processes; a worker that dies or stops
//! answering turns into a violation of the vector it was on.
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::sync::{Arc, Mutex};
use std::time::Duration;

struct W {
    child: Child,
    rx: Receiver<String>,
}
fn spawn() -> W {
    let exe = std::env::current_exe().unwrap();
    let mut child = Command::new(exe)
        .arg("worker")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let out = child.stdout.take().unwrap();
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            let Ok(l) = l else { break };
            if tx.send(l).is_err() {
                break;
            }
        }
    });
    W { child, rx }
}

pub fn run(args: &[String]) -> i32 {
    let vf = &args[0];
    let report = &args[1];
    let jobs: usize = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(8);
    let timeout = Duration::from_secs(args.get(3).and_then(|s| s.parse().ok()).unwrap_or(60));
    // the vectors are read one at a time: a thorough run can have more of
    // them than fit in memory
    let n = lines_of(vf).count();
    let known: Vec<Value> = std::env::var("NXH_KNOWN")
        .ok()
        .and_then(|p| std::fs::read_to_string(p).ok())
        .and_then(|s| serde_json::from_str(&s).ok())
        .unwrap_or_default();
    // a known finding names the exact vector (suite and id) that fails
    let is_known = move |line: &str, r: &Value| -> Option<Value> {
        if known.is_empty() {
            return None;
        }
        let v: Value = serde_json::from_str(line).ok()?;
        known.iter().find(|k| k["suite"] == v["suite"] && k["id"] == v["id"] && k["viol"] == r["viol"]).cloned()
    };
    let is_known = Arc::new(is_known);
    let known_res: Arc<Mutex<Vec<Value>>> = Arc::new(Mutex::new(vec![]));
    let next = Arc::new(Mutex::new(lines_of(vf).enumerate()));
    let picks = [n / 7, n / 2, n.saturating_sub(1 + n / 11)];
    let picked: Arc<Mutex<Vec<(usize, String)>>> = Arc::new(Mutex::new(vec![]));
    let res: Arc<Mutex<Vec<(usize, Value, String)>>> = Arc::new(Mutex::new(vec![]));
    let stats = Arc::new(Mutex::new((0u64, 0u64))); // vectors ok, impl calls
    let mut hs = vec![];
    for _ in 0..jobs {
        let (next, res, stats, picked) = (next.clone(), res.clone(), stats.clone(), picked.clone());
        let (is_known, known_res) = (is_known.clone(), known_res.clone());
        hs.push(std::thread::spawn(move || {
            let mut w = spawn();
            loop {
                if res.lock().unwrap().len() > 40 {
                    break;
                }
                let Some((i, line)) = next.lock().unwrap().next() else { break };
                if picks.contains(&i) {
                    picked.lock().unwrap().push((i, line.clone()));
                }
                let ok = {
                    let si = w.child.stdin.as_mut().unwrap();
                    writeln!(si, "{line}").and_then(|_| si.flush()).is_ok()
                };
                let ans = if ok { w.rx.recv_timeout(timeout).map_err(|e| format!("{e:?}")) } else { Err("write".into()) };
                match ans {
                    Ok(l) => {
                        let v: Value = serde_json::from_str(&l)
                            .unwrap_or_else(|_| json!({"ok":false,"viol":format!("worker printed: {l}")}));
                        if v["ok"] == true {
                            let mut s = stats.lock().unwrap();
                            s.0 += 1;
                            s.1 += v["n"].as_u64().unwrap_or(1);
                        } else {
                            match is_known(&line, &v) {
                                Some(k) => known_res.lock().unwrap().push(json!({"match":k,"result":v})),
                                None => res.lock().unwrap().push((i, v, line)),
                            }
                        }
                    }
                    Err(e) => {
                        let st = match w.child.try_wait() {
                            Ok(Some(s)) => format!("worker died: {s}"),
                            _ => {
                                if e.contains("Timeout") {
                                    format!("no answer within {}s (hang)", timeout.as_secs())
                                } else {
                                    std::thread::sleep(Duration::from_millis(300));
                                    match w.child.try_wait() {
                                        Ok(Some(s)) => format!("worker died: {s}"),
                                        _ => e,
                                    }
                                }
                            }
                        };
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        res.lock().unwrap().push((i, json!({"ok":false,"viol":st}), line));
                        w = spawn();
                    }
                }
            }
            drop(w.child.stdin.take());
            let _ = w.child.wait();
        }));
    }
    for h in hs {
        h.join().unwrap();
    }
    let mut r = res.lock().unwrap().clone();
    r.sort_by_key(|x| x.0);
    let known_hit: Vec<Value> = known_res.lock().unwrap().clone();
    let viols: Vec<Value> = r
        .into_iter()
        .map(|(i, v, line)| {
            let vec: Value = serde_json::from_str(&line).unwrap_or(Value::Null);
            json!({"i":i,"result":v,"vector":vec})
        })
        .collect();
    let s = stats.lock().unwrap();
    let samples = samples(&picked.lock().unwrap());
    let rep = json!({"vectors":n,"samples":samples,"known":known_hit,"passed":s.0,"impl_calls":s.1,"violations":viols});
    std::fs::write(report, serde_json::to_string(&rep).unwrap()).unwrap();
    println!("vectors={} passed={} calls={} violations={}", n, s.0, s.1, viols.len());
    0
}

/// The vectors of a file, one per line.
fn lines_of(vf: &str) -> impl Iterator<Item = String> {
    BufReader::new(std::fs::File::open(vf).unwrap()).lines().map(|l| l.unwrap()).filter(|l| !l.trim().is_empty()).map(|s| {
        match serde_json::from_str::<Value>(&s) {
            // TLC's CSVWrite prints the JSON text as a quoted string
            Ok(Value::String(x)) => x,
            _ => s,
        }
    })
}

/// A few of the replayed vectors, abbreviated, for the evidence file.
fn samples(lines: &[(usize, String)]) -> Vec<Value> {
    let mut out = vec![];
    let mut lines = lines.to_vec();
    lines.sort();
    for (_, l) in &lines {
        let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
        let size = v.get("parts").map(|p| crate::render::render(p).len());
        let exp = v.get("exp").map(|e| crate::cmp::short(e)).unwrap_or_default();
        out.push(json!({"id": v["id"], "kind": v["k"], "input_bytes": size, "expected": exp}));
    }
    out
}
