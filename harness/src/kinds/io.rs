//! "io": one call on an instrumented reader; the answer is compared and the
//! calls made on the reader are recorded for IoTrace.
use super::paths::*;
use super::{Viol, R};
use crate::reader::{Ev, Sched, TR};
use crate::{cmp, render};
use serde_json::{json, Value};
use std::io::Write;
use std::sync::Arc;

/// In traces the hole is shown as this many bytes.
const FOLD: u64 = 1 << 20;
pub fn run(v: &Value) -> R {
    let data = Arc::new(render::render(&v["parts"]));
    let hole = v["hole"].as_array().filter(|h| h.len() == 2).map(|h| (h[0].as_u64().unwrap(), h[1].as_u64().unwrap() << 30));
    let fold = |p: u64| match hole {
        None => p,
        Some((at, _)) if p <= at => p,
        Some((at, n)) if p < at + n => at + (p - at).min(FOLD),
        Some((_, n)) => p - n + FOLD,
    };
    let shift = |p: u64| match hole {
        Some((at, _)) if p > at => p + FOLD,
        _ => p,
    };
    let seed = data.len() as u64;
    let c = match v["call"].as_str().unwrap() {
        "exif" => Call::Exif,
        "track" => Call::Track,
        _ => Call::Imeta,
    };
    let mut paths = vec![(Mode::Seek, Sched::Full), (Mode::Seek, Sched::Rand(seed, true)), (Mode::ASeek, Sched::Full), (Mode::ASeek, Sched::Rand(seed + 1, true))];
    if hole.is_none() {
        paths.extend([(Mode::Unseek, Sched::Full), (Mode::AUnseek, Sched::Full), (Mode::Unseek, Sched::Rand(seed + 2, true)), (Mode::AUnseek, Sched::Rand(seed + 3, true))]);
    }
    if hole.is_none() {
        paths.extend([(Mode::Mem, Sched::Full), (Mode::AMem, Sched::Full)]);
    }
    let mut out = match std::env::var("NXH_TRACE_DIR") {
        Ok(d) => Some(std::fs::OpenOptions::new().create(true).append(true).open(format!("{d}/trace-{}", std::process::id())).map_err(|e| Viol::new(e.to_string()))?),
        _ => None,
    };
    let mut n = 0;
    for (mode, sched) in paths {
        let mut tr = TR::new(data.clone(), sched.clone());
        tr.hole = hole;
        let log = tr.log.clone();
        let path = Path { mode: mode.clone(), sched };
        let r = call_tr(tr, &path, c, &mut nom_exif::MediaParser::new());
        n += 1;
        if let Err(m) = cmp::matches(&v["exp"], &r, "answer") {
            return Err(Viol { msg: format!("via {}: {m}", path.name()), detail: json!({"path": path.name(), "observed": r}) });
        }
        let clip = |x: u64| x.min(2_000_000_000);
        let ev: Vec<Value> = log
            .lock()
            .unwrap()
            .iter()
            .map(|e| match e {
                Ev::Read { at, want, got } => json!([0, clip(fold(*at)), clip(*want as u64), clip(fold(at + *got as u64) - fold(*at))]),
                Ev::Seek { from, to, rel } => json!([1, clip(fold(*from)), clip(fold(*to)), *rel as u8]),
            })
            .collect();
        if let Some(o) = &mut out {
            let end = shift(v["end"].as_u64().unwrap());
            let skips: Vec<Value> = v["skips"].as_array().unwrap().iter().map(|s| {
                let (lo, hi) = (s["lo"].as_u64().unwrap(), s["hi"].as_u64().unwrap());
                let lo2 = if hole.is_some_and(|h| lo > h.0) { lo + FOLD } else { lo };
                json!({"lo": lo2, "hi": shift(hi)})
            }).collect();
            let t = json!({"id": v["id"], "path": path.name(), "seekable": matches!(mode, Mode::Seek | Mode::ASeek), "end": end, "skips": skips, "slack": v["slack"], "ev": ev});
            writeln!(o, "{t}").map_err(|e| Viol::new(e.to_string()))?;
        }
    }
    Ok(n)
}
