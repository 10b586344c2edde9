//! "fault": one call on a reader that fails at its k-th call, for every k.
use super::paths::*;
use super::{Viol, R};
use crate::reader::{Sched, TR};
use crate::{cmp, render};
use serde_json::{json, Value};
use std::io::ErrorKind;
use std::sync::Arc;

pub fn mode(s: &str) -> Mode {
    match s {
        "Mem" => Mode::Mem,
        "Seek" => Mode::Seek,
        "Unseek" => Mode::Unseek,
        "AMem" => Mode::AMem,
        "ASeek" => Mode::ASeek,
        "AUnseek" => Mode::AUnseek,
        _ => panic!("mode {s}"),
    }
}
pub fn call_of(s: &str) -> Call {
    match s {
        "kind" => Call::Kind,
        "exif" => Call::Exif,
        "track" => Call::Track,
        "imeta" => Call::Imeta,
        "eager" => Call::Eager,
        _ => panic!("call {s}"),
    }
}
fn kind(s: &str) -> ErrorKind {
    use ErrorKind::*;
    for k in [
        ConnectionReset, UnexpectedEof, PermissionDenied, TimedOut, BrokenPipe, InvalidData, InvalidInput, WouldBlock, NotFound, OutOfMemory, WriteZero,
        Unsupported, Other, Interrupted, ConnectionAborted, NotConnected, AlreadyExists, AddrInUse,
    ] {
        if format!("{k:?}") == s {
            return k;
        }
    }
    panic!("kind {s}")
}
pub fn run(v: &Value) -> R {
    let data = Arc::new(render::render(&v["parts"]));
    let sched = match v["sched"].as_str() {
        Some("rand") => Sched::Rand(data.len() as u64, false),
        Some("bytes") => Sched::Fixed(small_chunk(data.len())),
        _ => Sched::Full,
    };
    let path = Path { mode: mode(v["mode"].as_str().unwrap()), sched: sched.clone() };
    let c = call_of(v["call"].as_str().unwrap());
    let ek = kind(v["kind"].as_str().unwrap());
    let sticky = v["sticky"] == true;
    let go = |at: Option<usize>| {
        let mut tr = TR::new(data.clone(), sched.clone());
        tr.fault = at.map(|k| (k, ek, sticky));
        let (calls, faulted) = (tr.calls.clone(), tr.faulted.clone());
        let r = call_tr(tr, &path, c, &mut nom_exif::MediaParser::new());
        let (a, b) = (*calls.lock().unwrap(), *faulted.lock().unwrap());
        (r, a, b)
    };
    let (r, total, _) = go(None);
    cmp::matches(&v["exp"], &r, "without a fault").map_err(|m| Viol { msg: m, detail: r })?;
    let mut n = 1;
    let mut k = 0;
    while k < total {
        let (r, made, faulted) = go(Some(k));
        n += 1;
        if !faulted {
            return Err(Viol::new(format!("call {k} of {total} was not made although nothing failed before it")));
        }
        cmp::matches(&v["fexp"], &r, &format!("call {k} of {total} fails")).map_err(|m| Viol { msg: m, detail: json!({"observed": r}) })?;
        // an answer given all the same was complete without the failed call: nothing is asked of the reader any more
        if r.get("ok").is_some() && made > k + 1 {
            return Err(Viol { msg: format!("call {k} of {total} fails, {} more calls are made and an answer is given", made - k - 1), detail: r });
        }
        k += if k < 60 || total - k < 40 { 1 } else { total / 60 + 1 };
    }
    Ok(n)
}
