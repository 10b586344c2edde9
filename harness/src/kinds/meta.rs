//! "meta": one abstract file, the answers the specification expects from
//! every access path. exp = {"kind":.., "exif":.., "track":.., "imeta":.., "atrack":..}
use super::paths::*;
use super::{Viol, R};
use crate::{cmp, render};
use serde_json::{json, Value};
use std::sync::Arc;

pub fn run(v: &Value) -> R {
    let data = Arc::new(render::render(&v["parts"]));
    let exp = &v["exp"];
    let seed = v["seed"].as_u64().unwrap_or(1) + data.len() as u64;
    let paths = match v["paths"].as_str() {
        Some("all") => all(data.len(), seed, false),
        Some("files") => all(data.len(), seed, true),
        Some("mem") => vec![Path { mode: Mode::Mem, sched: crate::reader::Sched::Full }],
        _ => some(seed),
    };
    // the suite may look at some of the answers only
    let keys = super::keys();
    let mut n = 0;
    for p in &paths {
        for (c, key) in [(Call::Kind, "kind"), (Call::Exif, "exif"), (Call::Track, "track"), (Call::Imeta, "imeta"), (Call::Eager, "eager"), (Call::EImeta, "eimeta"), (Call::Meta, "meta")] {
            if !keys.is_empty() && !keys.iter().any(|k| k == key) {
                continue;
            }
            if c == Call::Meta && !matches!(p.mode, Mode::Helper | Mode::HelperMem | Mode::AHelper) {
                continue;
            }
            let mut e = exp.get(key);
            if c == Call::Track && p.is_async() {
                if let Some(x) = exp.get("atrack") {
                    e = Some(x)
                }
            }
            let Some(e) = e else { continue };
            let mut parser = nom_exif::MediaParser::new();
            let o = call(&data, p, c, &mut parser);
            n += 1;
            if let Err(m) = cmp::matches(e, &o, key) {
                return Err(Viol {
                    msg: format!("{} via {}: {m}", key, p.name()),
                    detail: json!({"path": p.name(), "call": key, "expected": e, "observed": o, "file_len": data.len()}),
                });
            }
        }
    }
    cleanup();
    Ok(n)
}
