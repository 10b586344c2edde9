//! "cut": streams that end early. One vector holds a file and many lengths.
use super::fault::{call_of, mode};
use super::paths::*;
use super::{Viol, R};
use crate::reader::Sched;
use crate::{cmp, render};
use serde_json::{json, Value};
use std::sync::Arc;

pub fn run(v: &Value) -> R {
    let data = render::render(&v["parts"]);
    let full = v["full"].as_u64().unwrap() as usize;
    let m = mode(v["mode"].as_str().unwrap());
    let c = call_of(v["call"].as_str().unwrap());
    let mut n = 0;
    let num = |x: &Value| x.as_u64().unwrap() as usize;
    for at in v["cuts"].as_array().unwrap().iter().flat_map(|r| num(&r[0])..=num(&r[1])) {
        let d = Arc::new(data[..at].to_vec());
        let sched = if v["sched"] == "rand" { Sched::Rand(at as u64, false) } else { Sched::Full };
        let o = call(&d, &Path { mode: m.clone(), sched }, c, &mut nom_exif::MediaParser::new());
        n += 1;
        let e = if at >= full { &v["exp"] } else { &v["cexp"] };
        cmp::matches(e, &o, &format!("cut to {at} of {}", data.len())).map_err(|m| Viol { msg: m, detail: json!({"observed": o}) })?;
    }
    Ok(n)
}
