//! "gps": GPS info of one file through the lazy and the eager API, its decimal
//! and ISO 6709 forms and the way back. "iso": GPSInfo::from_str.
use super::paths::*;
use super::{Viol, R};
use crate::{cmp, obs, render};
use nom_exif::*;
use serde_json::{json, Value};
use std::sync::Arc;

fn units(x: Option<f64>, k: f64) -> Value {
    match x {
        Some(x) => json!((x * k).round() as i64),
        None => json!("none"),
    }
}
/// decimal forms: hundredths of arc seconds and millimetres
pub fn derived(g: &GPSInfo) -> Value {
    json!({"lat": units(g.latitude_decimal(), 360_000.0), "lon": units(g.longitude_decimal(), 360_000.0),
           "alt": units(g.altitude_meters(), 1000.0), "altm": units(g.altitude_meters(), 1.0),
           // the part behind the decimal point, in thousandths
           "altf": g.altitude_meters().map_or(json!("none"), |m| json!((m.abs() * 1000.0).round() as u64 % 1000))})
}
fn full(g: Option<&GPSInfo>) -> Value {
    let Some(g) = g else { return json!("none") };
    let iso = g.to_iso6709();
    let back = match iso.parse::<GPSInfo>() {
        Ok(b) => json!({"rec": obs::gps(&b), "dec": derived(&b), "again": b.to_iso6709()}),
        Err(_) => json!("err"),
    };
    json!({"rec": obs::gps(g), "dec": derived(g), "iso": iso, "back": back})
}
pub fn run(v: &Value) -> R {
    let data = Arc::new(render::render(&v["parts"]));
    let exp = &v["exp"];
    let paths = match v["paths"].as_str() {
        Some("mem") => vec![Path { mode: Mode::Mem, sched: crate::reader::Sched::Full }],
        _ => vec![Path { mode: Mode::Mem, sched: crate::reader::Sched::Full }, Path { mode: Mode::Unseek, sched: crate::reader::Sched::Fixed(33) }],
    };
    let mut n = 0;
    for p in paths {
        let o = guard(|| {
            let mut parser = MediaParser::new();
            let r = match p.mode {
                Mode::Mem => parser.parse_exif(MediaSource::from_memory(data.as_ref().clone()).unwrap()),
                _ => parser.parse_exif(MediaSource::unseekable(crate::reader::TR::new(data.clone(), p.sched.clone())).unwrap()),
            };
            let it = match r {
                Ok(it) => it,
                Err(e) => return obs::err(&e),
            };
            let lazy = match it.parse_gps() {
                Ok(g) => full(g.as_ref()),
                Err(e) => obs::err(&e),
            };
            let mut adv = it.clone();
            adv.next();
            adv.next();
            let later = match adv.parse_gps() {
                Ok(g) => full(g.as_ref()),
                Err(e) => obs::err(&e),
            };
            let ex: Exif = it.into();
            let eager = full(ex.gps_info());
            let errs = ex.errors().iter().filter(|(_, t, _)| t.code() == 34853).count();
            json!({"lazy": lazy, "later": later, "eager": eager, "errs": errs})
        });
        n += 4;
        if let Err(m) = cmp::matches(exp, &o, "gps") {
            return Err(Viol { msg: format!("via {}: {m}", p.name()), detail: json!({"expected": exp, "observed": o}) });
        }
    }
    Ok(n)
}
pub fn iso(v: &Value) -> R {
    let s: String = match &v["s"] {
        Value::String(s) => s.clone(),
        Value::Array(a) => a.iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect(),
        _ => panic!("iso"),
    };
    let o = guard(|| match s.parse::<GPSInfo>() {
        Ok(g) => full(Some(&g)),
        Err(_) => json!("err"),
    });
    cmp::matches(&v["exp"], &o, "iso").map_err(|m| Viol { msg: format!("{s:?}: {m}"), detail: o })?;
    Ok(1)
}
