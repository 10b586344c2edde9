//! "value": accessors, conversions and renderings of one EntryValue (C19, C25).
//! "deg": decimal degrees.  "refs": reference letters.
use super::{Viol, R};
use crate::cmp;
use chrono::{DateTime, FixedOffset, NaiveDateTime};
use nom_exif::*;
use serde_json::{json, Value};

fn strs(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}
fn num<T: std::str::FromStr>(s: &str) -> T
where
    T::Err: std::fmt::Debug,
{
    s.parse().unwrap()
}
fn pieces(v: &Value) -> u64 {
    v.as_array().unwrap().iter().fold(0, |a, x| a << 16 | x.as_u64().unwrap())
}
pub fn p64(x: u64) -> Value {
    json!([x >> 48, (x >> 32) & 0xffff, (x >> 16) & 0xffff, x & 0xffff])
}
pub fn p32(x: u32) -> Value {
    json!([x >> 16, x & 0xffff])
}
fn naive(s: &str) -> NaiveDateTime {
    NaiveDateTime::parse_from_str(s, "%Y-%m-%dT%H:%M:%S").unwrap()
}
fn ur(p: &Value) -> URational {
    let s = strs(p);
    URational::new(num(&s[0]), num(&s[1]))
}
fn ir(p: &Value) -> IRational {
    let s = strs(p);
    IRational::new(num(&s[0]), num(&s[1]))
}
fn offset(s: &str) -> FixedOffset {
    let sign = if s.starts_with('-') { -1 } else { 1 };
    let h: i32 = s[1..3].parse().unwrap();
    let m: i32 = s[4..6].parse().unwrap();
    FixedOffset::east_opt(sign * (h * 3600 + m * 60)).unwrap()
}
pub fn build(t: &str, v: &Value) -> EntryValue {
    let a = v.as_array().unwrap();
    let first = || a[0].as_str().unwrap();
    match t {
        "U8" => EntryValue::from(num::<u8>(first())),
        "U16" => EntryValue::from(num::<u16>(first())),
        "U32" => EntryValue::from(num::<u32>(first())),
        "U64" => EntryValue::from(num::<u64>(first())),
        "I8" => EntryValue::from(num::<i8>(first())),
        "I16" => EntryValue::from(num::<i16>(first())),
        "I32" => EntryValue::from(num::<i32>(first())),
        "I64" => EntryValue::from(num::<i64>(first())),
        "F32" => EntryValue::from(f32::from_bits(pieces(v) as u32)),
        "F64" => EntryValue::from(f64::from_bits(pieces(v))),
        "Text" => EntryValue::from(a.iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect::<String>()),
        "Undefined" => EntryValue::Undefined(a.iter().map(|c| c.as_u64().unwrap() as u8).collect()),
        "U8Array" => EntryValue::U8Array(strs(v).iter().map(|s| num(s)).collect()),
        "U16Array" => EntryValue::U16Array(strs(v).iter().map(|s| num(s)).collect()),
        "U32Array" => EntryValue::U32Array(strs(v).iter().map(|s| num(s)).collect()),
        "URational" => EntryValue::URational(ur(&a[0])),
        "IRational" => EntryValue::IRational(ir(&a[0])),
        "URationalArray" => EntryValue::URationalArray(a.iter().map(ur).collect()),
        "IRationalArray" => EntryValue::IRationalArray(a.iter().map(ir).collect()),
        "DateTime" => EntryValue::from((naive(first()), Some(offset(a[1].as_str().unwrap())))),
        "NaiveDateTime" => EntryValue::from((naive(first()), None)),
        _ => panic!("type {t}"),
    }
}
fn cu(r: URational) -> Value {
    json!([r.numerator().to_string(), r.denominator().to_string()])
}
fn ci(r: IRational) -> Value {
    json!([r.numerator().to_string(), r.denominator().to_string()])
}
const F: &str = "%Y-%m-%dT%H:%M:%S";
fn date(d: ExifDateTime) -> String {
    match d {
        ExifDateTime::Aware(t) => aware(t),
        ExifDateTime::Naive(t) => t.format(F).to_string(),
    }
}
fn aware(t: DateTime<FixedOffset>) -> String {
    format!("{}{}", t.naive_local().format(F), t.offset())
}
fn canon_json(v: &Value) -> Value {
    match v {
        Value::Number(n) => json!(n.to_string()),
        Value::Array(a) => Value::Array(a.iter().map(canon_json).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), canon_json(v))).collect()),
        v => v.clone(),
    }
}
fn ns<T: ToString>(x: &[T]) -> Value {
    Value::Array(x.iter().map(|x| json!(x.to_string())).collect())
}
pub fn run(v: &Value) -> R {
    let t = v["id"]["t"].as_str().unwrap();
    let e = build(t, &v["id"]["v"]);
    let mut acc: Vec<Value> = vec![];
    macro_rules! a {
        ($name:ident, $x:ident => $val:expr) => {
            if let Some($x) = e.$name() {
                acc.push(json!([stringify!($name), $val]));
            }
        };
    }
    a!(as_str, x => json!(x));
    a!(as_u8, x => ns(&[x]));
    a!(as_i8, x => ns(&[x]));
    a!(as_u16, x => ns(&[x]));
    a!(as_i16, x => ns(&[x]));
    a!(as_u32, x => ns(&[x]));
    a!(as_i32, x => ns(&[x]));
    a!(as_u64, x => ns(&[x]));
    a!(as_i64, x => ns(&[x]));
    a!(as_f64, x => p64(x.to_bits()));
    a!(as_urational, x => json!([cu(x)]));
    a!(as_irational, x => json!([ci(x)]));
    a!(as_urational_slice, x => json!(x.iter().map(|r| cu(*r)).collect::<Vec<_>>()));
    a!(as_irational_slice, x => json!(x.iter().map(|r| ci(*r)).collect::<Vec<_>>()));
    a!(as_u8_slice, x => ns(x));
    a!(as_u16_slice, x => ns(x));
    a!(as_u32_slice, x => ns(x));
    a!(as_undefined, x => json!(x));
    a!(as_datetime, x => json!(date(x)));
    let int = e.try_as_integer().map(|x| json!(x.to_string())).unwrap_or(json!("none"));
    let f = e.try_as_float();
    let float = match (f, &v["exp"]["float"]) {
        (None, _) => json!("none"),
        (Some(x), w) if w.get("bits").is_some() => json!({"bits": p64(x.to_bits())}),
        (Some(x), w) if w.get("q").is_some() => {
            let s = strs(&w["q"]);
            // exact operands, correctly rounded quotient
            let q = num::<i64>(&s[0]) as f64 / num::<i64>(&s[1]) as f64;
            if q == x { json!({"q": w["q"]}) } else { json!({"q": x}) }
        }
        (Some(x), _) => json!({"i": format!("{x:.0}")}),
    };
    let tou = match &e {
        EntryValue::IRational(r) => URational::try_from(*r).map(cu).unwrap_or(json!("err")),
        _ => json!("n/a"),
    };
    let three = |l: LatLng| json!([cu(l.degrees), cu(l.minutes), cu(l.seconds)]);
    let latlng = match &e {
        EntryValue::URationalArray(r) => {
            let a = LatLng::try_from(r).map(three).unwrap_or(json!("err"));
            let b = LatLng::try_from(r.as_slice()).map(three).unwrap_or(json!("err"));
            if a == b { a } else { json!([a, b]) }
        }
        EntryValue::IRationalArray(r) => {
            let a = LatLng::try_from(r).map(three).unwrap_or(json!("err"));
            let b = LatLng::try_from(r.as_slice()).map(three).unwrap_or(json!("err"));
            if a == b { a } else { json!([a, b]) }
        }
        _ => json!("n/a"),
    };
    let dates: Vec<Value> = match e.as_datetime() {
        None => vec![],
        Some(d) => strs(&v["fbs"])
            .iter()
            .map(|fb| {
                json!({"aware": d.aware().map(aware).unwrap_or("none".into()),
                       "naive": d.into_naive().format(F).to_string(), "or": aware(d.or_offset(offset(fb)))})
            })
            .collect(),
    };
    let disp = e.to_string();
    let js = serde_json::to_string(&e).unwrap();
    let dback = match t {
        "F32" => disp.parse::<f32>().map(|x| p32(x.to_bits())).unwrap_or(json!("?")),
        "F64" => disp.parse::<f64>().map(|x| p64(x.to_bits())).unwrap_or(json!("?")),
        _ => json!("n/a"),
    };
    let jback = match t {
        "F32" => js.parse::<f32>().map(|x| p32(x.to_bits())).unwrap_or(json!("?")),
        "F64" => js.parse::<f64>().map(|x| p64(x.to_bits())).unwrap_or(json!("?")),
        _ => json!("n/a"),
    };
    let o = json!({"acc": acc, "int": int, "float": float, "tou": tou, "latlng": latlng, "dates": dates, "disp": disp,
                   "json": canon_json(&serde_json::from_str(&js).unwrap()), "dback": dback, "jback": jback});
    let keys = crate::kinds::keys();
    for (k, x) in v["exp"].as_object().unwrap() {
        if !keys.is_empty() && !keys.contains(k) {
            continue;
        }
        if let Err(m) = cmp::matches(x, &o[k], k) {
            return Err(Viol { msg: format!("{t} {}: {m}", cmp::short(&v["id"]["v"])), detail: o });
        }
    }
    Ok(20)
}

/// h10: tenths of hundredths of arc seconds
pub fn deg(v: &Value) -> R {
    let id = &v["id"];
    let neg = id["neg"] == true;
    let x = match id["x"].as_str() {
        Some("nan") => f64::NAN,
        Some("inf") => f64::INFINITY,
        Some("over") => 180.0 + 1e-9,
        Some("far") => 1e300,
        Some(s) => panic!("{s}"),
        None => id["x"].as_u64().unwrap() as f64 / 3_600_000.0,
    };
    let x = if neg { -x } else { x };
    let o = match LatLng::try_from_decimal_degrees(x) {
        Err(_) => json!("err"),
        Ok(l) => {
            let (d, m, s) = (l.degrees.to_f64(), l.minutes.to_f64(), l.seconds.to_f64());
            match (d, m, s) {
                (Some(d), Some(m), Some(s)) => {
                    let sum = d + m / 60.0 + s / 3600.0;
                    let close = (sum - x.abs()).abs() <= 0.0051 / 3600.0;
                    let back = l.to_decimal_degrees().is_some_and(|b| (b - sum).abs() < 1e-9);
                    json!({"close": close, "norm": d.fract() == 0.0 && m.fract() == 0.0 && m < 60.0 && s < 60.0 && d <= 180.0, "back": back})
                }
                _ => json!("zero denominator"),
            }
        }
    };
    cmp::matches(&v["exp"], &o, "deg").map_err(|m| Viol { msg: format!("{x}: {m}"), detail: json!(null) })?;
    Ok(2)
}

pub fn refs(v: &Value) -> R {
    for c in 0u32..0x250 {
        let ch = char::from_u32(c).unwrap();
        let o = json!({
            "lat": LatRef::from_char(ch).map(|x| json!([x.as_char().to_string(), x.sign() as i64])).unwrap_or(json!("none")),
            "lon": LonRef::from_char(ch).map(|x| json!([x.as_char().to_string(), x.sign() as i64])).unwrap_or(json!("none")),
            "speed": SpeedUnit::from_char(ch).map(|x| json!(x.as_char().to_string())).unwrap_or(json!("none")),
        });
        let e = v["table"].as_array().unwrap().iter().find(|r| r["c"].as_u64() == Some(c as u64)).map(|r| r["exp"].clone())
            .unwrap_or(json!({"lat": "none", "lon": "none", "speed": "none"}));
        cmp::matches(&e, &o, "ref").map_err(|m| Viol::new(format!("{ch:?}: {m}")))?;
    }
    Ok(0x250)
}
