//! Tag codes and names (C24).
use super::{meta, Viol, R};
use nom_exif::*;
use serde_json::{json, Value};
use std::str::FromStr;

fn one(code: u16, name: &str) -> std::result::Result<(), String> {
    let t = TagOrCode::from(code);
    if t.code() != code {
        return Err(format!("TagOrCode::from({code}).code() = {}", t.code()));
    }
    match ExifTag::from_code(code) {
        Some(x) => {
            if x.code() != code {
                return Err(format!("from_code({code}) = {x:?} with code {}", x.code()));
            }
            if !name.is_empty() && x.name() != name {
                return Err(format!("code {code} is named {:?}, not {name:?}", x.name()));
            }
            if ExifTag::from_str(x.name()).ok() != Some(x) {
                return Err(format!("from_str({:?}) is not {x:?}", x.name()));
            }
            if x.to_string() != x.name() || t.to_string() != x.name() {
                return Err(format!("{x:?} displays as {} / {}", x, t));
            }
            if t.tag() != Some(x) {
                return Err(format!("TagOrCode::from({code}).tag() = {:?}", t.tag()));
            }
            // serde renders the identifier and reads it back
            let j = serde_json::to_value(x).map_err(|e| e.to_string())?;
            if serde_json::from_value::<ExifTag>(j.clone()).ok() != Some(x) {
                return Err(format!("{x:?} does not round-trip through {j}"));
            }
        }
        None => {
            if !name.is_empty() {
                return Err(format!("code {code} ({name}) is not recognised"));
            }
            if !matches!(t, TagOrCode::Unknown(c) if c == code) || t.tag().is_some() {
                return Err(format!("unknown code {code} became {t:?}"));
            }
        }
    }
    if !name.is_empty() && ExifTag::from_str(name).map(|t| t.code()).ok() != Some(code) {
        return Err(format!("from_str({name:?}) is not {code}"));
    }
    let j = serde_json::to_value(t).map_err(|e| e.to_string())?;
    if serde_json::from_value::<TagOrCode>(j.clone()).ok() != Some(t) {
        return Err(format!("{t:?} does not round-trip through {j}"));
    }
    Ok(())
}

pub fn run(v: &Value) -> R {
    let mut n = 0;
    let mut shown = std::collections::HashMap::new();
    for c in v["codes"].as_array().unwrap() {
        let code = c[0].as_u64().unwrap() as u16;
        one(code, c[1].as_str().unwrap()).map_err(|m| Viol::new(m))?;
        // distinct codes are displayed differently
        if let Some(o) = shown.insert(TagOrCode::from(code).to_string(), code) {
            return Err(Viol::new(format!("codes {o} and {code} are displayed alike")));
        }
        n += 8;
    }
    for t in v["track"].as_array().unwrap() {
        let s = t.as_str().unwrap();
        let x = TrackInfoTag::from_str(s).map_err(|_| Viol::new(format!("track tag {s} unknown")))?;
        if x.name() != s || x.to_string() != s {
            return Err(Viol::new(format!("track tag {s} is named {} / {}", x.name(), x)));
        }
        n += 3;
    }
    for s in ["", "Bogus", "MakeModel", " Make"] {
        if ExifTag::from_str(s).is_ok() || TrackInfoTag::from_str(s).is_ok() {
            return Err(Viol::new(format!("{s:?} is not the name of a tag")));
        }
    }
    // a name is accepted exactly if it is one of the list
    let list = |k: &str| v[k].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect::<Vec<_>>();
    let (exif, track) = (list("all"), list("track"));
    // (names other programs use for such data)
    let others = ["Artist", "Title", "Comment", "Description", "Copyright", "Duration", "Location", "Latitude", "Longitude", "GPS", "Gps", "GpsInfo",
        "GPSIFD", "Camera", "Vendor", "Manufacturer", "Date", "CreationDate", "CreateTime", "DateTime", "ModifyDate", "DateTimeOriginal", "Encoder",
        "Application", "Name", "ImageHeight", "ImageWidth", "PixelWidth", "Lens", "ISO", "Exposure", "Aperture", "FocalLength", "Rotation", "Size",
        "0x010f", "271", "Unknown(0x010f)", "Unknown"];
    for s in exif.iter().chain(&track).chain(&others) {
        for s in [s.to_string(), s.to_lowercase(), s.to_uppercase(), format!("{s} "), format!("{s}2"), s[1..].to_string(), s[..s.len() - 1].to_string()] {
            if ExifTag::from_str(&s).is_ok_and(|x| !exif.contains(&&s[..]) && x.name() != s) || TrackInfoTag::from_str(&s).is_ok() && !track.contains(&&s[..]) {
                return Err(Viol::new(format!("{s:?} is taken as the name of a tag")));
            }
            n += 2;
        }
    }
    // unrecognised codes stay what they are in the iterator
    let data = crate::render::render(&v["parts"]);
    let mut p = MediaParser::new();
    if let Ok(it) = MediaSource::from_memory(data).and_then(|ms| p.parse_exif(ms)) {
        for e in it {
            let t = e.tag();
            if t != TagOrCode::from(t.code()) {
                return Err(Viol { msg: format!("entry tag {t:?} for code {}", t.code()), detail: json!(null) });
            }
            n += 1;
        }
    }
    Ok(n + meta::run(v)?)
}
