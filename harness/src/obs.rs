//! Projections of library results to JSON.
use nom_exif::*;
use serde_json::{json, Value};

pub fn hl(x: u32) -> Value {
    json!([x >> 16, x & 0xffff])
}
pub fn hl64(x: u64) -> Value {
    json!([x >> 48, (x >> 32) & 0xffff, (x >> 16) & 0xffff, x & 0xffff])
}
pub fn val(v: &EntryValue) -> Value {
    use EntryValue::*;
    match v {
        Text(s) => json!(["Text", s]),
        U8(x) => json!(["U8", [x]]),
        U8Array(x) => json!(["U8Array", x]),
        U16(x) => json!(["U16", [x]]),
        U16Array(x) => json!(["U16Array", x]),
        U32(x) => json!(["U32", [hl(*x)]]),
        U32Array(x) => json!(["U32Array", x.iter().map(|x| hl(*x)).collect::<Vec<_>>()]),
        U64(x) => json!(["U64", x.to_string()]),
        I8(x) => json!(["I8", [x]]),
        I16(x) => json!(["I16", [x]]),
        I32(x) => json!(["I32", [hl(*x as u32)]]),
        I64(x) => json!(["I64", x.to_string()]),
        F32(x) => json!(["F32", [hl(x.to_bits())]]),
        F64(x) => json!(["F64", [hl64(x.to_bits())]]),
        URational(r) => json!(["URational", [[hl(r.numerator()), hl(r.denominator())]]]),
        IRational(r) => json!(["IRational", [[hl(r.numerator() as u32), hl(r.denominator() as u32)]]]),
        URationalArray(a) => json!(["URationalArray", a.iter().map(|r| json!([hl(r.numerator()), hl(r.denominator())])).collect::<Vec<_>>()]),
        IRationalArray(a) => json!(["IRationalArray", a.iter().map(|r| json!([hl(r.numerator() as u32), hl(r.denominator() as u32)])).collect::<Vec<_>>()]),
        Undefined(b) => json!(["Undefined", b]),
        DateTime(t) => json!(["DateTime", t.format("%Y-%m-%dT%H:%M:%S%.f%:z").to_string()]),
        NaiveDateTime(t) => json!(["NaiveDateTime", t.format("%Y-%m-%dT%H:%M:%S%.f").to_string()]),
        other => json!(["?", format!("{other:?}")]),
    }
}
pub fn entry_err(e: &EntryError) -> Value {
    match e {
        EntryError::Truncated { needed, available } if needed <= available => json!("truncated, although there are enough bytes"),
        EntryError::Truncated { needed, available } => json!(["!", "Truncated", [needed.to_string(), available.to_string()]]),
        EntryError::InvalidShape { format, count } => json!(["!", "InvalidShape", [format, hl(*count)]]),
        EntryError::InvalidValue(_) => json!(["!", "InvalidValue"]),
        _ => json!(["!", "?"]),
    }
}
pub fn entry(e: &ExifIterEntry) -> Value {
    let v = match e.result() {
        Ok(v) => val(v),
        Err(e) => entry_err(e),
    };
    let same = match e.result() {
        Ok(v) => e.value().map(val) == Some(val(v)) && e.error().is_none() && e.clone().into_result().is_ok_and(|x| val(&x) == val(v)),
        Err(x) => e.value().is_none() && e.error() == Some(x) && e.clone().into_result().is_err_and(|y| y == *x),
    };
    // the other ways of asking must agree
    let v = if same && e.tag().tag().map_or(true, |t| t.code() == e.tag().code()) { v } else { json!("value(), error() and result() differ") };
    json!([e.ifd().as_usize(), e.tag().code(), v])
}
pub fn entries(it: ExifIter) -> Value {
    // More entries than any file we produce can hold means an endless loop.
    let mut it = it;
    let v: Vec<Value> = it.by_ref().take(200_000).map(|e| entry(&e)).collect();
    // the end stays the end
    if v.len() < 200_000 && (it.next().is_some() || it.next().is_some()) {
        return json!("an exhausted iterator goes on");
    }
    // a second pass must deliver the same again
    let same = |it: &mut ExifIter| it.take(200_000).map(|e| entry(&e)).eq(v.iter().cloned());
    if !same(&mut it.clone_rewound()) {
        return json!("clone_rewound() delivers something else");
    }
    it.rewind();
    if !same(&mut it) {
        return json!("rewind() delivers something else");
    }
    Value::Array(v)
}
pub fn ll(l: &LatLng) -> Value {
    json!([
        [hl(l.degrees.numerator()), hl(l.degrees.denominator())],
        [hl(l.minutes.numerator()), hl(l.minutes.denominator())],
        [hl(l.seconds.numerator()), hl(l.seconds.denominator())]
    ])
}
pub fn gps(g: &GPSInfo) -> Value {
    let alt = match &g.altitude {
        Altitude::Unknown => json!("none"),
        Altitude::AboveSeaLevel(r) => json!(["above", [hl(r.numerator()), hl(r.denominator())]]),
        Altitude::BelowSeaLevel(r) => json!(["below", [hl(r.numerator()), hl(r.denominator())]]),
        _ => json!("?"),
    };
    let alt = match (&g.altitude, g.altitude.magnitude()) {
        (Altitude::Unknown, None) => alt,
        (Altitude::AboveSeaLevel(r) | Altitude::BelowSeaLevel(r), Some(m)) if m == *r => alt,
        _ => json!("magnitude() differs"),
    };
    let sp = match &g.speed {
        None => json!("none"),
        Some(s) => json!([s.unit.as_char().to_string(), [hl(s.value.numerator()), hl(s.value.denominator())]]),
    };
    json!({"latref": g.latitude_ref.as_char().to_string(), "lat": ll(&g.latitude),
           "lonref": g.longitude_ref.as_char().to_string(), "lon": ll(&g.longitude),
           "alt": alt, "speed": sp})
}
pub fn gps_opt(g: Option<&GPSInfo>) -> Value {
    g.map(gps).unwrap_or(json!("none"))
}
pub fn err(e: &Error) -> Value {
    json!({"err": err_class(e)})
}
pub fn err_class(e: &Error) -> String {
    match e {
        Error::Io(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => "Eof".into(),
        Error::Io(e) => format!("Io:{:?}", e.kind()),
        Error::UnsupportedFormat => "Unsupported".into(),
        Error::ExifNotFound => "ExifNotFound".into(),
        Error::TrackNotFound => "TrackNotFound".into(),
        Error::Malformed { .. } => "Malformed".into(),
        Error::UnexpectedEof { .. } => "Eof".into(),
        _ => "?".into(),
    }
}
/// the old name of the flag must agree
fn flag(new: bool, old: bool) -> Value {
    if new == old { json!(new) } else { json!("has_embedded_track() and has_embedded_media() differ") }
}
#[allow(deprecated)]
pub fn exif_iter(r: Result<ExifIter>) -> Value {
    match r {
        Ok(it) => {
            let t = flag(it.has_embedded_track(), it.has_embedded_media());
            let g = match it.parse_gps() {
                Ok(g) => gps_opt(g.as_ref()),
                Err(e) => err(&e),
            };
            json!({"ok": {"entries": entries(it), "embedded": t, "gps": g}})
        }
        Err(e) => err(&e),
    }
}
/// Every way of reading an eager Exif.
#[allow(deprecated)]
pub fn exif_eager(x: &Exif, lazy_codes: &[(usize, u16)]) -> Value {
    let iter: Vec<Value> = x.iter().map(|e| json!([e.ifd.as_usize(), e.tag.code(), val(e.value)])).collect();
    let errors: Vec<Value> = x.errors().iter().map(|(i, t, e)| json!([i.as_usize(), t.code(), entry_err(e)])).collect();
    // lookups: all directories that can matter, known and unknown codes
    let mut codes: std::collections::BTreeSet<u16> = lazy_codes.iter().map(|c| c.1).collect();
    codes.extend([0u16, 1, 2, 6, 300, 42036, 65535]);
    codes.extend((0u16..=65535).filter(|c| ExifTag::from_code(*c).is_some()));
    let dirs = 1 + lazy_codes.iter().map(|c| c.0).max().unwrap_or(0).max(2);
    let mut by_code = vec![];
    let mut by_tag = vec![];
    let mut main = vec![];
    for c in &codes {
        for d in 0..=dirs {
            if let Some(v) = x.get_by_code(IfdIndex::new(d), *c) {
                by_code.push(json!([d, c, val(v)]));
            }
            if let Some(t) = ExifTag::from_code(*c) {
                if let Some(v) = x.get_in(IfdIndex::new(d), t) {
                    by_tag.push(json!([d, c, val(v)]));
                }
            }
        }
        if let Some(t) = ExifTag::from_code(*c) {
            if let Some(v) = x.get(t) {
                main.push(json!([0, c, val(v)]));
            }
        }
    }
    json!({"iter": iter, "errors": errors, "by_code": by_code, "by_tag": by_tag, "main": main,
           "embedded": flag(x.has_embedded_track(), x.has_embedded_media()), "gps": gps_opt(x.gps_info())})
}
fn codes(it: &ExifIter) -> Vec<(usize, u16)> {
    it.clone_rewound().take(200_000).map(|e| (e.ifd().as_usize(), e.tag().code())).collect()
}
pub fn eager(r: Result<ExifIter>) -> Value {
    match r {
        Ok(it) => {
            let c = codes(&it);
            let x: Exif = it.into();
            json!({"ok": exif_eager(&x, &c)})
        }
        Err(e) => err(&e),
    }
}
fn eager_codes(x: &Exif) -> Vec<(usize, u16)> {
    x.iter().map(|e| (e.ifd.as_usize(), e.tag.code())).chain(x.errors().iter().map(|(i, t, _)| (i.as_usize(), t.code()))).collect()
}
pub fn eager_of(r: Result<Exif>) -> Value {
    match r {
        Ok(x) => json!({"ok": exif_eager(&x, &eager_codes(&x))}),
        Err(e) => err(&e),
    }
}
pub fn metadata(r: Result<Metadata>) -> Value {
    match r {
        Ok(Metadata::Exif(x)) => json!({"image": eager_of(Ok(x))}),
        Ok(Metadata::Track(t)) => json!({"track": track(Ok(t))}),
        #[allow(unreachable_patterns)]
        Ok(_) => json!("?"),
        Err(e) => err(&e),
    }
}
pub fn eager_imeta(r: Result<ImageMetadata<ExifIter>>) -> Value {
    match r {
        Ok(m) => {
            let c = m.exif.as_ref().map(codes).unwrap_or_default();
            let m: ImageMetadata = m.into();
            let text = match &m.format {
                Some(ImageFormatMetadata::Png(t)) => texts(t),
                _ => json!("none"),
            };
            let ex = m.exif.as_ref().map(|x| exif_eager(x, &c)).unwrap_or(json!("none"));
            json!({"ok": {"exif": ex, "text": text}})
        }
        Err(e) => err(&e),
    }
}
pub fn track(r: Result<TrackInfo>) -> Value {
    match r {
        Ok(t) => json!({"ok": track_info(&t)}),
        Err(e) => err(&e),
    }
}
pub fn track_info(t: &TrackInfo) -> Value {
    let mut m = serde_json::Map::new();
    for (k, v) in t.iter() {
        m.insert(k.name().to_string(), val(v));
    }
    if t.iter().any(|(k, v)| t.get(k).map(val) != Some(val(v))) {
        m.insert("get() differs".into(), json!(true));
    }
    let tags: Vec<Value> = t.iter().map(|(k, _)| json!(k.name())).collect();
    json!({"fields": m, "tags": tags, "gps": gps_opt(t.gps_info())})
}
/// The text of a PNG: in order, and by keyword.
fn texts(t: &PngTextChunks) -> Value {
    let all: Vec<(&str, &str)> = t.iter().collect();
    let mut keys: Vec<&str> = all.iter().map(|x| x.0).collect();
    keys.extend(["Author", "author", "", "K", "k", "m", " K", "K ", "no such keyword"]);
    // lookups are quadratic: long lists are not looked up
    for k in keys.iter().take(100) {
        let mine: Vec<&str> = all.iter().filter(|x| x.0 == *k).map(|x| x.1).collect();
        if t.get(k) != mine.first().copied() || t.get_all(k).collect::<Vec<_>>() != mine {
            return json!(["get() or get_all() differ", k]);
        }
    }
    if t.len() != all.len() || t.is_empty() != all.is_empty() {
        return json!("len() or is_empty() differ");
    }
    json!(all)
}
pub fn imeta(r: Result<ImageMetadata<ExifIter>>) -> Value {
    match r {
        Ok(m) => {
            let text = match &m.format {
                Some(ImageFormatMetadata::Png(t)) => texts(t),
                None => Value::Null,
                #[allow(unreachable_patterns)]
                _ => json!("?"),
            };
            let ex = match m.exif {
                Some(it) => exif_iter(Ok(it))["ok"].clone(),
                None => json!("none"),
            };
            json!({"ok": {"exif": ex, "text": if text.is_null() {json!("none")} else {text}}})
        }
        Err(e) => err(&e),
    }
}
pub fn kind(k: MediaKind) -> Value {
    json!(match k {
        MediaKind::Image => "Image",
        MediaKind::Track => "Track",
    })
}
