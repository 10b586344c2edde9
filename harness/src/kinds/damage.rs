//! "damage": edited files. Whatever the bytes, every call of the interface
//! returns in bounded time and memory; with "agree" the answer is also the
//! same whichever way the bytes are read.
use super::fault::mode;
use super::paths::*;
use super::{Viol, R};
use crate::reader::{Sched, TR};
use crate::{alloc, obs, render};
use nom_exif::*;
use serde_json::{json, Value};
use std::hint::black_box;
use std::sync::Arc;

/// every accessor, conversion and rendering of a value
pub fn value(e: &EntryValue) {
    black_box((e.as_str(), e.as_u8(), e.as_i8(), e.as_u16(), e.as_i16(), e.as_u32(), e.as_i32(), e.as_u64(), e.as_i64(), e.as_f64()));
    black_box((e.as_urational(), e.as_irational(), e.as_urational_slice(), e.as_irational_slice(), e.as_u8_slice(), e.as_u16_slice(), e.as_u32_slice(), e.as_undefined()));
    black_box((e.try_as_integer(), e.try_as_float()));
    if let Some(d) = e.as_datetime() {
        black_box((d.aware(), d.into_naive(), d.or_offset(chrono::FixedOffset::east_opt(3600).unwrap())));
    }
    match e {
        EntryValue::IRational(r) => {
            black_box((URational::try_from(*r).is_ok(), r.to_f64()));
        }
        EntryValue::URational(r) => {
            black_box(r.to_f64());
        }
        EntryValue::URationalArray(r) => {
            if let Ok(l) = LatLng::try_from(r) {
                latlng(&l)
            }
        }
        EntryValue::IRationalArray(r) => {
            if let Ok(l) = LatLng::try_from(r) {
                latlng(&l)
            }
        }
        _ => {}
    }
    black_box((e.to_string(), format!("{e:?}"), serde_json::to_string(e).is_ok()));
}
fn latlng(l: &LatLng) {
    black_box((l.to_decimal_degrees(), format!("{l:?}")));
}
fn gps(g: Option<&GPSInfo>) {
    if let Some(g) = g {
        latlng(&g.latitude);
        latlng(&g.longitude);
        black_box((g.latitude_decimal(), g.longitude_decimal(), g.altitude_meters(), g.altitude.meters(), g.altitude.magnitude()));
        let iso = g.to_iso6709();
        black_box((iso.parse::<GPSInfo>().is_ok(), format!("{g:?}")));
    }
}
/// an answer in short form: what both reading ways must agree upon
fn exif(r: Result<ExifIter>, keep: bool, n: &mut u64) -> Value {
    let it = match r {
        Ok(it) => it,
        Err(e) => {
            black_box((e.to_string(), format!("{e:?}")));
            return obs::err(&e);
        }
    };
    black_box(format!("{it:?}"));
    let emb = it.has_embedded_track();
    let g = it.parse_gps();
    gps(g.as_ref().ok().and_then(|g| g.as_ref()));
    let mut it = it;
    let mut es = vec![];
    for e in it.by_ref() {
        black_box((e.tag().to_string(), e.ifd().to_string(), format!("{e:?}")));
        match e.result() {
            Ok(v) => value(v),
            Err(e) => {
                black_box(e.to_string());
            }
        }
        if keep {
            let mut x = obs::entry(&e);
            // how much there is of an entry that exceeds the file depends on how much was read
            if x[2][1] == "Truncated" {
                x[2][2] = json!(x[2][2][0]);
            }
            es.push(x);
        }
        *n += 1;
    }
    it.rewind();
    let again = it.clone_rewound();
    let x: Exif = it.into();
    let (mut a, mut b) = (0, 0);
    for e in x.iter() {
        value(e.value);
        black_box((x.get_by_code(e.ifd, e.tag.code()), e.tag.tag().and_then(|t| x.get(t))));
        a += 1;
    }
    gps(x.gps_info());
    black_box(format!("{x:?}"));
    b += x.errors().len();
    let eager_gps = obs::gps_opt(x.gps_info());
    json!({"ok": {"embedded": emb, "gps": g.map(|g| obs::gps_opt(g.as_ref())).unwrap_or_else(|e| obs::err(&e)), "entries": es, "again": again.count(),
                  "eager": [a, b, eager_gps]}})
}
fn track(r: Result<TrackInfo>) -> Value {
    if let Ok(t) = &r {
        for (k, v) in t.iter() {
            black_box(k.to_string());
            value(v);
        }
        gps(t.gps_info());
        black_box(format!("{t:?}"));
    }
    obs::track(r)
}
fn imeta(r: Result<ImageMetadata<ExifIter>>, keep: bool, n: &mut u64) -> Value {
    match r {
        Err(e) => obs::err(&e),
        Ok(m) => {
            let text = match &m.format {
                Some(ImageFormatMetadata::Png(t)) => json!(t.iter().enumerate().map(|(i, (k, v))| {
                    if i < 20 {
                        black_box((t.get(k), t.get_all(k).count()));
                    }
                    json!([k, v])
                }).collect::<Vec<_>>()),
                _ => json!("none"),
            };
            black_box(format!("{m:?}"));
            json!({"ok": {"exif": m.exif.map(|x| exif(Ok(x), keep, n)["ok"].clone()), "text": text}})
        }
    }
}
pub fn calls(data: &Arc<Vec<u8>>, m: &Mode, c: Call, keep: bool, n: &mut u64) -> Value {
    let tr = TR::new(data.clone(), Sched::Full);
    let mut p = MediaParser::new();
    let owned = || data.as_ref().clone();
    macro_rules! sync {
        ($ms:expr) => {
            match $ms {
                Err(e) => obs::err(&e),
                Ok(ms) => match c {
                    Call::Exif => exif(p.parse_exif(ms), keep, n),
                    Call::Track => track(p.parse_track(ms)),
                    _ => imeta(p.parse_image_metadata(ms), keep, n),
                },
            }
        };
    }
    macro_rules! asy {
        ($ms:expr) => {
            block(async {
                match $ms {
                    Err(e) => obs::err(&e),
                    Ok(ms) => match c {
                        Call::Exif => exif(p.parse_exif_async(ms).await, keep, n),
                        Call::Track => track(p.parse_track_async(ms).await),
                        _ => imeta(p.parse_image_metadata_async(ms).await, keep, n),
                    },
                }
            })
        };
    }
    match m {
        Mode::Mem => sync!(MediaSource::from_memory(owned())),
        Mode::Seek => sync!(MediaSource::seekable(tr)),
        Mode::Unseek => sync!(MediaSource::unseekable(tr)),
        Mode::AMem => asy!(AsyncMediaSource::from_memory(owned())),
        Mode::ASeek => asy!(AsyncMediaSource::seekable(tr).await),
        _ => asy!(AsyncMediaSource::unseekable(tr).await),
    }
}
fn apply(data: &mut Vec<u8>, e: &Value) {
    let u = |k: &str| e[k].as_u64().unwrap() as usize;
    let len = data.len();
    match e["o"].as_str().unwrap() {
        "set" => {
            for (i, b) in e["b"].as_array().unwrap().iter().enumerate() {
                if let Some(x) = data.get_mut(u("at") + i) {
                    *x = b.as_u64().unwrap() as u8
                }
            }
        }
        "cut" => data.truncate(u("at")),
        "del" => {
            let (a, b) = (u("at").min(len), (u("at") + u("n")).min(len));
            data.drain(a..b);
        }
        // a big-endian number of w bytes becomes d larger
        "size" => {
            let mut d = e["d"].as_i64().unwrap();
            for i in (0..u("w")).rev() {
                if let Some(x) = data.get_mut(u("at") + i) {
                    d += *x as i64;
                    *x = d as u8;
                    d >>= 8;
                }
            }
        }
        "ins" => {
            let a = u("at").min(len);
            data.splice(a..a, std::iter::repeat_n(u("v") as u8, u("n")));
        }
        "dup" => {
            let (a, b) = (u("at").min(len), (u("at") + u("n")).min(len));
            let c: Vec<u8> = data[a..b].to_vec();
            data.splice(b..b, c);
        }
        // the bytes at one place overwrite those at another
        "copy" => {
            let (a, b) = (u("at").min(len), (u("at") + u("n")).min(len));
            let c: Vec<u8> = data[a..b].to_vec();
            for (i, x) in c.into_iter().enumerate() {
                if let Some(y) = data.get_mut(u("to") + i) {
                    *y = x
                }
            }
        }
        o => panic!("edit {o}"),
    }
}
/// seconds this thread has been running (a busy machine does not count)
fn cpu() -> f64 {
    let s = std::fs::read_to_string("/proc/thread-self/schedstat").unwrap_or_default();
    s.split(' ').next().and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0) / 1e9
}
struct Job<'a> {
    modes: Vec<(Mode, &'a str)>,
    cs: Vec<(Call, &'a str)>,
    agree: bool,
    /// limits: bytes beyond, and per byte of input; seconds per call
    base: usize,
    per: usize,
    secs: f64,
    n: u64,
    peak: (usize, usize),
}
impl Job<'_> {
    fn one(&mut self, data: Vec<u8>, what: impl Fn() -> String, rot: usize) -> std::result::Result<(), Viol> {
        let data = Arc::new(data);
        // streams as short as that are outside the contract of C01
        let agree = self.agree && data.len() > 128;
        for (c, cn) in self.cs.clone() {
            let mut first: Option<Value> = None;
            for (k, (m, mn)) in self.modes.iter().enumerate() {
                // without comparison one way of reading per file is enough, in turn
                if !agree && (rot + c as usize) % self.modes.len() != k {
                    continue;
                }
                let t = cpu();
                let mut entries = 0;
                let (o, peak) = alloc::peak_of(|| guard(|| calls(&data, m, c, agree, &mut entries)));
                let secs = cpu() - t;
                self.n += 1;
                let fail = |m: String| Viol { msg: format!("{cn} via {mn}, {}: {m}", what()), detail: json!({"file_len": data.len()}) };
                if let Some(p) = o.get("panic") {
                    return Err(fail(format!("panic {p}")));
                }
                if secs > self.secs {
                    return Err(fail(format!("took {secs:.1} s")));
                }
                let limit = self.base + self.per * data.len();
                if peak > limit {
                    return Err(fail(format!("used {peak} bytes of memory on {} bytes", data.len())));
                }
                if peak > self.peak.0 {
                    self.peak = (peak, data.len());
                }
                if agree {
                    // how a size beyond all bounds is reported depends on the way of reading
                    let o = match o["err"].as_str() {
                        Some(e) if e.starts_with("Io:") => json!({"err": "Eof"}),
                        _ => o,
                    };
                    match &first {
                        None => first = Some(o),
                        Some(f) => {
                            if *f != o {
                                return Err(fail(format!("{} gives {}, {mn} gives {}", self.modes[0].1, crate::cmp::short(f), crate::cmp::short(&o))));
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    }
}
pub fn run(v: &Value) -> R {
    let data = render::render(&v["parts"]);
    let names = |k: &str| v[k].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect::<Vec<_>>();
    let mut j = Job {
        modes: names("modes").into_iter().map(|s| (mode(s), s)).collect(),
        cs: names("calls").into_iter().map(|s| (super::fault::call_of(s), s)).collect(),
        agree: v["agree"] == true,
        base: v["base"].as_u64().unwrap() as usize,
        per: v["per"].as_u64().unwrap() as usize,
        secs: v["secs"].as_f64().unwrap(),
        n: 0,
        peak: (0, 0),
    };
    let mut rot = 0;
    if let Some(eds) = v["edits"].as_array() {
        for (i, l) in eds.iter().enumerate() {
            let mut d = data.clone();
            l.as_array().unwrap().iter().for_each(|e| apply(&mut d, e));
            if let Ok(p) = std::env::var("NXH_DUMP") {
                std::fs::write(&p, &d).unwrap();
            }
            j.one(d, || format!("edits {l}"), v["rot"].as_u64().unwrap_or(0) as usize + i)?;
        }
    } else {
        let stride = v["stride"].as_u64().unwrap() as usize;
        let pats: Vec<Vec<u8>> = v["pats"].as_array().unwrap().iter().map(|p| p.as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect()).collect();
        let mut k = v["rot"].as_u64().unwrap_or(0) as usize;
        for r in v["spots"].as_array().unwrap() {
            for at in r[0].as_u64().unwrap() as usize..=r[1].as_u64().unwrap() as usize {
                for p in &pats {
                    k += 1;
                    if at + p.len() > data.len() || k % stride != 0 || data[at..at + p.len()] == p[..] {
                        continue;
                    }
                    let mut d = data.clone();
                    d[at..at + p.len()].copy_from_slice(p);
                    rot += 1;
                    j.one(d, || format!("{p:?} at {at}"), rot)?;
                }
            }
        }
    }
    if std::env::var("NXH_PEAK").is_ok() {
        eprintln!("peak {:?}", j.peak);
    }
    Ok(j.n)
}
