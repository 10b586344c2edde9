//! "session": a history of one parser and of the results obtained from it.
//! files: name -> parts; ans: name -> the answer of each call; ops: the steps
//! with the file and the entry position the specification expects.
use super::paths::*;
use super::{Viol, R};
use crate::reader::{Sched, TR};
use crate::{cmp, obs, render};
use nom_exif::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::Arc;

enum Slot {
    Iter(ExifIter),
    Eager(Exif),
}
struct File {
    data: Arc<Vec<u8>>,
    entries: Vec<Value>,
    codes: Vec<(usize, u16)>,
    ans: Value,
}
fn mode(s: &str) -> Mode {
    use Mode::*;
    match s {
        "Mem" => Mem,
        "MemOld" => MemOld,
        "Seek" => Seek,
        "Unseek" => Unseek,
        "File" => File,
        "AMem" => AMem,
        "ASeek" => ASeek,
        "AUnseek" => AUnseek,
        "AFile" => AFile,
        x => panic!("mode {x}"),
    }
}
fn callk(s: &str) -> Call {
    match s {
        "exif" => Call::Exif,
        "track" => Call::Track,
        "imeta" => Call::Imeta,
        "eager" => Call::Eager,
        x => panic!("call {x}"),
    }
}
/// A parse whose iterator is kept.
#[allow(deprecated)]
fn keep(p: &mut MediaParser, tr: TR, m: &Mode, imeta: bool) -> Result<Option<ExifIter>> {
    fn go<Rd: std::io::Read>(p: &mut MediaParser, ms: MediaSource<Rd>, imeta: bool) -> Result<Option<ExifIter>> {
        if imeta {
            p.parse_image_metadata(ms).map(|m| m.exif)
        } else {
            p.parse_exif(ms).map(Some)
        }
    }
    async fn ago<Rd: tokio::io::AsyncRead + Unpin + Send>(p: &mut MediaParser, ms: AsyncMediaSource<Rd>, imeta: bool) -> Result<Option<ExifIter>> {
        if imeta {
            p.parse_image_metadata_async(ms).await.map(|m| m.exif)
        } else {
            p.parse_exif_async(ms).await.map(Some)
        }
    }
    let bytes = tr.data.as_ref().clone();
    match m {
        Mode::Mem => go(p, MediaSource::from_memory(bytes)?, imeta),
        Mode::MemOld if imeta => go(p, MediaSource::from_memory(bytes)?, imeta),
        Mode::MemOld => p.parse_exif_from_bytes(MediaSource::<()>::from_bytes(bytes)?).map(Some),
        Mode::Seek => go(p, MediaSource::seekable(tr)?, imeta),
        Mode::Unseek => go(p, MediaSource::unseekable(tr)?, imeta),
        Mode::File => with_file(&bytes, |f| go(p, MediaSource::open(f)?, imeta)),
        Mode::AMem => block(async { ago(p, AsyncMediaSource::from_memory(bytes)?, imeta).await }),
        Mode::ASeek => block(async { ago(p, AsyncMediaSource::seekable(tr).await?, imeta).await }),
        Mode::AUnseek => block(async { ago(p, AsyncMediaSource::unseekable(tr).await?, imeta).await }),
        Mode::AFile => with_file(&bytes, |f| block(async { ago(p, AsyncMediaSource::open(f).await?, imeta).await })),
        Mode::Helper | Mode::HelperMem | Mode::AHelper => panic!("helpers have no parser"),
    }
}
/// Polls an async parse n times, then drops it.
fn cancel(p: &mut MediaParser, tr: TR, m: &Mode, c: Call, n: usize) {
    let seek = *m == Mode::ASeek;
    let fut = async {
        let ms = if seek { AsyncMediaSource::seekable(tr).await } else { AsyncMediaSource::unseekable(tr).await };
        let Ok(ms) = ms else { return };
        match c {
            Call::Track => drop(p.parse_track_async(ms).await),
            Call::Imeta => drop(p.parse_image_metadata_async(ms).await),
            _ => drop(p.parse_exif_async(ms).await),
        }
    };
    let mut fut = Box::pin(fut);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    for _ in 0..n {
        if std::future::Future::poll(fut.as_mut(), &mut cx).is_ready() {
            return;
        }
    }
}
fn rest(it: &mut ExifIter, n: usize) -> Vec<Value> {
    let mut v = vec![];
    for _ in 0..n {
        match it.next() {
            Some(e) => v.push(obs::entry(&e)),
            None => break,
        }
    }
    v
}
pub fn run(v: &Value) -> R {
    let mut files: HashMap<String, File> = HashMap::new();
    for (n, parts) in v["files"].as_object().into_iter().flatten() {
        let ans = v["ans"][n].clone();
        let entries = ans["exif"]["ok"]["entries"].as_array().cloned().unwrap_or_default();
        let codes = entries.iter().map(|e| (e[0].as_u64().unwrap() as usize, e[1].as_u64().unwrap() as u16)).collect();
        files.insert(n.clone(), File { data: Arc::new(render::render(parts)), entries, codes, ans });
    }
    let empty = vec![];
    let ops = v["ops"].as_array().unwrap_or(&empty);
    let mut parser = MediaParser::new();
    let mut slots: Vec<Option<Slot>> = (0..10).map(|_| None).collect();
    let mut n = 0u64;
    let fail = |i: usize, o: &Value, m: String| {
        Err(Viol { msg: format!("step {} {}: {m}", i + 1, cmp::short(o)), detail: json!({"step": i + 1, "op": o}) })
    };
    let sched = |o: &Value, i: usize| if o["sched"] == "rand" { Sched::Rand(i as u64 * 7919 + 13, true) } else { Sched::Full };
    for (i, o) in ops.iter().enumerate() {
        n += 1;
        let op = o["op"].as_str().unwrap();
        let at = o["at"].as_u64().unwrap_or(0) as usize;
        let h = o["h"].as_u64().unwrap_or(0) as usize;
        let f = o["f"].as_str().and_then(|f| files.get(f));
        match op {
            "newparser" => parser = MediaParser::new(),
            "parse" => {
                let f = f.unwrap();
                let (m, s, ck) = (mode(o["mode"].as_str().unwrap()), sched(o, i), o["call"].as_str().unwrap());
                let k = o["keep"].as_u64().unwrap() as usize;
                if k > 0 {
                    let tr = TR::new(f.data.clone(), s);
                    let mut got = None;
                    let r = guard(|| match keep(&mut parser, tr, &m, ck == "imeta") {
                        Ok(Some(it)) => {
                            got = Some(it);
                            Value::Null
                        }
                        Ok(None) => json!({"ok": "no exif"}),
                        Err(e) => obs::err(&e),
                    });
                    match got {
                        Some(it) => slots[k] = Some(Slot::Iter(it)),
                        None => return fail(i, o, format!("expected Exif, got {r}")),
                    }
                } else {
                    let path = Path { mode: m, sched: s };
                    let r = call(&f.data, &path, callk(ck), &mut parser);
                    let mut want = f.ans[ck].clone();
                    if o["fresh"] == true {
                        let w = call(&f.data, &path, callk(ck), &mut MediaParser::new());
                        if r != w {
                            return fail(i, o, format!("a new parser answers {}, this one {}", cmp::short(&w), cmp::short(&r)));
                        }
                        if w["panic"].is_string() {
                            return fail(i, o, format!("{w}"));
                        }
                        want = json!({"xany": true});
                    }
                    if let Err(m) = cmp::matches(&want, &r, ck) {
                        return fail(i, o, m);
                    }
                }
            }
            "fault" | "cancel" => {
                let f = f.unwrap();
                let m = mode(o["mode"].as_str().unwrap());
                let mut tr = TR::new(f.data.clone(), sched(o, i));
                let c = callk(o["call"].as_str().unwrap());
                let r = if op == "fault" {
                    tr.fault = Some((at, std::io::ErrorKind::ConnectionReset, true));
                    call_tr(tr, &Path { mode: m, sched: Sched::Full }, c, &mut parser)
                } else {
                    tr = TR::new(f.data.clone(), Sched::Rand(i as u64 + at as u64 * 31, true));
                    guard(|| {
                        cancel(&mut parser, tr, &m, c, at);
                        Value::Null
                    })
                };
                if r["panic"].is_string() {
                    return fail(i, o, format!("{r}"));
                }
            }
            "drop" => slots[h] = None,
            "par" => {
                let f = f.unwrap();
                let hf = &files[o["hf"].as_str().unwrap()];
                let Some(Slot::Iter(mut it)) = slots[h].take() else { panic!("slot") };
                let path = Path { mode: mode(o["mode"].as_str().unwrap()), sched: sched(o, i) };
                let ck = o["call"].as_str().unwrap();
                let (got, it, r) = std::thread::scope(|sc| {
                    let t = sc.spawn(move || {
                        let mut v = vec![];
                        while let Some(e) = it.next() {
                            v.push(obs::entry(&e));
                            std::thread::yield_now();
                        }
                        (v, it)
                    });
                    let r = call(&f.data, &path, callk(ck), &mut parser);
                    let (v, it) = t.join().unwrap();
                    (v, it, r)
                });
                slots[h] = Some(Slot::Iter(it));
                if let Err(m) = cmp::matches(&json!(hf.entries[at..]), &json!(got), "entries") {
                    return fail(i, o, m);
                }
                if o["fresh"] != true {
                    if let Err(m) = cmp::matches(&f.ans[ck], &r, ck) {
                        return fail(i, o, m);
                    }
                }
            }
            _ => {
                // operations on a handle
                let res: std::result::Result<(), String> = match (op, slots[h].take()) {
                    ("read", Some(Slot::Eager(x))) => {
                        let f = f.unwrap();
                        let r = guard(|| obs::exif_eager(&x, &f.codes));
                        slots[h] = Some(Slot::Eager(x));
                        cmp::matches(&f.ans["eager"]["ok"], &r, "eager")
                    }
                    (_, Some(Slot::Iter(mut it))) => {
                        let mut res: std::result::Result<(), String> = Ok(());
                        match op {
                            "take" | "drain" => {
                                let f = f.unwrap();
                                let k = if op == "take" { o["n"].as_u64().unwrap() as usize } else { 100_000 };
                                let r = guard(|| json!(rest(&mut it, k)));
                                let to = (at + k).min(f.entries.len());
                                res = cmp::matches(&json!(f.entries[at..to]), &r, "entries");
                            }
                            "thread" => {
                                let f = f.unwrap();
                                let (r, x) = std::thread::spawn(move || {
                                    let r = guard(|| json!(rest(&mut it, 100_000)));
                                    (r, it)
                                })
                                .join()
                                .unwrap();
                                it = x;
                                res = cmp::matches(&json!(f.entries[at..]), &r, "entries");
                            }
                            "clone" | "rewound" => {
                                let c = if op == "clone" { it.clone() } else { it.clone_rewound() };
                                slots[o["to"].as_u64().unwrap() as usize] = Some(Slot::Iter(c));
                            }
                            "rewind" => it.rewind(),
                            // drained, rewound or copied, drained, ...
                            "rounds" | "copies" => {
                                let f = f.unwrap();
                                for j in 0..=o["n"].as_u64().unwrap() {
                                    let from = if j == 0 { at } else { 0 };
                                    let r = guard(|| json!(rest(&mut it, 100_000)));
                                    res = cmp::matches(&json!(f.entries[from..]), &r, &format!("entries, round {j}"));
                                    if res.is_err() {
                                        break;
                                    }
                                    match (op, j % 2) {
                                        ("rounds", _) => it.rewind(),
                                        (_, 0) => it = it.clone(),
                                        _ => it = it.clone_rewound(),
                                    }
                                }
                            }
                            "gps" => {
                                let r = guard(|| match it.parse_gps() {
                                    Ok(g) => obs::gps_opt(g.as_ref()),
                                    Err(e) => obs::err(&e),
                                });
                                res = cmp::matches(&f.unwrap().ans["exif"]["ok"]["gps"], &r, "gps");
                            }
                            "emb" => {
                                res = cmp::matches(&f.unwrap().ans["exif"]["ok"]["embedded"], &json!(it.has_embedded_track()), "embedded")
                            }
                            "debug" => {
                                if format!("{it:?}").is_empty() {
                                    res = Err("empty Debug".into())
                                }
                            }
                            "intoclone" => {
                                let f = f.unwrap();
                                let r = guard(|| obs::exif_eager(&it.clone().into(), &f.codes));
                                res = cmp::matches(&f.ans["eager"]["ok"], &r, "eager");
                            }
                            "toexif" => {
                                // the conversion itself, below
                            }
                            x => panic!("op {x}"),
                        }
                        slots[h] = Some(if op == "toexif" { Slot::Eager(it.into()) } else { Slot::Iter(it) });
                        res
                    }
                    _ => panic!("slot {h} for {op}"),
                };
                if let Err(m) = res {
                    return fail(i, o, m);
                }
            }
        }
    }
    cleanup();
    Ok(n)
}
