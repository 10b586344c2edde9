//! "cli": runs of the rexiftool binary (NXH_TOOL) on files the specification
//! has put into a scratch directory; what is printed is laid out by the
//! specification, with the values' own renderings filled in.
use super::paths::guard;
use super::{Viol, R};
use crate::{cmp, obs, render};
use nom_exif::*;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn scratch() -> Scratch {
    let p = std::env::temp_dir().join(format!("nxh-cli-{}-{:?}", std::process::id(), std::thread::current().id()).replace(['(', ')'], ""));
    let _ = std::fs::remove_dir_all(&p);
    std::fs::create_dir_all(p.join("in/sub")).unwrap();
    Scratch(p)
}
fn viol(m: impl Into<String>, v: &Value) -> Viol {
    Viol { msg: m.into(), detail: v["id"].clone() }
}
/// what the library itself says about the file: entries and track fields
type Lib = (Vec<ExifIterEntry>, Vec<(String, EntryValue)>);
fn library(data: &[u8]) -> Lib {
    let ms = || MediaSource::from_memory(data.to_vec());
    let es = ms().and_then(|m| MediaParser::new().parse_image_metadata(m)).ok().and_then(|m| m.exif).map(|x| x.collect()).unwrap_or_default();
    let tr = ms().and_then(|m| MediaParser::new().parse_track(m)).map(|t| t.iter().map(|(k, v)| (k.name().to_string(), v.clone())).collect()).unwrap_or_default();
    (es, tr)
}
fn pair(out: &mut String, key: &str, value: &str, w: usize, limits: Option<(usize, usize)>) {
    if value.is_empty() {
        *out += &format!("{key:<w$}: (empty)\n");
        return;
    }
    let lines: Vec<&str> = value.split('\n').collect();
    let (chars, most) = limits.unwrap_or((usize::MAX, usize::MAX));
    let s = |n: usize| if n == 1 { "" } else { "s" };
    for (i, l) in lines.iter().take(most).enumerate() {
        let n = l.chars().count();
        let shown = if n <= chars { l.to_string() } else { format!("{}… (+{} char{})", l.chars().take(chars).collect::<String>(), n - chars, s(n - chars)) };
        let k = if i == 0 { format!("{key:<w$}: ") } else { " ".repeat(w + 2) };
        *out += &format!("{k}{shown}\n");
    }
    if lines.len() > most {
        let n = lines.len() - most;
        *out += &format!("{}… (+{n} more line{})\n", " ".repeat(w + 2), s(n));
    }
}
fn add(m: &mut Map<String, Value>, nest: &str, key: &str, v: Value) {
    let m = match nest {
        "" => m,
        n => m.entry(n).or_insert(json!({})).as_object_mut().unwrap(),
    };
    m.insert(key.to_string(), v);
}
/// text and JSON the tool must print
fn expected(f: &Value, v: &Value, lib: &Lib, full: bool) -> std::result::Result<(String, Value), String> {
    let limits = if full { None } else { Some((v["maxchars"].as_u64().unwrap() as usize, v["maxlines"].as_u64().unwrap() as usize)) };
    let rule = v["rule"].as_u64().unwrap() as usize;
    let (mut out, mut js) = (String::new(), Map::new());
    for sec in f["secs"].as_array().unwrap() {
        if !out.is_empty() {
            out.push('\n');
        }
        let head = sec["head"].as_str().unwrap();
        if !head.is_empty() {
            let h = format!("-- {head} ");
            out += &format!("{h}{}\n", "-".repeat(rule - h.len()));
        }
        let w = sec["w"].as_u64().unwrap() as usize;
        match sec["s"].as_str().unwrap() {
            "exif" => {
                for e in sec["list"].as_array().unwrap() {
                    let (ifd, code) = (e[0].as_u64().unwrap() as usize, e[1].as_u64().unwrap() as u16);
                    let x = lib.0.iter().find(|x| x.ifd().as_usize() == ifd && x.tag().code() == code).and_then(|x| x.value());
                    let x = x.ok_or(format!("the library does not deliver entry {e}"))?;
                    cmp::matches(&e[3], &obs::val(x), "value").map_err(|m| format!("the library's entry {e}: {m}"))?;
                    pair(&mut out, e[2].as_str().unwrap(), &x.to_string(), w, limits);
                    add(&mut js, e[4].as_str().unwrap(), e[2].as_str().unwrap(), serde_json::to_value(x).unwrap());
                }
            }
            "track" => {
                let nest = sec["nest"].as_str().unwrap();
                let empty = Map::new();
                let fields = sec["fields"].as_object().unwrap_or(&empty);
                if !nest.is_empty() {
                    js.insert(nest.to_string(), json!({}));
                }
                if lib.1.len() != fields.len() {
                    return Err(format!("the library's track has {} fields", lib.1.len()));
                }
                for (k, x) in &lib.1 {
                    cmp::matches(fields.get(k).unwrap_or(&Value::Null), &obs::val(x), "field").map_err(|m| format!("the library's field {k}: {m}"))?;
                    pair(&mut out, k, &x.to_string(), w, limits);
                    add(&mut js, nest, k, serde_json::to_value(x).unwrap());
                }
            }
            _ => {
                let mut all: BTreeMap<&str, Vec<Value>> = BTreeMap::new();
                for e in sec["list"].as_array().unwrap() {
                    let (k, t) = (e[0].as_str().unwrap(), e[1].as_str().unwrap());
                    pair(&mut out, k, t, w, limits);
                    all.entry(k).or_default().push(json!(t));
                }
                for (k, mut ts) in all {
                    let t = if ts.len() == 1 { ts.pop().unwrap() } else { json!(ts) };
                    add(&mut js, sec["nest"].as_str().unwrap(), k, t);
                }
            }
        }
    }
    Ok((out, Value::Object(js)))
}
fn body(got: &str, f: &Value, exp: &(String, Value), as_json: bool) -> std::result::Result<(), String> {
    if f["cut"] == true && f["fails"] == false {
        return Ok(());
    }
    if f["fails"] == true {
        return if got.is_empty() { Ok(()) } else { Err(format!("prints {got:?} for an unusable file")) };
    }
    if as_json {
        let j: Value = serde_json::from_str(got).map_err(|e| format!("prints no valid JSON: {e}: {got:?}"))?;
        cmp::matches(&exp.1, &j, "json")
    } else if got != exp.0 {
        let (mut a, mut b) = (got.lines(), exp.0.lines());
        loop {
            match (a.next(), b.next()) {
                (None, None) => return Err("differs in line ends".into()),
                (x, y) if x != y => return Err(format!("prints {x:?} instead of {y:?}")),
                _ => {}
            }
        }
    } else {
        Ok(())
    }
}
pub fn run(v: &Value) -> R {
    let tool = std::env::var("NXH_TOOL").expect("NXH_TOOL");
    let dir = scratch();
    let inp = dir.0.join("in");
    let files = v["files"].as_array().unwrap();
    let opts: Vec<&str> = v["opts"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
    let (as_json, full) = (opts.contains(&"--json"), opts.contains(&"--full"));
    let mut exps = vec![];
    let mut paths = vec![];
    for f in files {
        let data = render::render(&f["parts"]);
        let p = inp.join(format!("{} é.bin", f["name"].as_str().unwrap()));
        std::fs::write(&p, &data).unwrap();
        paths.push(p);
        let mut e = Ok((String::new(), Value::Null));
        let o = guard(|| {
            e = if f["cut"] == true { Ok((String::new(), json!({}))) } else { expected(f, v, &library(&data), full) };
            Value::Null
        });
        if let Some(p) = o.get("panic") {
            return Err(viol(format!("library panic {p}"), v));
        }
        exps.push(e.map_err(|m| viol(m, v))?);
    }
    let arg = v["arg"].as_str().unwrap();
    let run = |a: &Path, cwd: &Path, more: &[&str]| {
        let o = Command::new(&tool).arg(a).args(&opts).args(more).current_dir(cwd).stdin(Stdio::null()).env_remove("RUST_LOG").output().expect("tool");
        (o.status.code(), String::from_utf8(o.stdout), String::from_utf8_lossy(&o.stderr).into_owned())
    };
    let (code, out, err) = match arg {
        "file" => run(&paths[0], &dir.0, &[]),
        "debug" => run(&paths[0], &dir.0, &["--debug"]),
        "rel" => run(Path::new(paths[0].file_name().unwrap()), &inp, &[]),
        "link" => {
            let l = dir.0.join("link");
            std::os::unix::fs::symlink(&paths[0], &l).unwrap();
            run(&l, &dir.0, &[])
        }
        "missing" => run(&inp.join("nothing.jpg"), &dir.0, &[]),
        _ => {
            std::fs::write(inp.join("sub/inner.jpg"), b"not a file of this directory").unwrap();
            let _ = Command::new("mkfifo").arg(inp.join("pipe")).output();
            run(&inp, &dir.0, &[])
        }
    };
    let out = out.map_err(|_| viol("prints no valid UTF-8", v))?;
    if code != Some(if arg == "missing" { 1 } else { 0 }) {
        return Err(viol(format!("exit status {code:?}: {err}"), v));
    }
    match arg {
        "debug" => {}
        "missing" => {
            if err.is_empty() || !out.is_empty() {
                return Err(viol(format!("prints {out:?} and {err:?} for a missing file"), v));
            }
        }
        "dir" => {
            let mark = format!("File: {}/", inp.display());
            let mut got: BTreeMap<String, String> = BTreeMap::new();
            let mut cur: Option<String> = None;
            for l in out.split_inclusive('\n') {
                if let Some(n) = l.strip_prefix(&mark) {
                    let n = n.trim_end().to_string();
                    if got.insert(n.clone(), String::new()).is_some() {
                        return Err(viol(format!("reports {n} twice"), v));
                    }
                    cur = Some(n);
                } else if let Some(c) = &cur {
                    got.get_mut(c).unwrap().push_str(l);
                } else if !l.trim().is_empty() {
                    return Err(viol(format!("prints {l:?} in front of all files"), v));
                }
            }
            for ((f, e), p) in files.iter().zip(&exps).zip(&paths) {
                let n = p.file_name().unwrap().to_string_lossy().into_owned();
                let g = got.remove(&n).ok_or(viol(format!("does not report {n}"), v))?;
                let rule = format!("{}\n", "-".repeat(v["rule"].as_u64().unwrap() as usize));
                let g = g.strip_prefix(&rule).ok_or(viol(format!("{n}: no rule below the name: {g:?}"), v))?;
                // the blank lines in front of the next file
                let own: usize = e.0.len() - e.0.trim_end_matches('\n').len();
                let g = format!("{}{}", g.trim_end_matches('\n'), "\n".repeat(if as_json { 0 } else { own }));
                body(&g, f, e, as_json).map_err(|m| viol(format!("{n}: {m}"), v))?;
            }
            if let Some(n) = got.keys().next() {
                return Err(viol(format!("reports {n:?}"), v));
            }
            let loud = files.iter().any(|f| f["loud"] == true);
            if err.is_empty() && loud || !err.is_empty() && files.iter().all(|f| f["quiet"] == true) {
                return Err(viol(format!("error output {err:?}"), v));
            }
        }
        _ => {
            body(&out, &files[0], &exps[0], as_json).map_err(|m| viol(m, v))?;
            if files[0]["loud"] == true && err.is_empty() || files[0]["quiet"] == true && !err.is_empty() {
                return Err(viol(format!("error output {err:?}"), v));
            }
        }
    }
    Ok(1 + files.len() as u64)
}
