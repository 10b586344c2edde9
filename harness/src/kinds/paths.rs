//! Access paths: every way bytes can reach the library.
use crate::obs;
use crate::reader::{Sched, TR};
use nom_exif::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Mode {
    Mem,
    MemOld,
    Seek,
    Unseek,
    File,
    AMem,
    ASeek,
    AUnseek,
    AFile,
    /// the one-call functions of the crate root
    Helper,
    HelperMem,
    AHelper,
}
pub struct Path {
    pub mode: Mode,
    pub sched: Sched,
}
impl Path {
    pub fn name(&self) -> String {
        format!("{:?}/{:?}", self.mode, self.sched)
    }
    pub fn is_mem(&self) -> bool {
        matches!(self.mode, Mode::Mem | Mode::MemOld | Mode::AMem | Mode::HelperMem)
    }
    pub fn is_async(&self) -> bool {
        matches!(self.mode, Mode::AMem | Mode::ASeek | Mode::AUnseek | Mode::AFile | Mode::AHelper)
    }
}
pub fn small_chunk(len: usize) -> usize {
    if len <= 3000 {
        1
    } else if len <= 60_000 {
        61
    } else {
        4093
    }
}
/// The full set of access paths.
pub fn all(len: usize, seed: u64, files: bool) -> Vec<Path> {
    use Mode::*;
    let k = small_chunk(len);
    let mut v = vec![
        (Mem, Sched::Full),
        (MemOld, Sched::Full),
        (Seek, Sched::Full),
        (Unseek, Sched::Full),
        (Seek, Sched::Fixed(k)),
        (Unseek, Sched::Fixed(k)),
        (Seek, Sched::Rand(seed, true)),
        (Unseek, Sched::Rand(seed + 1, true)),
        (AMem, Sched::Full),
        (ASeek, Sched::Full),
        (AUnseek, Sched::Full),
        (ASeek, Sched::Rand(seed + 2, true)),
        (AUnseek, Sched::Rand(seed + 3, true)),
    ];
    if files {
        v.push((File, Sched::Full));
        v.push((AFile, Sched::Full));
        v.push((Helper, Sched::Full));
        v.push((HelperMem, Sched::Full));
        v.push((AHelper, Sched::Full));
    }
    v.into_iter().map(|(mode, sched)| Path { mode, sched }).collect()
}
/// A cheaper set for format specs (C01 runs the full one).
pub fn some(seed: u64) -> Vec<Path> {
    use Mode::*;
    vec![(Mem, Sched::Full), (Seek, Sched::Full), (Unseek, Sched::Rand(seed, false)), (ASeek, Sched::Full)]
        .into_iter()
        .map(|(mode, sched)| Path { mode, sched })
        .collect()
}

pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().build().unwrap()
}
thread_local! {
    static RT: tokio::runtime::Runtime = rt();
    static TMP: std::path::PathBuf = {
        let d = std::env::temp_dir().join(format!("nxh-{}-{:?}", std::process::id(), std::thread::current().id()));
        d
    };
}
pub fn block<T>(f: impl std::future::Future<Output = T>) -> T {
    RT.with(|r| r.block_on(f))
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Call {
    Kind,
    Exif,
    Track,
    Imeta,
    Eager,
    EImeta,
    /// read_metadata: the helpers only
    Meta,
}
pub fn guard(f: impl FnOnce() -> Value) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            json!({"panic": format!("{m} @ {}", crate::last_panic())})
        }
    }
}
fn sync_call<Rd: std::io::Read>(p: &mut MediaParser, ms: Result<MediaSource<Rd>>, c: Call) -> Value {
    let ms = match ms {
        Ok(ms) => ms,
        Err(e) => return obs::err(&e),
    };
    match c {
        Call::Kind => obs::kind(ms.kind()),
        Call::Exif => obs::exif_iter(p.parse_exif(ms)),
        Call::Track => obs::track(p.parse_track(ms)),
        Call::Imeta => obs::imeta(p.parse_image_metadata(ms)),
        Call::Eager => obs::eager(p.parse_exif(ms)),
        Call::EImeta => obs::eager_imeta(p.parse_image_metadata(ms)),
        Call::Meta => Value::Null,
    }
}
async fn async_call<Rd: tokio::io::AsyncRead + Unpin + Send>(
    p: &mut MediaParser,
    ms: Result<AsyncMediaSource<Rd>>,
    c: Call,
) -> Value {
    let ms = match ms {
        Ok(ms) => ms,
        Err(e) => return obs::err(&e),
    };
    match c {
        Call::Kind => obs::kind(ms.kind()),
        Call::Exif => obs::exif_iter(p.parse_exif_async(ms).await),
        Call::Track => obs::track(p.parse_track_async(ms).await),
        Call::Imeta => obs::imeta(p.parse_image_metadata_async(ms).await),
        Call::Eager => obs::eager(p.parse_exif_async(ms).await),
        Call::EImeta => obs::eager_imeta(p.parse_image_metadata_async(ms).await),
        Call::Meta => Value::Null,
    }
}
pub fn with_file<T>(data: &[u8], f: impl FnOnce(&std::path::Path) -> T) -> T {
    TMP.with(|d| {
        std::fs::create_dir_all(d).unwrap();
        let p = d.join("f.bin");
        std::fs::write(&p, data).unwrap();
        let r = f(&p);
        let _ = std::fs::remove_file(&p);
        r
    })
}
pub fn cleanup() {
    TMP.with(|d| {
        let _ = std::fs::remove_dir_all(d);
    })
}
pub fn call(data: &Arc<Vec<u8>>, path: &Path, c: Call, p: &mut MediaParser) -> Value {
    let tr = TR::new(data.clone(), path.sched.clone());
    call_tr(tr, path, c, p)
}
#[allow(deprecated)]
pub fn call_tr(tr: TR, path: &Path, c: Call, p: &mut MediaParser) -> Value {
    let data = tr.data.clone();
    guard(|| match path.mode {
        Mode::Mem => sync_call(p, MediaSource::from_memory(data.as_ref().clone()), c),
        Mode::MemOld => {
            let ms = match MediaSource::<()>::from_bytes(data.as_ref().clone()) {
                Ok(ms) => ms,
                Err(e) => return obs::err(&e),
            };
            match c {
                Call::Kind => obs::kind(ms.kind()),
                Call::Exif => obs::exif_iter(p.parse_exif_from_bytes(ms)),
                Call::Track => obs::track(p.parse_track_from_bytes(ms)),
                Call::Eager => obs::eager(p.parse_exif_from_bytes(ms)),
                Call::Imeta | Call::EImeta | Call::Meta => sync_call(p, MediaSource::from_memory(data.as_ref().clone()), c),
            }
        }
        Mode::Seek => sync_call(p, MediaSource::seekable(tr), c),
        Mode::Unseek => sync_call(p, MediaSource::unseekable(tr), c),
        Mode::File => with_file(&data, |f| sync_call(p, MediaSource::open(f), c)),
        Mode::AMem => block(async_call(p, AsyncMediaSource::from_memory(data.as_ref().clone()), c)),
        Mode::ASeek => block(async { async_call(p, AsyncMediaSource::seekable(tr).await, c).await }),
        Mode::AUnseek => block(async { async_call(p, AsyncMediaSource::unseekable(tr).await, c).await }),
        Mode::AFile => with_file(&data, |f| block(async { async_call(p, AsyncMediaSource::open(f).await, c).await })),
        Mode::Helper => with_file(&data, |f| match c {
            Call::Exif => obs::exif_iter(read_exif_iter(f)),
            Call::Track => obs::track(read_track(f)),
            Call::Eager => obs::eager_of(read_exif(f)),
            Call::Meta => obs::metadata(read_metadata(f)),
            _ => sync_call(p, MediaSource::open(f), c),
        }),
        Mode::HelperMem => {
            let b = data.as_ref().clone();
            match c {
                Call::Exif => obs::exif_iter(read_exif_iter_from_bytes(b)),
                Call::Track => obs::track(read_track_from_bytes(b)),
                Call::Eager => obs::eager_of(read_exif_from_bytes(b)),
                Call::Meta => obs::metadata(read_metadata_from_bytes(b)),
                _ => sync_call(p, MediaSource::from_memory(b), c),
            }
        }
        Mode::AHelper => with_file(&data, |f| {
            block(async {
                match c {
                    Call::Exif => obs::exif_iter(read_exif_iter_async(f).await),
                    Call::Track => obs::track(read_track_async(f).await),
                    Call::Eager => obs::eager_of(read_exif_async(f).await),
                    Call::Meta => obs::metadata(read_metadata_async(f).await),
                    _ => async_call(p, AsyncMediaSource::open(f).await, c).await,
                }
            })
        }),
    })
}
