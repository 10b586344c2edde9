//! Instrumented reader: split reads, interruptions, pending polls, injected
//! faults, and a log of every call.
use std::io::{self, Read, Seek, SeekFrom};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, AsyncSeek, ReadBuf};

#[derive(Clone, Debug, PartialEq)]
pub enum Sched {
    Full,
    Fixed(usize),
    /// seed, interrupts
    Rand(u64, bool),
}
#[derive(Clone, Debug)]
pub enum Ev {
    Read { at: u64, want: usize, got: usize },
    Seek { from: u64, to: u64, rel: bool },
}
#[derive(Clone)]
pub struct TR {
    pub data: Arc<Vec<u8>>,
    pub pos: u64,
    pub sched: Sched,
    pub log: Arc<Mutex<Vec<Ev>>>,
    /// fail at call number k (reads and seeks both count) with this kind;
    /// `sticky` keeps failing afterwards
    pub fault: Option<(usize, io::ErrorKind, bool)>,
    pub calls: Arc<Mutex<usize>>,
    pub faulted: Arc<Mutex<bool>>,
    /// so many zero bytes stand at this offset without being stored
    pub hole: Option<(u64, u64)>,
    rng: u64,
    pend: bool,
}
impl TR {
    pub fn new(data: Arc<Vec<u8>>, sched: Sched) -> Self {
        let rng = match sched {
            Sched::Rand(s, _) => s.wrapping_mul(0x9e3779b97f4a7c15) | 1,
            _ => 1,
        };
        TR {
            data,
            pos: 0,
            sched,
            log: Default::default(),
            fault: None,
            calls: Default::default(),
            faulted: Default::default(),
            hole: None,
            rng,
            pend: false,
        }
    }
    fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng >> 11
    }
    fn len(&self) -> u64 {
        self.data.len() as u64 + self.hole.map_or(0, |h| h.1)
    }
    fn copy(&self, dst: &mut [u8]) {
        let Some((at, n)) = self.hole else {
            let p = self.pos.min(self.data.len() as u64) as usize;
            dst.copy_from_slice(&self.data[p..p + dst.len()]);
            return;
        };
        for (i, d) in dst.iter_mut().enumerate() {
            let p = self.pos + i as u64;
            *d = if p < at {
                self.data[p as usize]
            } else if p < at + n {
                0
            } else {
                self.data[(p - n) as usize]
            };
        }
    }
    fn tick(&mut self) -> io::Result<()> {
        let mut c = self.calls.lock().unwrap();
        let k = *c;
        *c += 1;
        if let Some((at, kind, sticky)) = self.fault {
            if k == at || (sticky && k > at) {
                *self.faulted.lock().unwrap() = true;
                return Err(io::Error::new(kind, "injected"));
            }
        }
        Ok(())
    }
    fn plan(&mut self, want: usize) -> io::Result<usize> {
        let avail = self.len().saturating_sub(self.pos) as usize;
        let mut n = want.min(avail);
        match self.sched {
            Sched::Full => {}
            Sched::Fixed(k) => n = n.min(k),
            Sched::Rand(_, intr) => {
                let r = self.rnd();
                if intr && r % 7 == 0 {
                    return Err(io::ErrorKind::Interrupted.into());
                }
                if n > 1 {
                    n = match r % 3 {
                        0 => 1 + (self.rnd() as usize % n.min(9)),
                        1 => 1 + (self.rnd() as usize % n),
                        _ => n,
                    };
                }
            }
        }
        Ok(n)
    }
    fn do_read(&mut self, dst: &mut [u8]) -> io::Result<usize> {
        self.tick()?;
        let n = self.plan(dst.len())?;
        self.copy(&mut dst[..n]);
        self.log.lock().unwrap().push(Ev::Read { at: self.pos, want: dst.len(), got: n });
        self.pos += n as u64;
        Ok(n)
    }
    fn do_seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        self.tick()?;
        let (to, rel) = match s {
            SeekFrom::Start(n) => (n as i128, false),
            SeekFrom::End(n) => (self.len() as i128 + n as i128, false),
            SeekFrom::Current(n) => (self.pos as i128 + n as i128, true),
        };
        if to < 0 || to > u64::MAX as i128 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.log.lock().unwrap().push(Ev::Seek { from: self.pos, to: to as u64, rel });
        self.pos = to as u64;
        Ok(self.pos)
    }
}
impl Read for TR {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.do_read(buf)
    }
}
impl Seek for TR {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        self.do_seek(s)
    }
}
impl TR {
    fn maybe_pend(&mut self, cx: &mut Context<'_>) -> bool {
        if let Sched::Rand(..) = self.sched {
            if self.pend {
                self.pend = false;
            } else if self.rnd() % 3 == 0 {
                self.pend = true;
                cx.waker().wake_by_ref();
                return true;
            }
        }
        false
    }
}
impl AsyncRead for TR {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        if self.maybe_pend(cx) {
            return Poll::Pending;
        }
        let mut tmp = vec![0u8; buf.remaining()];
        match self.do_read(&mut tmp) {
            Ok(n) => {
                buf.put_slice(&tmp[..n]);
                Poll::Ready(Ok(()))
            }
            Err(e) if e.kind() == io::ErrorKind::Interrupted => {
                // an AsyncRead must not surface Interrupted: retry later
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Err(e) => Poll::Ready(Err(e)),
        }
    }
}
impl AsyncSeek for TR {
    fn start_seek(mut self: Pin<&mut Self>, s: SeekFrom) -> io::Result<()> {
        self.do_seek(s).map(|_| ())
    }
    fn poll_complete(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<u64>> {
        if self.maybe_pend(cx) {
            return Poll::Pending;
        }
        Poll::Ready(Ok(self.pos))
    }
}
