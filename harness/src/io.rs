//! Scheduled sources and sinks. A schedule is a cyclic list of steps: how many bytes the next operation may move,
//! or Pending. Faults are placed at absolute byte positions.
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite};
use std::cell::RefCell;
use std::io::{Error, ErrorKind, Result, SeekFrom};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Step {
    Pend,
    N(usize),
}
#[derive(Clone, Debug)]
pub struct Sched {
    pub steps: Vec<Step>,
    pub at: usize,
}
impl Sched {
    pub fn free() -> Sched {
        Sched { steps: vec![], at: 0 }
    }
    pub fn new(steps: Vec<Step>) -> Sched {
        Sched { steps, at: 0 }
    }
    /// JSON: list of numbers, 0 = Pending, k = at most k bytes. A list of zeros only would never progress.
    pub fn from_json(v: &serde_json::Value) -> Sched {
        let steps: Vec<Step> = v
            .as_array()
            .map(|a| a.iter().map(|x| match x.as_u64().unwrap() { 0 => Step::Pend, k => Step::N(k as usize) }).collect())
            .unwrap_or_default();
        if steps.iter().all(|s| *s == Step::Pend) {
            return Sched::free();
        }
        Sched::new(steps)
    }
    fn next(&mut self, cx: &mut Context<'_>) -> Poll<usize> {
        if self.steps.is_empty() {
            return Poll::Ready(usize::MAX);
        }
        let s = self.steps[self.at % self.steps.len()];
        self.at += 1;
        match s {
            Step::Pend => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Step::N(k) => Poll::Ready(k),
        }
    }
}

/// Faults come in several kinds, which must not matter.
fn injected(what: &str, k: u64) -> Error {
    const KINDS: [ErrorKind; 8] = [
        ErrorKind::StorageFull, ErrorKind::WriteZero, ErrorKind::BrokenPipe, ErrorKind::UnexpectedEof,
        ErrorKind::ConnectionReset, ErrorKind::InvalidData, ErrorKind::PermissionDenied, ErrorKind::Other,
    ];
    let kind = KINDS[(k.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 61) as usize];
    Error::new(kind, format!("injected {what} {kind:?}"))
}
/// The name of an error in the trace; an injected one that arrives as it was has one name.
pub fn ioname(e: &Error) -> String {
    let (k, m) = (format!("{:?}", e.kind()), e.to_string());
    if m == format!("injected sink {k}") {
        "Io:StorageFull".into()
    } else if m == format!("injected source {k}") {
        "Io:ConnectionReset".into()
    } else {
        format!("Io:{k}")
    }
}

#[derive(Default)]
pub struct SinkState {
    pub data: Vec<u8>,
    pub polls: u64,
    pub flushes: u64,
    pub closes: u64,
}
/// A sink whose contents stay observable from outside.
#[derive(Clone)]
pub struct Sink {
    pub st: Rc<RefCell<SinkState>>,
    pub sched: Rc<RefCell<Sched>>,
    /// Absolute length at which the next write fails once (fault then cleared).
    pub fail_at: Rc<RefCell<Option<usize>>>,
    /// The next flush fails once.
    pub fail_flush: Rc<std::cell::Cell<bool>>,
    pub faults: Rc<RefCell<u64>>,
    /// Takes at least this many bytes when it takes any, whatever the schedule says.
    pub floor: Rc<std::cell::Cell<usize>>,
}
impl Sink {
    pub fn new(s: Sched) -> Sink {
        Sink {
            st: Default::default(),
            sched: Rc::new(RefCell::new(s)),
            fail_at: Default::default(),
            fail_flush: Default::default(),
            faults: Default::default(),
            floor: Default::default(),
        }
    }
    pub fn len(&self) -> usize {
        self.st.borrow().data.len()
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.st.borrow().data.clone()
    }
}
impl AsyncWrite for Sink {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
        let mut st = self.st.borrow_mut();
        st.polls += 1;
        let k = match self.sched.borrow_mut().next(cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(k) => k,
        };
        let mut n = buf.len().min(k.max(self.floor.get()));
        let mut fa = self.fail_at.borrow_mut();
        if let Some(at) = *fa {
            if st.data.len() >= at && !buf.is_empty() {
                *fa = None;
                *self.faults.borrow_mut() += 1;
                return Poll::Ready(Err(injected("sink", st.data.len() as u64)));
            }
            n = n.min(at.saturating_sub(st.data.len()));
        }
        st.data.extend_from_slice(&buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        let mut s = self.sched.borrow_mut();
        if s.steps.get(s.at % s.steps.len().max(1)) == Some(&Step::Pend) {
            s.at += 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if self.fail_flush.take() {
            *self.faults.borrow_mut() += 1;
            return Poll::Ready(Err(injected("sink", *self.faults.borrow())));
        }
        self.st.borrow_mut().flushes += 1;
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> {
        self.st.borrow_mut().closes += 1;
        Poll::Ready(Ok(()))
    }
}

/// The same sink behind tokio's interface.
pub struct TokSink(pub Sink);
impl tokio::io::AsyncWrite for TokSink {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
        Pin::new(&mut self.0).poll_write(cx, buf)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        Pin::new(&mut self.0).poll_flush(cx)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        Pin::new(&mut self.0).poll_close(cx)
    }
}

/// A source over bytes, seekable and buffered, delivering according to a schedule.
#[derive(Clone)]
pub struct Src {
    pub data: Rc<Vec<u8>>,
    pub pos: u64,
    pub sched: Sched,
    /// Every read that would deliver the byte at this position fails instead (the error is persistent).
    pub fail_at: Option<u64>,
    /// Reads never deliver this one byte: a read starting at it fails, one before it stops short.
    pub bad_at: Option<u64>,
    /// The n-th operation on the source (from 1) fails once.
    pub nth: Option<u64>,
    pub ops: Rc<std::cell::Cell<u64>>,
    pub faults: Rc<std::cell::Cell<u64>>,
    /// what fill_buf currently exposes (start, len)
    win: Option<(u64, usize)>,
}
impl Src {
    pub fn new(data: Vec<u8>, sched: Sched) -> Src {
        Src { data: Rc::new(data), pos: 0, sched, fail_at: None, bad_at: None, nth: None, ops: Default::default(), faults: Default::default(), win: None }
    }
    fn avail(&self) -> usize {
        (self.data.len() as u64).saturating_sub(self.pos) as usize
    }
    fn fault<T>(&self) -> Result<T> {
        self.faults.set(self.faults.get() + 1);
        Err(injected("source", self.ops.get() + self.pos))
    }
    /// Counts an operation; fails if it is the chosen one.
    fn op(&self) -> Result<()> {
        self.ops.set(self.ops.get() + 1);
        if self.nth == Some(self.ops.get()) { self.fault() } else { Ok(()) }
    }
    fn limit(&self, n: usize) -> Result<usize> {
        self.op()?;
        if let Some(f) = self.fail_at {
            if self.pos >= f {
                return self.fault();
            }
            return Ok(n.min((f - self.pos) as usize));
        }
        if let Some(f) = self.bad_at {
            if self.pos == f && n > 0 {
                return self.fault();
            }
            if self.pos < f {
                return Ok(n.min((f - self.pos) as usize));
            }
        }
        Ok(n)
    }
}
impl AsyncRead for Src {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<Result<usize>> {
        if let Some((p, n)) = self.win {
            // bytes already exposed by fill_buf are delivered without a new source operation
            if p == self.pos && n > 0 {
                let m = n.min(buf.len());
                let a = self.pos as usize;
                buf[..m].copy_from_slice(&self.data[a..a + m]);
                self.pos += m as u64;
                self.win = Some((self.pos, n - m));
                return Poll::Ready(Ok(m));
            }
        }
        let k = match self.sched.next(cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(k) => k,
        };
        let n = match self.limit(self.avail().min(buf.len()).min(k)) {
            Ok(n) => n,
            Err(e) => return Poll::Ready(Err(e)),
        };
        let a = self.pos.min(self.data.len() as u64) as usize;
        buf[..n].copy_from_slice(&self.data[a..a + n]);
        self.pos += n as u64;
        Poll::Ready(Ok(n))
    }
}
impl AsyncBufRead for Src {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<&[u8]>> {
        let this = self.get_mut();
        if let Some((p, n)) = this.win {
            if p == this.pos && n > 0 {
                return Poll::Ready(Ok(&this.data[p as usize..p as usize + n]));
            }
        }
        let k = match this.sched.next(cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(k) => k,
        };
        let n = match this.limit(this.avail().min(k).min(8192)) {
            Ok(n) => n,
            Err(e) => return Poll::Ready(Err(e)),
        };
        let a = this.pos.min(this.data.len() as u64) as usize;
        this.win = Some((this.pos, n));
        Poll::Ready(Ok(&this.data[a..a + n]))
    }
    fn consume(mut self: Pin<&mut Self>, amt: usize) {
        let left = match self.win {
            Some((p, n)) if p == self.pos => n,
            _ => 0,
        };
        assert!(amt <= left, "consume({amt}) beyond the {left} bytes exposed by fill_buf");
        self.pos += amt as u64;
        let p = self.pos;
        self.win = Some((p, left - amt));
    }
}
impl AsyncSeek for Src {
    fn poll_seek(mut self: Pin<&mut Self>, cx: &mut Context<'_>, to: SeekFrom) -> Poll<Result<u64>> {
        if self.sched.steps.get(self.sched.at % self.sched.steps.len().max(1)) == Some(&Step::Pend) {
            self.sched.at += 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if let Err(e) = self.op() {
            return Poll::Ready(Err(e));
        }
        let p = match to {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::End(d) => (self.data.len() as u64).checked_add_signed(d),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
        };
        self.win = None;
        Poll::Ready(match p {
            Some(p) => {
                self.pos = p;
                Ok(p)
            }
            None => Err(Error::new(ErrorKind::InvalidInput, "seek out of range")),
        })
    }
}

/// Sparse byte store for archives beyond 4 GiB: long runs of zeros are kept as a length only.
#[derive(Clone, Debug)]
pub enum Seg {
    Zero(u64),
    Data(Vec<u8>),
}
#[derive(Default, Clone)]
pub struct Sparse {
    pub segs: Rc<RefCell<Vec<(u64, Seg)>>>,
    pub len: Rc<RefCell<u64>>,
    pub pos: u64,
}
const ZMIN: usize = 4096;
impl Sparse {
    fn push(&self, b: &[u8]) {
        let mut segs = self.segs.borrow_mut();
        let mut len = self.len.borrow_mut();
        if b.len() >= ZMIN && crate::util::all_zero(b) {
            match segs.last_mut() {
                Some((_, Seg::Zero(n))) => *n += b.len() as u64,
                _ => segs.push((*len, Seg::Zero(b.len() as u64))),
            }
        } else {
            match segs.last_mut() {
                Some((_, Seg::Data(v))) => v.extend_from_slice(b),
                _ => segs.push((*len, Seg::Data(b.to_vec()))),
            }
        }
        *len += b.len() as u64;
    }
    pub fn size(&self) -> u64 {
        *self.len.borrow()
    }
    /// Reads up to buf.len() bytes at `at`, staying inside one segment.
    pub fn read_at(&self, at: u64, buf: &mut [u8]) -> usize {
        let segs = self.segs.borrow();
        let i = segs.partition_point(|(o, _)| *o <= at);
        if i == 0 || at >= self.size() {
            return 0;
        }
        let (o, s) = &segs[i - 1];
        let d = at - o;
        match s {
            Seg::Zero(n) => {
                let m = (n - d).min(buf.len() as u64) as usize;
                buf[..m].fill(0);
                m
            }
            Seg::Data(v) => {
                let m = (v.len() - d as usize).min(buf.len());
                buf[..m].copy_from_slice(&v[d as usize..d as usize + m]);
                m
            }
        }
    }
}
impl AsyncWrite for Sparse {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
        // accept at most 64 MiB at a time so that zero detection stays cheap
        let n = buf.len().min(64 << 20);
        self.push(&buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> {
        Poll::Ready(Ok(()))
    }
}
impl AsyncRead for Sparse {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut [u8]) -> Poll<Result<usize>> {
        let n = self.read_at(self.pos, buf);
        self.pos += n as u64;
        Poll::Ready(Ok(n))
    }
}
impl AsyncSeek for Sparse {
    fn poll_seek(mut self: Pin<&mut Self>, _: &mut Context<'_>, to: SeekFrom) -> Poll<Result<u64>> {
        let p = match to {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::End(d) => self.size().checked_add_signed(d),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
        };
        Poll::Ready(match p {
            Some(p) => {
                self.pos = p;
                Ok(p)
            }
            None => Err(Error::new(ErrorKind::InvalidInput, "seek out of range")),
        })
    }
}

/// Random access used by the independent parser, over plain bytes or a sparse store.
pub trait Bytes {
    fn size(&self) -> u64;
    fn get(&self, at: u64, n: usize) -> Option<Vec<u8>>;
    /// content id of [at, at+n)
    fn range_id(&self, at: u64, n: u64) -> Option<String>;
}
impl Bytes for Vec<u8> {
    fn size(&self) -> u64 {
        self.len() as u64
    }
    fn get(&self, at: u64, n: usize) -> Option<Vec<u8>> {
        let a = usize::try_from(at).ok()?;
        self.as_slice().get(a..a.checked_add(n)?).map(|x| x.to_vec())
    }
    fn range_id(&self, at: u64, n: u64) -> Option<String> {
        Bytes::get(self, at, usize::try_from(n).ok()?).map(|b| crate::util::id(&b))
    }
}
impl Bytes for Sparse {
    fn size(&self) -> u64 {
        Sparse::size(self)
    }
    fn get(&self, at: u64, n: usize) -> Option<Vec<u8>> {
        if at.checked_add(n as u64)? > self.size() || n > 1 << 30 {
            return None;
        }
        let mut v = vec![0; n];
        let mut k = 0;
        while k < n {
            let m = self.read_at(at + k as u64, &mut v[k..]);
            if m == 0 {
                return None;
            }
            k += m;
        }
        Some(v)
    }
    fn range_id(&self, at: u64, n: u64) -> Option<String> {
        if n <= 1 << 20 {
            return self.get(at, n as usize).map(|b| crate::util::id(&b));
        }
        if at.checked_add(n)? > self.size() {
            return None;
        }
        // long range: only all-zero ranges have an id
        let segs = self.segs.borrow();
        for (o, s) in segs.iter() {
            let (a, e) = (*o, *o + match s { Seg::Zero(n) => *n, Seg::Data(v) => v.len() as u64 });
            if e <= at || a >= at + n {
                continue;
            }
            if let Seg::Data(v) = s {
                let x = at.max(a) - a;
                let y = (at + n).min(e) - a;
                if !crate::util::all_zero(&v[x as usize..y as usize]) {
                    return Some("mixed".into());
                }
            }
        }
        Some(format!("Z{n}"))
    }
}
