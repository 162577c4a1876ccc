//! Scheduled and faulty I/O objects (futures traits; tokio through tokio-util's compat wrappers).

use crate::exec::{defer_wake, epoch};
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite, SeekFrom};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Step {
    /// Transfer everything possible.
    Full,
    /// Transfer at most n (>= 1) bytes.
    Short(u32),
    /// Not ready; woken immediately.
    Pending,
    /// Not ready; woken after the poll has returned.
    PendingLater,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Schedule(pub Vec<Step>);

impl Schedule {
    pub fn full() -> Schedule {
        Schedule(vec![])
    }
    pub fn step(&self, i: u64) -> Step {
        if self.0.is_empty() {
            return Step::Full;
        }
        // A schedule of only pending steps must still make progress now and then.
        let n = self.0.len() as u64;
        let s = self.0[(i % n) as usize];
        if matches!(s, Step::Pending | Step::PendingLater)
            && self.0.iter().all(|x| matches!(x, Step::Pending | Step::PendingLater))
            && i % (n + 1) == n
        {
            return Step::Full;
        }
        s
    }
}

pub fn step_strategy() -> impl Strategy<Value = Step> {
    prop_oneof![
        3 => (1u32..8).prop_map(Step::Short),
        2 => (1u32..5000).prop_map(Step::Short),
        2 => Just(Step::Full),
        2 => Just(Step::Pending),
        2 => Just(Step::PendingLater),
    ]
}

pub fn schedule_strategy() -> impl Strategy<Value = Schedule> {
    prop_oneof![
        6 => proptest::collection::vec(step_strategy(), 1..8),
        1 => Just(vec![Step::Short(1)]),
        1 => Just(vec![Step::Pending, Step::Short(1)]),
        1 => Just(vec![Step::PendingLater, Step::Full]),
        1 => Just(vec![Step::Pending, Step::PendingLater, Step::Short(3)]),
    ]
    .prop_map(Schedule)
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum FaultKind {
    /// An error of this category.
    Other,
    BrokenPipe,
    UnexpectedEof,
    TimedOut,
    PermissionDenied,
    InvalidData,
    ConnectionReset,
    ConnectionAborted,
    ConnectionRefused,
    NotConnected,
    NotFound,
    AlreadyExists,
    InvalidInput,
    Unsupported,
    OutOfMemory,
    AddrInUse,
    StorageFull,
    NotSeekable,
    QuotaExceeded,
    FileTooLarge,
    ResourceBusy,
    /// Writer accepts zero bytes.
    WriteZero,
}

pub const MARK: &str = "azv-injected-fault";

impl FaultKind {
    /// Every kind but `WriteZero`, which only a sink can have.
    pub const ERRORS: [FaultKind; 21] = [
        FaultKind::Other,
        FaultKind::BrokenPipe,
        FaultKind::UnexpectedEof,
        FaultKind::TimedOut,
        FaultKind::PermissionDenied,
        FaultKind::InvalidData,
        FaultKind::ConnectionReset,
        FaultKind::ConnectionAborted,
        FaultKind::ConnectionRefused,
        FaultKind::NotConnected,
        FaultKind::NotFound,
        FaultKind::AlreadyExists,
        FaultKind::InvalidInput,
        FaultKind::Unsupported,
        FaultKind::OutOfMemory,
        FaultKind::AddrInUse,
        FaultKind::StorageFull,
        FaultKind::NotSeekable,
        FaultKind::QuotaExceeded,
        FaultKind::FileTooLarge,
        FaultKind::ResourceBusy,
    ];

    pub fn error(self) -> io::Error {
        let k = match self {
            FaultKind::Other => io::ErrorKind::Other,
            FaultKind::BrokenPipe => io::ErrorKind::BrokenPipe,
            FaultKind::UnexpectedEof => io::ErrorKind::UnexpectedEof,
            FaultKind::TimedOut => io::ErrorKind::TimedOut,
            FaultKind::PermissionDenied => io::ErrorKind::PermissionDenied,
            FaultKind::InvalidData => io::ErrorKind::InvalidData,
            FaultKind::ConnectionReset => io::ErrorKind::ConnectionReset,
            FaultKind::ConnectionAborted => io::ErrorKind::ConnectionAborted,
            FaultKind::ConnectionRefused => io::ErrorKind::ConnectionRefused,
            FaultKind::NotConnected => io::ErrorKind::NotConnected,
            FaultKind::NotFound => io::ErrorKind::NotFound,
            FaultKind::AlreadyExists => io::ErrorKind::AlreadyExists,
            FaultKind::InvalidInput => io::ErrorKind::InvalidInput,
            FaultKind::Unsupported => io::ErrorKind::Unsupported,
            FaultKind::OutOfMemory => io::ErrorKind::OutOfMemory,
            FaultKind::AddrInUse => io::ErrorKind::AddrInUse,
            FaultKind::StorageFull => io::ErrorKind::StorageFull,
            FaultKind::NotSeekable => io::ErrorKind::NotSeekable,
            FaultKind::QuotaExceeded => io::ErrorKind::QuotaExceeded,
            FaultKind::FileTooLarge => io::ErrorKind::FileTooLarge,
            FaultKind::ResourceBusy => io::ErrorKind::ResourceBusy,
            FaultKind::WriteZero => io::ErrorKind::WriteZero,
        };
        io::Error::new(k, MARK)
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Fault {
    pub at: u64,
    pub kind: FaultKind,
}

/// Backing bytes.
pub trait Storage {
    fn len(&self) -> u64;
    /// Copies bytes at `pos` into `buf` (as many as available).
    fn read_at(&self, pos: u64, buf: &mut [u8]) -> usize;
}

impl Storage for Rc<Vec<u8>> {
    fn len(&self) -> u64 {
        self.as_slice().len() as u64
    }
    fn read_at(&self, pos: u64, buf: &mut [u8]) -> usize {
        let s = self.as_slice();
        if pos >= s.len() as u64 {
            return 0;
        }
        let pos = pos as usize;
        let n = buf.len().min(s.len() - pos);
        buf[..n].copy_from_slice(&s[pos..pos + n]);
        n
    }
}

#[derive(Default, Debug)]
pub struct Log {
    pub ops: u64,
    pub polls: u64,
    pub pendings: u64,
    pub shorts: u64,
    pub fault_hit: bool,
    pub fault_op: &'static str,
    pub ops_after_fault: u64,
    pub closed: u64,
    pub flushed: u64,
    pub seeks: u64,
    pub bytes: u64,
    pub op_budget_exceeded: bool,
    pub written_after_close: bool,
    /// Bytes taken from the storage (those buffered count once).
    pub fetched: u64,
    /// Number of the last operation of each kind, counted from 1.
    pub last_write: u64,
    pub last_flush: u64,
    /// Task poll in which the object last answered "not ready", and how often it was asked again within it.
    pending_epoch: u64,
    again: u64,
}

impl Log {
    /// True if the object must stay not ready because it said so earlier in the same task poll.
    fn still_pending(&mut self) -> bool {
        if self.pending_epoch != epoch() {
            self.again = 0;
            return false;
        }
        self.again += 1;
        // A buffering layer may legitimately ask again on each of many small writes; a spin has no bound.
        if self.again > 300_000 {
            panic!("busy loop: a not-ready source or sink was polled {} times within one poll of the task", self.again);
        }
        true
    }
}

pub type SharedLog = Rc<RefCell<Log>>;

/// Reader over a storage with a schedule. `budget` bounds the number of completed operations (endless-loop oracle).
pub struct SchedReader<S> {
    pub data: S,
    pub pos: u64,
    pub sched: Schedule,
    pub fault: Option<Fault>,
    pub log: SharedLog,
    pub buf_cap: usize,
    pub budget: u64,
    buf: Vec<u8>,
    off: usize,
    stepno: u64,
}

impl<S: Storage> SchedReader<S> {
    pub fn new(data: S, sched: Schedule) -> Self {
        SchedReader {
            data,
            pos: 0,
            sched,
            fault: None,
            log: Rc::default(),
            buf_cap: 4096,
            budget: u64::MAX,
            buf: Vec::new(),
            off: 0,
            stepno: 0,
        }
    }
    pub fn with_fault(mut self, f: Option<Fault>) -> Self {
        self.fault = f;
        self
    }
    pub fn with_cap(mut self, cap: usize) -> Self {
        self.buf_cap = cap.max(1);
        self
    }
    pub fn with_budget(mut self, b: u64) -> Self {
        self.budget = b;
        self
    }
    pub fn logical_pos(&self) -> u64 {
        self.pos - (self.buf.len() - self.off) as u64
    }

    /// Schedules one operation: Ok(limit) = transfer at most limit bytes.
    fn begin(&mut self, cx: &mut Context<'_>, what: &'static str) -> Poll<io::Result<usize>> {
        let mut log = self.log.borrow_mut();
        log.polls += 1;
        if log.still_pending() {
            return Poll::Pending;
        }
        let step = self.sched.step(self.stepno);
        self.stepno += 1;
        let limit = match step {
            Step::Pending => {
                log.pendings += 1;
                log.pending_epoch = epoch();
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            Step::PendingLater => {
                log.pendings += 1;
                log.pending_epoch = epoch();
                defer_wake(cx.waker());
                return Poll::Pending;
            }
            Step::Full => usize::MAX,
            Step::Short(n) => {
                log.shorts += 1;
                n.max(1) as usize
            }
        };
        let op = log.ops;
        log.ops += 1;
        if log.ops > self.budget {
            log.op_budget_exceeded = true;
            drop(log);
            panic!("runaway I/O: more than {} operations on the source", self.budget);
        }
        if log.fault_hit {
            log.ops_after_fault += 1;
        }
        if let Some(f) = self.fault {
            if f.at == op {
                log.fault_hit = true;
                log.fault_op = what;
                return Poll::Ready(Err(f.kind.error()));
            }
        }
        Poll::Ready(Ok(limit))
    }
}

impl<S: Storage + Unpin> AsyncRead for SchedReader<S> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, out: &mut [u8]) -> Poll<io::Result<usize>> {
        if out.is_empty() {
            return Poll::Ready(Ok(0));
        }
        let limit = match self.begin(cx, "read") {
            Poll::Ready(Ok(l)) => l,
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            Poll::Pending => return Poll::Pending,
        };
        let n = out.len().min(limit);
        // Bytes already buffered come first.
        let avail = self.buf.len() - self.off;
        let got = if avail > 0 {
            let n = n.min(avail);
            let off = self.off;
            out[..n].copy_from_slice(&self.buf[off..off + n]);
            self.off += n;
            n
        } else {
            let pos = self.pos;
            let n = self.data.read_at(pos, &mut out[..n]);
            self.pos += n as u64;
            self.log.borrow_mut().fetched += n as u64;
            n
        };
        self.log.borrow_mut().bytes += got as u64;
        Poll::Ready(Ok(got))
    }
}

impl<S: Storage + Unpin> AsyncBufRead for SchedReader<S> {
    fn poll_fill_buf(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        if self.off >= self.buf.len() {
            let limit = match self.begin(cx, "fill_buf") {
                Poll::Ready(Ok(l)) => l,
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Pending => return Poll::Pending,
            };
            let n = limit.min(self.buf_cap);
            let mut b = std::mem::take(&mut self.buf);
            b.resize(n, 0);
            let pos = self.pos;
            let got = self.data.read_at(pos, &mut b);
            b.truncate(got);
            self.buf = b;
            self.off = 0;
            self.pos += got as u64;
            self.log.borrow_mut().bytes += got as u64;
            self.log.borrow_mut().fetched += got as u64;
        }
        let this = self.into_ref().get_ref();
        Poll::Ready(Ok(&this.buf[this.off..]))
    }
    fn consume(mut self: Pin<&mut Self>, amt: usize) {
        assert!(self.off + amt <= self.buf.len(), "consume beyond the filled buffer");
        self.off += amt;
    }
}

impl<S: Storage + Unpin> AsyncSeek for SchedReader<S> {
    fn poll_seek(mut self: Pin<&mut Self>, cx: &mut Context<'_>, to: SeekFrom) -> Poll<io::Result<u64>> {
        match self.begin(cx, "seek") {
            Poll::Ready(Ok(_)) => {}
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            Poll::Pending => return Poll::Pending,
        }
        self.log.borrow_mut().seeks += 1;
        let target = match to {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::End(d) => self.data.len().checked_add_signed(d),
            SeekFrom::Current(d) => self.logical_pos().checked_add_signed(d),
        };
        match target {
            Some(p) => {
                self.pos = p;
                self.buf.clear();
                self.off = 0;
                Poll::Ready(Ok(p))
            }
            None => Poll::Ready(Err(io::Error::new(io::ErrorKind::InvalidInput, "seek before start"))),
        }
    }
}

/// Byte sink.
pub trait Sink {
    fn put(&mut self, b: &[u8]);
}

impl Sink for Vec<u8> {
    fn put(&mut self, b: &[u8]) {
        self.extend_from_slice(b);
    }
}

pub struct SchedWriter<K> {
    pub sink: K,
    pub sched: Schedule,
    pub fault: Option<Fault>,
    pub log: SharedLog,
    stepno: u64,
}

impl<K: Sink> SchedWriter<K> {
    pub fn new(sink: K, sched: Schedule) -> Self {
        SchedWriter { sink, sched, fault: None, log: Rc::default(), stepno: 0 }
    }
    pub fn with_fault(mut self, f: Option<Fault>) -> Self {
        self.fault = f;
        self
    }
    fn begin(&mut self, cx: &mut Context<'_>, what: &'static str) -> Poll<io::Result<usize>> {
        let mut log = self.log.borrow_mut();
        log.polls += 1;
        if log.still_pending() {
            return Poll::Pending;
        }
        let step = self.sched.step(self.stepno);
        self.stepno += 1;
        let limit = match step {
            Step::Pending => {
                log.pendings += 1;
                log.pending_epoch = epoch();
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            Step::PendingLater => {
                log.pendings += 1;
                log.pending_epoch = epoch();
                defer_wake(cx.waker());
                return Poll::Pending;
            }
            Step::Full => usize::MAX,
            Step::Short(n) => {
                log.shorts += 1;
                n.max(1) as usize
            }
        };
        let op = log.ops;
        log.ops += 1;
        if log.fault_hit {
            log.ops_after_fault += 1;
        }
        if let Some(f) = self.fault {
            if f.at == op {
                log.fault_hit = true;
                log.fault_op = what;
                if f.kind == FaultKind::WriteZero && what == "write" {
                    return Poll::Ready(Ok(0));
                }
                return Poll::Ready(Err(f.kind.error()));
            }
        }
        Poll::Ready(Ok(limit))
    }
}

impl<K: Sink + Unpin> AsyncWrite for SchedWriter<K> {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        if b.is_empty() {
            return Poll::Ready(Ok(0));
        }
        let limit = match self.begin(cx, "write") {
            Poll::Ready(Ok(l)) => l,
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            Poll::Pending => return Poll::Pending,
        };
        let n = b.len().min(limit);
        self.sink.put(&b[..n]);
        let mut log = self.log.borrow_mut();
        log.bytes += n as u64;
        log.last_write = log.ops;
        Poll::Ready(Ok(n))
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        match self.begin(cx, "flush") {
            Poll::Ready(Ok(_)) => {}
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            Poll::Pending => return Poll::Pending,
        }
        let mut log = self.log.borrow_mut();
        log.flushed += 1;
        log.last_flush = log.ops;
        Poll::Ready(Ok(()))
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        match self.begin(cx, "close") {
            Poll::Ready(Ok(_)) => {}
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            Poll::Pending => return Poll::Pending,
        }
        self.log.borrow_mut().closed += 1;
        Poll::Ready(Ok(()))
    }
}
