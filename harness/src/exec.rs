//! Single-future executor that owns the schedule: detects lost wake-ups and runaway polling.

use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

struct Flag(AtomicU64);

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
}

thread_local! {
    static DEFERRED: RefCell<Vec<Waker>> = const { RefCell::new(Vec::new()) };
    static POLLS: RefCell<u64> = const { RefCell::new(0) };
    static EPOCH: std::cell::Cell<u64> = const { std::cell::Cell::new(1) };
}

/// Registers a waker to be woken by the executor once the current poll has returned.
pub fn defer_wake(w: &Waker) {
    DEFERRED.with(|d| d.borrow_mut().push(w.clone()));
}

/// Number of the task poll in progress; a not-ready answer holds for the rest of it.
pub fn epoch() -> u64 {
    EPOCH.with(|e| e.get())
}

pub fn next_epoch() {
    EPOCH.with(|e| e.set(e.get() + 1));
}

pub const MAX_POLLS: u64 = 5_000_000;

/// Drives `f`; Err means the future stalled (pending without any registered wake-up) or exceeded the poll budget.
pub fn try_block_on<F: Future>(f: F) -> Result<F::Output, String> {
    let mut f = std::pin::pin!(f);
    let flag = Arc::new(Flag(AtomicU64::new(0)));
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    DEFERRED.with(|d| d.borrow_mut().clear());
    let mut polls = 0u64;
    loop {
        let before = flag.0.load(SeqCst);
        next_epoch();
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            POLLS.with(|p| *p.borrow_mut() += polls + 1);
            return Ok(v);
        }
        polls += 1;
        if polls > MAX_POLLS {
            return Err(format!("future still pending after {MAX_POLLS} polls"));
        }
        if flag.0.load(SeqCst) == before {
            // Nothing woke the task during the poll: fire the deferred wake-ups.
            let ws = DEFERRED.with(|d| std::mem::take(&mut *d.borrow_mut()));
            for w in ws {
                w.wake();
            }
            if flag.0.load(SeqCst) == before {
                return Err("lost wake-up: the future is pending but its task was not woken by the I/O object".into());
            }
        }
    }
}

/// Drives a future that must complete; a stall panics (and so fails the case).
pub fn block_on<F: Future>(f: F) -> F::Output {
    match try_block_on(f) {
        Ok(v) => v,
        Err(e) => panic!("{e}"),
    }
}

/// One manual poll with a waker that only counts.
pub struct Poller {
    flag: Arc<Flag>,
    waker: Waker,
}

impl Poller {
    pub fn new() -> Poller {
        let flag = Arc::new(Flag(AtomicU64::new(0)));
        let waker = Waker::from(flag.clone());
        Poller { flag, waker }
    }
    pub fn poll<F: Future + ?Sized>(&self, f: Pin<&mut F>) -> Poll<F::Output> {
        next_epoch();
        f.poll(&mut Context::from_waker(&self.waker))
    }
    pub fn wakes(&self) -> u64 {
        self.flag.0.load(SeqCst)
    }
}
