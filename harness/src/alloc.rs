//! Counting allocator: live bytes, peak since reset, and a hard cap that ends the worker with code 77.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;

static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static LARGEST: AtomicUsize = AtomicUsize::new(0);
static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);

fn add(n: usize) -> bool {
    LARGEST.fetch_max(n, Relaxed);
    let live = LIVE.fetch_add(n, Relaxed).wrapping_add(n);
    PEAK.fetch_max(live, Relaxed);
    live <= CAP.load(Relaxed)
}

fn over() -> ! {
    // No allocation here: the process is past its cap.
    unsafe { libc::_exit(77) }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            over()
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            over()
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            if !add(n - l.size()) {
                over()
            }
        } else {
            LIVE.fetch_sub(l.size() - n, Relaxed);
        }
        LARGEST.fetch_max(n, Relaxed);
        System.realloc(p, l, n)
    }
}

pub fn set_cap(bytes: usize) {
    CAP.store(bytes, Relaxed);
}

pub fn reset_case() {
    reset_peak();
}

pub fn reset_peak() {
    PEAK.store(LIVE.load(Relaxed), Relaxed);
    LARGEST.store(0, Relaxed);
}

/// Growth of the peak over the given baseline.
pub fn peak() -> usize {
    PEAK.load(Relaxed)
}

pub fn live() -> usize {
    LIVE.load(Relaxed)
}
