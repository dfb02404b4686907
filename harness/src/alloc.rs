//! A counting global allocator. It measures, per thread, how far the live heap
//! grows while the code under test runs, and refuses to let one call take the
//! sandbox down: a thread that goes over `CAP` inside the code under test is
//! parked and flagged, and the watchdog of the engine ends the run.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering};

pub struct Counting;

/// Live growth, in bytes, that a single call into the code under test may
/// reach before it is stopped. No generated case needs a hundredth of it.
pub const CAP: i64 = 2 << 30;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LARGEST: Cell<i64> = const { Cell::new(0) };
    static ARMED: Cell<bool> = const { Cell::new(false) };
}

/// Set when some thread went over `CAP`.
pub static OVER_CAP: AtomicBool = AtomicBool::new(false);

#[inline]
fn grow(n: usize) {
    let _ = ARMED.try_with(|armed| {
        if !armed.get() {
            return;
        }
        let n = n as i64;
        if n > LARGEST.get() {
            LARGEST.set(n);
        }
        let live = LIVE.get() + n;
        LIVE.set(live);
        if live > PEAK.get() {
            PEAK.set(live);
        }
        if live > CAP {
            OVER_CAP.store(true, Ordering::SeqCst);
            loop {
                std::thread::park();
            }
        }
    });
}

#[inline]
fn shrink(n: usize) {
    let _ = ARMED.try_with(|armed| {
        if armed.get() {
            LIVE.set(LIVE.get() - n as i64);
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        shrink(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        // The old block may live on until the copy is done.
        grow(new);
        let q = System.realloc(p, l, new);
        if !q.is_null() {
            shrink(l.size());
        }
        q
    }
}

/// What one measured call did to the heap.
#[derive(Clone, Copy, Debug, Default)]
pub struct Usage {
    /// Largest growth of the live heap during the call.
    pub peak: i64,
    /// Largest single allocation of the call.
    pub largest: i64,
    /// What the call has added to the live heap when it returns.
    pub kept: i64,
}

/// Starts a measurement on this thread.
pub fn arm() {
    LIVE.set(0);
    PEAK.set(0);
    LARGEST.set(0);
    ARMED.set(true);
}

/// Ends the measurement on this thread.
pub fn disarm() -> Usage {
    ARMED.set(false);
    Usage { peak: PEAK.get(), largest: LARGEST.get(), kept: LIVE.get() }
}
