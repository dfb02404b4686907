//! Receives the coverage of instrumented crates, per thread. In a build
//! without instrumentation nothing calls it.

use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicU32, Ordering};

pub const SIZE: usize = 1 << 17;

struct Map {
    count: [u8; SIZE],
    seen: [u32; SIZE],
    n: usize,
    on: bool,
}

thread_local! {
    static MAP: UnsafeCell<Map> = const { UnsafeCell::new(Map { count: [0; SIZE], seen: [0; SIZE], n: 0, on: false }) };
}

static GUARDS: AtomicU32 = AtomicU32::new(0);

/// Numbers the edges of a module.
///
/// # Safety
/// Called by instrumented code with the bounds of its guards.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            *p = 1 + GUARDS.fetch_add(1, Ordering::Relaxed) % (SIZE as u32 - 1);
        }
        p = p.add(1);
    }
}

/// Counts an edge.
///
/// # Safety
/// Called by instrumented code with one of its guards.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let g = *guard as usize & (SIZE - 1);
    let _ = MAP.try_with(|m| {
        let m = &mut *m.get();
        if m.on {
            let c = m.count[g];
            if c == 0 {
                m.seen[m.n] = g as u32;
                m.n += 1;
            }
            m.count[g] = c.saturating_add(1);
        }
    });
}

/// The number of edges, 0 without instrumentation.
pub fn edges() -> u32 {
    GUARDS.load(Ordering::Relaxed)
}

/// Runs `f` and returns the edges it took on this thread with the classes of
/// their counts (1, 2, 3, 4-7, 8-15, 16-31, 32-127, 128+; one bit each).
pub fn record<T>(f: impl FnOnce() -> T) -> (T, Vec<(u32, u8)>) {
    MAP.with(|m| unsafe { (*m.get()).on = true });
    let r = f();
    let edges = MAP.with(|m| {
        let m = unsafe { &mut *m.get() };
        m.on = false;
        let mut out = Vec::with_capacity(m.n);
        for i in 0..m.n {
            let g = m.seen[i];
            let c = m.count[g as usize];
            m.count[g as usize] = 0;
            let class = match c {
                0 | 1 => 0,
                2 => 1,
                3 => 2,
                4..=7 => 3,
                8..=15 => 4,
                16..=31 => 5,
                32..=127 => 6,
                _ => 7,
            };
            out.push((g, 1u8 << class));
        }
        m.n = 0;
        out
    });
    (r, edges)
}
