//! Global allocator that counts, per thread, live bytes, their peak, and the number of allocations.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
}
#[inline]
fn add(n: i64) {
    let l = LIVE.get() + n;
    LIVE.set(l);
    if n > 0 {
        COUNT.set(COUNT.get() + 1);
        if l > PEAK.get() {
            PEAK.set(l);
            if l > LIMIT.get() {
                LIMIT.set(i64::MAX);
                crate::engine::finish_abruptly("memory without bound: over 1.5 GB live in one case");
            }
        }
    }
}
unsafe impl GlobalAlloc for Counting {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    #[inline]
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // the worst case: both blocks alive during the move
        add(n as i64);
        let r = System.realloc(p, l, n);
        add(-(l.size() as i64));
        r
    }
    #[inline]
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
}
#[global_allocator]
static A: Counting = Counting;

/// No single case may hold more than this (a buffer that grows without end).
pub fn limit_this_thread() {
    LIVE.set(0);
    PEAK.set(0);
    LIMIT.set(1_500_000_000);
}
/// (peak live bytes above the start, number of allocations) while `f` runs.
pub fn measure<R>(f: impl FnOnce() -> R) -> (R, usize, u64) {
    let l0 = LIVE.get();
    let p0 = PEAK.get();
    let c0 = COUNT.get();
    PEAK.set(l0);
    let r = f();
    let peak = PEAK.get() - l0;
    let n = COUNT.get() - c0;
    PEAK.set(p0.max(PEAK.get()));
    (r, peak.max(0) as usize, n)
}
