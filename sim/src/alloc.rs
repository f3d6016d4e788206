//! Allocator seam: counts what the code under test allocates, and turns
//! runaway allocation into an orderly exit the driver recognises.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static CALLS: AtomicUsize = AtomicUsize::new(0);
static LIMITED: AtomicBool = AtomicBool::new(false);
pub const EXIT_OOM: i32 = 99;
const CAP: usize = 3 << 30;

extern "C" {
    fn _exit(code: i32) -> !;
}

#[inline]
fn add(n: usize) {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    CALLS.fetch_add(1, Relaxed);
    if l > PEAK.load(Relaxed) {
        PEAK.store(l, Relaxed);
        if l > CAP && LIMITED.load(Relaxed) {
            unsafe { _exit(EXIT_OOM) }
        }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // count as if old and new were live together, as a copying realloc has them
        add(n);
        let r = System.realloc(p, l, n);
        LIVE.fetch_sub(l.size(), Relaxed);
        r
    }
}

pub fn limit(on: bool) {
    LIMITED.store(on, Relaxed);
}
/// start of a measured section: (live, calls) now; resets the peak
pub fn begin() -> (usize, usize) {
    let l = LIVE.load(Relaxed);
    PEAK.store(l, Relaxed);
    (l, CALLS.load(Relaxed))
}
/// peak bytes above the section's start
pub fn end(b: (usize, usize)) -> usize {
    PEAK.load(Relaxed).saturating_sub(b.0)
}
