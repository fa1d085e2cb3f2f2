//! Counting allocator: current and peak bytes since the last reset, and a hard cap that turns an
//! absurd request into an allocation failure instead of taking the machine down.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static CUR: AtomicUsize = AtomicUsize::new(0);
static TOTAL: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
pub const CAP: usize = 3 << 30;

fn add(n: usize) {
    TOTAL.fetch_add(n, Relaxed);
    let c = CUR.fetch_add(n, Relaxed) + n;
    if c > PEAK.load(Relaxed) {
        PEAK.store(c, Relaxed);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if CUR.load(Relaxed) + l.size() > CAP {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && CUR.load(Relaxed) + (n - l.size()) > CAP {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            if n >= l.size() {
                // Counted as if old and new block coexisted: the worst case of a real allocator.
                add(n);
                CUR.fetch_sub(l.size(), Relaxed);
            } else {
                CUR.fetch_sub(l.size() - n, Relaxed);
            }
        }
        q
    }
}

/// Bytes requested since the start of the process.
pub fn total() -> u64 {
    TOTAL.load(Relaxed) as u64
}

/// Runs `f` and returns its result with the peak number of bytes allocated above the start level.
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let start = CUR.load(Relaxed);
    PEAK.store(start, Relaxed);
    let r = f();
    (r, PEAK.load(Relaxed).saturating_sub(start))
}
