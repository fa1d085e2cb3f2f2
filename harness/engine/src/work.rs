//! How much work a call does: comparisons executed by the instrumented crates, bytes allocated in
//! total, CPU time of the thread.
use crate::{alloc, cov, Fail};

#[derive(Clone, Copy, Default, Debug)]
pub struct Work {
    pub steps: u64,
    pub alloc: u64,
    pub ns: u64,
}
#[repr(C)]
struct Ts {
    s: i64,
    n: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Ts) -> i32;
}
const THREAD_CPUTIME: i32 = 3;
fn now() -> u64 {
    let mut t = Ts { s: 0, n: 0 };
    unsafe { clock_gettime(THREAD_CPUTIME, &mut t) };
    t.s as u64 * 1_000_000_000 + t.n as u64
}
pub fn of<T>(f: impl FnOnce() -> T) -> (T, Work) {
    let (s0, a0, n0) = (cov::steps(), alloc::total(), now());
    let r = f();
    (r, Work { steps: cov::steps() - s0, alloc: alloc::total() - a0, ns: now() - n0 })
}

/// Allowed work for `n` bytes of data nested `depth` levels: proportional to the size, times its
/// logarithm (sorting) and the depth (handing things through the levels).
pub fn bound(n: usize, depth: usize) -> Work {
    let log = (64 - (n as u64 | 1).leading_zeros()) as u64;
    let w = (n as u64 + 64) * (log + 2) * (depth as u64 + 1);
    Work { steps: w * STEPS, alloc: w * ALLOC, ns: 1_000_000_000 + w * 40 }
}
pub const STEPS: u64 = 8;
pub const ALLOC: u64 = 32;

/// Worst share of the bound used, in thousandths.
pub fn judge(what: &dyn Fn() -> String, n: usize, depth: usize, w: Work) -> Result<u64, Fail> {
    let b = bound(n, depth);
    for (name, x, max) in [("comparisons", w.steps, b.steps), ("bytes allocated", w.alloc, b.alloc), ("ns of CPU time", w.ns, b.ns)] {
        if x > max {
            return Err(Fail::new(format!("{}: {} for {} bytes of data nested {} levels: {}, more than {}", what(), name, n, depth, x, max)));
        }
    }
    Ok((w.steps * 1000 / b.steps).max(w.alloc * 1000 / b.alloc))
}
