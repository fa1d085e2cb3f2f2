//! SanitizerCoverage runtime: edge counters and comparison operands of the instrumented crates.
use std::cell::UnsafeCell;

struct State {
    regions: Vec<(*mut u8, usize)>,
    consts: Vec<u64>,
    /// Filter in front of `consts`, indexed by a hash.
    seen: Vec<bool>,
    on: bool,
    /// Comparisons executed so far.
    steps: u64,
    /// (operand drawn from the input, operand to replace it with) of the current run.
    pairs: Vec<(u64, u64)>,
}
struct Global(UnsafeCell<State>);
// Workers are single-threaded.
unsafe impl Sync for Global {}
static G: Global = Global(UnsafeCell::new(State { regions: Vec::new(), consts: Vec::new(), seen: Vec::new(), on: false, steps: 0, pairs: Vec::new() }));

#[allow(clippy::mut_from_ref)]
fn g() -> &'static mut State {
    unsafe { &mut *G.0.get() }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(a: *mut u8, b: *mut u8) {
    let n = b as usize - a as usize;
    if n > 0 && !g().regions.iter().any(|r| r.0 == a) {
        g().regions.push((a, n));
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(_a: *const u8, _b: *const u8) {}

fn cmp(konst: bool, a: u64, b: u64) {
    let s = g();
    s.steps += 1;
    if !s.on || a == b {
        return;
    }
    // Everything is allocated in `start`, so that the log does not show in memory measurements.
    if konst && s.consts.len() < 4096 {
        let h = (a.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 48) as usize;
        if !s.seen[h] {
            s.seen[h] = true;
            s.consts.push(a);
        }
    }
    if s.pairs.len() < 64 {
        s.pairs.push((b, a));
        if !konst {
            s.pairs.push((a, b));
        }
    }
}
macro_rules! hooks {
    ($($n:ident $t:ty, $k:expr;)*) => { $(
        #[no_mangle] pub extern "C" fn $n(a: $t, b: $t) { cmp($k, a as u64, b as u64) }
    )* };
}
hooks! {
    __sanitizer_cov_trace_cmp1 u8, false;
    __sanitizer_cov_trace_cmp2 u16, false;
    __sanitizer_cov_trace_cmp4 u32, false;
    __sanitizer_cov_trace_cmp8 u64, false;
    __sanitizer_cov_trace_const_cmp1 u8, true;
    __sanitizer_cov_trace_const_cmp2 u16, true;
    __sanitizer_cov_trace_const_cmp4 u32, true;
    __sanitizer_cov_trace_const_cmp8 u64, true;
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_switch(v: u64, cases: *const u64) {
    g().steps += 1;
    if !g().on {
        return;
    }
    unsafe {
        let n = *cases as usize;
        for i in 0..n.min(64) {
            cmp(true, *cases.add(2 + i), v);
        }
    }
}

pub fn steps() -> u64 {
    g().steps
}
pub fn start() {
    let s = g();
    for (p, n) in &s.regions {
        unsafe { std::ptr::write_bytes(*p, 0, *n) }
    }
    s.seen.resize(1 << 16, false);
    s.consts.reserve(4096 - s.consts.len().min(4096));
    s.pairs.clear();
    s.pairs.reserve(128);
    s.on = true;
}
pub fn stop() {
    g().on = false;
}
pub fn consts() -> &'static [u64] {
    &g().consts
}
pub fn pairs() -> Vec<(u64, u64)> {
    g().pairs.clone()
}
pub fn total() -> usize {
    g().regions.iter().map(|r| r.1).sum()
}

/// Merges the counters of the last run into `virgin`; returns the number of new (edge, bucket) pairs.
pub fn merge(virgin: &mut Vec<u8>) -> usize {
    let total = total();
    if virgin.len() != total {
        virgin.resize(total, 0);
    }
    let mut new = 0;
    let mut off = 0;
    for (p, n) in &g().regions {
        let s = unsafe { std::slice::from_raw_parts(*p, *n) };
        let mut i = 0;
        while i < *n {
            if i + 8 <= *n && s[i..i + 8] == [0u8; 8] {
                i += 8;
                continue;
            }
            let c = s[i];
            if c != 0 {
                let b = match c {
                    1 => 1u8,
                    2 => 2,
                    3 => 4,
                    4..=7 => 8,
                    8..=15 => 16,
                    16..=31 => 32,
                    32..=127 => 64,
                    _ => 128,
                };
                if virgin[off + i] & b == 0 {
                    virgin[off + i] |= b;
                    new += 1;
                }
            }
            i += 1;
        }
        off += n;
    }
    new
}
pub fn edges_hit(virgin: &[u8]) -> usize {
    virgin.iter().filter(|x| **x != 0).count()
}
