//! Coverage feedback of the library under test. `check.py` compiles it (and nothing else) with
//! edge and comparison callbacks; they land here. Without instrumentation nothing is ever recorded
//! and guided search degenerates to random search.

use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicU32, Ordering};

const EDGES: usize = 1 << 15;
const PAIRS: usize = 256;

struct State {
    counts: [u8; EDGES],
    touched: [u16; EDGES],
    n_touched: usize,
    /// Operands of comparisons that were not equal.
    pairs: [(u64, u64); PAIRS],
    n_pairs: usize,
    /// How close the operands of comparisons came (site and number of equal bits), as a bit set.
    close: [u64; EDGES / 64],
    close_list: [u16; 4096],
    n_close: usize,
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LAST: Cell<u32> = const { Cell::new(0) };
    static STATE: UnsafeCell<State> = const { UnsafeCell::new(State {
        counts: [0; EDGES], touched: [0; EDGES], n_touched: 0,
        pairs: [(0, 0); PAIRS], n_pairs: 0,
        close: [0; EDGES / 64], close_list: [0; 4096], n_close: 0,
    }) };
}

static GUARDS: AtomicU32 = AtomicU32::new(0);

pub fn guards() -> u32 {
    GUARDS.load(Ordering::Relaxed)
}

/// Starts recording on this thread.
pub fn start() {
    let _ = STATE.try_with(|s| {
        let s = unsafe { &mut *s.get() };
        for i in 0..s.n_touched {
            s.counts[s.touched[i] as usize] = 0;
        }
        s.n_touched = 0;
        for i in 0..s.n_close {
            s.close[s.close_list[i] as usize / 64] = 0;
        }
        s.n_close = 0;
        s.n_pairs = 0;
    });
    ON.with(|o| o.set(true));
}

fn bucket(c: u8) -> u32 {
    match c {
        0..=3 => c as u32,
        4..=7 => 4,
        8..=15 => 5,
        16..=127 => 6,
        _ => 7,
    }
}

/// Ends recording and gives the features of the run.
pub fn stop(features: &mut Vec<u32>, pairs: &mut Vec<(u64, u64)>) {
    ON.with(|o| o.set(false));
    features.clear();
    pairs.clear();
    let _ = STATE.try_with(|s| {
        let s = unsafe { &mut *s.get() };
        for i in 0..s.n_touched {
            let e = s.touched[i] as usize;
            features.push((e as u32) << 3 | bucket(s.counts[e]));
        }
        for i in 0..s.n_close {
            features.push(1 << 24 | s.close_list[i] as u32);
        }
        pairs.extend_from_slice(&s.pairs[..s.n_pairs.min(PAIRS)]);
    });
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    unsafe {
        if a == b || *a != 0 {
            return;
        }
        while a < b {
            *a = GUARDS.fetch_add(1, Ordering::Relaxed) % (EDGES as u32 - 1) + 1;
            a = a.add(1);
        }
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !ON.try_with(|o| o.get()).unwrap_or(false) {
        return;
    }
    let i = unsafe { *g } as usize % EDGES;
    LAST.with(|l| l.set(i as u32));
    let _ = STATE.try_with(|s| {
        let s = unsafe { &mut *s.get() };
        let c = s.counts[i];
        if c == 0 {
            s.touched[s.n_touched] = i as u16;
            s.n_touched += 1;
        }
        s.counts[i] = c.saturating_add(1);
    });
}

#[inline]
fn cmp(a: u64, b: u64, width: u32, constant: bool) {
    if !ON.try_with(|o| o.get()).unwrap_or(false) {
        return;
    }
    let _ = STATE.try_with(|s| {
        let s = unsafe { &mut *s.get() };
        if a != b {
            s.pairs[s.n_pairs % PAIRS] = (a, b);
            s.n_pairs += 1;
        }
        // distance of the operands: difference while small, number of equal bits otherwise
        let d = a.abs_diff(b);
        let close = if d < 8 { d } else { 8 + (a ^ b).leading_zeros() as u64 / 2 };
        let site = LAST.with(|l| l.get()) as u64 * 31 + if constant { a.wrapping_mul(0x9E3779B1) >> 7 } else { 0 } + width as u64;
        let i = (site.wrapping_mul(0x9E3779B97F4A7C15) >> 32).wrapping_add(close * 0x61c9) as usize % EDGES;
        if s.close[i / 64] >> (i % 64) & 1 == 0 && s.n_close < 4096 {
            s.close[i / 64] |= 1 << (i % 64);
            s.close_list[s.n_close] = i as u16;
            s.n_close += 1;
        }
    });
}

macro_rules! cmps {
    ($($f:ident $t:ty, $w:expr, $c:expr;)*) => { $(
        #[no_mangle]
        pub extern "C" fn $f(a: $t, b: $t) {
            cmp(a as u64, b as u64, $w, $c)
        }
    )* };
}
cmps! {
    __sanitizer_cov_trace_cmp1 u8, 1, false;
    __sanitizer_cov_trace_cmp2 u16, 2, false;
    __sanitizer_cov_trace_cmp4 u32, 4, false;
    __sanitizer_cov_trace_cmp8 u64, 8, false;
    __sanitizer_cov_trace_const_cmp1 u8, 1, true;
    __sanitizer_cov_trace_const_cmp2 u16, 2, true;
    __sanitizer_cov_trace_const_cmp4 u32, 4, true;
    __sanitizer_cov_trace_const_cmp8 u64, 8, true;
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_switch(v: u64, cases: *const u64) {
    if !ON.try_with(|o| o.get()).unwrap_or(false) {
        return;
    }
    // cases: number, width in bits, values; the branch taken is seen as an edge already
    let _ = STATE.try_with(|s| {
        let s = unsafe { &mut *s.get() };
        let n = unsafe { *cases };
        if n == 0 {
            return;
        }
        let k = (v ^ s.n_pairs as u64) % n;
        let c = unsafe { *cases.add(2 + k as usize) };
        if c != v {
            s.pairs[s.n_pairs % PAIRS] = (c, v);
            s.n_pairs += 1;
        }
    });
}
