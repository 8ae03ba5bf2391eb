//! Counting allocator: live and peak bytes per thread, so that a monitor can bound the memory a call uses.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
};

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        if n > 0 {
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
            let _ = TOTAL.try_with(|t| t.set(t.get() + n as u64));
            let _ = CALLS.try_with(|t| t.set(t.get() + 1));
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64);
        add(-(l.size() as i64));
        unsafe { System.realloc(p, l, n) }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Usage {
    /// Highest number of bytes live at once above the level before the call.
    pub peak: u64,
    /// Sum of all bytes requested.
    pub total: u64,
}

pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let t0 = TOTAL.with(|t| t.get());
    let r = f();
    let peak = PEAK.with(|p| p.get()) - base;
    let total = TOTAL.with(|t| t.get()) - t0;
    (
        r,
        Usage {
            peak: peak.max(0) as u64,
            total,
        },
    )
}

/// CPU time of the calling thread in nanoseconds.
pub fn cpu_ns() -> u64 {
    clock(3)
}
/// CPU time of the process in nanoseconds.
pub fn process_cpu_ns() -> u64 {
    clock(2)
}
fn clock(id: i32) -> u64 {
    #[repr(C)]
    struct Ts {
        s: i64,
        n: i64,
    }
    unsafe extern "C" {
        fn clock_gettime(id: i32, ts: *mut Ts) -> i32;
    }
    let mut t = Ts { s: 0, n: 0 };
    unsafe { clock_gettime(id, &mut t) };
    t.s as u64 * 1_000_000_000 + t.n as u64
}
