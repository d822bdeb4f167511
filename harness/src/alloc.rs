//! A counting allocator. While a measurement is armed on a thread, allocations are counted, and
//! refused beyond a cap, so that runaway allocation ends the process instead of the machine.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

struct Counter;

#[global_allocator]
static A: Counter = Counter;

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}

const CAP: i64 = 2 << 30;

fn grow(n: usize) -> bool {
    if !ARMED.get() {
        return true;
    }
    let l = LIVE.get() + n as i64;
    if l > CAP {
        return false;
    }
    LIVE.set(l);
    PEAK.set(PEAK.get().max(l));
    TOTAL.set(TOTAL.get() + n as u64);
    true
}

unsafe impl GlobalAlloc for Counter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if grow(l.size()) { unsafe { System.alloc(l) } } else { std::ptr::null_mut() }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if grow(l.size()) { unsafe { System.alloc_zeroed(l) } } else { std::ptr::null_mut() }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ARMED.get() {
            LIVE.set(LIVE.get() - l.size() as i64);
        }
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && !grow(n - l.size()) {
            return std::ptr::null_mut();
        }
        if n < l.size() && ARMED.get() {
            LIVE.set(LIVE.get() - (l.size() - n) as i64);
        }
        unsafe { System.realloc(p, l, n) }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Usage {
    /// most bytes live at once, over what was live at the start
    pub peak: u64,
    /// bytes requested altogether (growing counts the growth)
    pub total: u64,
    /// bytes allocated and not released
    pub left: i64,
}

/// Refuse runaway allocation in `f`, unless a measurement is under way.
pub fn capped<T>(f: impl FnOnce() -> T) -> T {
    if ARMED.get() { f() } else { measure(f).0 }
}

pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    struct Disarm;
    impl Drop for Disarm {
        fn drop(&mut self) {
            ARMED.set(false);
        }
    }
    LIVE.set(0);
    PEAK.set(0);
    TOTAL.set(0);
    ARMED.set(true);
    let d = Disarm;
    let r = f();
    drop(d);
    (r, Usage { peak: PEAK.get() as u64, total: TOTAL.get(), left: LIVE.get() })
}
