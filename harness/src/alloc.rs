//! Counting allocator: the memory monitor of every check.
//! Counts live and peak bytes and number of allocations (a logical step clock),
//! and refuses to exceed an armed budget (the process then aborts with a marker
//! that the supervising parent attributes to the running case).
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static COUNT: AtomicUsize = AtomicUsize::new(0);
pub static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);

fn over(add: usize) -> bool {
    let live = LIVE.fetch_add(add, Relaxed) + add;
    COUNT.fetch_add(1, Relaxed);
    if live > PEAK.load(Relaxed) {
        PEAK.store(live, Relaxed);
    }
    if live > LIMIT.load(Relaxed) {
        LIMIT.store(usize::MAX, Relaxed);
        let m = b"LX-MEMLIMIT\n";
        unsafe {
            libc::write(2, m.as_ptr() as *const libc::c_void, m.len());
            libc::_exit(78);
        }
    }
    false
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if over(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if over(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            over(n - l.size());
        } else {
            LIVE.fetch_sub(l.size() - n, Relaxed);
        }
        System.realloc(p, l, n)
    }
}

pub fn arm(budget: usize) {
    let live = LIVE.load(Relaxed);
    PEAK.store(live, Relaxed);
    LIMIT.store(live.saturating_add(budget), Relaxed);
}
pub fn disarm() -> usize {
    LIMIT.store(usize::MAX, Relaxed);
    PEAK.load(Relaxed)
}
