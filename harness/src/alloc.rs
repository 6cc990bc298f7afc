//! Counting allocator.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
fn add(n: usize) {
    let l = LIVE.fetch_add(n, SeqCst) + n;
    PEAK.fetch_max(l, SeqCst);
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), SeqCst);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n >= l.size() {
            add(n - l.size());
        } else {
            LIVE.fetch_sub(l.size() - n, SeqCst);
        }
        System.realloc(p, l, n)
    }
}
pub fn start() -> usize {
    let l = LIVE.load(SeqCst);
    PEAK.store(l, SeqCst);
    l
}
pub fn peak(start: usize) -> usize {
    PEAK.load(SeqCst).saturating_sub(start)
}
