//! Counting allocator: lets checks bound the memory a call asks for.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);

/// Allocations beyond this many bytes fail. Unlike a limit on the address space, this leaves
/// thread stacks and the allocator's reserves alone.
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
pub fn limit(n: usize) {
    LIMIT.store(n, Relaxed);
}

fn grow(n: usize) -> bool {
    let l = LIVE.fetch_add(n, Relaxed).wrapping_add(n);
    if l > LIMIT.load(Relaxed) {
        LIVE.fetch_sub(n, Relaxed);
        return false;
    }
    PEAK.fetch_max(l, Relaxed);
    true
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !grow(n) {
            return std::ptr::null_mut();
        }
        LIVE.fetch_sub(l.size(), Relaxed);
        System.realloc(p, l, n)
    }
}

/// Starts a measurement; returns the current level.
pub fn start() -> usize {
    let l = LIVE.load(Relaxed);
    PEAK.store(l, Relaxed);
    l
}
/// Peak bytes above `base` since `start`.
pub fn peak(base: usize) -> usize {
    PEAK.load(Relaxed).saturating_sub(base)
}
