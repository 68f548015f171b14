//! Stands in for the allocator that the SDK installs (`wee_alloc`), which
//! never gives memory back and isn't what is checked here. It is the one of
//! the system, and remembers how much memory is in use.

#![no_std]

use core::alloc::{GlobalAlloc, Layout};
use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};

extern crate std;

pub struct WeeAlloc;

impl WeeAlloc {
    pub const INIT: WeeAlloc = WeeAlloc;
}

static USED: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);

fn more(n: usize) {
    let u = USED.fetch_add(n, Relaxed).wrapping_add(n);
    if u > PEAK.load(Relaxed) {
        PEAK.fetch_max(u, Relaxed);
    }
}

unsafe impl GlobalAlloc for WeeAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        more(l.size());
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        more(l.size());
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        more(n);
        USED.fetch_sub(l.size(), Relaxed);
        std::alloc::System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        USED.fetch_sub(l.size(), Relaxed);
        std::alloc::System.dealloc(p, l)
    }
}

/// Runs `f` and tells how much more memory than before was in use at most.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let before = USED.load(Relaxed);
    PEAK.store(before, Relaxed);
    let r = f();
    (r, PEAK.load(Relaxed).saturating_sub(before))
}
