//! Counting allocator: live/peak bytes, a hard budget, and cumulative work.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;

static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static TOTAL: AtomicUsize = AtomicUsize::new(0);
static CALLS: AtomicUsize = AtomicUsize::new(0);
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
pub const EXIT_MEM: i32 = 77;

fn add(n: usize) {
  let live = LIVE.fetch_add(n, Relaxed) + n;
  TOTAL.fetch_add(n, Relaxed);
  CALLS.fetch_add(1, Relaxed);
  if live > PEAK.load(Relaxed) {
    PEAK.store(live, Relaxed);
    if live > LIMIT.load(Relaxed) {
      LIMIT.store(usize::MAX, Relaxed);
      eprintln!("memory budget exceeded: {live} live bytes");
      std::process::exit(EXIT_MEM);
    }
  }
}

unsafe impl GlobalAlloc for Counting {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    add(l.size());
    unsafe { System.alloc(l) }
  }
  unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
    add(l.size());
    unsafe { System.alloc_zeroed(l) }
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    LIVE.fetch_sub(l.size(), Relaxed);
    unsafe { System.dealloc(p, l) }
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    LIVE.fetch_sub(l.size(), Relaxed);
    add(n);
    unsafe { System.realloc(p, l, n) }
  }
}

pub fn set_limit(n: usize) {
  LIMIT.store(n, Relaxed);
}

/// (total bytes requested, calls, live)
pub fn totals() -> (usize, usize, usize) {
  (TOTAL.load(Relaxed), CALLS.load(Relaxed), LIVE.load(Relaxed))
}

pub fn reset_peak() {
  PEAK.store(LIVE.load(Relaxed), Relaxed);
}

pub fn peak() -> usize {
  PEAK.load(Relaxed)
}
