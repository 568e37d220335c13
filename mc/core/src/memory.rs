//! Memory allocated by this thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
  static LIVE: Cell<i64> = const { Cell::new(0) };
  static PEAK: Cell<i64> = const { Cell::new(0) };
}

/// To be installed with `#[global_allocator]`.
pub struct Counting;

fn add(n: i64) {
  // not counted while a thread is being torn down
  let _ = LIVE.try_with(|live| {
    live.set(live.get() + n);
    let _ = PEAK.try_with(|peak| peak.set(peak.get().max(live.get())));
  });
}

unsafe impl GlobalAlloc for Counting {
  unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
    add(layout.size() as i64);
    System.alloc(layout)
  }
  unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
    add(layout.size() as i64);
    System.alloc_zeroed(layout)
  }
  unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
    add(-(layout.size() as i64));
    System.dealloc(ptr, layout)
  }
  unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new: usize) -> *mut u8 {
    add(new as i64 - layout.size() as i64);
    System.realloc(ptr, layout, new)
  }
}

/// Bytes allocated and not released by this thread.
pub fn live() -> i64 {
  LIVE.with(|l| l.get())
}

/// The largest number of bytes live during `f`, beyond those before it.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, i64) {
  let before = live();
  PEAK.with(|p| p.set(before));
  let v = f();
  (v, PEAK.with(|p| p.get()) - before)
}

/// What `f` leaves behind each time, however often it is repeated.
///
/// Whatever is set up once and kept, or grows up to some bound, is not counted:
/// `f` is repeated `first` times, then more and more often, and only memory which
/// goes on growing all the time is reported, in bytes per repetition.
pub fn left_behind(first: usize, mut f: impl FnMut()) -> Option<f64> {
  let mut times = first;
  loop {
    let before = live();
    for _ in 0..times {
      f();
    }
    let grown = live() - before;
    if grown <= 0 {
      return None;
    }
    if times >= 4096 {
      return Some(grown as f64 / times as f64);
    }
    times *= 8;
  }
}
