//! Strings placed next to unmapped memory.

/// A mapping with an inaccessible page on either side.
pub struct Guard {
  data: *mut u8,
  len: usize,
}

const PAGE: usize = 4096;

impl Guard {
  pub fn new(len: usize) -> Self {
    let len = len.div_ceil(PAGE) * PAGE;
    unsafe {
      let base = libc::mmap(
        std::ptr::null_mut(),
        len + 2 * PAGE,
        libc::PROT_NONE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
        -1,
        0,
      );
      if base == libc::MAP_FAILED {
        crate::error("mmap failed");
      }
      let data = (base as *mut u8).add(PAGE);
      if libc::mprotect(data as *mut _, len, libc::PROT_READ | libc::PROT_WRITE) != 0 {
        crate::error("mprotect failed");
      }
      Self { data, len }
    }
  }

  /// Call `f` with a copy of `s` whose last byte is the last accessible one.
  pub fn at_end<T>(&mut self, s: &str, f: impl FnOnce(&str) -> T) -> T {
    let offset = self.len.checked_sub(s.len()).unwrap_or_else(|| crate::error("string too long"));
    self.at(offset, s, f)
  }

  /// Call `f` with a copy of `s` whose first byte is the first accessible one.
  pub fn at_start<T>(&mut self, s: &str, f: impl FnOnce(&str) -> T) -> T {
    self.at(0, s, f)
  }

  /// Call `f` with a copy of `s` at `offset` from a page boundary, surrounded by `fill`.
  pub fn inside<T>(&mut self, offset: usize, fill: u8, s: &str, f: impl FnOnce(&str) -> T) -> T {
    const MARGIN: usize = 256;
    assert!(offset + MARGIN * 2 + s.len() <= self.len);
    unsafe {
      std::ptr::write_bytes(self.data.add(offset), fill, s.len() + 2 * MARGIN);
    }
    self.at(MARGIN + offset, s, f)
  }

  fn at<T>(&mut self, offset: usize, s: &str, f: impl FnOnce(&str) -> T) -> T {
    assert!(offset + s.len() <= self.len);
    unsafe {
      let p = self.data.add(offset);
      std::ptr::copy_nonoverlapping(s.as_ptr(), p, s.len());
      f(std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, s.len())))
    }
  }

  /// Overwrite what `at_end` placed.
  pub fn scrub(&mut self, n: usize) {
    let n = n.min(self.len);
    unsafe { std::ptr::write_bytes(self.data.add(self.len - n), b'Z', n) }
  }
}

impl Drop for Guard {
  fn drop(&mut self) {
    unsafe {
      libc::munmap(self.data.sub(PAGE) as *mut _, self.len + 2 * PAGE);
    }
  }
}

thread_local! {
  static GUARD: std::cell::RefCell<Guard> = std::cell::RefCell::new(Guard::new(1 << 20));
}

/// Use this thread's mapping.
pub fn with<T>(f: impl FnOnce(&mut Guard) -> T) -> T {
  GUARD.with(|g| f(&mut g.borrow_mut()))
}
