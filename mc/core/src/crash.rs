//! Turns a fatal signal raised by the implementation into a violation.

use std::cell::Cell;
use std::sync::atomic::{AtomicPtr, Ordering::*};

struct Info {
  property: String,
  variant: String,
  dir: String,
  tier: &'static str,
}

static INFO: AtomicPtr<Info> = AtomicPtr::new(std::ptr::null_mut());

thread_local! {
  static CURRENT: Cell<(&'static str, u64, bool)> = const { Cell::new(("", 0, false)) };
}

pub fn install(property: &str, variant: &str, dir: &str, thorough: bool) {
  let info = Box::new(Info {
    property: property.into(),
    variant: variant.into(),
    dir: dir.into(),
    tier: if thorough { "thorough" } else { "quick" },
  });
  let _ = std::fs::create_dir_all(dir);
  INFO.store(Box::into_raw(info), SeqCst);
  unsafe {
    let mut sa: libc::sigaction = std::mem::zeroed();
    sa.sa_sigaction = handler as *const () as usize;
    sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
    for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
      libc::sigaction(sig, &sa, std::ptr::null_mut());
    }
    // runaway allocation ends in an abort of the allocating thread instead of
    // taking the machine down
    let gib = 1u64 << 30;
    let lim = libc::rlimit { rlim_cur: 24 * gib, rlim_max: libc::RLIM_INFINITY };
    libc::setrlimit(libc::RLIMIT_AS, &lim);
  }
}

pub fn thread_init() {
  // an alternate stack, for stack overflows
  unsafe {
    let size = 64 * 1024;
    let mem = libc::mmap(
      std::ptr::null_mut(),
      size,
      libc::PROT_READ | libc::PROT_WRITE,
      libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
      -1,
      0,
    );
    let stack = libc::stack_t { ss_sp: mem, ss_flags: 0, ss_size: size };
    libc::sigaltstack(&stack, std::ptr::null_mut());
  }
}

pub fn set_case(family: &'static str, case: u64) {
  CURRENT.with(|c| c.set((family, case, true)));
}

pub fn clear_case() {
  CURRENT.with(|c| c.set(("", 0, false)));
}

struct Buf {
  data: [u8; 2048],
  len: usize,
}

impl Buf {
  fn push(&mut self, s: &[u8]) {
    for b in s {
      if self.len < self.data.len() {
        self.data[self.len] = *b;
        self.len += 1;
      }
    }
  }
  fn num(&mut self, mut n: u64) {
    let mut digits = [0u8; 20];
    let mut i = 20;
    loop {
      i -= 1;
      digits[i] = b'0' + (n % 10) as u8;
      n /= 10;
      if n == 0 {
        break;
      }
    }
    self.push(&digits[i..]);
  }
}

extern "C" fn handler(sig: i32, _: *mut libc::siginfo_t, _: *mut libc::c_void) {
  let (family, case, active) = CURRENT.with(|c| c.get());
  unsafe {
    let info = INFO.load(SeqCst);
    if !active || info.is_null() {
      let m = b"ERROR: fatal signal outside of a case\n";
      libc::write(2, m.as_ptr() as *const _, m.len());
      libc::_exit(2);
    }
    let info = &*info;
    let mut path = Buf { data: [0; 2048], len: 0 };
    path.push(info.dir.as_bytes());
    path.push(b"/");
    path.push(info.property.as_bytes());
    path.push(b"-");
    path.push(info.variant.as_bytes());
    path.push(b"-signal-");
    path.num(case);
    path.push(b".json");
    let path_len = path.len;
    path.push(b"\0");
    let mut body = Buf { data: [0; 2048], len: 0 };
    body.push(b"{\"property\":\"");
    body.push(info.property.as_bytes());
    body.push(b"\",\"variant\":\"");
    body.push(info.variant.as_bytes());
    body.push(b"\",\"tier\":\"");
    body.push(info.tier.as_bytes());
    body.push(b"\",\"family\":\"");
    body.push(family.as_bytes());
    body.push(b"\",\"case\":");
    body.num(case);
    body.push(b",\"choices\":null,\"message\":\"fatal signal ");
    body.num(sig as u64);
    body.push(b"\"}\n");
    let fd = libc::open(
      path.data.as_ptr() as *const _,
      libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC,
      0o644,
    );
    if fd >= 0 {
      libc::write(fd, body.data.as_ptr() as *const _, body.len);
      libc::close(fd);
    }
    let mut out = Buf { data: [0; 2048], len: 0 };
    out.push(info.property.as_bytes());
    out.push(b": ");
    out.push(family.as_bytes());
    out.push(b" case ");
    out.num(case);
    out.push(b": fatal signal ");
    out.num(sig as u64);
    out.push(b"\nVIOLATION property=");
    out.push(info.property.as_bytes());
    out.push(b" replay=");
    out.push(&path.data[..path_len]);
    out.push(b"\n");
    libc::write(1, out.data.as_ptr() as *const _, out.len);
    libc::_exit(1);
  }
}
