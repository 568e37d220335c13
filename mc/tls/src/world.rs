//! Where the client's connections really go.

use std::cell::{Cell, RefCell};
use std::ffi::{c_char, c_int, c_void, CStr};
use std::net::Ipv4Addr;
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::Mutex;

/// The address given for the name of the server.
pub const SERVER: Ipv4Addr = Ipv4Addr::new(192, 0, 2, 1);
/// An address at which nobody answers.
pub const DEAD: Ipv4Addr = Ipv4Addr::new(192, 0, 2, 9);
pub const NAME: &str = "irc.chat.twitch.tv";
pub const PORT: u16 = 6697;

/// What the resolver answers: 0 one address, 1 a dead one first, 2 nothing.
pub static RESOLVER: AtomicUsize = AtomicUsize::new(0);
/// Other names which were looked up.
pub static NAMES: Mutex<Vec<String>> = Mutex::new(Vec::new());

thread_local! {
  /// Ports on loopback to which connections of this thread go, in order.
  pub static TARGETS: RefCell<Vec<u16>> = const { RefCell::new(Vec::new()) };
  /// Size of what the network takes in; 0 as it is.
  pub static BUFFERS: Cell<usize> = const { Cell::new(0) };
  /// Connections to the right place.
  pub static MADE: Cell<usize> = const { Cell::new(0) };
  /// Connections to somewhere else.
  pub static STRAY: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

fn next_target() -> Option<u16> {
  TARGETS.with(|t| {
    let mut t = t.borrow_mut();
    (!t.is_empty()).then(|| t.remove(0))
  })
}

fn set_errno(e: c_int) {
  unsafe { *libc::__errno_location() = e }
}

fn address(ip: Ipv4Addr, port: u16) -> libc::sockaddr_in {
  libc::sockaddr_in {
    sin_family: libc::AF_INET as u16,
    sin_port: port.to_be(),
    sin_addr: libc::in_addr { s_addr: u32::from(ip).to_be() },
    sin_zero: [0; 8],
  }
}

/// Replaces the one of libc: only the scenario's servers can be reached.
///
/// # Safety
/// As `connect`.
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, addr: *const libc::sockaddr, len: libc::socklen_t) -> c_int {
  let real = |addr: *const c_void, len: libc::socklen_t| libc::syscall(libc::SYS_connect, fd, addr, len) as c_int;
  match (*addr).sa_family as c_int {
    libc::AF_INET => {
      let to = *(addr as *const libc::sockaddr_in);
      let (ip, port) = (Ipv4Addr::from(u32::from_be(to.sin_addr.s_addr)), u16::from_be(to.sin_port));
      if ip == DEAD && port == PORT {
        set_errno(libc::ECONNREFUSED);
        return -1;
      }
      if ip == SERVER && port == PORT {
        MADE.with(|m| m.set(m.get() + 1));
        if let Some(port) = next_target() {
          if port == 0 {
            set_errno(libc::ECONNREFUSED);
            return -1;
          }
          let to = address(Ipv4Addr::LOCALHOST, port);
          let size = BUFFERS.with(|b| b.get()) as c_int;
          if size != 0 {
            let value = &size as *const c_int as *const c_void;
            libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_SNDBUF, value, std::mem::size_of::<c_int>() as u32);
          }
          for _ in 0..600 {
            let r = real(&to as *const _ as *const c_void, std::mem::size_of_val(&to) as u32);
            // all local ports are in use for the moment
            if r == -1 && *libc::__errno_location() == libc::EADDRNOTAVAIL {
              std::thread::sleep(std::time::Duration::from_millis(50));
              continue;
            }
            return r;
          }
        }
        set_errno(libc::ECONNREFUSED);
        return -1;
      }
      STRAY.with(|s| s.borrow_mut().push(format!("{ip}:{port}")));
      set_errno(libc::ECONNREFUSED);
      -1
    }
    libc::AF_INET6 => {
      STRAY.with(|s| s.borrow_mut().push("an IPv6 address".into()));
      set_errno(libc::ECONNREFUSED);
      -1
    }
    _ => real(addr as *const c_void, len),
  }
}

type Lookup = unsafe extern "C" fn(*const c_char, *const c_char, *const libc::addrinfo, *mut *mut libc::addrinfo) -> c_int;

/// Replaces the one of libc: only the name of the server is known.
///
/// # Safety
/// As `getaddrinfo`.
#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(
  node: *const c_char,
  service: *const c_char,
  hints: *const libc::addrinfo,
  res: *mut *mut libc::addrinfo,
) -> c_int {
  let real = libc::dlsym(libc::RTLD_NEXT, c"getaddrinfo".as_ptr());
  if real.is_null() {
    return libc::EAI_FAIL;
  }
  let real: Lookup = std::mem::transmute::<*mut c_void, Lookup>(real);
  let name = if node.is_null() { "".into() } else { CStr::from_ptr(node).to_string_lossy() };
  if name.trim_end_matches('.') != NAME {
    NAMES.lock().unwrap().push(name.into_owned());
    return libc::EAI_NONAME;
  }
  match RESOLVER.load(Relaxed) {
    2 => libc::EAI_NONAME,
    mode => {
      let mut hints = *hints;
      hints.ai_family = libc::AF_INET;
      let code = real(c"192.0.2.1".as_ptr(), service, &hints, res);
      if code != 0 || mode == 0 {
        return code;
      }
      let mut first = std::ptr::null_mut();
      let code = real(c"192.0.2.9".as_ptr(), service, &hints, &mut first);
      if code != 0 {
        return code;
      }
      let mut last = first;
      while !(*last).ai_next.is_null() {
        last = (*last).ai_next;
      }
      (*last).ai_next = *res;
      *res = first;
      0
    }
  }
}

/// What a thread knows about the scenario.
pub type State = (Vec<u16>, usize, usize, Vec<String>);

pub fn take() -> State {
  (TARGETS.with(|t| t.take()), BUFFERS.with(|b| b.get()), MADE.with(|m| m.get()), STRAY.with(|s| s.take()))
}

pub fn put((targets, buffers, made, stray): State) {
  TARGETS.with(|t| *t.borrow_mut() = targets);
  BUFFERS.with(|b| b.set(buffers));
  MADE.with(|m| m.set(made));
  STRAY.with(|s| *s.borrow_mut() = stray);
}

pub fn begin(targets: Vec<u16>) {
  TARGETS.with(|t| *t.borrow_mut() = targets);
  MADE.with(|m| m.set(0));
  STRAY.with(|s| s.borrow_mut().clear());
}

/// Connections made, and an error if any went elsewhere.
pub fn end() -> Result<usize, String> {
  let stray = STRAY.with(|s| std::mem::take(&mut *s.borrow_mut()));
  let names = std::mem::take(&mut *NAMES.lock().unwrap());
  if !stray.is_empty() {
    return Err(format!("connected to {stray:?}"));
  }
  if !names.is_empty() {
    return Err(format!("looked up {names:?}"));
  }
  Ok(MADE.with(|m| m.get()))
}
