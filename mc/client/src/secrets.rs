//! C21: the access token stays out of everything but the password line.

pub use crate::capture::note;
use crate::capture::{active, capture, leaks, leaks_part, printed};
use crate::connect::{self, Creds, CREDS};
use crate::net::{Seen, World};
use crate::send::{LOGIN, TOKEN};
use mc_core::space::Product;
use mc_core::{Run, Verdict};
use std::cell::RefCell;
use std::io::{Read, Seek, SeekFrom};
use std::os::fd::FromRawFd;
use tmi::client::{Config, ConnectError};

thread_local! {
  static WIRE: RefCell<Vec<Seen>> = const { RefCell::new(Vec::new()) };
}

/// What was written to all connections.
pub fn record(world: &World) {
  if active() {
    WIRE.with(|w| w.borrow_mut().extend(world.seen()));
  }
}

fn leak(text: &str) -> bool {
  leaks(core(), text)
}

fn core() -> &'static str {
  TOKEN.strip_prefix("oauth:").unwrap_or(TOKEN)
}

/// Judge everything seen since the last call.
fn judge() -> Verdict {
  let log = printed();
  let wire = WIRE.with(|w| std::mem::take(&mut *w.borrow_mut()));
  if let Some(line) = log.iter().find(|l| leak(l)) {
    return Err(format!("the token was printed: {line:?}"));
  }
  for (n, seen) in wire.iter().enumerate() {
    let text = String::from_utf8_lossy(&seen.accepted);
    let mut times = 0;
    for (i, line) in text.split("\r\n").enumerate() {
      if leak(line) {
        times += 1;
        if !line.starts_with("PASS ") || i != 1 {
          return Err(format!("connection {n}: the token is in line {i}: {line:?}"));
        }
      }
    }
    if times > 1 || text.matches(core()).count() > 1 {
      return Err(format!("connection {n}: the token was sent several times: {text:?}"));
    }
  }
  Ok(())
}

/// Catches what is printed to the standard error stream.
struct Stderr {
  file: std::fs::File,
  saved: i32,
}

mod sys {
  extern "C" {
    pub fn memfd_create(name: *const std::ffi::c_char, flags: u32) -> i32;
    pub fn dup(fd: i32) -> i32;
    pub fn dup2(a: i32, b: i32) -> i32;
    pub fn close(fd: i32) -> i32;
  }
}

impl Stderr {
  fn catch() -> Self {
    unsafe {
      let fd = sys::memfd_create(c"stderr".as_ptr(), 0);
      let saved = sys::dup(2);
      if fd < 0 || saved < 0 || sys::dup2(fd, 2) < 0 {
        mc_core::error("cannot redirect stderr");
      }
      Stderr { file: std::fs::File::from_raw_fd(fd), saved }
    }
  }
  fn end(mut self) -> String {
    unsafe {
      sys::dup2(self.saved, 2);
      sys::close(self.saved);
    }
    let mut bytes = vec![];
    let _ = self.file.seek(SeekFrom::Start(0));
    let _ = self.file.read_to_end(&mut bytes);
    String::from_utf8_lossy(&bytes).into_owned()
  }
}

/// Characters which appear nowhere else, however few of them.
const RARE: &str = "ꭰꭱꭲꭳꭴꭵꭶꭷꭸꭹꭺꭻꭼꭽꭾꭿꮀꮁꮂꮃꮄꮅꮆꮇꮈꮉꮊꮋꮌꮍ";
/// No three of them follow each other anywhere else.
const ASCII: &str = "zq7x9kvw3jQX8ZK2YJ5qz4xj6wkZ9QVvk0jz";

/// Tokens of every length and form on the ways to the ends of connecting.
fn tokens(check: &mut Run) {
  let forms = ["{}", "oauth:{}", "OAuth {}", "{}:", ":{}", "x{}=", "oauth:oauth:{}", "oauth: {}", "{{{}}}", "{}\\\"'"];
  let max = check.pick(30, 200) as u64;
  let ends = 9;
  let space = Product(vec![max + 1, 2, forms.len() as u64, ends, 3]);
  let bound = format!("tokens of 0..={max} characters x 2 alphabets x {} forms x {ends} ends of connecting x 3 logins", forms.len());
  check.family("tokens", &bound, space.total(), |i, local| {
    let v = space.get(i);
    let (alphabet, part) = [(RARE, 1), (ASCII, 3)][v[1]];
    let secret: String = alphabet.chars().cycle().take(v[0]).collect();
    let token = forms[v[2]].replacen("{}", &secret, 1);
    let login = ["some_login", "", "Ü"][v[4]];
    local.trace();
    local.sample(i, || format!("{token:?}"));
    let seen = connect::with_token(login, &token, v[3], local)?;
    let shown = printed();
    // in a few characters of ASCII, nothing is recognized
    if part == 1 || v[0] >= part {
      if let Some(line) = shown.iter().find(|l| leaks_part(&secret, l, part)) {
        return Err(format!("part of the token {token:?} was printed: {line:?}"));
      }
    }
    local.state(&(shown.len(), v[3]));
    let password = if token.starts_with("oauth:") { token.clone() } else { format!("oauth:{token}") };
    for s in seen {
      let text = String::from_utf8_lossy(&s.accepted).into_owned();
      for (n, line) in text.split("\r\n").enumerate() {
        if n == 1 && text.matches("\r\n").count() > 1 && line != format!("PASS {password}") {
          return Err(format!("the password line is {line:?}"));
        }
        if n != 1 && (part == 1 || v[0] >= part) && leaks_part(&secret, line, part) {
          return Err(format!("the token {token:?} is in line {n}: {line:?}"));
        }
      }
    }
    Ok(())
  });
}

pub fn run_check(check: &mut Run) {
  capture();
  check.after_each(judge);
  let caught = Stderr::catch();
  static WITH_TOKEN: &[Creds] = &[Creds::Prefixed, Creds::Plain, Creds::Inner];
  check.family("forms", "Debug and Display of everything which holds credentials, for every form of token", CREDS.len() as u64, |i, local| {
    local.trace();
    local.steps(1);
    let Some(c) = CREDS[i as usize].make() else { return Ok(()) };
    local.state(&i);
    let config = Config { credentials: c.clone(), ..Config::default() };
    note(|| format!("{c:?} {c:#?} {config:?} {config:#?} {:?} {:?}", Some(&c), vec![config.clone()]));
    note(|| format!("{:?}", ConnectError::Auth));
    note(|| format!("{} {}", c.login(), c.is_anon()));
    if c.login() != LOGIN && c.token().is_some() {
      return Err("the login changed".into());
    }
    Ok(())
  });
  tokens(check);
  connect::replies_family(check, WITH_TOKEN);
  connect::interrupted_family(check);
  connect::backoff_cases(check, check.pick(2, 3));
  connect::renewal_families(check, check.pick(1, 2), check.pick(2, 3));
  let printed = caught.end();
  check.family("standard error", "everything printed by the executions above", 1, |_, local| {
    local.trace();
    if leak(&printed) {
      return Err("the token was printed to the standard error stream".into());
    }
    Ok(())
  });
}
