//! The environment of a client: a network whose every answer is a decision.

use mc_core::dfs::Chooser;
use std::collections::VecDeque;
use std::future::Future;
use std::io::{self, ErrorKind};
use std::pin::Pin;
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::{Context, Poll};
use std::time::Duration;
use tmi::client::conn::verif;
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use tokio::time::{Instant, Sleep};

/// What a server does next.
#[derive(Clone, Debug, PartialEq)]
pub enum In {
  /// Available to be read in one piece.
  Bytes(Vec<u8>),
  /// Nothing happens for some time.
  Delay(Duration),
  /// The next read fails; later ones go on.
  Err(ErrorKind),
  /// The end of the stream.
  Eof,
  /// Nothing happens any more.
  Silence,
}

/// What happens to writes.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Out {
  Accept,
  /// Accept this many bytes, then fail.
  FailAfter(usize, ErrorKind),
  /// Accept this many bytes, then fail once.
  FailOnce(usize, ErrorKind),
  /// Accept this many bytes, then never become ready.
  HangAfter(usize),
  /// Flushing fails.
  FlushFails(ErrorKind),
  /// Flushing fails once.
  FlushFailsOnce(ErrorKind),
  /// Flushing never ends.
  FlushHangs,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Open {
  Ok,
  /// Opening fails, after some time.
  Err(ErrorKind, Duration),
  /// Opening succeeds after some time.
  Late(Duration),
  Hang,
}

/// One connection as planned by a scenario.
#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
  pub open: Open,
  pub input: Vec<In>,
  pub out: Out,
}

impl Plan {
  pub fn new(input: Vec<In>) -> Self {
    Plan { open: Open::Ok, input, out: Out::Accept }
  }
  pub fn open(open: Open) -> Self {
    Plan { open, input: vec![], out: Out::Accept }
  }
  pub fn out(input: Vec<In>, out: Out) -> Self {
    Plan { open: Open::Ok, input, out }
  }
}

/// Which decisions the environment may take.
#[derive(Clone, Copy, Debug, Default)]
pub struct May {
  /// deliver fewer bytes than available
  pub short_reads: bool,
  pub pend_reads: bool,
  pub fail_reads: bool,
  /// accept fewer bytes than offered
  pub short_writes: bool,
  pub pend_writes: bool,
  pub fail_writes: bool,
  /// drop a call which is pending
  pub cancel: bool,
  /// every number of bytes accepted by a write is explored
  pub split_writes: bool,
  /// every number of bytes delivered by a read is explored
  pub split_reads: bool,
  /// fail or delay opening
  pub fail_open: bool,
}

/// Everything that happened on one connection.
#[derive(Clone, Debug, Default)]
pub struct Seen {
  pub opened: bool,
  /// virtual time of the attempt, since the start of the world
  pub at: Duration,
  /// bytes handed to the transport
  pub accepted: Vec<u8>,
  /// number of bytes which left its buffer
  pub flushed: usize,
  /// errors given to reads and to writes
  pub read_errors: Vec<ErrorKind>,
  pub write_errors: Vec<ErrorKind>,
  pub open_error: Option<ErrorKind>,
  /// number of bytes delivered to the client
  pub delivered: usize,
  /// the client is opening the connection or has it open
  pub held: bool,
}

struct Conn {
  seen: Seen,
  input: VecDeque<In>,
  out: Out,
  sleep: Option<Pin<Box<Sleep>>>,
  eof: bool,
}

pub struct State {
  start: Instant,
  plans: Vec<Plan>,
  /// for connections after the planned ones
  otherwise: Plan,
  conns: Vec<Conn>,
  chooser: Option<Chooser>,
  may: May,
  /// the most connections held at the same time
  peak: usize,
}

#[derive(Clone)]
pub struct World(Arc<Mutex<State>>);

pub const BROKEN: ErrorKind = ErrorKind::BrokenPipe;
pub const RESET: ErrorKind = ErrorKind::ConnectionReset;

impl World {
  /// Must be called inside of a runtime.
  pub fn new(plans: Vec<Plan>) -> Self {
    let world = World(Arc::new(Mutex::new(State {
      start: Instant::now(),
      plans,
      otherwise: Plan::open(Open::Hang),
      conns: vec![],
      chooser: None,
      may: May::default(),
      peak: 0,
    })));
    world.attach();
    world
  }

  /// Serve the connections made by this thread.
  pub fn attach(&self) {
    let w = self.clone();
    verif::set_connector(move || w.connect());
  }

  /// No longer serve the connections made by this thread.
  pub fn detach() {
    verif::set_connector(|| Box::pin(async { Err(ErrorKind::NotConnected.into()) }));
  }

  fn lock(&self) -> MutexGuard<'_, State> {
    self.0.lock().unwrap_or_else(|e| e.into_inner())
  }

  /// Leave the answers to `chooser` from now on.
  pub fn decide(&self, chooser: Option<&Chooser>, may: May) {
    let mut s = self.lock();
    s.chooser = chooser.cloned();
    s.may = may;
  }

  /// Plan one more connection.
  pub fn plan(&self, plan: Plan) {
    self.lock().plans.push(plan);
  }

  /// What happens on connections after the planned ones.
  pub fn otherwise(&self, plan: Plan) {
    self.lock().otherwise = plan;
  }

  pub fn now(&self) -> Duration {
    self.lock().start.elapsed()
  }

  pub fn seen(&self) -> Vec<Seen> {
    self.lock().conns.iter().map(|c| c.seen.clone()).collect()
  }

  /// The number of connections which are open or being opened.
  pub fn held(&self) -> usize {
    self.lock().conns.iter().filter(|c| c.seen.held).count()
  }

  /// The most there were at the same time.
  pub fn peak(&self) -> usize {
    self.lock().peak
  }

  pub fn last(&self) -> Seen {
    self.lock().conns.last().map(|c| c.seen.clone()).unwrap_or_default()
  }

  /// Add to what the server does on the newest connection.
  pub fn push(&self, input: impl IntoIterator<Item = In>) {
    if let Some(c) = self.lock().conns.last_mut() {
      c.input.extend(input);
    }
  }

  pub fn set_out(&self, out: Out) {
    // of the last one that was opened
    if let Some(c) = self.lock().conns.iter_mut().rfind(|c| c.seen.opened) {
      c.out = match out {
        Out::FailAfter(n, k) => Out::FailAfter(c.seen.accepted.len() + n, k),
        Out::FailOnce(n, k) => Out::FailOnce(c.seen.accepted.len() + n, k),
        Out::HangAfter(n) => Out::HangAfter(c.seen.accepted.len() + n),
        o => o,
      };
    }
  }

  /// Forget what was written on the newest connection.
  pub fn forget(&self) {
    if let Some(c) = self.lock().conns.last_mut() {
      c.seen.accepted.clear();
      c.seen.flushed = 0;
      // the server has nothing planned that could be in the way
      c.input.retain(|i| *i != In::Silence);
    }
  }

  fn connect(&self) -> verif::Connecting {
    let (n, mut open) = {
      let mut s = self.lock();
      let n = s.conns.len();
      let plan = s.plans.get(n).unwrap_or(&s.otherwise).clone();
      let at = s.start.elapsed();
      s.conns.push(Conn {
        seen: Seen { at, held: true, ..Default::default() },
        input: plan.input.into(),
        out: plan.out,
        sleep: None,
        eof: false,
      });
      s.peak = s.peak.max(s.conns.iter().filter(|c| c.seen.held).count());
      (n, plan.open)
    };
    let world = self.clone();
    let held = Held { world: world.clone(), n };
    Box::pin(async move {
      {
        let s = world.lock();
        if let (true, Some(c)) = (s.may.fail_open && open == Open::Ok, &s.chooser) {
          match c.choose(3, "open") {
            1 => open = Open::Err(ErrorKind::ConnectionRefused, Duration::ZERO),
            2 => open = Open::Late(Duration::from_millis(10)),
            _ => {}
          }
        }
      }
      match open {
        Open::Ok => {}
        Open::Late(d) => tokio::time::sleep(d).await,
        Open::Err(kind, d) => {
          if !d.is_zero() {
            tokio::time::sleep(d).await;
          }
          world.lock().conns[n].seen.open_error = Some(kind);
          return Err(error(kind, "open"));
        }
        Open::Hang => std::future::pending().await,
      }
      world.lock().conns[n].seen.opened = true;
      Ok(Box::new(Transport { world: world.clone(), n, _held: held }) as verif::Stream)
    })
  }
}

/// How errors are made.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Form {
  Custom,
  Simple,
  Os(i32),
}

thread_local! {
  static FORM: std::cell::Cell<Form> = const { std::cell::Cell::new(Form::Custom) };
}

pub fn set_form(form: Form) -> Form {
  FORM.with(|f| f.replace(form))
}

/// An error which can be recognized.
pub fn error(kind: ErrorKind, op: &str) -> io::Error {
  match FORM.with(|f| f.get()) {
    Form::Custom => io::Error::new(kind, format!("{MARK} {op} {kind:?}")),
    Form::Simple => kind.into(),
    Form::Os(code) => io::Error::from_raw_os_error(code),
  }
}

pub const MARK: &str = "injected";

struct Transport {
  world: World,
  n: usize,
  _held: Held,
}

/// A connection, or the attempt to open it.
struct Held {
  world: World,
  n: usize,
}

impl Drop for Held {
  fn drop(&mut self) {
    self.world.lock().conns[self.n].seen.held = false;
  }
}

impl AsyncRead for Transport {
  fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
    let mut guard = self.world.lock();
    let s = &mut *guard;
    let may = s.may;
    let c = &mut s.conns[self.n];
    if let (Some(chooser), true) = (&s.chooser, may.pend_reads || may.fail_reads) {
      let mut ways = vec![0];
      if may.pend_reads {
        ways.push(1);
      }
      if may.fail_reads {
        ways.push(2);
      }
      match ways[chooser.choose(ways.len() as u32, "read: ok/pending/error") as usize] {
        1 => {
          cx.waker().wake_by_ref();
          return Poll::Pending;
        }
        2 => {
          c.seen.read_errors.push(RESET);
          return Poll::Ready(Err(error(RESET, "read")));
        }
        _ => {}
      }
    }
    loop {
      if c.eof {
        return Poll::Ready(Ok(()));
      }
      match c.input.front_mut() {
        None | Some(In::Silence) => {
          // the harness does not add input while a call is pending
          return Poll::Pending;
        }
        Some(In::Delay(d)) => {
          let sleep = c.sleep.get_or_insert_with(|| Box::pin(tokio::time::sleep(*d)));
          match sleep.as_mut().poll(cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(()) => {
              c.sleep = None;
              c.input.pop_front();
            }
          }
        }
        Some(In::Err(kind)) => {
          let kind = *kind;
          c.input.pop_front();
          c.seen.read_errors.push(kind);
          return Poll::Ready(Err(error(kind, "read")));
        }
        Some(In::Eof) => {
          c.eof = true;
        }
        Some(In::Bytes(bytes)) => {
          if bytes.is_empty() {
            c.input.pop_front();
            continue;
          }
          let max = bytes.len().min(buf.remaining());
          if max == 0 {
            return Poll::Ready(Ok(()));
          }
          let mut n = max;
          if let Some(chooser) = &s.chooser {
            if may.split_reads {
              n = max - chooser.free(max as u32, "bytes not delivered") as usize;
            } else if may.short_reads {
              n = match chooser.choose(if max > 2 { 4 } else { max as u32 }, "read: all/1/half/all but 1") {
                0 => max,
                1 => 1,
                2 => max / 2,
                _ => max - 1,
              };
            }
          }
          let rest = bytes.split_off(n);
          buf.put_slice(bytes);
          c.seen.delivered += n;
          if rest.is_empty() {
            c.input.pop_front();
          } else {
            *bytes = rest;
          }
          return Poll::Ready(Ok(()));
        }
      }
    }
  }
}

impl AsyncWrite for Transport {
  fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
    let mut guard = self.world.lock();
    let s = &mut *guard;
    let may = s.may;
    let c = &mut s.conns[self.n];
    let mut max = buf.len();
    match c.out {
      Out::FailAfter(n, kind) | Out::FailOnce(n, kind) => {
        max = max.min(n - c.seen.accepted.len().min(n));
        if max == 0 && !buf.is_empty() {
          if matches!(c.out, Out::FailOnce(..)) {
            c.out = Out::Accept;
          }
          c.seen.write_errors.push(kind);
          return Poll::Ready(Err(error(kind, "write")));
        }
      }
      Out::HangAfter(n) => {
        max = max.min(n - c.seen.accepted.len().min(n));
        if max == 0 && !buf.is_empty() {
          return Poll::Pending;
        }
      }
      _ => {}
    }
    let mut n = max;
    if let Some(chooser) = s.chooser.clone() {
      if may.split_writes {
        n = max - chooser.free(max as u32, "bytes not accepted") as usize;
      } else {
        let mut ways = vec![0];
        if may.short_writes && max > 1 {
          ways.push(1);
          if max > 2 {
            ways.extend([2, 3]);
          }
        }
        if may.pend_writes {
          ways.push(4);
        }
        if may.fail_writes {
          ways.extend([5, 6]);
        }
        match ways[chooser.choose(ways.len() as u32, "write: all/1/half/all but 1/pending/error/zero") as usize] {
          0 => {}
          1 => n = 1,
          2 => n = max / 2,
          3 => n = max - 1,
          4 => {
            cx.waker().wake_by_ref();
            return Poll::Pending;
          }
          5 => {
            c.seen.write_errors.push(BROKEN);
            return Poll::Ready(Err(error(BROKEN, "write")));
          }
          _ => {
            c.seen.write_errors.push(ErrorKind::WriteZero);
            return Poll::Ready(Ok(0));
          }
        }
      }
    }
    c.seen.accepted.extend_from_slice(&buf[..n]);
    Poll::Ready(Ok(n))
  }

  fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
    let mut guard = self.world.lock();
    let s = &mut *guard;
    let may = s.may;
    let c = &mut s.conns[self.n];
    match c.out {
      Out::FlushFails(kind) | Out::FlushFailsOnce(kind) => {
        if matches!(c.out, Out::FlushFailsOnce(_)) {
          c.out = Out::Accept;
        }
        c.seen.write_errors.push(kind);
        return Poll::Ready(Err(error(kind, "flush")));
      }
      Out::FlushHangs => return Poll::Pending,
      _ => {}
    }
    if let Some(chooser) = s.chooser.clone() {
      let mut ways = vec![0];
      if may.pend_writes {
        ways.push(1);
      }
      if may.fail_writes {
        ways.push(2);
      }
      match ways[chooser.choose(ways.len() as u32, "flush: ok/pending/error") as usize] {
        1 => {
          cx.waker().wake_by_ref();
          return Poll::Pending;
        }
        2 => {
          c.seen.write_errors.push(BROKEN);
          return Poll::Ready(Err(error(BROKEN, "flush")));
        }
        _ => {}
      }
    }
    c.seen.flushed = c.seen.accepted.len();
    Poll::Ready(Ok(()))
  }

  fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
    self.poll_flush(cx)
  }
}

#[derive(Debug)]
pub enum Call<T> {
  Done(T),
  Cancelled,
  /// never ends
  Hung,
}

impl<T> Call<T> {
  pub fn done(self) -> Option<T> {
    match self {
      Call::Done(v) => Some(v),
      _ => None,
    }
  }
}

/// Longer than any delay in a scenario.
pub const FOREVER: Duration = Duration::from_secs(60_000_000);

/// Run a call to its end, or drop it at one of the points where it is pending.
pub async fn drive<F: Future>(world: &World, call: F) -> Call<F::Output> {
  let mut call = Box::pin(call);
  let decided = std::future::poll_fn(|cx| match call.as_mut().poll(cx) {
    Poll::Ready(v) => Poll::Ready(Call::Done(v)),
    Poll::Pending => {
      let s = world.lock();
      if let (true, Some(c)) = (s.may.cancel, &s.chooser) {
        if c.choose(2, "cancel") == 1 {
          return Poll::Ready(Call::Cancelled);
        }
      }
      Poll::Pending
    }
  });
  tokio::time::timeout(FOREVER, decided).await.unwrap_or(Call::Hung)
}

/// Poll a call until it is pending for the `n`th time, then drop it.
pub async fn cancel_at<F: Future>(mut n: u32, call: F) -> Call<F::Output> {
  let mut call = Box::pin(call);
  let decided = std::future::poll_fn(|cx| match call.as_mut().poll(cx) {
    Poll::Ready(v) => Poll::Ready(Call::Done(v)),
    Poll::Pending if n == 0 => Poll::Ready(Call::Cancelled),
    Poll::Pending => {
      n -= 1;
      Poll::Pending
    }
  });
  tokio::time::timeout(FOREVER, decided).await.unwrap_or(Call::Hung)
}

/// Run in a fresh runtime with virtual time.
pub fn run<T>(body: impl Future<Output = T>) -> T {
  let rt = match tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build() {
    Ok(rt) => rt,
    Err(e) => mc_core::harness_error(format!("runtime: {e}")),
  };
  rt.block_on(body)
}
