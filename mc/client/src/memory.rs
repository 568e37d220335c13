//! C29: what a client keeps while it is used.

use crate::net::{cancel_at, run};
use crate::proto;
use crate::send::{credentials, LOGIN};
use mc_core::memory::live;
use mc_core::{harness_error, Local, Run, Verdict};
use std::cell::{Cell, RefCell};
use std::fmt::Write as _;
use std::io::{self, ErrorKind};
use std::pin::Pin;
use std::task::{Context, Poll};
use tmi::client::conn::verif;
use tmi::client::write::SameMessageBypass;
use tmi::{Client, IrcMessageRef, Message};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

/// What reading does when nothing is left, or writing does.
#[derive(Clone, Copy, PartialEq)]
enum Mode {
  Fine,
  Wait,
  Fail,
  FlushFails,
  FlushWaits,
}

/// How the next connection goes.
#[derive(Clone, Copy, PartialEq)]
enum Next {
  Greets,
  Rejects,
  Refused,
  Hangs,
}

// nothing here allocates more when it is used more often
thread_local! {
  static INPUT: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
  static READ: Cell<usize> = const { Cell::new(0) };
  static IN: Cell<Mode> = const { Cell::new(Mode::Fine) };
  static OUT: Cell<Mode> = const { Cell::new(Mode::Fine) };
  static ROOM: Cell<usize> = const { Cell::new(usize::MAX) };
  static NEXT: Cell<Next> = const { Cell::new(Next::Greets) };
}

fn input(bytes: &[u8], then: Mode) {
  INPUT.with(|i| {
    let mut i = i.borrow_mut();
    i.clear();
    i.extend_from_slice(bytes);
  });
  READ.with(|r| r.set(0));
  IN.with(|m| m.set(then));
}

fn output(mode: Mode, room: usize) {
  OUT.with(|m| m.set(mode));
  ROOM.with(|r| r.set(room));
}

struct Wire;

impl AsyncRead for Wire {
  fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
    let at = READ.with(|r| r.get());
    let n = INPUT.with(|i| {
      let i = i.borrow();
      let n = (i.len() - at).min(buf.remaining());
      buf.put_slice(&i[at..at + n]);
      n
    });
    READ.with(|r| r.set(at + n));
    if n > 0 {
      return Poll::Ready(Ok(()));
    }
    match IN.with(|m| m.get()) {
      Mode::Wait => Poll::Pending,
      Mode::Fail => Poll::Ready(Err(io::Error::new(ErrorKind::ConnectionReset, "injected"))),
      _ => Poll::Ready(Ok(())),
    }
  }
}

impl AsyncWrite for Wire {
  fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
    let room = ROOM.with(|r| r.get());
    if room == 0 && !buf.is_empty() {
      return match OUT.with(|m| m.get()) {
        Mode::Fail => Poll::Ready(Err(io::Error::new(ErrorKind::BrokenPipe, "injected"))),
        _ => Poll::Pending,
      };
    }
    let n = buf.len().min(room);
    ROOM.with(|r| r.set(room - n));
    Poll::Ready(Ok(n))
  }
  fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
    match OUT.with(|m| m.get()) {
      Mode::FlushFails => Poll::Ready(Err(io::Error::new(ErrorKind::BrokenPipe, "injected"))),
      Mode::FlushWaits => Poll::Pending,
      _ => Poll::Ready(Ok(())),
    }
  }
  fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
    Poll::Ready(Ok(()))
  }
}

fn install() {
  verif::set_connector(|| {
    Box::pin(async {
      output(Mode::Fine, usize::MAX);
      match NEXT.with(|n| n.replace(Next::Greets)) {
        Next::Greets => input(&[proto::ACK.as_bytes(), b"\r\n", proto::WELCOME.as_bytes(), b"\r\n"].concat(), Mode::Wait),
        Next::Rejects => input(b":tmi.twitch.tv CAP * ACK :x\r\n:tmi.twitch.tv NOTICE * :Login authentication failed\r\n", Mode::Wait),
        Next::Refused => return Err(ErrorKind::ConnectionRefused.into()),
        Next::Hangs => std::future::pending().await,
      }
      Ok(Box::new(Wire) as verif::Stream)
    })
  });
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
  Receive,
  ReceiveLong,
  ReceiveMany,
  Unparsable,
  NotUtf8,
  ReadFails,
  ReadCancelled,
  Closed,
  Privmsg,
  Reply,
  Invalid,
  JoinAll,
  PingPong,
  WriteFails,
  WriteCancelled,
  FlushFails,
  FlushCancelled,
  Reconnect,
  Rejected,
  Refused,
  TimedOut,
  ReconnectCancelled,
  Anew,
  Bypass,
}
use Step::*;

const STEPS: &[Step] = &[
  Receive, ReceiveLong, ReceiveMany, Unparsable, NotUtf8, ReadFails, ReadCancelled, Closed, Privmsg, Reply, Invalid, JoinAll,
  PingPong, WriteFails, WriteCancelled, FlushFails, FlushCancelled, Reconnect, Rejected, Refused, TimedOut, ReconnectCancelled,
  Anew, Bypass,
];

struct User {
  client: Client,
  bypass: SameMessageBypass,
  /// the number of steps made: nothing is said twice
  n: u64,
  text: String,
}

async fn connect() -> Result<Client, String> {
  Client::builder().credentials(credentials()).connect().await.map_err(|e| format!("connecting: {e}"))
}

impl User {
  /// A text of a fixed length.
  fn fresh(&mut self, before: &str, after: &str) {
    self.n += 1;
    self.text.clear();
    let _ = write!(self.text, "{before}{:012}{after}", self.n);
  }

  async fn receive(&mut self, line: bool) -> Verdict {
    match self.client.recv().await {
      Ok(m) if line => {
        let _ = m.as_typed();
        Ok(())
      }
      Err(e) if !line => {
        let _ = (e.to_string(), format!("{e:?}"), e.is_disconnect());
        Ok(())
      }
      Ok(m) => Err(format!("received {:?}", m.raw())),
      Err(e) => Err(format!("receiving: {e}")),
    }
  }

  async fn send(&mut self) -> bool {
    self.fresh("text ", "");
    self.client.privmsg("#ch", &self.text).send().await.is_ok()
  }

  async fn reconnect(&mut self, how: Next, fine: bool) -> Verdict {
    NEXT.with(|n| n.set(how));
    match (self.client.reconnect().await, fine) {
      (Ok(()), true) | (Err(_), false) => Ok(()),
      (r, _) => Err(format!("reconnecting: {r:?}")),
    }
  }

  async fn step(&mut self, step: Step) -> Verdict {
    let need = |fine: bool, what: &str| if fine { Ok(()) } else { Err(what.to_string()) };
    match step {
      Receive => {
        self.fresh("@id=", ";k=v :a!a@a.tmi.twitch.tv PRIVMSG #ch :text\r\n");
        input(self.text.as_bytes(), Mode::Wait);
        self.receive(true).await
      }
      ReceiveLong => {
        self.fresh(":a!a@a.tmi.twitch.tv PRIVMSG #ch :", "");
        self.text.push_str(&"x".repeat(20_000));
        self.text.push_str("\r\n");
        input(self.text.as_bytes(), Mode::Wait);
        self.text = String::new();
        self.receive(true).await
      }
      ReceiveMany => {
        self.fresh("PING :", "\r\nPING :2\r\nPING :3\r\nPING :4\r\n");
        input(self.text.as_bytes(), Mode::Wait);
        for _ in 0..4 {
          self.receive(true).await?;
        }
        Ok(())
      }
      Unparsable => {
        input(b"\r\n", Mode::Wait);
        self.receive(false).await?;
        self.fresh("@id=", ";display-name=A;tmi-sent-ts=1642720582342  nothing\r\n");
        input(self.text.as_bytes(), Mode::Wait);
        self.receive(false).await
      }
      NotUtf8 => {
        input(b"PING :\xff\r\n", Mode::Wait);
        self.receive(false).await?;
        self.fresh("PRIVMSG #ch :", "");
        let mut line = std::mem::take(&mut self.text).into_bytes();
        line.extend(b"\xe9\r\n");
        input(&line, Mode::Wait);
        self.receive(false).await
      }
      ReadFails | ReadCancelled => {
        self.fresh("PING :", "");
        input(self.text.as_bytes(), if step == ReadFails { Mode::Fail } else { Mode::Wait });
        if step == ReadFails {
          self.receive(false).await?;
        } else {
          cancel_at(0, self.client.recv()).await;
        }
        input(b"rest\r\n", Mode::Wait);
        self.receive(true).await
      }
      Closed => {
        input(b"", Mode::Fine);
        self.receive(false).await?;
        self.receive(false).await?;
        self.reconnect(Next::Greets, true).await
      }
      Privmsg => need(self.send().await, "not sent"),
      Reply => {
        self.fresh("text ", "");
        let r = self.client.privmsg("#ch", &self.text).reply_to(&self.text).client_nonce(&self.text).send().await;
        need(r.is_ok(), "not sent")
      }
      Invalid => {
        self.fresh("PING :", "");
        need(self.client.send_raw(self.text.as_str()).await.is_err(), "sent what is not a line")
      }
      JoinAll => {
        self.fresh("ch", "");
        let channels = [self.text.as_str(); 40];
        need(self.client.join_all(channels).await.is_ok(), "not sent")
      }
      PingPong => {
        self.fresh("PING :", "");
        need(self.client.ping(&self.text[6..]).await.is_ok(), "not sent")?;
        let Some(Ok(Message::Ping(ping))) = IrcMessageRef::parse(&self.text).map(|m| m.as_typed()) else {
          harness_error("not a PING");
        };
        need(self.client.pong(&ping).await.is_ok(), "not sent")
      }
      WriteFails | FlushFails => {
        if step == WriteFails {
          output(Mode::Fail, 7);
        } else {
          output(Mode::FlushFails, usize::MAX);
        }
        let sent = self.send().await;
        output(Mode::Fine, usize::MAX);
        need(!sent, "sent although the transport fails")
      }
      WriteCancelled | FlushCancelled => {
        if step == WriteCancelled {
          output(Mode::Wait, 7);
        } else {
          output(Mode::FlushWaits, usize::MAX);
        }
        cancel_at(0, self.send()).await;
        output(Mode::Fine, usize::MAX);
        need(self.send().await, "not sent")
      }
      Reconnect => self.reconnect(Next::Greets, true).await,
      Rejected => {
        self.reconnect(Next::Rejects, false).await?;
        self.reconnect(Next::Greets, true).await
      }
      // tried again
      Refused => self.reconnect(Next::Refused, true).await,
      TimedOut => {
        self.reconnect(Next::Hangs, false).await?;
        self.reconnect(Next::Greets, true).await
      }
      ReconnectCancelled => {
        NEXT.with(|n| n.set(Next::Hangs));
        cancel_at(1, self.client.reconnect()).await;
        self.reconnect(Next::Greets, true).await
      }
      Anew => {
        self.client = connect().await?;
        Ok(())
      }
      Bypass => {
        let _ = self.bypass.get();
        self.bypass = SameMessageBypass::default();
        Ok(())
      }
    }
  }

  async fn round(&mut self, steps: &[Step]) -> Verdict {
    for step in steps {
      self.step(*step).await.map_err(|e| format!("{e}, in {step:?}"))?;
    }
    // whatever had to wait has been delivered
    if !self.send().await && !self.send().await {
      return Err("not sent".into());
    }
    Ok(())
  }
}

fn case(steps: &[Step], first: u64, local: &mut Local) -> Verdict {
  local.trace();
  install();
  NEXT.with(|n| n.set(Next::Greets));
  run(async {
    let mut user = User { client: connect().await?, bypass: SameMessageBypass::default(), n: 0, text: String::with_capacity(64) };
    let mut times = first;
    // each time much longer than ever before: whatever is bounded stops growing
    for _ in 0..4 {
      let before = live();
      for _ in 0..times {
        local.steps(steps.len() as u64 + 1);
        user.round(steps).await?;
      }
      let grown = live() - before;
      local.state(&(steps.len(), grown));
      if grown <= 0 {
        return Ok(());
      }
      times *= 6;
    }
    Err(format!("{steps:?}, repeated, takes more and more memory: {} bytes after {} rounds", live(), user.n))
  })
}

pub fn run_check(check: &mut Run) {
  assert!(!LOGIN.is_empty());
  let n = STEPS.len() as u64;
  let depth = check.pick(3, 4);
  let first = 150;
  let total: u64 = (1..=depth).map(|k| n.pow(k)).sum();
  check.family(
    "rounds of calls",
    &format!("all sequences of at most {depth} of {n} steps (receiving, sending, connecting; succeeding, failing, cancelled), each repeated for rounds of {first}, {}, ... times", first * 6),
    total,
    |mut i, local| {
      let mut len = 1;
      while i >= n.pow(len) {
        i -= n.pow(len);
        len += 1;
      }
      let steps: Vec<Step> = (0..len)
        .map(|_| {
          let s = STEPS[(i % n) as usize];
          i /= n;
          s
        })
        .collect();
      local.sample(i, || format!("{steps:?}"));
      case(&steps, first, local)
    },
  );
  // a client which is dropped takes everything with it
  check.family("dropped clients", &format!("clients dropped after each sequence of at most 2 of {n} steps, repeatedly"), n * n + n, |mut i, local| {
    local.trace();
    let steps = if i < n { vec![STEPS[i as usize]] } else {
      i -= n;
      vec![STEPS[(i / n) as usize], STEPS[(i % n) as usize]]
    };
    install();
    NEXT.with(|n| n.set(Next::Greets));
    run(async {
      let mut times = 3;
      for _ in 0..4 {
        let before = live();
        for _ in 0..times {
          local.steps(steps.len() as u64 + 1);
          let mut user = User { client: connect().await?, bypass: SameMessageBypass::default(), n: 0, text: String::new() };
          // the steps which fail are as good
          for step in &steps {
            user.step(*step).await.map_err(|e| format!("{e}, in {step:?}"))?;
          }
        }
        let grown = live() - before;
        local.state(&grown);
        if grown <= 0 {
          return Ok(());
        }
        times *= 8;
      }
      Err(format!("clients dropped after {steps:?} leave memory behind"))
    })
  });
}
