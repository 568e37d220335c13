//! C23: errors say what happened.

use crate::net::{drive, run, set_form, Call, Form, In, Open, Out, Plan, World, MARK};
use crate::proto;
use crate::ops::{history_ops, Op};
use crate::send::{bytes, connected, credentials, greeting};
use mc_core::space::{Product, Strings};
use mc_core::{Local, Run, Verdict};
use std::error::Error;
use std::io::{self, ErrorKind};
use std::time::Duration;
use tmi::client::conn::{OpenStreamError, TlsConfigError};
use tmi::client::read::RecvError;
use tmi::client::write::SendError;
use tmi::client::{Backoff, ConnectError, ReconnectError};
use tmi::Client;
use tokio_rustls::rustls;

/// Every kind, but those which ask to try again.
pub const KINDS: &[ErrorKind] = &[
  ErrorKind::ConnectionReset,
  ErrorKind::ConnectionAborted,
  ErrorKind::UnexpectedEof,
  ErrorKind::TimedOut,
  ErrorKind::NotFound,
  ErrorKind::PermissionDenied,
  ErrorKind::ConnectionRefused,
  ErrorKind::HostUnreachable,
  ErrorKind::NetworkUnreachable,
  ErrorKind::NotConnected,
  ErrorKind::AddrInUse,
  ErrorKind::AddrNotAvailable,
  ErrorKind::NetworkDown,
  ErrorKind::BrokenPipe,
  ErrorKind::AlreadyExists,
  ErrorKind::NotADirectory,
  ErrorKind::IsADirectory,
  ErrorKind::DirectoryNotEmpty,
  ErrorKind::ReadOnlyFilesystem,
  ErrorKind::StaleNetworkFileHandle,
  ErrorKind::InvalidInput,
  ErrorKind::InvalidData,
  ErrorKind::WriteZero,
  ErrorKind::StorageFull,
  ErrorKind::NotSeekable,
  ErrorKind::QuotaExceeded,
  ErrorKind::FileTooLarge,
  ErrorKind::ResourceBusy,
  ErrorKind::ExecutableFileBusy,
  ErrorKind::Deadlock,
  ErrorKind::CrossesDevices,
  ErrorKind::TooManyLinks,
  ErrorKind::ArgumentListTooLong,
  ErrorKind::Unsupported,
  ErrorKind::OutOfMemory,
  ErrorKind::Other,
];

#[derive(Clone, Copy, Debug, PartialEq)]
struct Failure {
  form: Form,
  kind: ErrorKind,
}

fn failures() -> Vec<Failure> {
  let mut all = vec![];
  for form in [Form::Custom, Form::Simple] {
    all.extend(KINDS.iter().map(|kind| Failure { form, kind: *kind }));
  }
  for code in 1..=133 {
    let kind = io::Error::from_raw_os_error(code).kind();
    if !matches!(kind, ErrorKind::Interrupted | ErrorKind::WouldBlock) {
      all.push(Failure { form: Form::Os(code), kind });
    }
  }
  all
}

impl Failure {
  fn make(self, op: &str) -> io::Error {
    let before = set_form(self.form);
    let e = crate::net::error(self.kind, op);
    set_form(before);
    e
  }

  /// Whether `e` is this failure, unaltered, of an operation.
  fn is(self, e: &io::Error) -> Verdict {
    let code = match self.form {
      Form::Os(code) => Some(code),
      _ => None,
    };
    let same = match self.form {
      Form::Custom => e.get_ref().is_some_and(|e| e.to_string().starts_with(MARK) && e.to_string().ends_with(&format!("{:?}", self.kind))),
      _ => e.to_string() == self.make("").to_string(),
    };
    if e.kind() != self.kind || e.raw_os_error() != code || !same {
      return Err(format!("reported {e:?}"));
    }
    Ok(())
  }

  /// Whether it says that the connection is gone.
  fn disconnects(self) -> bool {
    matches!(self.kind, ErrorKind::ConnectionReset | ErrorKind::ConnectionAborted | ErrorKind::UnexpectedEof | ErrorKind::TimedOut)
  }
}

/// `text` tells about `cause`, and more than that.
fn tells(text: &str, cause: &str) -> Verdict {
  if !text.contains(cause) || text.trim() == cause.trim() {
    return Err(format!("displayed as {text:?}, caused by {cause:?}"));
  }
  Ok(())
}

fn check_recv(f: Failure, e: &RecvError) -> Verdict {
  let RecvError::Io(io) = e else { return Err(format!("reported {e:?}")) };
  f.is(io)?;
  tells(&e.to_string(), &io.to_string())?;
  if f.disconnects() != e.is_disconnect() {
    return Err(format!("is_disconnect() is {} for {e:?}", e.is_disconnect()));
  }
  Ok(())
}

fn check_send(f: Failure, e: &SendError) -> Verdict {
  let SendError::Io(io) = e else { return Err(format!("reported {e:?}")) };
  f.is(io)?;
  tells(&e.to_string(), &io.to_string())
}

fn check_reconnect(e: &ReconnectError) -> Verdict {
  let cause = e.cause.to_string();
  tells(&e.to_string(), &cause)?;
  match e.source() {
    Some(s) if s.to_string() == cause && format!("{s:?}") == format!("{:?}", e.cause) => Ok(()),
    s => Err(format!("its source is {s:?}, not {:?}", e.cause)),
  }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum At {
  Open,
  OpenLate,
  Write(usize),
  Flush,
  /// after this many bytes
  FirstReply(usize),
  SecondReply(usize),
}

const PLACES: &[At] = &[
  At::Open,
  At::OpenLate,
  At::Write(0),
  At::Write(1),
  At::Write(70),
  At::Flush,
  At::FirstReply(0),
  At::FirstReply(9),
  At::SecondReply(0),
  At::SecondReply(9),
];

impl At {
  fn plan(self, kind: ErrorKind) -> Plan {
    let replies = |whole: &[&str], part: &str, n: usize| {
      let mut b: Vec<u8> = whole.iter().flat_map(|l| [l, "\r\n"]).flat_map(|l| l.bytes()).collect();
      b.extend(part.bytes().take(n));
      Plan::new(vec![In::Bytes(b), In::Err(kind), In::Eof])
    };
    match self {
      At::Open => Plan::open(Open::Err(kind, Duration::ZERO)),
      At::OpenLate => Plan::open(Open::Err(kind, Duration::from_millis(1500))),
      At::Write(n) => Plan::out(vec![greeting()], Out::FailAfter(n, kind)),
      At::Flush => Plan::out(vec![greeting()], Out::FlushFails(kind)),
      At::FirstReply(n) => replies(&[], proto::ACK, n),
      At::SecondReply(n) => replies(&[proto::ACK], proto::WELCOME, n),
    }
  }

  fn check(self, f: Failure, e: &ConnectError) -> Verdict {
    let io = match (self, e) {
      (At::Open | At::OpenLate, ConnectError::Open(e @ OpenStreamError::Io(io))) => {
        tells(&e.to_string(), &io.to_string())?;
        io
      }
      (At::Write(_) | At::Flush, ConnectError::Io(io)) => io,
      (At::FirstReply(_) | At::SecondReply(_), ConnectError::Read(e @ RecvError::Io(io))) => {
        check_recv(f, e)?;
        io
      }
      (_, e) => return Err(format!("reported {e:?}")),
    };
    f.is(io)?;
    tells(&e.to_string(), &io.to_string())
  }
}

fn ops() -> Vec<Op> {
  history_ops().into_iter().filter(|o| !matches!(o, Op::Raw(t) if !t.ends_with("\r\n"))).collect()
}

async fn fails_to_send(world: &World, client: &mut Client, op: &Op, f: Failure) -> Verdict {
  match drive(world, op.perform(client)).await {
    Call::Done(Err(e)) => check_send(f, &e),
    other => Err(format!("{op:?} ended with {other:?}")),
  }
}

async fn fails_to_receive(world: &World, client: &mut Client, f: Failure) -> Verdict {
  match drive(world, client.recv()).await {
    Call::Done(Err(e)) => check_recv(f, &e),
    other => Err(format!("receiving ended with {other:?}")),
  }
}

/// Errors which are no I/O errors.
fn others(i: u64, local: &mut Local) -> Verdict {
  local.trace();
  local.steps(2);
  let texts = ["", " ", ":zzqq", "@a zzqq", ":a zzqq \u{1}"];
  match i {
    0 => {
      if !RecvError::StreamClosed.is_disconnect() {
        return Err("a closed stream is no disconnect".into());
      }
    }
    1..=5 => {
      let text = texts[i as usize - 1];
      let e = RecvError::Parse(text.into());
      if e.is_disconnect() {
        return Err(format!("{e:?} is a disconnect"));
      }
      tells(&e.to_string(), text)?;
      let c = ConnectError::from(e);
      tells(&c.to_string(), text)?;
      if !matches!(&c, ConnectError::Read(RecvError::Parse(t)) if t == text) {
        return Err(format!("converted to {c:?}"));
      }
      let r = ReconnectError::from(c);
      check_reconnect(&r)?;
      tells(&r.to_string(), text)?;
    }
    6 => {
      let Err(e) = rustls::ServerName::try_from("not a name") else { mc_core::harness_error("valid name") };
      let text = e.to_string();
      let c = ConnectError::from(e);
      if !matches!(c, ConnectError::Dns(_)) {
        return Err(format!("converted to {c:?}"));
      }
      tells(&c.to_string(), &text)?;
      check_reconnect(&ReconnectError::from(c))?;
    }
    7..=9 => {
      let e = [
        rustls::Error::General("zzqq".into()),
        rustls::Error::HandshakeNotComplete,
        rustls::Error::InvalidCertificate(rustls::CertificateError::Expired),
      ][i as usize - 7]
        .clone();
      let t = TlsConfigError::from(e.clone());
      tells(&t.to_string(), &e.to_string())?;
      if !matches!(&t, TlsConfigError::Tls(got) if *got == e) {
        return Err(format!("converted to {t:?}"));
      }
      let c = ConnectError::from(t);
      tells(&c.to_string(), &e.to_string())?;
      if !matches!(&c, ConnectError::Tls(TlsConfigError::Tls(got)) if *got == e) {
        return Err(format!("converted to {c:?}"));
      }
      check_reconnect(&ReconnectError::from(c))?;
    }
    10 => {
      // all causes can be told apart
      let e = || io::Error::new(ErrorKind::Other, "zzqq");
      let shown = [
        RecvError::from(e()).to_string(),
        SendError::from(e()).to_string(),
        OpenStreamError::from(e()).to_string(),
        TlsConfigError::from(e()).to_string(),
        ConnectError::from(e()).to_string(),
        ReconnectError::from(e()).to_string(),
        RecvError::StreamClosed.to_string(),
        SendError::StreamClosed.to_string(),
        ConnectError::Timeout.to_string(),
        ConnectError::Auth.to_string(),
      ];
      for (n, a) in shown.iter().enumerate() {
        if a.trim().is_empty() || shown[..n].contains(a) {
          return Err(format!("{a:?} does not say what failed: {shown:?}"));
        }
      }
    }
    11 | 12 => {
      // the offending message is kept
      let line = ":tmi.twitch.tv NOTICE * :zzqq";
      return run(async {
        let world = World::new(if i == 11 {
          vec![Plan::new(vec![bytes(&[proto::ACK, line]), In::Eof])]
        } else {
          vec![Plan::new(vec![bytes(&["zzqq :x"]), In::Eof])]
        });
        match drive(&world, Client::builder().credentials(credentials()).connect()).await {
          Call::Done(Err(e @ (ConnectError::Notice(_) | ConnectError::Welcome(_)))) => {
            let (ConnectError::Notice(m) | ConnectError::Welcome(m)) = &e else { unreachable!() };
            if m.raw() != if i == 11 { line } else { "zzqq :x" } {
              return Err(format!("reported {e:?}"));
            }
            let text = e.to_string();
            tells(&text, "zzqq")?;
            let r = ReconnectError::from(e);
            check_reconnect(&r)
          }
          Call::Done(r) => Err(format!("ended with {:?}", r.err())),
          _ => Err("connecting never ends".into()),
        }
      });
    }
    13..=18 => {
      // lines which can't be decoded or parsed are no disconnects
      let line: &[u8] = [&b"\xff"[..], b":a PRIVMSG #c :\xe2\xb8", b"\xed\xa0\x80", b"", b" ", b"@a "][i as usize - 13];
      return run(async {
        let mut input = line.to_vec();
        input.extend(b"\r\nPING :next\r\n");
        let world = World::new(vec![Plan::new(vec![greeting(), In::Bytes(input), In::Eof])]);
        let mut client = connected(&world).await?;
        let e = match drive(&world, client.recv()).await {
          Call::Done(Err(e)) => e,
          other => return Err(format!("{:?} was received as {other:?}", String::from_utf8_lossy(line))),
        };
        if e.is_disconnect() {
          return Err(format!("{e:?} is a disconnect"));
        }
        match (&e, std::str::from_utf8(line)) {
          (RecvError::Parse(t), Ok(s)) if t == s => tells(&e.to_string(), s)?,
          (RecvError::Io(io), Err(_)) if io.kind() == ErrorKind::InvalidData => tells(&e.to_string(), &io.to_string())?,
          _ => return Err(format!("reported {e:?}")),
        }
        match drive(&world, client.recv()).await {
          Call::Done(Ok(m)) if m.raw() == "PING :next" => {}
          other => return Err(format!("then received {other:?}")),
        }
        match drive(&world, client.recv()).await {
          Call::Done(Err(e @ RecvError::StreamClosed)) if e.is_disconnect() => Ok(()),
          other => Err(format!("at the end received {other:?}")),
        }
      });
    }
    _ => {
      return run(async {
        let world = World::new(vec![Plan::new(vec![greeting(), In::Eof])]);
        let mut client = connected(&world).await?;
        match drive(&world, client.send_raw("zzqq")).await {
          Call::Done(Err(e @ SendError::InvalidMessage(_))) if !e.to_string().trim().is_empty() => Ok(()),
          other => Err(format!("an unterminated raw message ended with {other:?}")),
        }
      });
    }
  }
  Ok(())
}

/// A step of a history, and what it has to end with.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
  ReadFails(ErrorKind, usize),
  /// a line that ends a failed read, or one by itself
  Line,
  Undecodable,
  NoMessage,
  WriteFails(ErrorKind, usize),
  FlushFails(ErrorKind),
  Send,
  Unterminated,
  Reconnect,
  /// the second attempt fails as well
  ReconnectFails(ErrorKind),
}

const STEPS: &[Step] = &[
  Step::Line,
  Step::Undecodable,
  Step::NoMessage,
  Step::Send,
  Step::Unterminated,
  Step::Reconnect,
  Step::ReconnectFails(ErrorKind::ConnectionReset),
  Step::ReconnectFails(ErrorKind::InvalidData),
  Step::ReadFails(ErrorKind::ConnectionReset, 0),
  Step::ReadFails(ErrorKind::ConnectionReset, 3),
  Step::ReadFails(ErrorKind::UnexpectedEof, 3),
  Step::ReadFails(ErrorKind::TimedOut, 0),
  Step::ReadFails(ErrorKind::InvalidData, 3),
  Step::ReadFails(ErrorKind::BrokenPipe, 0),
  Step::WriteFails(ErrorKind::ConnectionReset, 0),
  Step::WriteFails(ErrorKind::InvalidData, 1),
  Step::WriteFails(ErrorKind::UnexpectedEof, 0),
  Step::FlushFails(ErrorKind::TimedOut),
  Step::FlushFails(ErrorKind::BrokenPipe),
];

/// Which failure was reported says nothing about later ones.
fn history(steps: &[Step], local: &mut Local) -> Verdict {
  const LINE: &str = "PING :x";
  const BAD: &str = "@zzqq ";
  let custom = |kind| Failure { form: Form::Custom, kind };
  // what the servers do
  let refused = |kind| Plan::open(Open::Err(kind, Duration::ZERO));
  let (mut plans, mut input, mut part) = (vec![], vec![greeting()], 0);
  for s in steps {
    let text = format!("{LINE}\r\n").into_bytes();
    match *s {
      Step::ReadFails(kind, n) => {
        if part == 0 && n > 0 {
          input.push(In::Bytes(text[..n].to_vec()));
          part = n;
        }
        input.push(In::Err(kind));
      }
      Step::Line => input.push(In::Bytes(text[std::mem::take(&mut part)..].to_vec())),
      Step::Undecodable => {
        part = 0;
        input.push(In::Bytes(b"\xff\xfe\r\n".to_vec()));
      }
      Step::NoMessage => {
        // after a part of another line it is one
        input.push(In::Bytes(if part > 0 { text[part..].to_vec() } else { format!("{BAD}\r\n").into_bytes() }));
        part = 0;
      }
      Step::Reconnect => {
        input.push(In::Eof);
        plans.push(Plan::new(std::mem::replace(&mut input, vec![greeting()])));
        part = 0;
      }
      Step::ReconnectFails(_) | Step::WriteFails(..) | Step::FlushFails(_) | Step::Send | Step::Unterminated => {}
    }
  }
  input.push(In::Eof);
  plans.push(Plan::new(input));
  // connections in the order in which they are opened
  let (mut order, mut plans) = (vec![], plans.into_iter());
  order.extend(plans.next());
  for s in steps {
    match *s {
      Step::Reconnect => order.extend(plans.next()),
      Step::ReconnectFails(kind) => order.extend([refused(ErrorKind::AddrInUse), refused(kind)]),
      _ => {}
    }
  }
  local.trace();
  run(async {
    let world = World::new(order);
    let backoff = Backoff { max_tries: Some(2), initial_delay: Duration::from_millis(1), delay_multiplier: 2, max_delay: Duration::from_millis(3) };
    let mut client = match drive(&world, Client::builder().credentials(credentials()).backoff(backoff).connect()).await {
      Call::Done(Ok(c)) => c,
      _ => return Err("could not connect".into()),
    };
    let op = Op::Raw("PRIVMSG #c :t\r\n".into());
    let mut part = false;
    for (n, s) in steps.iter().enumerate() {
      local.steps(1);
      local.state(&(format!("{s:?}"), part));
      let result: Verdict = match *s {
        Step::ReadFails(kind, n) => {
          part |= n > 0;
          fails_to_receive(&world, &mut client, custom(kind)).await
        }
        Step::Line | Step::NoMessage if *s == Step::Line || std::mem::take(&mut part) => {
          part = false;
          match drive(&world, client.recv()).await {
            Call::Done(Ok(m)) if m.raw() == LINE => Ok(()),
            other => Err(format!("received {other:?}")),
          }
        }
        Step::Line | Step::NoMessage => match drive(&world, client.recv()).await {
          Call::Done(Err(e @ RecvError::Parse(_))) if !e.is_disconnect() => tells(&e.to_string(), BAD),
          other => Err(format!("received {other:?}")),
        },
        Step::Undecodable => {
          part = false;
          match drive(&world, client.recv()).await {
            Call::Done(Err(e)) if !e.is_disconnect() && matches!(&e, RecvError::Io(io) if io.kind() == ErrorKind::InvalidData) => Ok(()),
            other => Err(format!("received {other:?}")),
          }
        }
        Step::WriteFails(kind, _) | Step::FlushFails(kind) => {
          world.set_out(match *s {
            Step::WriteFails(_, n) => Out::FailAfter(n, kind),
            _ => Out::FlushFails(kind),
          });
          let r = fails_to_send(&world, &mut client, &op, custom(kind)).await;
          world.set_out(Out::Accept);
          r
        }
        Step::Send => match drive(&world, op.perform(&mut client)).await {
          Call::Done(Ok(())) => Ok(()),
          other => Err(format!("sending ended with {other:?}")),
        },
        Step::Unterminated => match drive(&world, client.send_raw("zzqq")).await {
          Call::Done(Err(SendError::InvalidMessage(_))) => Ok(()),
          other => Err(format!("sending ended with {other:?}")),
        },
        Step::Reconnect => {
          part = false;
          match drive(&world, client.reconnect()).await {
            Call::Done(Ok(())) => Ok(()),
            other => Err(format!("reconnecting ended with {other:?}")),
          }
        }
        Step::ReconnectFails(kind) => match drive(&world, client.reconnect()).await {
          Call::Done(Err(e)) => check_reconnect(&e).and_then(|_| At::Open.check(custom(kind), &e.cause)),
          other => Err(format!("reconnecting ended with {other:?}")),
        },
      };
      result.map_err(|e| format!("step {n}, {s:?}: {e}"))?;
    }
    if part {
      // the end within a line is not judged here (C17)
      drive(&world, client.recv()).await;
    }
    match drive(&world, client.recv()).await {
      Call::Done(Err(e @ RecvError::StreamClosed)) if e.is_disconnect() => Ok(()),
      other => Err(format!("at the end received {other:?}")),
    }
  })
  .map_err(|e| format!("{e}\n  steps: {steps:?}"))
}

fn conversions(f: Failure) -> Verdict {
  let make = || f.make("op");
  check_recv(f, &RecvError::from(make()))?;
  check_send(f, &SendError::from(make()))?;
  let OpenStreamError::Io(e) = OpenStreamError::from(make());
  f.is(&e)?;
  match TlsConfigError::from(make()) {
    TlsConfigError::Io(e) => f.is(&e)?,
    e => return Err(format!("converted to {e:?}")),
  }
  let all = [
    ConnectError::from(make()),
    ConnectError::from(RecvError::from(make())),
    ConnectError::from(OpenStreamError::from(make())),
    ConnectError::from(TlsConfigError::from(make())),
  ];
  for (n, c) in all.into_iter().enumerate() {
    match (&c, n) {
      (ConnectError::Io(e), 0) => f.is(e)?,
      (ConnectError::Read(RecvError::Io(e)), 1) => f.is(e)?,
      (ConnectError::Open(OpenStreamError::Io(e)), 2) => f.is(e)?,
      (ConnectError::Tls(TlsConfigError::Io(e)), 3) => f.is(e)?,
      _ => return Err(format!("converted to {c:?}")),
    }
    tells(&c.to_string(), &make().to_string())?;
    let r = ReconnectError::from(c);
    check_reconnect(&r)?;
    tells(&r.to_string(), &make().to_string())?;
  }
  Ok(())
}

pub fn run_check(check: &mut Run) {
  check.assume("transports don't report errors which ask to try again (interrupted, would block)");
  let all = failures();
  let n = all.len() as u64;
  let about = |e: String, f: Failure, what: &dyn std::fmt::Debug| format!("{e}\n  failure: {f:?}, {what:?}");
  check.family("conversions", &format!("{n} I/O errors x every conversion"), n, |i, local| {
    local.trace();
    local.steps(8);
    local.state(&i);
    conversions(all[i as usize]).map_err(|e| about(e, all[i as usize], &""))
  });
  check.family("other errors", "every error which is no I/O error", 20, others);

  let space = Product(vec![n, PLACES.len() as u64, 4]);
  check.family("connecting", &format!("{n} I/O errors x {} places x connect and reconnect after 0, 1 or 2 other failures", PLACES.len()), space.total(), |i, local| {
    let v = space.get(i);
    let (f, place) = (all[v[0]], PLACES[v[1]]);
    local.trace();
    local.state(&(v[0], v[1]));
    let result = run(async {
      let failed = match v[2] {
        0 => {
          let world = World::new(vec![place.plan(f.kind)]);
          set_form(f.form);
          local.steps(1);
          match drive(&world, Client::builder().credentials(credentials()).connect()).await {
            Call::Done(Err(e)) => e,
            _ => return Err("connecting didn't fail".into()),
          }
        }
        earlier => {
          let mut plans = vec![Plan::new(vec![greeting(), In::Eof])];
          plans.extend((1..earlier).map(|_| Plan::open(Open::Err(ErrorKind::AddrInUse, Duration::ZERO))));
          plans.push(place.plan(f.kind));
          let world = World::new(plans);
          let backoff = Backoff { max_tries: Some(earlier as u64), initial_delay: Duration::from_millis(1), delay_multiplier: 2, max_delay: Duration::from_millis(3) };
          let Call::Done(Ok(mut client)) = drive(&world, Client::builder().credentials(credentials()).backoff(backoff).connect()).await else {
            return Err("could not connect".into());
          };
          set_form(f.form);
          local.steps(1 + earlier as u64);
          match drive(&world, client.reconnect()).await {
            Call::Done(Err(e)) => {
              check_reconnect(&e)?;
              e.cause
            }
            other => return Err(format!("reconnecting ended with {other:?}")),
          }
        }
      };
      place.check(f, &failed)
    });
    set_form(Form::Custom);
    result.map_err(|e| about(e, f, &(place, v[2])))
  });

  let ops = ops();
  let space = Product(vec![n, ops.len() as u64, 4]);
  check.family("sending", &format!("{n} I/O errors x {} calls x after 0, 1 or 9 bytes or in the flush", ops.len()), space.total(), |i, local| {
    let v = space.get(i);
    let (f, op) = (all[v[0]], &ops[v[1]]);
    local.trace();
    local.steps(3);
    local.state(&(v[0], v[1]));
    let result = run(async {
      let world = World::new(vec![Plan::new(vec![greeting(), In::Bytes(b"PIN".to_vec()), In::Err(f.kind), In::Bytes(b"G :x\r\n".to_vec()), In::Eof])]);
      let mut client = connected(&world).await?;
      set_form(f.form);
      let Some(out) = [Out::FailAfter(0, f.kind), Out::FailAfter(1, f.kind), Out::FailAfter(4, f.kind), Out::FlushFails(f.kind)].get(v[2]).copied() else { unreachable!() };
      world.set_out(out);
      fails_to_send(&world, &mut client, op, f).await?;
      world.set_out(Out::Accept);
      // receiving is not affected
      fails_to_receive(&world, &mut client, f).await.map_err(|e| format!("receiving afterwards: {e}"))?;
      match drive(&world, client.recv()).await {
        Call::Done(Ok(m)) if m.raw() == "PING :x" => Ok(()),
        other => Err(format!("then received {other:?}")),
      }
    });
    set_form(Form::Custom);
    result.map_err(|e| about(e, f, op))
  });

  let space = Product(vec![n, n, 3]);
  check.family("receiving", &format!("all pairs of {n} I/O errors x before, within and after a line"), space.total(), |i, local| {
    let v = space.get(i);
    let (a, b) = (all[v[0]], all[v[1]]);
    local.trace();
    local.steps(4);
    let result = run(async {
      let input = match v[2] {
        0 => vec![In::Err(a.kind), In::Err(b.kind), In::Bytes(b"PING :x\r\n".to_vec())],
        1 => vec![In::Bytes(b"PIN".to_vec()), In::Err(a.kind), In::Bytes(b"G ".to_vec()), In::Err(b.kind), In::Bytes(b":x\r\n".to_vec())],
        _ => vec![In::Err(a.kind), In::Bytes(b"PING :x\r\n".to_vec()), In::Err(b.kind)],
      };
      let world = World::new(vec![Plan::new([vec![greeting()], input, vec![In::Eof]].concat())]);
      let mut client = connected(&world).await?;
      for n in 0..3 {
        let line = n == if v[2] == 2 { 1 } else { 2 };
        let f = if n == 0 { a } else { b };
        set_form(f.form);
        if line {
          match drive(&world, client.recv()).await {
            Call::Done(Ok(m)) if m.raw() == "PING :x" => {}
            other => return Err(format!("received {other:?} instead of the line")),
          }
        } else {
          fails_to_receive(&world, &mut client, f).await?;
        }
      }
      match drive(&world, client.recv()).await {
        Call::Done(Err(RecvError::StreamClosed)) => Ok(()),
        other => Err(format!("at the end received {other:?}")),
      }
    });
    set_form(Form::Custom);
    result.map_err(|e| about(e, a, &(b, v[2])))
  });

  let max = check.pick(5, 6);
  let sigma = vec![""; STEPS.len()];
  let space = Strings { sigma: &sigma, max };
  check.family("histories", &format!("all sequences of at most {max} of {} steps, failing and not", STEPS.len()), space.total(), |i, local| {
    let steps: Vec<Step> = space.symbols(i).iter().map(|n| STEPS[*n]).collect();
    local.sample(i, || format!("{steps:?}"));
    history(&steps, local)
  });

  // lines which can't be decoded, wherever the mistake is
  let bad: Vec<Vec<u8>> = (0x80..=0xffu8)
    .flat_map(|a| (0..=0xffu8).map(move |b| vec![a, b]))
    .chain((0xe0..=0xf4u8).flat_map(|a| [0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0].into_iter().flat_map(move |b| [b' ', 0x80, 0xbf].map(|c| vec![a, b, c]))))
    .filter(|b| !b.contains(&b'\n') && !b.contains(&b'\r'))
    .collect();
  let space = Product(vec![bad.len() as u64, 4, 2]);
  check.family("undecodable lines", &format!("{} sequences of bytes at the start, within and at the end of a line and alone x in one read or in two", bad.len()), space.total(), |i, local| {
    let v = space.get(i);
    let b = &bad[v[0]];
    let line = match v[1] {
      0 => [b, &b":a PRIVMSG #c :t"[..]].concat(),
      1 => [&b":a PRIVMSG #c :t"[..], b, b"u"].concat(),
      2 => [&b":a PRIVMSG #c :t"[..], b].concat(),
      _ => b.clone(),
    };
    local.trace();
    local.steps(3);
    local.state(&(std::str::from_utf8(&line).is_ok(), v[1], v[2]));
    let after = b"\r\nPING :next\r\n";
    let input = if v[2] == 0 {
      vec![In::Bytes([&line[..], after].concat())]
    } else {
      let at = line.len() - line.len() / 2;
      vec![In::Bytes(line[..at].to_vec()), In::Bytes([&line[at..], after].concat())]
    };
    run(async {
      let world = World::new(vec![Plan::new([vec![greeting()], input, vec![In::Eof]].concat())]);
      let mut client = connected(&world).await?;
      let got = match drive(&world, client.recv()).await {
        Call::Done(r) => r,
        _ => return Err("receiving never ends".into()),
      };
      match (std::str::from_utf8(&line).ok(), &got) {
        (Some(s), Ok(m)) if m.raw() == s => {}
        (Some(s), Err(e @ RecvError::Parse(t))) if t == s && tmi::IrcMessage::parse(s).is_none() && !e.is_disconnect() => {}
        (None, Err(e @ RecvError::Io(io))) if io.kind() == ErrorKind::InvalidData && !e.is_disconnect() => {}
        _ => return Err(format!("received {got:?}")),
      }
      match drive(&world, client.recv()).await {
        Call::Done(Ok(m)) if m.raw() == "PING :next" => {}
        other => return Err(format!("then received {other:?}")),
      }
      match drive(&world, client.recv()).await {
        Call::Done(Err(RecvError::StreamClosed)) => Ok(()),
        other => Err(format!("at the end received {other:?}")),
      }
    })
    .map_err(|e| format!("{e}\n  line: {:?}", String::from_utf8_lossy(&line)))
  });
}
