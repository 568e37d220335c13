//! C18, C19, C20: connecting and reconnecting.

use crate::net::{cancel_at, drive, run, Call, In, May, Open, Out, Plan, World, BROKEN, MARK, RESET};
use crate::proto;
use crate::recv::{expected, got, Got};
use crate::secrets::{note, record};
use crate::ops::{history_ops, Op};
use crate::send::{bytes, greeting, LOGIN, TOKEN};
use mc_core::space::Product;
use mc_core::{dfs, Local, Run, Verdict};
use std::io::ErrorKind;
use std::time::Duration;
use tmi::client::conn::OpenStreamError;
use tmi::client::read::RecvError;
use tmi::client::{Backoff, ConnectError};
use tmi::{Client, Credentials};

/// What holds for a client unless something else is set (written down here,
/// not taken from the library).
pub const DEFAULT_TIMEOUT: Duration = Duration::from_secs(30);
pub const DEFAULT_BACKOFF: Backoff = Backoff { max_tries: Some(8), initial_delay: Duration::from_secs(1), delay_multiplier: 3, max_delay: Duration::from_secs(12) };

const MS: Duration = Duration::from_millis(1);

/// What a server answers with.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Reply {
  Line(&'static str),
  NotUtf8,
  Err(ErrorKind),
  Eof,
  Silence,
}
use Reply::*;

const NAK: Reply = Line(":tmi.twitch.tv CAP * NAK :twitch.tv/commands twitch.tv/tags twitch.tv/membership");
const AUTH_FAILED: Reply = Line(":tmi.twitch.tv NOTICE * :Login authentication failed");

pub const REPLIES: &[Reply] = &[
  Line(proto::ACK),
  Line(proto::WELCOME),
  NAK,
  AUTH_FAILED,
  Line("CAP * ACK :twitch.tv/commands twitch.tv/tags twitch.tv/membership"),
  Line(":tmi.twitch.tv CAP * ACK twitch.tv/commands"),
  Line("@time=1;x=y :tmi.twitch.tv CAP * ACK :twitch.tv/membership twitch.tv/tags twitch.tv/commands"),
  Line(":tmi.twitch.tv CAP * LS :twitch.tv/tags"),
  Line("CAP"),
  Line(":tmi.twitch.tv 001 you :authentication failed"),
  Line(":tmi.twitch.tv NOTICE * :Improperly formatted auth"),
  Line(":tmi.twitch.tv NOTICE * :Connection to the chat server failed"),
  Line(":tmi.twitch.tv NOTICE * :authentication pending"),
  Line("NOTICE"),
  Line(":tmi.twitch.tv CAP * NEW :twitch.tv/tags"),
  Line(":tmi.twitch.tv CAP * LIST :twitch.tv/commands twitch.tv/tags twitch.tv/membership"),
  Line("@msg-id=x :tmi.twitch.tv NOTICE #c :CAP * ACK 001"),
  Line("PING :tmi.twitch.tv"),
  Line(":a!a@a PRIVMSG #c :authentication failed"),
  Line(":tmi.twitch.tv 002 you :Your host is tmi.twitch.tv"),
  Line(":tmi.twitch.tv 421 you ACK :Unknown command 001"),
  Line("RECONNECT"),
  Line(":tmi.twitch.tv 376 you :>"),
  Line(""),
  Line("@a=b :x!y@z WHATEVER 1"),
  Line(":tmi.twitch.tv NOTICE * :Login Authentication Failed"),
  Line(":tmi.twitch.tv NOTICE * :Login unsuccessful"),
  Line("@msg-id=login_failed :tmi.twitch.tv NOTICE * :Your login authentication failed, try again"),
  Line("@k=authentication\\sfailed;l=authentication_failed :tmi.twitch.tv NOTICE #c :no"),
  Line("NOTICE authentication failed"),
  Line("001"),
  Line("@a=b :x 001"),
  Line(":tmi.twitch.tv 0001 you :Welcome, GLHF!"),
  Line(":tmi.twitch.tv 1 you :Welcome, GLHF!"),
  Line("cap * ack :twitch.tv/commands twitch.tv/tags twitch.tv/membership"),
  Line("CAP * ack :twitch.tv/commands twitch.tv/tags twitch.tv/membership"),
  Line("CAP you ACK :twitch.tv/commands twitch.tv/tags twitch.tv/membership"),
  Line("CAP :* ACK"),
  Line(":tmi.twitch.tv CAP * ACK :twitch.tv/commands NAK"),
  Line(":tmi.twitch.tv CAP * ACK :NAK"),
  Line(":tmi.twitch.tv CAPS * ACK :twitch.tv/commands"),
  Line(":tmi.twitch.tv CAP* ACK :twitch.tv/commands"),
  Line(":tmi.twitch.tv CA * ACK :twitch.tv/commands"),
  Line(":tmi.twitch.tv 0001 you :Welcome"),
  Line(":tmi.twitch.tv 01 you :Welcome"),
  Line(":tmi.twitch.tv 001you :Welcome"),
  Line(":tmi.twitch.tv NOTICES * :Login authentication failed"),
  Line(":tmi.twitch.tv USERSTATE #c"),
  Line(":tmi.twitch.tv GLOBALUSERSTATE"),
  NotUtf8,
  Err(ErrorKind::ConnectionReset),
  Err(ErrorKind::Other),
  Eof,
  Silence,
];

fn command(line: &str) -> Option<&str> {
  let mut words = line.split(' ').filter(|w| !w.starts_with(['@', ':']));
  words.next().filter(|c| !c.is_empty())
}

/// How connecting ends.
#[derive(Clone, Debug, PartialEq)]
pub enum End {
  Success,
  Auth,
  Welcome(String),
  Notice(String),
  Unparsable(String),
  NotUtf8,
  ReadIo(ErrorKind),
  Closed,
  Io(ErrorKind),
  Open(ErrorKind),
  Timeout,
}

/// The end which a reply causes in a step of the handshake, if any.
fn judge(step: usize, reply: Reply) -> Option<End> {
  let line = match reply {
    Line(l) => l,
    NotUtf8 => return Some(End::NotUtf8),
    Err(k) => return Some(End::ReadIo(k)),
    Eof => return Some(End::Closed),
    Silence => return Some(End::Timeout),
  };
  let Some(command) = command(line) else { return Some(End::Unparsable(line.into())) };
  match (step, command) {
    (0, "CAP") if line.contains("CAP * ACK") => None,
    (0, "CAP") => Some(End::Auth),
    (1, "001") => Some(End::Success),
    (1, "NOTICE") if line.contains("authentication failed") => Some(End::Auth),
    (1, "NOTICE") => Some(End::Notice(line.into())),
    _ => Some(End::Welcome(line.into())),
  }
}

pub fn ended(result: Result<(), ConnectError>) -> Result<End, String> {
  let own = |e: &std::io::Error| e.to_string().contains(MARK);
  Ok(match result {
    Ok(()) => End::Success,
    Result::Err(e) => match e {
      ConnectError::Auth => End::Auth,
      ConnectError::Timeout => End::Timeout,
      ConnectError::Welcome(m) => End::Welcome(m.raw().into()),
      ConnectError::Notice(m) => End::Notice(m.raw().into()),
      ConnectError::Read(RecvError::Parse(s)) => End::Unparsable(s),
      ConnectError::Read(RecvError::StreamClosed) => End::Closed,
      ConnectError::Read(RecvError::Io(e)) if own(&e) => End::ReadIo(e.kind()),
      ConnectError::Read(RecvError::Io(e)) if e.kind() == ErrorKind::InvalidData => End::NotUtf8,
      ConnectError::Io(e) if own(&e) || e.kind() == ErrorKind::WriteZero => End::Io(e.kind()),
      ConnectError::Open(OpenStreamError::Io(e)) if own(&e) => End::Open(e.kind()),
      e => return Result::Err(format!("unexpected error {e:?}")),
    },
  })
}

/// The forms of credentials.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Creds {
  Default,
  Anon,
  NoToken,
  Plain,
  Prefixed,
  Empty,
  Inner,
}

pub const CREDS: &[Creds] = &[
  Creds::Prefixed,
  Creds::Plain,
  Creds::Anon,
  Creds::Default,
  Creds::NoToken,
  Creds::Empty,
  Creds::Inner,
];

pub const INNER: &str = "xoauth:zq7x9kvw3j";

impl Creds {
  pub fn make(self) -> Option<Credentials> {
    Some(match self {
      Creds::Default => return None,
      Creds::Anon => Credentials::anon(),
      Creds::NoToken => Credentials { login: LOGIN.into(), token: None },
      Creds::Plain => Credentials::new(LOGIN, TOKEN.strip_prefix("oauth:").unwrap_or(TOKEN)),
      Creds::Prefixed => Credentials::new(LOGIN, TOKEN),
      Creds::Empty => Credentials::new(LOGIN, ""),
      Creds::Inner => Credentials::new(LOGIN, INNER),
    })
  }

  fn token(self) -> Option<&'static str> {
    match self {
      Creds::Default | Creds::Anon | Creds::NoToken => None,
      Creds::Plain => TOKEN.strip_prefix("oauth:"),
      Creds::Prefixed => Some(TOKEN),
      Creds::Empty => Some(""),
      Creds::Inner => Some(INNER),
    }
  }

  /// Whether `bytes` are exactly the three lines of a handshake.
  fn check(self, bytes: &[u8], login: Option<&str>) -> Verdict {
    let text = String::from_utf8_lossy(bytes);
    let anonymous = matches!(self, Creds::Default | Creds::Anon);
    let login = match login {
      Some(l) => l.to_string(),
      None if anonymous => {
        let nick = text.rsplit_once("NICK ").map(|(_, n)| n.trim_end()).unwrap_or("");
        nick.to_string()
      }
      None => LOGIN.to_string(),
    };
    if anonymous {
      let digits = login.strip_prefix("justinfan").unwrap_or("");
      if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
        return Result::Err(format!("anonymous login {login:?}"));
      }
    } else if login != LOGIN {
      return Result::Err(format!("login {login:?}"));
    }
    let n = proto::handshake(bytes, &login, self.token())?;
    if n != bytes.len() {
      return Result::Err(format!("wrote more than the handshake: {text:?}"));
    }
    Ok(())
  }

  async fn connect(self, world: &World, timeout: Option<Duration>) -> Result<Result<Client, ConnectError>, String> {
    let call = async {
      match (self.make(), timeout) {
        (None, None) => Client::anonymous().await,
        (c, t) => {
          let mut b = Client::builder();
          if let Some(c) = c {
            b = b.credentials(c);
          }
          if let Some(t) = t {
            b = b.timeout(t);
          }
          b.connect().await
        }
      }
    };
    let result = match drive(world, call).await {
      Call::Done(r) => r,
      Call::Cancelled => return Result::Err("cancelled".into()),
      Call::Hung => return Result::Err("connecting never ends".into()),
    };
    match &result {
      Ok(c) => note(|| format!("{:?} {:#?} {:?}", c.config(), c.credentials(), c.credentials().login())),
      Result::Err(e) => note(|| format!("{e:?} {e} {e:#?} {:?}", std::error::Error::source(e).map(|s| format!("{s} {s:?}")))),
    }
    Ok(result)
  }
}

const REST: [&str; 3] = ["PING :rest", ":x!x@x PRIVMSG #c :rest", ":tmi.twitch.tv NOTICE * :authentication failed"];

struct Script {
  replies: [Reply; 2],
  chunks: usize,
  creds: Creds,
  end: usize,
  delay: Duration,
  timeout: Option<Duration>,
}

const CHUNKS: usize = 6;

impl Script {
  fn input(&self) -> Vec<In> {
    let mut pieces: Vec<In> = vec![];
    let mut text: Vec<u8> = vec![];
    let terminator: &[u8] = if self.end == 1 { b"\n" } else { b"\r\n" };
    let mut open = true;
    let flush = |text: &mut Vec<u8>, pieces: &mut Vec<In>| {
      if text.is_empty() {
        return;
      }
      let all = std::mem::take(text);
      match self.chunks {
        2 => pieces.extend(all.iter().map(|b| In::Bytes(vec![*b]))),
        3 => pieces.extend(all.chunks(10).map(|c| In::Bytes(c.to_vec()))),
        4 => pieces.extend(all.chunks(33).flat_map(|c| [In::Bytes(c.to_vec()), In::Delay(MS)])),
        _ => pieces.push(In::Bytes(all)),
      }
    };
    for (n, r) in self.replies.iter().enumerate() {
      if !open {
        break;
      }
      if !self.delay.is_zero() {
        flush(&mut text, &mut pieces);
        pieces.push(In::Delay(self.delay));
      }
      match *r {
        Line(l) => text.extend_from_slice(l.as_bytes()),
        NotUtf8 => text.extend_from_slice(b":tmi.twitch.tv 001 \xff"),
        Err(k) => {
          flush(&mut text, &mut pieces);
          pieces.push(In::Err(k));
        }
        Eof | Silence => {
          flush(&mut text, &mut pieces);
          pieces.push(if *r == Eof { In::Eof } else { In::Silence });
          open = false;
        }
      }
      if matches!(r, Line(_) | NotUtf8) {
        // the last line before the end of the stream may be unterminated
        let last = n == 1;
        if !(last && self.end == 2) {
          text.extend_from_slice(terminator);
        }
      }
      if self.chunks == 1 {
        flush(&mut text, &mut pieces);
      }
    }
    if open {
      if self.end != 2 {
        for l in REST {
          text.extend_from_slice(l.as_bytes());
          text.extend_from_slice(terminator);
        }
      }
      flush(&mut text, &mut pieces);
      pieces.push(In::Eof);
    }
    pieces
  }

  fn want(&self) -> End {
    let timeout = self.timeout.unwrap_or(DEFAULT_TIMEOUT);
    let mut t = Duration::ZERO;
    for (step, r) in self.replies.iter().enumerate() {
      t += self.delay;
      if t > timeout {
        return End::Timeout;
      }
      // an empty unterminated line is no line
      if self.end == 2 && step == 1 && *r == Line("") {
        return End::Closed;
      }
      if let Some(end) = judge(step, *r) {
        return end;
      }
    }
    unreachable!()
  }

  fn execute(&self, local: &mut Local) -> Verdict {
    local.trace();
    local.steps(4);
    run(async {
      let world = World::new(vec![Plan::new(self.input())]);
      let result = self.creds.connect(&world, self.timeout).await?;
      let seen = world.last();
      let elapsed = world.now();
      let login = result.as_ref().ok().map(|c| c.credentials().login().to_string());
      self.creds.check(&seen.accepted, login.as_deref())?;
      if seen.flushed != seen.accepted.len() {
        return Result::Err("the handshake was not flushed".into());
      }
      let (client, end) = match result {
        Ok(c) => (Some(c), End::Success),
        Result::Err(e) => (None, ended(Result::Err(e))?),
      };
      let want = self.want();
      local.state(&(format!("{end:?}"), self.creds as u8));
      if end != want {
        return Result::Err(format!("ended with {end:?}, expected {want:?}"));
      }
      let timeout = self.timeout.unwrap_or(DEFAULT_TIMEOUT);
      if elapsed > timeout + MS {
        return Result::Err(format!("took {elapsed:?}, more than the timeout {timeout:?}"));
      }
      if end != End::Timeout && elapsed > self.delay * 2 + MS * 100 {
        return Result::Err(format!("took {elapsed:?}"));
      }
      if let Some(mut client) = client {
        // what follows the welcome is left for the caller
        let mut rest = vec![];
        if self.end != 2 {
          rest.extend(REST.map(|l| Got::Message(l.into())));
        }
        rest.push(Got::Closed);
        for want in rest {
          let got = match drive(&world, client.recv()).await {
            Call::Done(r) => got(r)?,
            _ => return Result::Err("receiving never ends".into()),
          };
          if got != want {
            return Result::Err(format!("then received {got:?}, expected {want:?}"));
          }
        }
        if world.last().accepted.len() != seen.accepted.len() {
          return Result::Err("wrote something without being asked".into());
        }
      }
      if world.seen().len() != 1 {
        return Result::Err(format!("opened {} connections", world.seen().len()));
      }
      record(&world);
      Ok(())
    })
    .map_err(|e| format!("{e}\n  replies: {:?}, credentials: {:?}, timeout: {:?}, delay: {:?}, chunking {}, ending {}", self.replies, self.creds, self.timeout, self.delay, self.chunks, self.end))
  }
}

fn scripts(creds: &'static [Creds]) -> (Product, impl Fn(&[usize]) -> Script) {
  let r = REPLIES.len() as u64;
  let space = Product(vec![r, r, CHUNKS as u64 - 1, creds.len() as u64, 3, 2, 4]);
  (space, move |v: &[usize]| Script {
    replies: [REPLIES[v[0]], REPLIES[v[1]]],
    chunks: v[2],
    creds: creds[v[3]],
    end: v[4],
    delay: [Duration::ZERO, Duration::from_secs(1)][v[5]],
    timeout: [None, Some(Duration::from_millis(500)), Some(Duration::from_millis(1500)), Some(Duration::from_secs(3600))][v[6]],
  })
}

pub fn replies_family(check: &mut Run, creds: &'static [Creds]) {
  let (space, script) = scripts(creds);
  check.family(
    "replies",
    &format!("every pair of {} replies x 5 chunkings x {} credentials x 3 line endings x 2 delays x 4 timeouts", REPLIES.len(), creds.len()),
    space.total(),
    |i, local| {
      let s = script(&space.get(i));
      local.sample(i, || format!("{:?} {:?}", s.replies, s.creds));
      s.execute(local)
    },
  );
}

pub fn interrupted_family(check: &mut Run) {
  // trouble while opening and writing
  let kinds = [ErrorKind::ConnectionRefused, ErrorKind::TimedOut, ErrorKind::InvalidData, ErrorKind::Other, ErrorKind::UnexpectedEof, BROKEN, RESET];
  let delays = [0u64, 10, 1000, 29_000];
  let mut cases: Vec<(Plan, End, u64)> = vec![];
  for k in crate::errors::KINDS.iter().copied() {
    for d in delays {
      cases.push((Plan::open(Open::Err(k, MS * d as u32)), End::Open(k), d));
    }
    let places = if kinds.contains(&k) { 150 } else { 3 };
    for n in 0..places {
      cases.push((Plan::out(vec![greeting(), In::Eof], Out::FailAfter(n, k)), End::Io(k), 0));
    }
    cases.push((Plan::out(vec![greeting(), In::Eof], Out::FlushFails(k)), End::Io(k), 0));
  }
  for n in 0..150 {
    cases.push((Plan::out(vec![greeting(), In::Eof], Out::HangAfter(n)), End::Timeout, 0));
  }
  cases.push((Plan::out(vec![greeting(), In::Eof], Out::FlushHangs), End::Timeout, 0));
  cases.push((Plan::open(Open::Hang), End::Timeout, 0));
  for d in delays {
    cases.push((Plan { open: Open::Late(MS * d as u32), input: vec![greeting(), In::Eof], out: Out::Accept }, End::Success, d));
    cases.push((Plan { open: Open::Late(MS * d as u32), input: vec![In::Silence], out: Out::Accept }, End::Timeout, d));
  }
  let timeouts = [None, Some(500u64), Some(5000), Some(100_000)];
  let space = Product(vec![cases.len() as u64, timeouts.len() as u64, CREDS.len() as u64]);
  check.family("trouble while opening and sending", &format!("{} kinds of trouble (every number of bytes) x 4 timeouts x 7 credentials", cases.len()), space.total(), |i, local| {
    let v = space.get(i);
    let (plan, want, opening) = &cases[v[0]];
    let timeout = timeouts[v[1]].map(Duration::from_millis);
    let creds = CREDS[v[2]];
    let limit = timeout.unwrap_or(DEFAULT_TIMEOUT);
    let late = Duration::from_millis(*opening) > limit;
    local.trace();
    local.steps(3);
    run(async {
      let world = World::new(vec![plan.clone()]);
      let result = creds.connect(&world, timeout).await?;
      let login = result.as_ref().ok().map(|c| c.credentials().login().to_string());
      let seen = world.last();
      let elapsed = world.now();
      // the number of bytes of a handshake depends on the credentials
      let mut want = if late { End::Timeout } else { want.clone() };
      if let Out::FailAfter(n, _) | Out::HangAfter(n) = plan.out {
        if seen.accepted.len() < n {
          want = End::Success;
        } else if creds.check(&seen.accepted, login.as_deref()).is_ok() {
          // everything fitted
          want = End::Success;
        }
      }
      let end = ended(result.map(|_| ()))?;
      local.state(&(format!("{end:?}"), seen.accepted.len()));
      if end != want {
        return Result::Err(format!("ended with {end:?}, expected {want:?}"));
      }
      if elapsed > limit + Duration::from_millis(*opening) + MS {
        return Result::Err(format!("took {elapsed:?} with a timeout of {limit:?}"));
      }
      if !seen.opened && !seen.accepted.is_empty() {
        return Result::Err("wrote before the connection was open".into());
      }
      if end == End::Success {
        creds.check(&seen.accepted, login.as_deref())?;
      }
      let nick = match creds {
        Creds::Anon | Creds::Default => String::from_utf8_lossy(&seen.accepted).split_once("NICK ").map(|(_, n)| n.trim_end().to_string()).unwrap_or_default(),
        _ => LOGIN.into(),
      };
      if !proto::handshake_prefix(&seen.accepted, &nick, creds.token()) {
        return Result::Err(format!("wrote {:?}", String::from_utf8_lossy(&seen.accepted)));
      }
      if world.seen().len() != 1 {
        return Result::Err(format!("opened {} connections", world.seen().len()));
      }
      record(&world);
      Ok(())
    })
    .map_err(|e| format!("{e}\n  plan: {plan:?}, timeout: {timeout:?}, credentials: {creds:?}"))
  });
}

/// Connect as `login` with `token`, to be welcomed or rejected, and reconnect.
fn named(login: &str, token: Option<&str>, welcome: bool, local: &mut Local) -> Verdict {
  local.trace();
  local.steps(2);
  run(async {
    let second = if welcome { greeting() } else { bytes(&[proto::ACK, ":tmi.twitch.tv NOTICE * :Login authentication failed"]) };
    let world = World::new(vec![Plan::new(vec![second, In::Silence]), Plan::new(vec![greeting(), In::Silence])]);
    let credentials = match token {
      Some(token) if welcome => Credentials::new(login, token),
      _ => Credentials { login: login.into(), token: token.map(|t| t.into()) },
    };
    if credentials.login() != login || credentials.token() != token || credentials.is_anon() != token.is_none() {
      return Result::Err("the credentials are others".into());
    }
    let call = Client::builder().credentials(credentials).backoff(quick_backoff()).connect();
    let Call::Done(result) = drive(&world, call).await else {
      return Result::Err("connecting never ends".into());
    };
    let check = |bytes: &[u8]| match proto::handshake(bytes, login, token) {
      Ok(n) if n == bytes.len() => Ok(()),
      Ok(_) => Result::Err("wrote more than the handshake".to_string()),
      Result::Err(e) => Result::Err(mc_core::clip(&e, 600)),
    };
    check(&world.last().accepted)?;
    local.state(&(login.len(), token.map(str::len), welcome));
    match result {
      Ok(mut client) if welcome => {
        if client.credentials().login() != login || client.credentials().token() != token {
          return Result::Err("the client has other credentials".into());
        }
        let Call::Done(Ok(())) = reconnect(&world, &mut client).await else {
          return Result::Err("does not reconnect".into());
        };
        if world.seen().len() != 2 {
          return Result::Err(format!("{} connections", world.seen().len()));
        }
        check(&world.last().accepted).map_err(|e| format!("connecting again: {e}"))
      }
      Result::Err(ConnectError::Auth) if !welcome => Ok(()),
      Ok(_) => Result::Err("connected".into()),
      Result::Err(e) => Result::Err(mc_core::clip(&format!("ended with {e:?}"), 600)),
    }
  })
  .map_err(|e| format!("{e}\n  login: {:?}, token: {:?}", mc_core::clip(login, 100), token.map(|t| mc_core::clip(t, 100))))
}

/// All kinds of logins and tokens.
pub fn names_family(check: &mut Run) {
  let mut texts: Vec<String> = [
    "oauth:", "oauth", "oauth: x", " oauth:x", "OAUTH:x", "Oauth:x", "oauth:oauth:x", "oauthx", "oauth:OAUTH:x", "oauth;x", "Bearer x", "bearer:x", "xoauth:x",
    "a", "aa", "A", "Ab", "0", "justinfan1", "justinfan12345", "just_a_lil_guy", "SCHMOOPIIE", "#a", ":a", "a:b", "@a", "a b", " a", "a ", "\ta\t", "  ", " ",
    "\u{feff}a", "a\0b", "é", "ｅ", "İ", "ß", "a,b", "a;b", "\\s", "\"a\"", "{}", "{0}", "%s", "PASS", "NICK x", "CAP REQ", "a\u{a0}", "\u{2028}", "***", "None", "",
  ]
  .map(String::from)
  .to_vec();
  for c in (0u8..128).map(char::from).filter(|c| !"\r\n".contains(*c)) {
    texts.extend([c.to_string(), format!("{c}x{c}x{c}"), format!("oauth:{c}x{c}")]);
  }
  texts.sort();
  texts.dedup();
  let few = [LOGIN, "", "Zq 7", "oauth:x"];
  let n = texts.len() as u64;
  let space = Product(vec![n, few.len() as u64 + 1, 2, 2]);
  check.family("names and passwords", &format!("{n} texts as login with {} tokens, and as token with {} logins; welcomed and connected again, or rejected", few.len() + 1, few.len()), space.total(), |i, local| {
    let v = space.get(i);
    let text = texts[v[0]].as_str();
    let other = few.get(v[1]).copied();
    local.sample(i, || format!("{text:?} {other:?}"));
    match (v[2], other) {
      (0, other) => named(text, other, v[3] == 0, local),
      (_, None) => named(LOGIN, Some(text), v[3] == 0, local),
      (_, Some(login)) => named(login, Some(text), v[3] == 0, local),
    }
  });
  let most = check.pick(2200, 20_000);
  check.family("lengths of names and passwords", &format!("logins and tokens of 0 to {most} bytes"), most + 1, |i, local| {
    let text: String = (0..i).map(|k| char::from(b'a' + (k % 23) as u8)).collect();
    named(LOGIN, Some(&text), true, local)?;
    named(&text, Some("oauth:zq7x9kvw3j"), true, local)?;
    named(&text, None, true, local)?;
    named(&text, Some(&format!("oauth:{text}")), false, local)
  });
}

/// C18: connecting.
pub fn handshake(check: &mut Run) {
  let all: &'static [Creds] = CREDS;
  replies_family(check, all);
  interrupted_family(check);
  names_family(check);
  // all decisions of the transport
  let bound = check.pick(3, 5);
  let may = May { short_reads: true, pend_reads: true, fail_reads: true, short_writes: true, pend_writes: true, fail_writes: true, fail_open: true, ..May::default() };
  let rest = [bytes(&["PING :1", ":x P"]), In::Eof];
  check.family("decisions of the transport", &format!("7 credentials x 2 packings; at most {bound} deviations in opening, reading, writing and flushing"), 14, |i, local| {
    let creds = CREDS[i as usize / 2];
    dfs::explore(bound, local, |chooser, local| {
      run(async {
        let mut input = if i % 2 == 0 { vec![greeting()] } else { vec![bytes(&[proto::ACK]), bytes(&[proto::WELCOME])] };
        input.extend(rest.clone());
        let world = World::new(vec![Plan::new(input)]);
        world.decide(Some(chooser), may);
        let result = creds.connect(&world, None).await?;
        world.decide(None, May::default());
        let seen = world.last();
        let login = result.as_ref().ok().map(|c| c.credentials().login().to_string());
        let mut client = None;
        let end = match result {
          Ok(c) => {
            client = Some(c);
            End::Success
          }
          Result::Err(e) => ended(Result::Err(e))?,
        };
        let want = if let Some(k) = seen.open_error {
          End::Open(k)
        } else if let Some(k) = seen.write_errors.last() {
          End::Io(*k)
        } else if let Some(k) = seen.read_errors.last() {
          End::ReadIo(*k)
        } else {
          End::Success
        };
        local.state(&(format!("{end:?}"), seen.accepted.len()));
        if end != want {
          return Result::Err(format!("ended with {end:?}, expected {want:?}"));
        }
        if end == End::Success {
          creds.check(&seen.accepted, login.as_deref())?;
          if seen.flushed != seen.accepted.len() {
            return Result::Err("the handshake was not flushed".into());
          }
        }
        if let Some(client) = &mut client {
          for want in [Got::Message("PING :1".into()), Got::Message(":x P".into()), Got::Closed] {
            let Call::Done(r) = drive(&world, client.recv()).await else { return Result::Err("receiving never ends".into()) };
            let got = got(r)?;
            if got != want {
              return Result::Err(format!("then received {got:?}, expected {want:?}"));
            }
          }
        }
        Ok(())
      })
    })
  });
}

/// What an attempt to reconnect meets.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Attempt {
  OpenErr,
  OpenErrLate,
  WriteErr,
  PartialWriteErr,
  FlushErr,
  OpenHang,
  WriteHang,
  Nak,
  AuthFailed,
  NoticeOther,
  Unexpected,
  Unparsable,
  NotUtf8,
  Closed,
  ReadErr,
  ReadErrLater,
  Silence,
  Success,
  SuccessLate,
}
use Attempt as A;

pub const RETRIED: [Attempt; 5] = [A::OpenErr, A::OpenErrLate, A::WriteErr, A::PartialWriteErr, A::FlushErr];
pub const FINAL: [Attempt; 14] = [
  A::Success, A::SuccessLate, A::OpenHang, A::WriteHang, A::Nak, A::AuthFailed, A::NoticeOther, A::Unexpected,
  A::Unparsable, A::NotUtf8, A::Closed, A::ReadErr, A::ReadErrLater, A::Silence,
];

const OTHER: &str = ":tmi.twitch.tv NOTICE * :Some other notice";

impl Attempt {
  pub fn plan(self) -> Plan {
    let reply = |l: &[&str]| Plan::new(vec![bytes(l), In::Eof]);
    let line = |r: Reply| match r {
      Line(l) => l,
      _ => unreachable!(),
    };
    match self {
      A::OpenErr => Plan::open(Open::Err(ErrorKind::ConnectionRefused, Duration::ZERO)),
      A::OpenErrLate => Plan::open(Open::Err(ErrorKind::TimedOut, MS * 2000)),
      A::WriteErr => Plan::out(vec![greeting()], Out::FailAfter(0, BROKEN)),
      A::PartialWriteErr => Plan::out(vec![greeting()], Out::FailAfter(40, RESET)),
      A::FlushErr => Plan::out(vec![greeting()], Out::FlushFails(ErrorKind::ConnectionAborted)),
      A::OpenHang => Plan::open(Open::Hang),
      A::WriteHang => Plan::out(vec![greeting()], Out::HangAfter(30)),
      A::Nak => reply(&[line(NAK)]),
      A::AuthFailed => reply(&[proto::ACK, line(AUTH_FAILED)]),
      A::NoticeOther => reply(&[proto::ACK, OTHER]),
      A::Unexpected => reply(&["PING :x"]),
      A::Unparsable => reply(&[proto::ACK, ""]),
      A::NotUtf8 => Plan::new(vec![In::Bytes(b"\xff\r\n".to_vec()), In::Eof]),
      A::Closed => Plan::new(vec![In::Eof]),
      A::ReadErr => Plan::new(vec![In::Err(RESET)]),
      A::ReadErrLater => Plan::new(vec![bytes(&[proto::ACK]), In::Err(ErrorKind::TimedOut)]),
      A::Silence => Plan::new(vec![In::Bytes(b":tmi".to_vec()), In::Silence]),
      A::Success => Plan::new(vec![greeting(), bytes(&["NEW 1"]), In::Eof]),
      A::SuccessLate => Plan { open: Open::Late(MS * 1000), input: vec![greeting(), In::Eof], out: Out::Accept },
    }
  }

  fn end(self) -> End {
    match self {
      A::OpenErr => End::Open(ErrorKind::ConnectionRefused),
      A::OpenErrLate => End::Open(ErrorKind::TimedOut),
      A::WriteErr => End::Io(BROKEN),
      A::PartialWriteErr => End::Io(RESET),
      A::FlushErr => End::Io(ErrorKind::ConnectionAborted),
      A::OpenHang | A::WriteHang | A::Silence => End::Timeout,
      A::Nak | A::AuthFailed => End::Auth,
      A::NoticeOther => End::Notice(OTHER.into()),
      A::Unexpected => End::Welcome("PING :x".into()),
      A::Unparsable => End::Unparsable("".into()),
      A::NotUtf8 => End::NotUtf8,
      A::Closed => End::Closed,
      A::ReadErr => End::ReadIo(RESET),
      A::ReadErrLater => End::ReadIo(ErrorKind::TimedOut),
      A::Success | A::SuccessLate => End::Success,
    }
  }

  fn retried(self) -> bool {
    RETRIED.contains(&self)
  }

  /// How long it takes, if that is determined.
  fn takes(self) -> Option<Duration> {
    match self {
      A::OpenErrLate => Some(MS * 2000),
      A::SuccessLate => Some(MS * 1000),
      A::OpenHang | A::WriteHang | A::Silence => None,
      _ => Some(Duration::ZERO),
    }
  }
}

async fn connect_with(world: &World, backoff: Option<Backoff>, timeout: Duration) -> Result<Client, String> {
  let mut b = Client::builder().credentials(Credentials::new(LOGIN, TOKEN)).timeout(timeout);
  if let Some(backoff) = backoff {
    b = b.backoff(backoff);
  }
  match drive(world, b.connect()).await {
    Call::Done(Ok(c)) => Ok(c),
    Call::Done(Result::Err(e)) => Result::Err(format!("could not connect: {e}")),
    _ => Result::Err("connecting never ends".into()),
  }
}

pub async fn reconnect(world: &World, client: &mut Client) -> Call<Result<(), tmi::client::ReconnectError>> {
  let r = drive(world, client.reconnect()).await;
  if let Call::Done(Result::Err(e)) = &r {
    note(|| format!("{e:?} {e} {e:#?} {:?}", std::error::Error::source(e).map(|s| format!("{s} {s:?}"))));
  }
  note(|| format!("{:?} {:?}", client.config(), client.credentials()));
  r
}

/// The attempts which one call of reconnect makes.
pub fn attempted(backoff: &Backoff, attempts: &[Attempt]) -> usize {
  let tries = backoff.max_tries.map_or(attempts.len(), |m| attempts.len().min(m.try_into().unwrap_or(usize::MAX)));
  let last = attempts.iter().position(|a| !a.retried()).map_or(attempts.len(), |n| n + 1);
  tries.min(last)
}

fn backoff_case(backoff: Option<Backoff>, timeout: Duration, attempts: &[Attempt], local: &mut Local) -> Verdict {
  backoff_calls(backoff, timeout, &[attempts], local)
}

/// Calls of reconnect, compared with the configuration.
fn backoff_calls(backoff: Option<Backoff>, timeout: Duration, calls: &[&[Attempt]], local: &mut Local) -> Verdict {
  run(async {
    let mut plans = vec![Plan::new(vec![greeting(), In::Eof])];
    let known = backoff.unwrap_or(DEFAULT_BACKOFF);
    for attempts in calls {
      plans.extend(attempts[..attempted(&known, attempts)].iter().map(|a| a.plan()));
    }
    let world = World::new(plans);
    let mut client = connect_with(&world, backoff, timeout).await?;
    for attempts in calls {
      backoff_call(&world, &mut client, &known, timeout, attempts, local).await?;
    }
    record(&world);
    Ok::<(), String>(())
  })
  .map_err(|e| format!("{e}\n  {backoff:?}\n  attempts: {calls:?}"))
}

pub async fn backoff_call(world: &World, client: &mut Client, backoff: &Backoff, timeout: Duration, attempts: &[Attempt], local: &mut Local) -> Verdict {
  let before = world.seen().len();
  let start = world.now();
  let result = match reconnect(world, client).await {
    Call::Done(r) => r,
    _ => return Result::Err("reconnecting never ends".into()),
  };
  let end_at = world.now() - start;
  let seen: Vec<Duration> = world.seen()[before..].iter().map(|s| s.at - start).collect();
  local.steps(1 + seen.len() as u64);
  // what has to happen
  let mut at = Duration::ZERO;
  let mut delay = backoff.initial_delay;
  let mut times = vec![];
  let mut end = None;
  let mut last = None;
  let mut open_end = false;
  for (n, a) in attempts.iter().enumerate() {
    if backoff.max_tries.is_some_and(|m| n as u64 >= m) {
      break;
    }
    at += delay;
    times.push(at);
    delay = std::cmp::min(backoff.max_delay, delay * backoff.delay_multiplier);
    last = Some(a.end());
    match a.takes() {
      Some(d) => at += d,
      None => open_end = true,
    }
    if !a.retried() {
      end = Some(a.end());
      break;
    }
  }
  if seen.len() != times.len() {
    return Result::Err(format!("{} attempts, expected {}", seen.len(), times.len()));
  }
  for (n, (got, want)) in seen.iter().zip(&times).enumerate() {
    if got != want {
      return Result::Err(format!("attempt {n} at {got:?}, expected at {want:?} (all: {seen:?}, expected {times:?})"));
    }
  }
  let got = match result {
    Ok(()) => End::Success,
    Result::Err(e) => {
      let text = e.to_string();
      if !text.contains(&e.cause.to_string()) {
        return Result::Err(format!("{text:?} does not tell its cause {:?}", e.cause));
      }
      let cause = e.cause;
      if times.is_empty() {
        // nothing was tried: it fails, whatever the cause
        End::Timeout
      } else {
        ended(Result::Err(cause))?
      }
    }
  };
  let want = end.or(last).unwrap_or(End::Timeout);
  local.state(&(format!("{got:?}"), &seen));
  if got != want {
    return Result::Err(format!("ended with {got:?}, expected {want:?}"));
  }
  if open_end {
    if end_at > at + timeout + MS {
      return Result::Err(format!("ended at {end_at:?}, more than {timeout:?} after the attempt at {at:?}"));
    }
  } else if end_at != at {
    return Result::Err(format!("ended at {end_at:?}, expected at {at:?}"));
  }
  Ok(())
}

/// All sequences of at most `max` retried attempts, and then a final one.
pub fn attempt_sequences(max: u32) -> Vec<Vec<Attempt>> {
  let mut all = vec![];
  let n = RETRIED.len();
  for len in 0..=max {
    for i in 0..n.pow(len) {
      for f in FINAL {
        let mut v = vec![];
        let mut k = i;
        for _ in 0..len {
          v.push(RETRIED[k % n]);
          k /= n;
        }
        v.push(f);
        all.push(v);
      }
    }
  }
  all
}

/// C19: backoff.
pub fn backoff(check: &mut Run) {
  check.assume("delays are whole milliseconds, and their products do not overflow");
  let sequences = attempt_sequences(check.pick(4, 5));
  let tries = [None, Some(0), Some(1), Some(2), Some(3), Some(5), Some(u64::MAX)];
  let initial = [0u64, 1, 1000, 7777];
  let multiplier = [0u32, 1, 2, 3];
  let max = [0u64, 1, 2500, 1_000_000];
  let timeouts = [30_000u64, 3000];
  let space = Product(vec![sequences.len() as u64, 7, 4, 4, 4, 2]);
  check.family("backoff", &format!("{} sequences of attempts x 7 numbers of tries x 4 initial delays x 4 multipliers x 4 maximum delays x 2 timeouts", sequences.len()), space.total(), |i, local| {
    let v = space.get(i);
    let backoff = Backoff {
      max_tries: tries[v[1]],
      initial_delay: MS * initial[v[2]] as u32,
      delay_multiplier: multiplier[v[3]],
      max_delay: MS * max[v[4]] as u32,
    };
    local.trace();
    local.sample(i, || format!("{:?} {backoff:?}", sequences[v[0]]));
    backoff_case(Some(backoff), MS * timeouts[v[5]] as u32, &sequences[v[0]], local)
  });
  // many attempts
  let counts = [8u64, 9, 40, 300];
  let space = Product(vec![counts.len() as u64, FINAL.len() as u64, RETRIED.len() as u64, 5]);
  check.family("many attempts", "8, 9, 40 or 300 failures x final attempt x kind of failure x default, unlimited and limited tries", space.total(), |i, local| {
    let v = space.get(i);
    let mut attempts = vec![RETRIED[v[2]]; counts[v[0]] as usize];
    attempts.push(FINAL[v[1]]);
    let base = Backoff { max_tries: None, initial_delay: MS * 10, delay_multiplier: 3, max_delay: MS * 5000 };
    let backoff = match v[3] {
      0 => None,
      1 => Some(base),
      2 => Some(Backoff { max_tries: Some(counts[v[0]]), ..base }),
      3 => Some(Backoff { max_tries: Some(counts[v[0]] + 1), ..base }),
      _ => Some(Backoff::default()),
    };
    local.trace();
    backoff_case(backoff, MS * 30_000, &attempts, local)
  });
  // the delays start over with every call
  let sequences = attempt_sequences(check.pick(2, 3));
  let n = sequences.len() as u64;
  let space = Product(vec![n, n, 4]);
  check.family("one call after another", &format!("the same client reconnects twice: all pairs of {n} sequences of attempts x 4 numbers of tries"), space.total(), |i, local| {
    let v = space.get(i);
    let backoff = Backoff { max_tries: [None, Some(1), Some(2), Some(3)][v[2]], initial_delay: MS * 100, delay_multiplier: 3, max_delay: MS * 500 };
    local.trace();
    backoff_calls(Some(backoff), MS * 3000, &[&sequences[v[0]], &sequences[v[1]]], local)
  });
  many_calls(check);
}

/// C19: a client which reconnects many times.
pub fn many_calls(check: &mut Run) {
  let sequences = attempt_sequences(1);
  let calls = check.pick(300usize, 3000);
  let n = sequences.len();
  let space = Product(vec![5, 3, 4]);
  check.family("many calls", &format!("the same client reconnects {calls} times, with {n} sequences of attempts in 5 orders, or always the same x 3 numbers of tries x 4 backoffs"), space.total(), |i, local| {
    let v = space.get(i);
    let (initial, multiplier, max) = [(100, 3, 500), (0, 2, 0), (1, 10, 1_000_000), (5000, 1, 3000)][v[2]];
    let backoff = Backoff { max_tries: [None, Some(1), Some(2)][v[1]], initial_delay: MS * initial, delay_multiplier: multiplier, max_delay: MS * max };
    let all: Vec<&[Attempt]> = (0..calls)
      .map(|k| match v[0] {
        0 => k,
        1 => k * 5 + k / n,
        2 => k * 11 + 3,
        // always retried, then success; always successful
        3 => FINAL.len() * 2,
        _ => 0,
      })
      .map(|k| &sequences[k % n][..])
      .collect();
    local.trace();
    backoff_calls(Some(backoff), MS * 3000, &all, local).map_err(|e| mc_core::clip(&e, 1500))
  });
}

/// C20: the states in which an old connection is left.
pub const OLD: usize = 20;

pub fn old_plan(kind: usize) -> Plan {
  let partial = |b: &[u8]| vec![greeting(), In::Bytes(b.to_vec()), In::Silence];
  let input = match kind {
    1 => vec![greeting(), bytes(&["OLD 1"]), bytes(&["OLD 2"]), In::Eof],
    2 | 17 => vec![greeting(), bytes(&["OLD 1", "OLD 2", "OLD 3"]), In::Eof],
    3 | 18 => partial(b"OLD par"),
    4 => partial(b"OLD \xe2\xb8"),
    5 | 6 => vec![greeting(), In::Eof],
    7 => vec![greeting(), In::Bytes(b"OLD rest".to_vec()), In::Eof],
    8 => vec![greeting(), In::Bytes(b"OLD p".to_vec()), In::Err(RESET), In::Bytes(b"art\r\n".to_vec()), In::Silence],
    14 => vec![greeting(), bytes(&["", "OLD 2"]), In::Eof],
    15 => vec![greeting(), In::Bytes("OLD long ".repeat(3000).into_bytes()), In::Silence],
    16 => vec![greeting(), In::Err(RESET), In::Eof],
    19 => vec![In::Bytes([proto::ACK, "\r\n", proto::WELCOME, "\r\nOLD 1\r\nOLD 2\r\nOLD par"].concat().into_bytes()), In::Silence],
    _ => vec![greeting(), In::Silence],
  };
  Plan::new(input)
}

/// Bring the client into state `kind`.
pub async fn age(kind: usize, world: &World, client: &mut Client) {
  let send = |n: usize| history_ops().swap_remove(n);
  match kind {
    2 | 14 | 16 | 5 => {
      let _ = drive(world, client.recv()).await;
    }
    3 | 4 | 15 => {
      let _ = cancel_at(1, client.recv()).await;
    }
    7 => {
      for _ in 0..3 {
        let _ = drive(world, client.recv()).await;
      }
    }
    8 => {
      let _ = drive(world, client.recv()).await;
      let _ = cancel_at(1, client.recv()).await;
    }
    9 => {
      world.set_out(Out::FailAfter(5, BROKEN));
      let _ = drive(world, send(0).perform(client)).await;
    }
    10 | 17 | 18 => {
      world.set_out(Out::HangAfter(3));
      let _ = cancel_at(0, send(4).perform(client)).await;
      if kind == 18 {
        let _ = cancel_at(1, client.recv()).await;
      }
    }
    11 => {
      world.set_out(Out::FlushHangs);
      let _ = cancel_at(0, send(1).perform(client)).await;
    }
    12 => {
      let _ = drive(world, send(3).perform(client)).await;
    }
    13 => {
      for op in [send(0), send(6)] {
        let _ = drive(world, op.perform(client)).await;
      }
    }
    19 => {
      let _ = drive(world, client.recv()).await;
    }
    _ => {}
  }
}

const NEW: &[&str] = &["NEW 1", "@a=b :n!u@h PRIVMSG #new :2", "NEW 3"];

fn new_plan() -> Plan {
  Plan::new(vec![greeting(), bytes(&NEW[..1]), In::Delay(MS), bytes(&NEW[1..]), In::Bytes(b"NEW rest".to_vec()), In::Eof])
}

/// How the next call ends, with `quick_backoff`, after `made` of the planned attempts.
fn predicted(attempts: &[Attempt], made: usize) -> End {
  let mut end = End::Timeout;
  for n in made..made + 3 {
    let Some(a) = attempts.get(n) else { return End::Success };
    end = a.end();
    if !a.retried() {
      break;
    }
  }
  end
}

/// Reconnect until it works, then use the new connection. Nothing but the
/// planned attempts and the decisions on the new connections makes it fail.
async fn renewed(world: &World, client: &mut Client, attempts: &[Attempt], decide: Option<(&mc_core::dfs::Chooser, May)>, local: &mut Local) -> Verdict {
  renewed_after(world, client, attempts, decide, local, 1).await
}

/// After `used` connections which were used, and failed attempts.
async fn renewed_after(world: &World, client: &mut Client, attempts: &[Attempt], decide: Option<(&mc_core::dfs::Chooser, May)>, local: &mut Local, used: usize) -> Verdict {
  let mut tries = 0;
  loop {
    let made = world.seen().len() - used;
    if let Some((c, may)) = decide {
      world.decide(Some(c), may);
    }
    let r = reconnect(world, client).await;
    world.decide(None, May::default());
    local.steps(1);
    match r {
      Call::Done(r) => {
        let ok = r.is_ok();
        let text = match &r {
          Ok(()) => String::new(),
          Result::Err(e) => e.to_string(),
        };
        let end = match r {
          Ok(()) => End::Success,
          Result::Err(e) => ended(Result::Err(e.cause))?,
        };
        if decide.is_none() {
          let want = predicted(attempts, made);
          if end != want {
            return Result::Err(format!("reconnecting ended with {end:?}, expected {want:?}"));
          }
        } else if !ok && world.seen()[made + used..].iter().all(|s| s.open_error.is_none() && s.read_errors.is_empty() && s.write_errors.is_empty()) {
          return Result::Err(format!("reconnecting failed although nothing was wrong with the new connection: {text}"));
        }
        if ok {
          break;
        }
      }
      Call::Cancelled => {}
      Call::Hung => return Result::Err("reconnecting never ends".into()),
    }
    tries += 1;
    if tries > 12 {
      return Result::Err("reconnecting keeps failing although the server accepts".into());
    }
  }
  let before = world.seen();
  let new = before.last().cloned().unwrap_or_default();
  let n = proto::handshake(&new.accepted, LOGIN, Some(TOKEN)).map_err(|e| format!("on the new connection: {e}"))?;
  if n != new.accepted.len() {
    return Result::Err(format!("after the handshake, the new connection received {:?}", String::from_utf8_lossy(&new.accepted[n..])));
  }
  for (i, s) in before[used..before.len() - 1].iter().enumerate() {
    if !proto::handshake_prefix(&s.accepted, LOGIN, Some(TOKEN)) {
      return Result::Err(format!("attempt {i} received {:?}", String::from_utf8_lossy(&s.accepted)));
    }
  }
  // use it: interleave receiving and sending
  let ops: Vec<Op> = history_ops();
  let mut want = expected(&[NEW.join("\r\n").as_bytes(), b"\r\nNEW rest"].concat());
  want.extend([Got::Closed, Got::Closed]);
  let mut from = n;
  for (i, w) in want.iter().enumerate() {
    local.steps(2);
    let g = match drive(world, client.recv()).await {
      Call::Done(r) => got(r)?,
      _ => return Result::Err("receiving on the new connection never ends".into()),
    };
    if g != *w {
      return Result::Err(format!("received {g:?} on the new connection, expected {w:?}"));
    }
    let op = &ops[i];
    if drive(world, op.perform(client)).await.done().is_none() {
      return Result::Err(format!("{op:?} never ends on the new connection"));
    }
    let s = world.last();
    op.check(&s.accepted[from..]).map_err(|e| format!("on the new connection: {e}"))?;
    if s.flushed != s.accepted.len() {
      return Result::Err("unflushed bytes on the new connection".into());
    }
    from = s.accepted.len();
  }
  let after = world.seen();
  for (i, (a, b)) in before.iter().zip(&after).enumerate() {
    if i + 1 < before.len() && a.accepted.len() != b.accepted.len() {
      return Result::Err(format!("wrote to the old connection {i}"));
    }
  }
  record(world);
  local.state(&(before.len(), before.iter().map(|s| s.accepted.len()).collect::<Vec<_>>()));
  Ok(())
}

fn quick_backoff() -> Backoff {
  Backoff { max_tries: Some(3), initial_delay: MS * 5, delay_multiplier: 2, max_delay: MS * 20 }
}

fn renewal(kind: usize, attempts: &[Attempt], decide: Option<(&mc_core::dfs::Chooser, May)>, local: &mut Local) -> Verdict {
  run(async {
    let mut plans = vec![old_plan(kind)];
    plans.extend(attempts.iter().map(|a| a.plan()));
    let world = World::new(plans);
    world.otherwise(new_plan());
    let mut client = connect_with(&world, Some(quick_backoff()), MS * 30_000).await?;
    age(kind, &world, &mut client).await;
    renewed(&world, &mut client, attempts, decide, local).await
  })
  .map_err(|e| format!("{e}\n  old connection in state {kind}, attempts {attempts:?}"))
}

/// All sequences of up to `max` attempts which fail.
pub fn failing(max: u32) -> Vec<Vec<Attempt>> {
  let kinds: Vec<Attempt> = RETRIED.into_iter().chain(FINAL.into_iter().skip(2)).collect();
  let mut all = vec![];
  for len in 0..=max {
    for mut i in 0..kinds.len().pow(len) {
      let mut v = vec![];
      for _ in 0..len {
        v.push(kinds[i % kinds.len()]);
        i /= kinds.len();
      }
      all.push(v);
    }
  }
  all
}

pub fn renewal_families(check: &mut Run, depth: u32, bound: usize) {
  let sequences = failing(depth);
  let space = Product(vec![OLD as u64, sequences.len() as u64]);
  check.family("states and failed attempts", &format!("{OLD} states of the old connection x all sequences of at most {depth} of 17 kinds of failed attempts"), space.total(), |i, local| {
    let v = space.get(i);
    local.trace();
    local.sample(i, || format!("state {}, {:?}", v[0], sequences[v[1]]));
    renewal(v[0], &sequences[v[1]], None, local)
  });
  // reconnecting dropped at each point where it is pending
  let sequences = failing(1);
  let space = Product(vec![OLD as u64, sequences.len() as u64, 8, 8]);
  check.family("cancelled reconnects", &format!("{OLD} states x {} attempts x two reconnects dropped when pending for the 1st to 7th time", sequences.len()), space.total(), |i, local| {
    let v = space.get(i);
    local.trace();
    run(async {
      let mut plans = vec![old_plan(v[0])];
      plans.extend(sequences[v[1]].iter().map(|a| a.plan()));
      let world = World::new(plans);
      // slow: every step is pending at least once
      let slow = Plan {
        open: Open::Late(MS),
        input: vec![In::Delay(MS), In::Bytes(b":tmi.twitch.tv CAP * A".to_vec()), In::Delay(MS), In::Bytes(b"CK :x\r\n:tmi".to_vec()), In::Delay(MS), In::Silence],
        out: Out::Accept,
      };
      world.otherwise(slow);
      let mut client = connect_with(&world, Some(quick_backoff()), MS * 30_000).await?;
      age(v[0], &world, &mut client).await;
      for n in [v[2], v[3]] {
        if n < 7 {
          let _ = cancel_at(n as u32, client.reconnect()).await;
        }
      }
      world.otherwise(new_plan());
      renewed(&world, &mut client, &sequences[v[1]], None, local).await
    })
    .map_err(|e| format!("{e}\n  old connection in state {}, attempts {:?}, cancelled at {} and {}", v[0], sequences[v[1]], v[2], v[3]))
  });
  let may = May { short_reads: true, pend_reads: true, fail_reads: true, short_writes: true, pend_writes: true, fail_writes: true, cancel: true, fail_open: true, ..May::default() };
  let kinds = [0usize, 2, 3, 5, 8, 10, 11];
  check.family("decisions during reconnects", &format!("{} states; at most {bound} deviations in opening, reading, writing, flushing and cancelling", kinds.len()), kinds.len() as u64, |i, local| {
    dfs::explore(bound, local, |chooser, local| renewal(kinds[i as usize], &[], Some((chooser, may)), local))
  });
}

/// C20: nothing is carried over.
pub fn fresh(check: &mut Run) {
  let (depth, bound) = (check.pick(3, 4), check.pick(5, 6));
  renewal_families(check, depth, bound);
  let times = check.pick(300usize, 3000);
  check.family("many connections", &format!("{times} connections, each left in one of {OLD} states (in every order of steps through them), some after a failed attempt; then the last one is used"), (OLD * 3) as u64, |i, local| {
    let (step, fails) = (i as usize % OLD, i as usize / OLD);
    local.trace();
    run(async {
      // step 0: always the same state
      let kind = |n: usize| if step == 0 { [0, 2, 10][fails] } else { n * step % OLD };
      let world = World::new(vec![old_plan(kind(0))]);
      let mut client = connect_with(&world, Some(quick_backoff()), MS * 30_000).await?;
      for n in 1..times {
        local.alive();
        local.steps(1);
        age(kind(n - 1), &world, &mut client).await;
        let failed = n % 7 < fails;
        if failed {
          world.plan(RETRIED[n % RETRIED.len()].plan());
        }
        world.plan(old_plan(kind(n)));
        match reconnect(&world, &mut client).await {
          Call::Done(Ok(())) => {}
          other => return Result::Err(format!("the {n}th time, reconnecting failed: {other:?}")),
        }
      }
      age(kind(times - 1), &world, &mut client).await;
      world.otherwise(new_plan());
      let used = world.seen().len();
      renewed_after(&world, &mut client, &[], None, local, used).await
    })
    .map_err(|e| mc_core::clip(&e, 1500))
  });
}

/// For C21: reduced versions of the above.
pub fn backoff_cases(check: &mut Run, depth: u32) {
  let sequences = attempt_sequences(depth);
  let space = Product(vec![sequences.len() as u64, 3]);
  check.family("reconnects", &format!("{} sequences of attempts x 3 numbers of tries", sequences.len()), space.total(), |i, local| {
    let v = space.get(i);
    local.trace();
    let b = Backoff { max_tries: [None, Some(1), Some(2)][v[1]], ..quick_backoff() };
    backoff_case(Some(b), MS * 3000, &sequences[v[0]], local)
  });
}

/// For C21: connect with a token, print everything there is, and reach one of 9 ends.
pub fn with_token(login: &str, token: &str, end: usize, local: &mut Local) -> Result<Vec<crate::net::Seen>, String> {
  let reply = |l: &[&str]| Plan::new(vec![bytes(l), In::Eof]);
  let first = match end {
    0 => Plan::new(vec![greeting(), bytes(&["PING :x"]), In::Eof]),
    1 => reply(&[proto::ACK, ":tmi.twitch.tv NOTICE * :Login authentication failed"]),
    2 => reply(&[proto::ACK, OTHER]),
    3 => reply(&[":tmi.twitch.tv CAP * NAK :x"]),
    4 => Plan::open(Open::Err(ErrorKind::ConnectionRefused, Duration::ZERO)),
    5 => Plan::out(vec![greeting()], Out::FailAfter(60, BROKEN)),
    6 => Plan::new(vec![In::Silence]),
    _ => Plan::new(vec![greeting(), In::Eof]),
  };
  run(async {
    let mut plans = vec![first];
    match end {
      7 => plans.extend([A::WriteErr.plan(), A::Success.plan()]),
      8 => plans.extend([A::OpenErr.plan(), A::AuthFailed.plan()]),
      _ => {}
    }
    let world = World::new(plans);
    let credentials = Credentials::new(login, token);
    note(|| format!("{credentials:?} {credentials:#?} {:?}", Some(&credentials)));
    let backoff = quick_backoff();
    local.steps(1);
    let result = match drive(&world, Client::builder().credentials(credentials).backoff(backoff).connect()).await {
      Call::Done(r) => r,
      _ => return Result::Err("connecting never ends".into()),
    };
    match result {
      Result::Err(e) => note(|| format!("{e} {e:?} {e:#?} {:?}", std::error::Error::source(&e).map(|s| s.to_string()))),
      Ok(mut client) => {
        note(|| format!("{:?} {:#?} {:?} {:?}", client.config(), client.config(), client.credentials(), client.credentials().login()));
        if end >= 7 {
          local.steps(1);
          let _ = reconnect(&world, &mut client).await;
        }
        local.steps(2);
        let _ = drive(&world, client.recv()).await;
        let _ = drive(&world, client.privmsg("#c", "text").send()).await;
      }
    }
    Ok(world.seen())
  })
}
