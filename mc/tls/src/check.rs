//! C22: only an authenticated server gets anything. C23: what opening reports.

use crate::capture::{capture, leaks, note, printed};
use crate::server::{start, store, Seen, Server, AFTER, IDENTITIES, VERSIONS, WITHOUT_TLS};
use crate::world::{self, RESOLVER};
use mc_core::space::Product;
use mc_core::{Local, Run, Verdict};
use std::error::Error;
use std::future::Future;
use std::io::ErrorKind;
use std::sync::atomic::Ordering::Relaxed;
use std::task::Poll;
use std::time::{Duration, Instant};
use tmi::client::conn::OpenStreamError;
use tmi::client::read::RecvError;
use tmi::client::{Backoff, ConnectError};
use tmi::{Client, Credentials};
use tokio_rustls::rustls;

const LOGIN: &str = "some_login";
const TOKEN: &str = "zq7x9kvw3j";
/// Much longer than anything takes on loopback.
pub const PATIENCE: Duration = Duration::from_secs(20);

pub fn run<T>(body: impl Future<Output = T>) -> T {
  match tokio::runtime::Builder::new_current_thread().enable_all().build() {
    Ok(rt) => {
      let t = rt.block_on(body);
      rt.shutdown_background();
      t
    }
    Err(e) => mc_core::error(&format!("runtime: {e}")),
  }
}

pub fn credentials() -> Credentials {
  Credentials::new(LOGIN, TOKEN)
}

/// The lines which a server is sent first.
fn handshake(plain: &[u8]) -> Result<usize, String> {
  let text = String::from_utf8_lossy(plain);
  let lines: Vec<&str> = text.split_inclusive("\r\n").collect();
  let fine = lines.len() >= 3
    && lines[0].starts_with("CAP REQ :")
    && lines[1] == format!("PASS oauth:{TOKEN}\r\n")
    && lines[2] == format!("NICK {LOGIN}\r\n");
  if !fine {
    return Err(format!("the server was sent {text:?}"));
  }
  Ok(lines[..3].iter().map(|l| l.len()).sum())
}

fn contains(haystack: &[u8], needle: &str) -> bool {
  haystack.windows(needle.len()).any(|w| w == needle.as_bytes())
}

/// What a server which can't be trusted may see.
fn nothing_sent(seen: &Seen) -> Verdict {
  if !seen.plain.is_empty() {
    return Err(format!("the server was sent {:?}", String::from_utf8_lossy(&seen.plain)));
  }
  // not even encrypted: an alert fits into this, the handshake does not
  let mut raw = &seen.raw[..];
  let mut data = 0;
  while raw.len() >= 5 && (20..=24).contains(&raw[0]) {
    let n = u16::from_be_bytes([raw[3], raw[4]]) as usize;
    if raw[0] == 23 {
      data += n;
    }
    raw = &raw[(5 + n).min(raw.len())..];
  }
  if data > 60 {
    return Err(format!("the server was sent {data} bytes of encrypted data"));
  }
  Ok(())
}

fn no_clear_text(seen: &Seen) -> Verdict {
  for word in ["CAP REQ", "PASS ", "NICK ", "twitch.tv/", LOGIN, TOKEN, "PRIVMSG"] {
    if contains(&seen.raw, word) {
      return Err(format!("{word:?} was sent in the clear: {:?}", String::from_utf8_lossy(&seen.raw)));
    }
  }
  if !seen.raw.is_empty() && seen.raw[0] != 22 {
    return Err(format!("the first byte sent was {}, no TLS handshake", seen.raw[0]));
  }
  Ok(())
}

fn opening(e: &ConnectError) -> Verdict {
  match e {
    ConnectError::Open(OpenStreamError::Io(_)) => Ok(()),
    e => Err(format!("failed with {e:?} instead of an open error")),
  }
}

/// Use a connection which has been established.
async fn works(client: &mut Client) -> Verdict {
  note(|| format!("{:?} {:#?} {:?}", client.config(), client.config(), client.credentials()));
  match client.recv().await {
    Ok(m) if m.raw() == AFTER.trim_end() => {}
    other => return Err(format!("received {other:?}")),
  }
  client.privmsg("#ch", "text").send().await.map_err(|e| format!("could not send: {e}"))?;
  match client.recv().await {
    Err(e) if e.is_disconnect() => Ok(()),
    other => Err(format!("received {other:?} at the end")),
  }
}

async fn scenario(roots: &[&str], servers: &[Server], tries: u64, local: &mut Local) -> Verdict {
  let mut running = vec![];
  for s in servers {
    running.push(start(*s).await);
  }
  world::begin(running.iter().map(|r| r.port).collect());
  let mut trusted = vec![];
  let mut used = 0;
  let mut extra = 0;
  let credentials = Credentials::new(LOGIN, TOKEN);
  let backoff = Backoff {
    max_tries: Some(tries),
    initial_delay: Duration::ZERO,
    delay_multiplier: 1,
    max_delay: Duration::ZERO,
  };
  let result = Client::builder().credentials(credentials).timeout(PATIENCE).backoff(backoff).connect().await;
  local.steps(1);
  let mut client = None;
  match result {
    Ok(c) => client = Some(c),
    Err(e) => {
      note(|| format!("{e} {e:?} {e:#?} {:?}", e.source()));
      opening(&e).map_err(|e| format!("connecting {e}"))?
    }
  }
  let good = servers[0].good(roots);
  if client.is_some() != good {
    return Err(format!("connecting {}", if good { "failed" } else { "succeeded" }));
  }
  trusted.push(good);
  used += 1;
  while let Some(c) = &mut client {
    works(c).await?;
    if used == servers.len() {
      break;
    }
    local.steps(1);
    // all servers up to the first good one are tried
    let first = servers[used..].iter().take(tries as usize).position(|s| s.good(roots));
    let n = first.map_or(servers[used..].len().min(tries as usize), |n| n + 1);
    let result = c.reconnect().await;
    trusted.extend((0..n).map(|i| Some(i) == first));
    used += n;
    if first.is_none() {
      // nobody is left for these
      extra = tries as usize - n;
    }
    match result {
      Ok(()) if first.is_some() => {}
      Ok(()) => return Err("reconnecting succeeded".into()),
      Err(e) if first.is_some() => return Err(format!("reconnecting failed: {e:?}")),
      Err(e) => {
        note(|| format!("{e} {e:?} {e:#?} {:?}", e.source()));
        opening(&e.cause).map_err(|e| format!("reconnecting {e}"))?;
        client = None;
      }
    }
  }
  drop(client);
  let made = world::end()?;
  if made != used + extra {
    return Err(format!("made {made} connections, expected {}", used + extra));
  }
  for (n, r) in running.into_iter().enumerate() {
    let Some(task) = r.task else { continue };
    if n >= used {
      task.abort();
      continue;
    }
    let limit = Instant::now();
    if tokio::time::timeout(PATIENCE, task).await.is_err() {
      return Err(format!("connection {n} was not closed within {:?}", limit.elapsed()));
    }
    let seen = r.log.lock().map(|s| s.clone()).unwrap_or_default();
    judge(&seen, trusted[n]).map_err(|e| format!("connection {n}: {e}"))?;
    local.state(&(seen.established, seen.plain.len(), trusted[n]));
  }
  Ok(())
}

fn judge(seen: &Seen, trusted: bool) -> Verdict {
  no_clear_text(seen)?;
  if !trusted {
    return nothing_sent(seen);
  }
  if seen.server_name.as_deref() != Some(world::NAME) {
    return Err(format!("asked for {:?}", seen.server_name));
  }
  let n = handshake(&seen.plain)?;
  if &seen.plain[n..] != b"PRIVMSG #ch :text\r\n" {
    return Err(format!("then the server was sent {:?}", String::from_utf8_lossy(&seen.plain[n..])));
  }
  Ok(())
}

const STORES: &[&[&str]] = &[&["root"], &["other"], &["root", "other"], &["twin", "other"], &[]];

fn all_servers() -> Vec<Server> {
  let mut all = vec![];
  for i in 0..IDENTITIES.len() {
    all.extend(VERSIONS.map(|v| Server::Tls(i, v)));
  }
  all.extend(WITHOUT_TLS);
  all
}

/// Set the trusted root certificates of this process.
pub struct Trust(String);
impl Trust {
  pub fn only(roots: &[&str]) -> Self {
    let path = store(roots);
    std::env::set_var("SSL_CERT_FILE", &path);
    Trust(path)
  }
}
impl Drop for Trust {
  fn drop(&mut self) {
    let _ = std::fs::remove_file(&self.0);
  }
}

pub fn authenticated(check: &mut Run) {
  check.assume("name lookup and connecting of TCP are those of libc; other ways to reach the network are not watched");
  let servers = all_servers();
  let n = servers.len();
  let families: [[&'static str; 3]; 5] = [
    ["root: connect", "root: reconnect", "root: two reconnects"],
    ["other: connect", "other: reconnect", "other: two reconnects"],
    ["both: connect", "both: reconnect", "both: two reconnects"],
    ["twin: connect", "twin: reconnect", "twin: two reconnects"],
    ["none: connect", "none: reconnect", "none: two reconnects"],
  ];
  for (s, roots) in STORES.iter().enumerate() {
    let _trust = Trust::only(roots);
    let what = |v: &[Server]| format!("roots {roots:?}, servers {:?}", v.iter().map(|s| s.name()).collect::<Vec<_>>());
    check.family(families[s][0], &format!("trusting {roots:?}: {n} servers"), n as u64, |i, local| {
      local.trace();
      let v = [servers[i as usize]];
      local.sample(i, || what(&v));
      run(scenario(roots, &v, 1, local)).map_err(|e| format!("{e}\n  {}", what(&v)))
    });
    let good: Vec<Server> = servers.iter().copied().filter(|s| s.good(roots)).collect();
    let space = Product(vec![good.len() as u64, n as u64]);
    if space.total() > 0 {
      check.family(families[s][1], &format!("trusting {roots:?}: {} good servers, then each of {n}", good.len()), space.total(), |i, local| {
        let v = space.get(i);
        let v = [good[v[0]], servers[v[1]]];
        local.trace();
        run(scenario(roots, &v, 1, local)).map_err(|e| format!("{e}\n  {}", what(&v)))
      });
      if s == 0 || check.thorough() {
        let first = &good[..if check.thorough() { good.len().min(4) } else { 2.min(good.len()) }];
        let space = Product(vec![first.len() as u64, n as u64, n as u64, 2]);
        check.family(families[s][2], &format!("trusting {roots:?}: {} good servers, then all pairs of {n}, with one or two attempts per call", first.len()), space.total(), |i, local| {
          let v = space.get(i);
          let (servers, tries) = ([first[v[0]], servers[v[1]], servers[v[2]]], v[3] as u64 + 1);
          local.trace();
          run(scenario(roots, &servers, tries, local)).map_err(|e| format!("{e}\n  {}, {tries} tries", what(&servers)))
        });
      }
    }
  }
  broken_stores(check);
  let _trust = Trust::only(&["root"]);
  cut(check);
  silence(check);
  resolver(check);
}

/// Without trusted certificates nothing can be trusted.
fn broken_stores(check: &mut Run) {
  let servers = all_servers();
  let names: [&'static str; 3] = ["no file of roots", "garbage as roots", "a directory as roots"];
  for (n, name) in names.into_iter().enumerate() {
    let trust = Trust::only(&[]);
    let path = trust.0.clone();
    match n {
      0 => drop(std::fs::remove_file(&path)),
      1 => drop(std::fs::write(&path, "-----BEGIN CERTIFICATE-----\nbm90IGEgY2VydGlmaWNhdGU=\n-----END CERTIFICATE-----\n")),
      _ => std::env::set_var("SSL_CERT_FILE", std::env::temp_dir()),
    }
    check.family(name, &format!("connecting to each of {} servers", servers.len()), servers.len() as u64, |i, local| {
      local.trace();
      local.steps(1);
      let server = servers[i as usize];
      run(async {
        let r = start(server).await;
        world::begin(vec![r.port]);
        let result = Client::builder().credentials(Credentials::new(LOGIN, TOKEN)).timeout(PATIENCE).connect().await;
        if result.is_ok() {
          return Err("connecting succeeded".into());
        }
        let made = world::end()?;
        if let Some(task) = r.task {
          if made == 0 {
            task.abort();
          } else {
            let _ = tokio::time::timeout(PATIENCE, task).await;
          }
        }
        let seen = r.log.lock().map(|s| s.clone()).unwrap_or_default();
        no_clear_text(&seen)?;
        nothing_sent(&seen)
      })
      .map_err(|e: String| format!("{e}\n  {}", server.name()))
    });
  }
}

/// Every place at which the handshake of a good server can end.
fn cut(check: &mut Run) {
  let (step, max) = (check.pick(7, 1), 1500u64);
  let n = max / step;
  check.family("cut short", &format!("a good server which stops after every {step} bytes, up to {max}, x both versions"), n * 2, |i, local| {
    let server = Server::Cut((i / 2 * step) as usize, VERSIONS[i as usize % 2]);
    local.trace();
    local.steps(1);
    run(async {
      let r = start(server).await;
      world::begin(vec![r.port]);
      let result = Client::builder().credentials(Credentials::new(LOGIN, TOKEN)).timeout(PATIENCE).connect().await;
      let connected = result.is_ok();
      let error = result.err().map(|e| (opening(&e), format!("{e:?}")));
      if let Some(task) = r.task {
        let _ = tokio::time::timeout(PATIENCE, task).await;
      }
      let seen = r.log.lock().map(|s| s.clone()).unwrap_or_default();
      world::end()?;
      no_clear_text(&seen)?;
      local.state(&(seen.established, seen.cut));
      if connected == seen.cut {
        return Err(format!("connected: {connected}, although the handshake was cut: {}", seen.cut));
      }
      if seen.cut {
        nothing_sent(&seen)?;
        if let Some((Err(e), _)) = error {
          return Err(e);
        }
      }
      Ok(())
    })
    .map_err(|e: String| format!("{e}\n  {server:?}"))
  });
}

/// Servers which say nothing at all.
fn silence(check: &mut Run) {
  check.family("silence", "connect and reconnect to a server which never answers", 2, |i, local| {
    local.trace();
    local.steps(1 + i);
    run(async {
      let limit = Duration::from_millis(300);
      let mut running = vec![];
      if i == 1 {
        running.push(start(Server::Tls(0, VERSIONS[1])).await);
      }
      running.push(start(Server::Silent).await);
      world::begin(running.iter().map(|r| r.port).collect());
      let builder = || Client::builder().credentials(Credentials::new(LOGIN, TOKEN));
      let error = if i == 0 {
        match builder().timeout(limit).connect().await {
          Err(e) => e,
          Ok(_) => return Err("connecting succeeded".into()),
        }
      } else {
        // the first connection gets the same time, and another chance
        let backoff = Backoff { max_tries: Some(1), initial_delay: Duration::ZERO, delay_multiplier: 1, max_delay: Duration::ZERO };
        match builder().timeout(Duration::from_secs(5)).backoff(backoff).connect().await {
          Err(e) => return Err(format!("connecting failed: {e:?}")),
          Ok(mut c) => match c.reconnect().await {
            Err(e) => e.cause,
            Ok(()) => return Err("reconnecting succeeded".into()),
          },
        }
      };
      if !matches!(error, ConnectError::Timeout) {
        return Err(format!("failed with {error:?} instead of a timeout"));
      }
      let Some(r) = running.pop() else { return Ok(()) };
      if let Some(task) = r.task {
        let _ = tokio::time::timeout(PATIENCE, task).await;
      }
      world::end()?;
      let seen = r.log.lock().map(|s| s.clone()).unwrap_or_default();
      no_clear_text(&seen)?;
      nothing_sent(&seen)
    })
  });
}

/// What name lookup can answer.
fn resolver(check: &mut Run) {
  let servers = all_servers();
  RESOLVER.store(1, Relaxed);
  check.family("two addresses", &format!("nobody answers at the first address, one of {} servers at the second", servers.len()), servers.len() as u64, |i, local| {
    local.trace();
    let v = [servers[i as usize]];
    run(scenario(&["root"], &v, 1, local)).map_err(|e| format!("{e}\n  {}", v[0].name()))
  });
  RESOLVER.store(2, Relaxed);
  check.family("no address", "the name is unknown", 1, |_, local| {
    local.trace();
    local.steps(1);
    run(async {
      world::begin(vec![]);
      let result = Client::builder().credentials(Credentials::new(LOGIN, TOKEN)).timeout(PATIENCE).connect().await;
      match (result, world::end()?) {
        (Err(e), 0) => opening(&e),
        (Err(e), n) => Err(format!("{n} connections, then {e:?}")),
        _ => Err("connecting succeeded".into()),
      }
    })
  });
  RESOLVER.store(0, Relaxed);
}

/// C21: what is printed about real connections.
pub fn secrets(check: &mut Run) {
  capture();
  check.after_each(|| match printed().iter().find(|l| leaks(TOKEN, l)) {
    Some(line) => Err(format!("the token was printed: {line:?}")),
    None => Ok(()),
  });
  let _trust = Trust::only(&["root"]);
  let servers = all_servers();
  let n = servers.len() as u64;
  check.family("real connections", &format!("connecting to each of {n} servers"), n, |i, local| {
    local.trace();
    let v = [servers[i as usize]];
    run(scenario(&["root"], &v, 1, local)).map_err(|e| format!("{e}\n  {}", v[0].name()))
  });
  check.family("real reconnects", &format!("connecting to a good server, then reconnecting to each of {n}"), n * 2, |i, local| {
    local.trace();
    let v = [Server::Tls(0, VERSIONS[i as usize % 2]), servers[i as usize / 2]];
    run(scenario(&["root"], &v, 1, local)).map_err(|e| format!("{e}\n  {}", v[1].name()))
  });
}

/// C23: the errors of real connections.
pub fn errors(check: &mut Run) {
  let _trust = Trust::only(&["root"]);
  use rustls::CertificateError as C;
  #[derive(Clone, Copy)]
  enum Want {
    Kind(ErrorKind),
    Certificate(fn(&C) -> bool),
    Tls,
  }
  let named = |name: &str| IDENTITIES.iter().position(|i| i.name == name).unwrap_or_else(|| mc_core::error("no such identity"));
  let mut cases: Vec<(Server, Want)> = vec![
    (Server::Refuses, Want::Kind(ErrorKind::ConnectionRefused)),
    (Server::ClosesAfter, Want::Kind(ErrorKind::UnexpectedEof)),
    (Server::Http, Want::Tls),
    (Server::Garbage, Want::Tls),
    (Server::Alert, Want::Tls),
    (Server::OddHandshake, Want::Tls),
  ];
  for v in VERSIONS {
    cases.push((Server::Tls(named("expired"), v), Want::Certificate(|e| *e == C::Expired)));
    cases.push((Server::Tls(named("not yet valid"), v), Want::Certificate(|e| *e == C::NotValidYet)));
    cases.push((Server::Tls(named("another name"), v), Want::Certificate(|e| *e == C::NotValidForName)));
    cases.push((Server::Tls(named("self-signed"), v), Want::Certificate(|_| true)));
    cases.push((Server::Tls(named("by a root with the same name"), v), Want::Certificate(|_| true)));
  }
  let space = Product(vec![cases.len() as u64, 3]);
  check.family("real connections", &format!("{} servers which can't be connected to x connect and reconnect, with one or two attempts", cases.len()), space.total(), |i, local| {
    let v = space.get(i);
    let (server, want) = cases[v[0]];
    local.trace();
    local.steps(1);
    run(async {
      let mut running = vec![];
      if v[1] > 0 {
        running.push(start(Server::Tls(0, VERSIONS[1])).await);
      }
      if v[1] > 1 {
        running.push(start(Server::Http).await);
      }
      running.push(start(server).await);
      world::begin(running.iter().map(|r| r.port).collect());
      let backoff = Backoff { max_tries: Some(v[1] as u64), initial_delay: Duration::ZERO, delay_multiplier: 1, max_delay: Duration::ZERO };
      let builder = Client::builder().credentials(Credentials::new(LOGIN, TOKEN)).timeout(PATIENCE).backoff(backoff);
      let error = match builder.connect().await {
        Err(e) if v[1] == 0 => e,
        Err(e) => return Err(format!("connecting failed: {e:?}")),
        Ok(_) if v[1] == 0 => return Err("connecting succeeded".into()),
        Ok(mut c) => match c.reconnect().await {
          Ok(()) => return Err("reconnecting succeeded".into()),
          Err(e) => {
            if !e.to_string().contains(&e.cause.to_string()) || e.source().map(|s| s.to_string()) != Some(e.cause.to_string()) {
              return Err(format!("{e:?} does not tell its cause"));
            }
            e.cause
          }
        },
      };
      world::end()?;
      let ConnectError::Open(OpenStreamError::Io(io)) = &error else {
        return Err(format!("failed with {error:?} instead of an open error"));
      };
      if !error.to_string().contains(&io.to_string()) {
        return Err(format!("{error} does not tell its cause {io}"));
      }
      let tls = io.get_ref().and_then(|e| e.downcast_ref::<rustls::Error>());
      let fine = match (want, tls) {
        (Want::Kind(kind), _) => io.kind() == kind,
        (Want::Certificate(is), Some(rustls::Error::InvalidCertificate(e))) => is(e),
        (Want::Tls, Some(_)) => true,
        _ => false,
      };
      local.state(&format!("{:?}", io.kind()));
      if !fine {
        return Err(format!("failed with {io:?}"));
      }
      // the same failure while receiving
      let kind = io.kind();
      let disconnect = matches!(kind, ErrorKind::UnexpectedEof | ErrorKind::ConnectionReset | ErrorKind::ConnectionAborted | ErrorKind::TimedOut);
      let ConnectError::Open(OpenStreamError::Io(io)) = error else { return Ok(()) };
      if RecvError::from(io).is_disconnect() != disconnect {
        return Err(format!("is_disconnect() is {} for {kind:?}", !disconnect));
      }
      Ok(())
    })
    .map_err(|e: String| format!("{e}\n  {}", server.name()))
  });
}

/// A call dropped when it is pending for the `n`th time.
async fn dropped_at<F: Future>(mut n: u32, call: F) -> Option<F::Output> {
  let mut call = Box::pin(call);
  std::future::poll_fn(|cx| match call.as_mut().poll(cx) {
    Poll::Ready(v) => Poll::Ready(Some(v)),
    Poll::Pending if n == 0 => Poll::Ready(None),
    Poll::Pending => {
      n -= 1;
      Poll::Pending
    }
  })
  .await
}

/// Whether at most `keep` of the connections are left open.
async fn closed(running: &[crate::server::Running], made: usize, keep: usize, when: &str) -> Verdict {
  let start = Instant::now();
  loop {
    let tasks = running.iter().take(made).filter_map(|r| r.task.as_ref());
    let open = tasks.filter(|t| !t.is_finished()).count();
    if open <= keep {
      return Ok(());
    }
    if start.elapsed() > PATIENCE {
      return Err(format!("{open} of {made} connections are still open {when}"));
    }
    if start.elapsed() < Duration::from_millis(2) {
      tokio::task::yield_now().await;
    } else {
      tokio::time::sleep(Duration::from_millis(1)).await;
    }
  }
}

/// Connect and reconnect; each call may be dropped when it is pending.
async fn releases(servers: &[Server], tries: u64, drops: &[Option<u32>], local: &mut Local) -> Verdict {
  let mut running = vec![];
  for s in servers {
    running.push(start(*s).await);
  }
  world::begin(running.iter().map(|r| r.port).collect());
  let backoff = Backoff { max_tries: Some(tries), initial_delay: Duration::ZERO, delay_multiplier: 1, max_delay: Duration::ZERO };
  let call = Client::builder().credentials(Credentials::new(LOGIN, TOKEN)).timeout(PATIENCE).backoff(backoff).connect();
  let result = match drops.first().copied().flatten() {
    Some(n) => dropped_at(n, call).await,
    None => Some(call.await),
  };
  local.steps(1);
  let made = || world::MADE.with(|m| m.get());
  if let Some(Ok(mut client)) = result {
    for (n, drop) in drops.iter().enumerate().skip(1) {
      local.steps(1);
      let done = match drop {
        Some(n) => dropped_at(*n, client.reconnect()).await.is_some(),
        None => {
          let _ = client.reconnect().await;
          true
        }
      };
      local.state(&(made(), done));
      closed(&running, made(), 1, &format!("after call {n} of reconnect")).await?;
    }
  } else if result.is_some() {
    closed(&running, made(), 0, "after connecting failed").await?;
  }
  closed(&running, made(), 0, "after the client was dropped").await?;
  for r in &running {
    if let Some(task) = &r.task {
      task.abort();
    }
  }
  world::end()?;
  Ok(())
}

/// C31: real connections are closed.
pub fn released(check: &mut Run) {
  check.assume("a connection which is not closed within the patience of the servers is never closed");
  let _trust = Trust::only(&["root"]);
  let mut servers = all_servers();
  if !check.thorough() {
    servers.retain(|s| !matches!(s, Server::Tls(i, _) if *i > 0 && ![3, 8, 16, 23].contains(i)));
  }
  let n = servers.len();
  let good = [Server::Tls(0, VERSIONS[0]), Server::Tls(0, VERSIONS[1])];
  let points = check.pick(9u64, 16);
  let space = Product(vec![n as u64, points + 1]);
  check.family("real connections", &format!("connecting to each of {n} servers, completed or dropped when pending for the 1st to {points}th time"), space.total(), |i, local| {
    let v = space.get(i);
    local.trace();
    let drop = (v[1] as u64 != points).then_some(v[1] as u32);
    run(releases(&[servers[v[0]]], 1, &[drop], local)).map_err(|e| format!("{e}\n  {}, dropped at {drop:?}", servers[v[0]].name()))
  });
  let space = Product(vec![2, n as u64, points + 1, 2]);
  check.family("real reconnects", &format!("connecting to a good server, then reconnecting to each of {n}, completed or dropped, once or twice"), space.total(), |i, local| {
    let v = space.get(i);
    local.trace();
    let drop = (v[2] as u64 != points).then_some(v[2] as u32);
    let list = [good[v[0]], servers[v[1]], servers[v[1]]];
    let drops = [None, drop, None];
    run(releases(&list[..2 + v[3]], 1, &drops[..2 + v[3]], local)).map_err(|e| format!("{e}\n  {}, dropped at {drop:?}, {} calls", servers[v[1]].name(), v[3] + 1))
  });
  let space = Product(vec![n as u64, n as u64, 2]);
  check.family("real reconnects, several tries", &format!("connecting to a good server, then reconnecting to all pairs of {n}, with one or two attempts per call"), space.total(), |i, local| {
    let v = space.get(i);
    local.trace();
    let list = [good[v[0] % 2], servers[v[0]], servers[v[1]]];
    run(releases(&list, v[2] as u64 + 1, &[None, None, None], local)).map_err(|e| format!("{e}\n  {}, {}, {} tries", servers[v[0]].name(), servers[v[1]].name(), v[2] + 1))
  });
}
