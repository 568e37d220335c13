//! C32: calls on real connections which move from thread to thread.

use crate::check::{credentials, run, Trust, PATIENCE};
use crate::ops::{history_ops, Op};
use crate::sendable::{calls, sent, types};
use crate::server::{accept, hello, Version, GREETING, VERSIONS};
use crate::stream::{get, outcome, pair, patiently, rest, shown, Peer};
use crate::world;
use mc_core::space::Product;
use mc_core::{Local, Run, Verdict};
use std::future::Future;
use std::task::{Context, Poll};
use std::time::Duration;
use tmi::client::Backoff;
use tmi::Client;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpListener;

/// Only used by one thread, while another one waits for it.
struct Passed<T>(T);
// SAFETY: only checked by running it; whether it really is `Send` is checked separately
unsafe impl<T> Send for Passed<T> {}

impl<T> Passed<T> {
  fn take(self) -> T {
    self.0
  }
}

/// Every poll, and dropping it, happens here or on a new thread.
struct Moves {
  pattern: usize,
  /// how often the pattern repeats
  period: usize,
  polls: usize,
}

impl Moves {
  fn run<T>(&mut self, f: impl FnOnce() -> T) -> T {
    let moved = self.pattern >> (self.polls % self.period) & 1 == 1;
    self.polls += 1;
    if !moved {
      return f();
    }
    let runtime = tokio::runtime::Handle::current();
    let work = Passed((f, world::take()));
    let done = std::thread::scope(|s| {
      let job = s.spawn(move || {
        let (f, state) = work.take();
        let _guard = runtime.enter();
        world::put(state);
        let r = f();
        Passed((r, world::take()))
      });
      job.join()
    });
    match done {
      Ok(done) => {
        let (r, state) = done.take();
        world::put(state);
        r
      }
      Err(e) => std::panic::resume_unwind(e),
    }
  }

  async fn call<F: Future>(&mut self, call: F) -> F::Output {
    let mut call = Some(Box::pin(call));
    let r = std::future::poll_fn(|cx| {
      let waker = cx.waker().clone();
      let f = &mut call;
      self.run(move || match f {
        Some(f) => f.as_mut().poll(&mut Context::from_waker(&waker)),
        None => Poll::Pending,
      })
    })
    .await;
    self.run(|| drop(call.take()));
    r
  }
}

/// The other end of the next connection.
async fn greeted(listener: &TcpListener, version: Version) -> Result<Peer, String> {
  let (stream, _) = listener.accept().await.map_err(|e| e.to_string())?;
  let _ = stream.set_nodelay(true);
  let mut tls = hello(stream, version).await.map_err(|e| e.to_string())?;
  let mut got = vec![];
  while !(got.ends_with(b"\n") && String::from_utf8_lossy(&got).contains("NICK ")) {
    if tls.read_buf(&mut got).await.map_err(|e| e.to_string())? == 0 {
      return Err("the handshake ends".into());
    }
  }
  for part in [GREETING, "L", " 1\r\nL 2\r\n"] {
    tls.write_all(part.as_bytes()).await.map_err(|e| e.to_string())?;
    tls.flush().await.map_err(|e| e.to_string())?;
  }
  Ok(tls)
}

async fn used(client: &mut Client, peer: &mut Peer, op: &Op, moves: &mut Moves, local: &mut Local) -> Verdict {
  for want in ["message L 1", "message L 2"] {
    local.steps(1);
    let got = shown(patiently("not received", moves.call(client.recv())).await?);
    if got != want {
      return Err(format!("received {got}, not {want}"));
    }
  }
  local.steps(1);
  let result = patiently("the call does not end", moves.call(op.perform(client))).await?;
  outcome(op, result)?;
  let got = get(peer, op, 1 << 14).await.map_err(|e| format!("{op:?}: {e}"))?;
  local.state(&mc_core::hash(&got));
  op.check(&got)
}

async fn moving(op: &Op, version: Version, moves: &mut Moves, local: &mut Local) -> Verdict {
  let (port, listener) = accept().await;
  world::begin(vec![port, port]);
  let backoff = Backoff { max_tries: Some(1), initial_delay: Duration::from_millis(1), delay_multiplier: 1, max_delay: Duration::from_millis(1) };
  let connecting = Client::builder().credentials(credentials()).timeout(PATIENCE).backoff(backoff).connect();
  let (client, peer) = patiently("not connected", async { tokio::join!(moves.call(connecting), greeted(&listener, version)) }).await?;
  let (mut client, mut first) = (client.map_err(|e| format!("could not connect: {e}"))?, peer?);
  used(&mut client, &mut first, op, moves, local).await?;
  let (r, peer) = patiently("not reconnected", async { tokio::join!(moves.call(client.reconnect()), greeted(&listener, version)) }).await?;
  r.map_err(|e| format!("could not reconnect: {e}"))?;
  let mut second = peer?;
  used(&mut client, &mut second, op, moves, local).await?;
  let _ = first.get_mut().0.set_linger(Some(Duration::ZERO));
  drop(first);
  rest(client, second).await
}

pub fn check(check: &mut Run) {
  check.assume("the loopback network loses nothing");
  let _trust = Trust::only(&["root"]);
  check.family("types and real calls", "everything public, and the futures of all calls on a real connection", 2, |i, local| {
    if i == 0 {
      return sent(types(), local);
    }
    run(async {
      let (mut client, peer) = pair(VERSIONS[1]).await?;
      sent(calls(&mut client).await, local)?;
      rest(client, peer).await
    })
  });
  let period = check.pick(6, 9);
  let ops = history_ops();
  let n = ops.len() as u64;
  let space = Product(vec![1 << period, n, 2]);
  check.family("real calls", &format!("connecting, receiving, {n} calls and reconnecting over TLS 1.2 and 1.3 x all patterns of {period} of which polls happen on new threads"), space.total(), |i, local| {
    let v = space.get(i);
    local.trace();
    let mut moves = Moves { pattern: v[0], period, polls: 0 };
    run(moving(&ops[v[1]], VERSIONS[v[2]], &mut moves, local)).map_err(|e| format!("{e}\n  {:?}, polls on new threads {:b} from the right", ops[v[1]], v[0]))
  });
}
