//! C16, C17: lines over real connections.

use crate::check::{credentials, run, Trust, PATIENCE};
use crate::ops::{history_ops, Op, Want};
use crate::server::{accept, hello, Version, GREETING, VERSIONS};
use crate::world;
use mc_core::space::Product;
use mc_core::{Local, Run, Verdict};
use std::future::Future;
use std::io::ErrorKind;
use std::time::Duration;
use tmi::client::read::RecvError;
use tmi::client::write::SendError;
use tmi::Client;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpStream;
use tokio::time::timeout;
use tokio_rustls::server::TlsStream;

pub type Peer = TlsStream<TcpStream>;

pub async fn patiently<T>(what: &str, f: impl Future<Output = T>) -> Result<T, String> {
  timeout(PATIENCE, f).await.map_err(|_| format!("{what} within {PATIENCE:?}"))
}

/// A connected client, and the other end.
pub async fn pair(version: Version) -> Result<(Client, Peer), String> {
  let (port, listener) = accept().await;
  world::begin(vec![port]);
  let server = async {
    let (stream, _) = listener.accept().await.map_err(|e| e.to_string())?;
    let _ = stream.set_nodelay(true);
    let mut tls = hello(stream, version).await.map_err(|e| e.to_string())?;
    let mut got = vec![];
    while !(got.ends_with(b"\n") && String::from_utf8_lossy(&got).contains("NICK ")) {
      let n = tls.read_buf(&mut got).await.map_err(|e| e.to_string())?;
      if n == 0 {
        return Err(format!("the handshake ends after {:?}", String::from_utf8_lossy(&got)));
      }
    }
    tls.write_all(GREETING.as_bytes()).await.map_err(|e| e.to_string())?;
    tls.flush().await.map_err(|e| e.to_string())?;
    Ok::<_, String>(tls)
  };
  let client = Client::builder().credentials(credentials()).timeout(PATIENCE).connect();
  let (client, server) = patiently("not connected", async { tokio::join!(client, server) }).await?;
  let (client, server) = (client.map_err(|e| format!("could not connect: {e}"))?, server?);
  Ok((client, server))
}

/// What the peer gets of a call, `at_most` bytes at a time.
pub async fn get(peer: &mut Peer, op: &Op, at_most: usize) -> Result<Vec<u8>, String> {
  let mut got = vec![];
  let mut buf = vec![0; at_most];
  let want = op.want();
  loop {
    let done = match &want {
      Want::Rejected => true,
      Want::Raw(text) => got.len() >= text.len(),
      Want::Line(_) => got.ends_with(b"\r\n"),
    };
    if done {
      return Ok(got);
    }
    match patiently("not delivered", peer.read(&mut buf)).await? {
      Ok(n) if n > 0 => got.extend_from_slice(&buf[..n]),
      other => return Err(format!("the connection ends: {other:?}")),
    }
  }
}

pub fn outcome(op: &Op, result: Result<(), SendError>) -> Verdict {
  match (result, op.want()) {
    (Err(SendError::InvalidMessage(_)), Want::Rejected) => Ok(()),
    (Ok(()), Want::Line(_) | Want::Raw(_)) => Ok(()),
    (result, _) => Err(format!("{op:?}: {result:?}")),
  }
}

/// Nothing else comes when the client is gone.
pub async fn rest(client: Client, mut peer: Peer) -> Verdict {
  drop(client);
  let mut got = vec![];
  let _ = patiently("not closed", peer.read_to_end(&mut got)).await?;
  let _ = peer.get_mut().0.set_linger(Some(Duration::ZERO));
  if !got.is_empty() {
    return Err(format!("{:?} was sent in addition", String::from_utf8_lossy(&got)));
  }
  world::end().map(|_| ())
}

pub fn delivery(check: &mut Run) {
  check.assume("the loopback network loses nothing");
  let _trust = Trust::only(&["root"]);
  let ops = history_ops();
  let n = ops.len() as u64;
  let depth = check.pick(2, 3);
  let mut dims = vec![n; depth];
  dims.push(2);
  let space = Product(dims);
  check.family("real connections", &format!("all sequences of {depth} of {n} calls over TLS 1.2 and 1.3; nothing is done after a call until its line has arrived"), space.total(), |i, local| {
    let v = space.get(i);
    local.trace();
    let calls: Vec<&Op> = v[..depth].iter().map(|n| &ops[*n]).collect();
    local.sample(i, || format!("{calls:?}"));
    run(async {
      let (mut client, mut peer) = pair(VERSIONS[v[depth]]).await?;
      for op in &calls {
        local.steps(1);
        let result = patiently("the call does not end", op.perform(&mut client)).await?;
        outcome(op, result)?;
        let got = get(&mut peer, op, 1 << 14).await.map_err(|e| format!("{op:?}: {e}"))?;
        local.state(&mc_core::hash(&got));
        op.check(&got)?;
      }
      rest(client, peer).await
    })
    .map_err(|e| format!("{e}\n  {calls:?}"))
  });
  // around the sizes of records, socket buffers and what is more than those
  let mut sizes = vec![];
  for log in 6..=check.pick(20, 23) {
    sizes.extend((-20i64..=4).step_by(check.pick(4, 1)).map(|d| ((1i64 << log) + d) as usize));
  }
  const CHUNKS: [usize; 3] = [1 << 16, 16384, 700];
  let space = Product(vec![sizes.len() as u64, CHUNKS.len() as u64, 2]);
  check.family("long lines over real connections", &format!("lines of {} lengths around powers of two x how much is read at a time: {CHUNKS:?} x TLS 1.2 and 1.3", sizes.len()), space.total(), |i, local| {
    let v = space.get(i);
    local.trace();
    local.steps(2);
    let text: String = (0..sizes[v[0]]).map(|n| char::from(b'a' + (n % 23) as u8)).collect();
    let calls = [Op::privmsg(&text), Op::Ping("n".into())];
    local.state(&(sizes[v[0]], v[1]));
    run(async {
      let (mut client, mut peer) = pair(VERSIONS[v[2]]).await?;
      for op in &calls {
        // it can't end before some of it has been read
        let (result, got): (_, Result<Vec<u8>, String>) = tokio::join!(
          patiently("the call does not end", op.perform(&mut client)),
          get(&mut peer, op, CHUNKS[v[1]])
        );
        outcome(op, result?)?;
        op.check(&got?)?;
      }
      rest(client, peer).await
    })
    .map_err(|e| mc_core::clip(&format!("{} bytes, read {} at a time: {e}", sizes[v[0]], CHUNKS[v[1]]), 600))
  });
  pressure(check);
}

fn pressure(check: &mut Run) {
  let (sizes, step) = check.pick((100_000, 1000), (300_000, 250));
  let n = sizes / step;
  let space = Product(vec![n, 3, 2, 2]);
  check.family("under pressure", &format!("lines of {n} lengths up to {sizes} over connections which take in little x waiting 0 or 5 ms before reading, or cancelling the call x a short or a long line next x TLS 1.2 and 1.3"), space.total(), |i, local| {
    let v = space.get(i);
    local.trace();
    local.steps(2);
    let line = |n: usize, c: u8| Op::privmsg(&(0..n).map(|n| char::from(c + (n % 23) as u8)).collect::<String>());
    let (first, second) = (line((v[0] + 1) * step as usize, b'a'), line([1, 30_000][v[2]], b'A'));
    world::BUFFERS.with(|b| b.set(4096));
    let result = run(async {
      let (mut client, mut peer) = pair(VERSIONS[v[3]]).await?;
      if v[1] < 2 {
        for op in [&first, &second] {
          let (result, got): (_, Result<Vec<u8>, String>) = tokio::join!(patiently("the call does not end", op.perform(&mut client)), async {
            if v[1] == 1 {
              tokio::time::sleep(Duration::from_millis(5)).await;
            }
            get(&mut peer, op, 1 << 14).await
          });
          outcome(op, result?)?;
          op.check(&got?)?;
        }
      } else {
        let done = timeout(Duration::from_millis(5), first.perform(&mut client)).await;
        local.state(&(v[0], done.is_ok()));
        let want = |op: &Op| match op {
          Op::Privmsg { channel, text, .. } => format!("PRIVMSG {channel} :{text}\r\n"),
          _ => unreachable!(),
        };
        let (first, last) = (want(&first), want(&second));
        let (result, got) = tokio::join!(patiently("the call does not end", second.perform(&mut client)), async {
          let mut got = vec![];
          let mut buf = vec![0; 1 << 14];
          while !got.ends_with(last.as_bytes()) {
            match patiently("not delivered", peer.read(&mut buf)).await? {
              Ok(n) if n > 0 => got.extend_from_slice(&buf[..n]),
              other => return Err(format!("the connection ends: {other:?}")),
            }
          }
          Ok::<_, String>(got)
        });
        outcome(&second, result?)?;
        let got = got?;
        let before = &got[..got.len() - last.len()];
        if !first.as_bytes().starts_with(before) || done.is_ok() && before != first.as_bytes() {
          return Err(format!("{} bytes of {} before the next line, {done:?}", before.len(), first.len()));
        }
      }
      rest(client, peer).await
    });
    world::BUFFERS.with(|b| b.set(0));
    result.map_err(|e| mc_core::clip(&format!("{v:?}: {e}"), 600))
  });
}

/// The next result, as text.
pub fn shown(r: Result<tmi::IrcMessage, RecvError>) -> String {
  match r {
    Ok(m) => format!("message {}", m.raw()),
    Err(RecvError::Parse(s)) => format!("unparsable {s}"),
    Err(RecvError::StreamClosed) => "closed".into(),
    Err(RecvError::Io(e)) if e.kind() == ErrorKind::InvalidData => "invalid".into(),
    Err(e) => format!("{} {e:?}", if e.is_disconnect() { "disconnect" } else { "failure" }),
  }
}

const STREAM: &[u8] = b"L 1\r\nPING :x y\n\r\nL \xc3\xa9\r\nL\xff\r\n:a L\r\n";
const RESULTS: &[&str] = &["message L 1", "message PING :x y", "unparsable ", "message L é", "invalid", "message :a L"];

async fn put(peer: &mut Peer, bytes: &[u8]) -> Verdict {
  if bytes.is_empty() {
    return Ok(());
  }
  let io = |e: std::io::Error| format!("the client's side is gone: {e}");
  peer.write_all(bytes).await.map_err(io)?;
  peer.flush().await.map_err(io)
}

async fn splits(version: Version, cut: usize, mode: usize, local: &mut Local) -> Verdict {
  let (mut client, mut peer) = pair(version).await?;
  for second in cut..=STREAM.len() {
    local.steps(1);
    let parts = [&STREAM[..cut], &STREAM[cut..second], &STREAM[second..]];
    let mut got = vec![];
    if mode == 0 {
      let sending = async {
        for part in parts {
          put(&mut peer, part).await?;
          for _ in 0..8 {
            tokio::task::yield_now().await;
          }
        }
        Ok::<_, String>(())
      };
      let receiving = async {
        while got.len() < RESULTS.len() {
          got.push(shown(patiently("not received", client.recv()).await?));
        }
        Ok::<_, String>(())
      };
      let (a, b) = tokio::join!(sending, receiving);
      a?;
      b?;
    } else {
      for part in parts {
        put(&mut peer, part).await?;
        // what does not arrive in time is received by a later call
        while let Ok(r) = timeout(Duration::from_micros(300), client.recv()).await {
          got.push(shown(r));
        }
      }
      while got.len() < RESULTS.len() {
        got.push(shown(patiently("not received", client.recv()).await?));
      }
    }
    local.state(&(cut, second));
    if got != RESULTS {
      return Err(format!("received {got:?}, sent in {parts:?}", parts = parts.map(String::from_utf8_lossy)));
    }
  }
  rest(client, peer).await
}

#[derive(Clone, Copy, Debug)]
enum End {
  Notified,
  Cut,
  Reset,
}

/// The stream ends after `n` bytes.
async fn ends(version: Version, n: usize, end: End, local: &mut Local) -> Verdict {
  let (mut client, mut peer) = pair(version).await?;
  put(&mut peer, &STREAM[..n]).await?;
  let lines: Vec<&[u8]> = STREAM[..n].split_inclusive(|b| *b == b'\n').collect();
  let complete = lines.iter().filter(|l| l.ends_with(b"\n")).count();
  match end {
    End::Notified => {
      let _ = peer.shutdown().await;
    }
    End::Cut => {
      let _ = peer.get_mut().0.shutdown().await;
    }
    End::Reset => {
      // takes effect when it is dropped
      let _ = peer.get_mut().0.set_linger(Some(Duration::ZERO));
    }
  }
  let mut peer = match end {
    End::Reset => {
      drop(peer);
      None
    }
    _ => Some(peer),
  };
  let mut got = vec![];
  for _ in 0..RESULTS.len() + 4 {
    local.steps(1);
    let r = patiently("not received", client.recv()).await?;
    let over = matches!(&r, Err(e) if e.is_disconnect());
    got.push(shown(r));
    if over {
      break;
    }
  }
  let last = got.pop().unwrap_or_default();
  local.state(&(n, &last));
  let wrong = |what: &str| Err(format!("{what}: received {got:?}, then {last}, of {:?}", String::from_utf8_lossy(&STREAM[..n])));
  // a reset may overtake what was sent before
  if matches!(end, End::Reset) {
    if !last.starts_with("disconnect") || got.len() > complete || !RESULTS.starts_with(&got.iter().map(|s| s.as_str()).collect::<Vec<_>>()) {
      return wrong("a reset");
    }
    return world::end().map(|_| ());
  }
  let rest = match lines.last() {
    Some(l) if !l.ends_with(b"\n") => Some(match std::str::from_utf8(l) {
      Err(_) => "invalid".to_string(),
      Ok(s) if tmi::IrcMessageRef::parse(s).is_some() => format!("message {s}"),
      Ok(s) => format!("unparsable {s}"),
    }),
    _ => None,
  };
  let mut want: Vec<String> = RESULTS[..complete].iter().map(|s| s.to_string()).collect();
  match end {
    End::Notified => {
      want.extend(rest);
      if got != want || last != "closed" {
        return wrong("a proper end");
      }
      for _ in 0..3 {
        let again = shown(patiently("not received", client.recv()).await?);
        if again != "closed" {
          return wrong(&format!("{again} after the end"));
        }
      }
    }
    _ => {
      if got != want || !last.starts_with("disconnect") || !last.contains("UnexpectedEof") {
        return wrong("an end without notice");
      }
    }
  }
  drop(client);
  if let Some(peer) = &mut peer {
    let _ = peer.get_mut().0.set_linger(Some(Duration::ZERO));
  }
  world::end().map(|_| ())
}

pub fn receiving(check: &mut Run) {
  check.assume("the loopback network loses nothing");
  let _trust = Trust::only(&["root"]);
  let n = STREAM.len() as u64;
  let space = Product(vec![n, 2, 2]);
  check.family("real connections", &format!("a stream of {n} bytes split into all sequences of 3 records x receiving while it comes, or with calls cancelled after each record x TLS 1.2 and 1.3"), space.total(), |i, local| {
    let v = space.get(i);
    local.trace();
    local.sample(i, || format!("{v:?}"));
    run(splits(VERSIONS[v[2]], v[0], v[1], local))
  });
  let ends_of = [End::Notified, End::Cut, End::Reset];
  let space = Product(vec![n + 1, 3, 2]);
  check.family("ends of real connections", &format!("the stream ends after each of its {n} bytes, with or without notice or by a reset x TLS 1.2 and 1.3"), space.total(), |i, local| {
    let v = space.get(i);
    local.trace();
    let end = ends_of[v[1]];
    run(ends(VERSIONS[v[2]], v[0], end, local)).map_err(|e| format!("{e}\n  {end:?}"))
  });
  let mut sizes = vec![];
  for log in 6..=check.pick(20, 23) {
    sizes.extend((-8i64..=8).step_by(check.pick(4, 1)).map(|d| ((1i64 << log) + d) as usize));
  }
  let space = Product(vec![sizes.len() as u64, 2]);
  check.family("long lines over real connections", &format!("lines of {} lengths around powers of two x TLS 1.2 and 1.3", sizes.len()), space.total(), |i, local| {
    let v = space.get(i);
    local.trace();
    local.steps(3);
    let size = sizes[v[0]];
    let long: String = ":a PRIVMSG #c :".chars().chain((0..size).map(|n| char::from(b'a' + (n % 23) as u8))).collect();
    local.state(&size);
    run(async {
      let (mut client, mut peer) = pair(VERSIONS[v[1]]).await?;
      let bytes = [&long, "\r\nL 1\r\n", &long, "\r\n"].concat();
      let receiving = async {
        for (n, want) in [long.as_str(), "L 1", &long].into_iter().enumerate() {
          match patiently("not received", client.recv()).await? {
            Ok(m) if m.raw() == want => {}
            Ok(m) => return Err(format!("message {n} has {} bytes, expected {}", m.raw().len(), want.len())),
            Err(e) => return Err(format!("message {n}: {}", mc_core::clip(&e.to_string(), 200))),
          }
        }
        Ok::<_, String>(())
      };
      let (a, b) = tokio::join!(put(&mut peer, bytes.as_bytes()), receiving);
      b?;
      a?;
      rest(client, peer).await
    })
    .map_err(|e| format!("{e}\n  {size} bytes"))
  });
}
