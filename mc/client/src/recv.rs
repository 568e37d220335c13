//! C17: receiving.

use crate::net::{drive, run, Call, In, May, Plan, World, MARK};
use crate::send::{connected, greeting};
use mc_core::space::{Product, Strings};
use mc_core::{dfs, Local, Run, Verdict};
use std::io::ErrorKind;
use std::time::Duration;
use tmi::client::read::RecvError;
use tmi::{Client, IrcMessage};

/// One result of receiving.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Got {
  Message(String),
  Unparsable(String),
  NotUtf8,
  Io(ErrorKind),
  Closed,
}

pub fn got(result: Result<IrcMessage, RecvError>) -> Result<Got, String> {
  Ok(match result {
    Ok(m) => Got::Message(m.raw().to_string()),
    Err(RecvError::Parse(s)) => Got::Unparsable(s),
    Err(RecvError::StreamClosed) => Got::Closed,
    Err(RecvError::Io(e)) if e.to_string().contains(MARK) => Got::Io(e.kind()),
    Err(RecvError::Io(e)) if e.kind() == ErrorKind::InvalidData => Got::NotUtf8,
    Err(RecvError::Io(e)) => return Err(format!("an I/O error out of nowhere: {e:?}")),
  })
}

fn expected_line(line: &[u8]) -> Got {
  match std::str::from_utf8(line) {
    Err(_) => Got::NotUtf8,
    Ok(s) if IrcMessage::parse(s).is_some() => Got::Message(s.into()),
    Ok(s) => Got::Unparsable(s.into()),
  }
}

/// The results for a whole stream.
pub fn expected(stream: &[u8]) -> Vec<Got> {
  let mut out = vec![];
  let mut rest = stream;
  while let Some(n) = rest.iter().position(|b| *b == b'\n') {
    let line = &rest[..n];
    out.push(expected_line(line.strip_suffix(b"\r").unwrap_or(line)));
    rest = &rest[n + 1..];
  }
  if !rest.is_empty() {
    out.push(expected_line(rest));
  }
  out
}

pub async fn receive(world: &World, client: &mut Client) -> Result<Option<Got>, String> {
  match drive(world, client.recv()).await {
    Call::Done(r) => Ok(Some(got(r)?)),
    Call::Cancelled => Ok(None),
    Call::Hung => Err("receiving never ends although the server has closed the connection".into()),
  }
}

/// Receive everything; `want` are the lines.
async fn drain(world: &World, client: &mut Client, stream: &[u8], local: &mut Local) -> Verdict {
  let want = expected(stream);
  let mut results = vec![];
  let mut errors = 0;
  let mut n = 0;
  loop {
    local.steps(1);
    let Some(g) = receive(world, client).await? else { continue };
    results.push(g.clone());
    let fail = |what: String| Err(format!("{what}: received {results:?}, the lines are {want:?}"));
    if let Got::Io(kind) = g {
      errors += 1;
      let given = world.last().read_errors;
      if given.get(errors - 1) != Some(&kind) {
        return fail(format!("error {kind:?} instead of {given:?}"));
      }
      continue;
    }
    if world.last().read_errors.len() != errors {
      return fail("an error of the transport was swallowed".into());
    }
    if g == Got::Closed {
      break;
    }
    match want.get(n) {
      Some(w) if *w == g => {}
      w => return fail(format!("{g:?} instead of {w:?}")),
    }
    n += 1;
    if results.len() > 5000 {
      return fail("too many results".into());
    }
  }
  if n != want.len() {
    return Err(format!("{n} lines before the end: {results:?}, the lines are {want:?}"));
  }
  // closed on every further call
  for _ in 0..3 {
    local.steps(1);
    match receive(world, client).await? {
      Some(Got::Closed) | None => {}
      Some(g) => return Err(format!("{g:?} after the end")),
    }
  }
  local.state(&results);
  Ok(())
}

const LINES: &[&[u8]] = &[b"A", b"", b":x P :t", "é".as_bytes(), b"\xff", b"A\r", b"@a=b", b" "];
const ENDS: &[&[u8]] = &[b"\n", b"\r\n"];

/// Streams of up to `max` lines, followed by a rest which may be unterminated.
fn streams(max: usize) -> Vec<Vec<u8>> {
  let k = LINES.len() * ENDS.len();
  let sigma = vec![""; k];
  let space = Strings { sigma: &sigma, max };
  let mut all = vec![];
  for i in 0..space.total() {
    let mut s = vec![];
    for n in space.symbols(i) {
      s.extend_from_slice(LINES[n / 2]);
      s.extend_from_slice(ENDS[n % 2]);
    }
    for rest in [&b""[..], b"B", "é".as_bytes(), b"\xc3", b"B\r", b"\r"] {
      let mut s = s.clone();
      s.extend_from_slice(rest);
      all.push(s);
    }
  }
  all.sort_by_key(|s| s.len());
  all.dedup();
  all
}

fn show(s: &[u8]) -> String {
  let t = String::from_utf8_lossy(s);
  if t.len() > 200 {
    format!("{} bytes", s.len())
  } else {
    format!("{:?}", t)
  }
}

fn plan(stream: &[u8]) -> Plan {
  Plan::new(vec![greeting(), In::Bytes(stream.to_vec()), In::Eof])
}

pub fn run_check(check: &mut Run) {
  let all = streams(check.pick(2, 3));
  let longest = check.pick(10, 13);
  let short: Vec<&Vec<u8>> = all.iter().filter(|s| (1..=longest).contains(&s.len())).collect();
  check.family(
    "all splits into reads",
    &format!("all streams of at most {longest} bytes made of the lines and rests in the alphabet, split in every way"),
    short.len() as u64,
    |i, local| {
      let stream = short[i as usize];
      local.sample(i, || show(stream));
      dfs::explore(0, local, |chooser, local| {
        run(async {
          let world = World::new(vec![plan(stream)]);
          let mut client = connected(&world).await?;
          world.decide(Some(chooser), May { split_reads: true, ..May::default() });
          drain(&world, &mut client, stream, local).await
        })
      })
      .map_err(|e| format!("{e}\n  stream: {}", show(stream)))
    },
  );
  let bound = 3;
  let some: Vec<&Vec<u8>> = all.iter().filter(|s| s.len() <= check.pick(14, 20)).collect();
  check.family(
    "pending, failing and cancelled reads",
    &format!("{} streams; at most {bound} deviations (1, half or all but 1 byte, pending, error, cancelled)", some.len()),
    some.len() as u64,
    |i, local| {
      let stream = some[i as usize];
      dfs::explore(bound, local, |chooser, local| {
        run(async {
          let world = World::new(vec![plan(stream)]);
          let mut client = connected(&world).await?;
          let may = May { short_reads: true, pend_reads: true, fail_reads: true, cancel: true, ..May::default() };
          world.decide(Some(chooser), may);
          drain(&world, &mut client, stream, local).await
        })
      })
      .map_err(|e| format!("{e}\n  stream: {}", show(stream)))
    },
  );
  // every split in two or three, with a delay in between and the call cancelled during it
  let kinds = [ErrorKind::ConnectionReset, ErrorKind::TimedOut, ErrorKind::Other];
  let real: Vec<u8> = mc_core::lines::REAL.iter().flat_map(|l| [l.as_bytes(), b"\r\n"]).flatten().copied().collect();
  let n = real.len() as u64;
  check.family("real lines in two pieces", &format!("{n} bytes of real lines, split at every byte x delay, error or cancellation in between"), n * 5, |i, local| {
    local.trace();
    let at = (i / 5) as usize;
    let between = match i % 5 {
      0 => vec![],
      1 | 2 => vec![In::Delay(Duration::from_millis(7))],
      k => vec![In::Err(kinds[(k as usize + at) % 3])],
    };
    let mut input = vec![greeting(), In::Bytes(real[..at].to_vec())];
    input.extend(between);
    input.extend([In::Bytes(real[at..].to_vec()), In::Eof]);
    run(async {
      let world = World::new(vec![Plan::new(input)]);
      let mut client = connected(&world).await?;
      if i % 5 == 2 {
        // cancel each call once while it waits
        let want = expected(&real);
        let mut results = vec![];
        loop {
          local.steps(1);
          match crate::net::cancel_at(0, client.recv()).await {
            Call::Done(r) => results.push(got(r)?),
            Call::Cancelled => tokio::time::sleep(Duration::from_millis(3)).await,
            Call::Hung => return Err("hangs".into()),
          }
          if results.last() == Some(&Got::Closed) {
            break;
          }
        }
        results.pop();
        if results != want {
          return Err(format!("cut at {at}, cancelled while waiting: {results:?}"));
        }
        return Ok(());
      }
      drain(&world, &mut client, &real, local).await.map_err(|e| format!("cut at {at}: {e}"))
    })
  });
  // lines longer than any internal buffer
  let dense = check.pick(700, 3000);
  let mut lengths: Vec<usize> = (0..=dense).collect();
  for log in 9..=check.pick(17, 20) {
    lengths.extend((-6i64..=6).map(|d| ((1i64 << log) + d) as usize).filter(|n| *n > dense));
  }
  lengths.extend((8180..8200).chain([3 * 8192, 100_000, 300_000]).filter(|n| *n > dense));
  let chunks = [1usize << 20, 1, 7, 1000, 8191, 8192, 8193];
  let space = Product(vec![lengths.len() as u64, chunks.len() as u64, 3]);
  check.family("long lines", &format!("lines of 0 to {dense} bytes and around powers of two ({} lengths) x 7 sizes of reads x 3 contents", lengths.len()), space.total(), |i, local| {
    let v = space.get(i);
    let (len, chunk) = (lengths[v[0]], chunks[v[1]]);
    local.trace();
    if chunk == 1 && len > 10_000 {
      return Ok(());
    }
    let line = match v[2] {
      0 => "x".repeat(len).into_bytes(),
      1 => "é".repeat(len / 2).into_bytes(),
      _ => [b"P :".to_vec(), "⸝y".repeat(len / 4).into_bytes()].concat(),
    };
    let stream = [&line[..], b"\r\nA b\n", &line[..], b"\nrest"].concat();
    let mut input = vec![greeting()];
    input.extend(stream.chunks(chunk).map(|c| In::Bytes(c.to_vec())));
    input.push(In::Eof);
    run(async {
      let world = World::new(vec![Plan::new(input)]);
      let mut client = connected(&world).await?;
      drain(&world, &mut client, &stream, local).await
    })
  });
  // what lines are made of
  let whole = |stream: Vec<u8>, local: &mut Local| {
    run(async {
      let world = World::new(vec![plan(&stream)]);
      let mut client = connected(&world).await?;
      drain(&world, &mut client, &stream, local).await
    })
    .map_err(|e| mc_core::clip(&e, 800))
  };
  check.family("pairs of bytes", "lines of each two bytes (except LF), alone, after and before others", 256, |i, local| {
    local.trace();
    let mut stream = vec![];
    for b in 0..=255 {
      let pair = [i as u8, b];
      if !pair.contains(&b'\n') {
        for (before, after) in [("", "\r\n"), (":a PRIVMSG #c :", "\n"), ("", " P :x\r\n"), ("@k=", " P\r\n")] {
          stream.extend([before.as_bytes(), &pair, after.as_bytes()].concat());
        }
      }
    }
    // ends with a rest
    stream.extend([i as u8]);
    whole(stream, local)
  });
  const BLOCK: u32 = 64;
  check.family("characters", "every character (except LF) at the start, within and at the end of lines", u64::from(0x110000 / BLOCK), |i, local| {
    local.trace();
    let mut stream = String::new();
    for c in (i as u32 * BLOCK..(i as u32 + 1) * BLOCK).filter_map(char::from_u32).filter(|c| *c != '\n') {
      stream.push_str(&format!("{c}\n{c}:a PRIVMSG #c :x{c}y\r\n:a PRIVMSG #c :{c}x{c}\r\n"));
    }
    whole(stream.into_bytes(), local)
  });
  check.family("bytes which are no characters", "every three bytes of which the first is a start or rest of a character, between others", 128 * 64, |i, local| {
    local.trace();
    let mut stream = vec![];
    let (a, b) = (128 + (i / 64) as u8, (i % 64) as u8 * 4);
    for b in b..=b + 3 {
      for c in [0u8, b'a', b'\r', 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xe0, 0xf0, 0xff] {
        for after in [&b"\r\n"[..], b"\x80\n", b" x\n"] {
          if b != b'\n' {
            stream.extend([b":a PRIVMSG #c :", &[a, b, c][..], after].concat());
          }
        }
      }
    }
    whole(stream, local)
  });
  // an error of each kind between each two bytes of a stream
  let stream = ":a PRIVMSG #c :é\r\nA\n\nB \r\n\u{1}x\rC".as_bytes();
  let kinds = crate::errors::KINDS;
  let n = stream.len() as u64 + 1;
  let space = Product(vec![n, n, kinds.len() as u64]);
  check.family("errors within lines", &format!("an error of each of {} kinds before each of {n} bytes, and again before each", kinds.len()), space.total(), |i, local| {
    let v = space.get(i);
    if v[1] < v[0] {
      return Ok(());
    }
    local.trace();
    let bytes = |r: std::ops::Range<usize>| In::Bytes(stream[r].to_vec());
    let kind = kinds[v[2]];
    let input = vec![greeting(), bytes(0..v[0]), In::Err(kind), bytes(v[0]..v[1]), In::Err(kind), bytes(v[1]..stream.len()), In::Eof];
    run(async {
      let world = World::new(vec![Plan::new(input)]);
      let mut client = connected(&world).await?;
      drain(&world, &mut client, stream, local).await
    })
  });
  // silence between each two bytes
  let times = [1u64, 1_000, 4_999, 5_000, 5_001, 10_000, 30_000, 30_001, 61_000, 299_000, 301_000, 601_000, 3_600_001, 86_400_000, 2_592_000_000];
  let space = Product(vec![n, times.len() as u64, 4]);
  check.family("silence", &format!("{n} places x silences of {} lengths, {:?} to {:?}, while it is received, while it is not, in calls which are dropped", times.len(), Duration::from_millis(times[0]), Duration::from_millis(times[times.len() - 1])), space.total(), |i, local| {
    let v = space.get(i);
    local.trace();
    let (at, time) = (v[0], Duration::from_millis(times[v[1]]));
    let wait = if v[2] == 3 { Duration::ZERO } else { time };
    let input = vec![greeting(), In::Bytes(stream[..at].to_vec()), In::Delay(wait), In::Bytes(stream[at..].to_vec()), In::Delay(wait), In::Eof];
    run(async {
      let world = World::new(vec![Plan::new(input)]);
      let mut client = connected(&world).await?;
      if v[2] == 0 {
        return drain(&world, &mut client, stream, local).await;
      }
      let mut results = vec![];
      while results.last() != Some(&Got::Closed) && results.len() < 100 {
        local.steps(1);
        if v[2] == 3 {
          tokio::time::sleep(time).await;
        }
        match crate::net::cancel_at(if v[2] == 1 { 0 } else { 1000 }, client.recv()).await {
          Call::Done(r) => results.push(got(r)?),
          Call::Cancelled => tokio::time::sleep(time * 2).await,
          Call::Hung => return Err("receiving never ends".into()),
        }
      }
      let mut want = expected(stream);
      want.push(Got::Closed);
      if results != want {
        return Err(format!("{results:?}, the lines are {want:?}"));
      }
      Ok(())
    })
    .map_err(|e| format!("{e} (a silence of {time:?} after {at} bytes)"))
  });
  let most = check.pick(300, 3000);
  let space = Product(vec![3, 4, 4]);
  check.family("many errors", &format!("{most} errors, cancelled calls or closed results in a row, at 4 places x 4 kinds"), space.total(), |i, local| {
    let v = space.get(i);
    local.trace();
    let places = [0, 5, stream.len() - 1, stream.len()];
    let kind = [ErrorKind::ConnectionReset, ErrorKind::TimedOut, ErrorKind::Other, ErrorKind::UnexpectedEof][v[2]];
    let between = match v[0] {
      0 => vec![In::Err(kind); most],
      1 => vec![In::Delay(Duration::from_millis(5)); most],
      _ => vec![],
    };
    let mut input = vec![greeting(), In::Bytes(stream[..places[v[1]]].to_vec())];
    input.extend(between);
    input.extend([In::Bytes(stream[places[v[1]]..].to_vec()), In::Eof]);
    run(async {
      let world = World::new(vec![Plan::new(input)]);
      let mut client = connected(&world).await?;
      let mut results = vec![];
      let mut errors = 0;
      for _ in 0..2 * most + 100 {
        local.steps(1);
        match crate::net::cancel_at(0, client.recv()).await {
          Call::Done(r) => match got(r)? {
            Got::Io(k) if k == kind => errors += 1,
            g => results.push(g),
          },
          Call::Cancelled => tokio::time::sleep(Duration::from_millis(3)).await,
          Call::Hung => return Err("receiving never ends".into()),
        }
      }
      let want = expected(stream);
      let (lines, ends) = results.split_at(want.len().min(results.len()));
      if lines != want || ends.is_empty() || ends.iter().any(|e| *e != Got::Closed) || errors != if v[0] == 0 { most } else { 0 } {
        return Err(mc_core::clip(&format!("{errors} errors and {results:?}, the lines are {want:?}"), 800));
      }
      Ok(())
    })
  });
  let lines = check.pick(70_000usize, 300_000);
  let sizes = [1usize, 2, 3, 7, 64, 1000, 4096, 8191, 8192, 8193, 16384, 1 << 20];
  check.family("many lines", &format!("{lines} lines, in reads of 12 sizes, of equal and of various lengths"), sizes.len() as u64 * 2, |i, local| {
    local.trace();
    let (size, equal) = (sizes[i as usize / 2], i % 2 == 0);
    let lines = if size < 7 { lines / 8 } else { lines };
    let line = |n: usize| if equal { format!("L {:06}", n % 999_983) } else { format!("L {n} :{}", "xyé ".repeat(n % 50)) };
    let mut stream = vec![];
    for n in 0..lines {
      stream.extend(line(n).into_bytes());
      stream.extend(if n % 2 == 0 { &b"\r\n"[..] } else { b"\n" });
    }
    let mut input = vec![greeting()];
    input.extend(stream.chunks(size).map(|c| In::Bytes(c.to_vec())));
    input.push(In::Eof);
    run(async {
      let world = World::new(vec![Plan::new(input)]);
      let mut client = connected(&world).await?;
      for n in 0..lines {
        local.alive();
        local.steps(1);
        match receive(&world, &mut client).await? {
          Some(Got::Message(m)) if m == line(n) => {}
          other => return Err(mc_core::clip(&format!("{other:?} instead of line {n}, {:?}", line(n)), 800)),
        }
      }
      match receive(&world, &mut client).await? {
        Some(Got::Closed) => Ok(()),
        other => Err(format!("{other:?} after {lines} lines")),
      }
    })
  });
}
