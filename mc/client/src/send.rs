//! C15, C16, C24: sending.

use crate::net::{drive, run, Call, In, May, Out, Plan, World, BROKEN, MARK};
use crate::ops::{history_ops, long_ops, single_ops, Op, Want};
use crate::proto;
use mc_core::space::Product;
use mc_core::{dfs, Local, Run, Verdict};
use std::io::ErrorKind;
use std::time::Duration;
use tmi::client::write::SendError;
use tmi::{Client, Credentials};

const MS: Duration = Duration::from_millis(1);

pub const LOGIN: &str = "some_login";
pub const TOKEN: &str = "oauth:zq7x9kvw3j";

pub fn credentials() -> Credentials {
  Credentials::new(LOGIN, TOKEN)
}

pub fn bytes(lines: &[&str]) -> In {
  In::Bytes(lines.iter().flat_map(|l| [l.as_bytes(), b"\r\n"]).flatten().copied().collect())
}

pub fn greeting() -> In {
  bytes(&[proto::ACK, proto::WELCOME])
}

/// Connect without any trouble. Fails if the implementation can't.
pub async fn connected(world: &World) -> Result<Client, String> {
  match drive(world, Client::builder().credentials(credentials()).connect()).await {
    Call::Done(Ok(client)) => Ok(client),
    Call::Done(Err(e)) => Err(format!("could not connect: {e}")),
    _ => Err("connecting never ends".into()),
  }
}

/// Perform all calls with a transport which accepts everything.
fn history(ops: &[&Op], local: &mut Local) -> Verdict {
  run(async {
    let world = World::new(vec![Plan::new(vec![greeting(), In::Silence])]);
    let mut client = connected(&world).await?;
    let mut from = world.last().accepted.len();
    for op in ops {
      local.steps(1);
      let Call::Done(result) = drive(&world, op.perform(&mut client)).await else {
        return Err(format!("{op:?} never ends"));
      };
      let seen = world.last();
      let written = &seen.accepted[from..];
      local.state(&written);
      match (&result, op.want()) {
        (Err(SendError::InvalidMessage(_)), Want::Rejected) => {}
        (Ok(()), Want::Rejected) | (Err(_), _) => return Err(format!("{op:?}: {result:?}")),
        (Ok(()), _) => {}
      }
      op.check(written)?;
      if seen.flushed != seen.accepted.len() {
        return Err(format!("{op:?}: left {} bytes unflushed", seen.accepted.len() - seen.flushed));
      }
      from = seen.accepted.len();
    }
    if world.seen().len() != 1 {
      return Err("opened another connection".into());
    }
    Ok(())
  })
}

/// C15: each call writes exactly its line.
pub fn wire(run: &mut Run) {
  let ops = single_ops(run.thorough());
  run.assume("channels, texts and nonces of PING contain no CR and LF; channel names contain no comma, space or further #");
  run.family("single calls", "texts, tag values, nonces, channel lists and raw lines over their special characters", ops.len() as u64, |i, local| {
    local.trace();
    local.sample(i * 7919 % 5000, || format!("{:?}", ops[i as usize]));
    history(&[&ops[i as usize]], local)
  });
  let ops = history_ops();
  let n = ops.len() as u64;
  let depth = run.pick(5, 6);
  let total: u64 = (1..=depth).map(|k| n.pow(k as u32)).sum();
  run.family("sequences of calls", &format!("all sequences of at most {depth} of {n} calls"), total, |mut i, local| {
    local.trace();
    let mut len = 1;
    while i >= n.pow(len) {
      i -= n.pow(len);
      len += 1;
    }
    let mut seq = vec![];
    for _ in 0..len {
      seq.push(&ops[(i % n) as usize]);
      i /= n;
    }
    local.sample(i, || format!("{seq:?}"));
    history(&seq, local)
  });
  let dense = run.pick(1200, 5000);
  let mut lengths: Vec<usize> = (0..=dense).collect();
  for log in 8..=run.pick(17, 21) {
    lengths.extend((-20i64..=20).map(|d| ((1i64 << log) + d) as usize).filter(|n| *n > dense));
  }
  run.family("lengths", &format!("every argument of every kind of call with 0 to {dense} bytes and around powers of two ({} lengths)", lengths.len()), lengths.len() as u64, |i, local| {
    let n = lengths[i as usize];
    for op in long_ops(n) {
      local.trace();
      history(&[&op], local).map_err(|e| mc_core::clip(&e, 600))?;
    }
    Ok(())
  });
  let all = run.pick(300usize, 1100);
  let mut counts: Vec<usize> = (1..=all).collect();
  for log in 8..=run.pick(16, 19) {
    counts.extend((-2i64..=2).map(|d| ((1i64 << log) + d) as usize).filter(|n| *n > all));
  }
  counts.extend([500, 1000, 2000, 5000, 10_000, 50_000].into_iter().flat_map(|n| [n - 1, n, n + 1]));
  run.family("numbers of channels", &format!("joining 1 to {all} channels at once, and numbers around powers of two and round ones ({} numbers), with names of two forms", counts.len()), counts.len() as u64, |i, local| {
    for name in ["#c", "channel_"] {
      local.trace();
      let op = Op::JoinAll((0..counts[i as usize]).map(|n| format!("{name}{n}")).collect());
      history(&[&op], local).map_err(|e| mc_core::clip(&e, 600))?;
    }
    Ok(())
  });
  const BLOCK: u32 = 32;
  run.family("characters", "every character at the start, within and at the end of texts, nonces and tags (CR and LF in tags only)", u64::from(0x110000 / BLOCK), |i, local| {
    let mut ops = vec![];
    for c in (i as u32 * BLOCK..(i as u32 + 1) * BLOCK).filter_map(char::from_u32) {
      let s = format!("{c}a{c}b {c}");
      if "\r\n".contains(c) {
        ops.push(Op::Privmsg { channel: "#ch".into(), text: "t".into(), reply: Some(s.clone()), nonce: Some(format!("x{s}\\")) });
        continue;
      }
      ops.push(Op::Privmsg { channel: "#ch".into(), text: s.clone(), reply: Some(s.clone()), nonce: Some(format!("x{s}\\")) });
      ops.push(Op::Ping(s.clone()));
      ops.push(Op::Pong(format!("PING :{s}")));
      ops.push(Op::Raw(format!("{s}\r\n")));
      if c.is_alphanumeric() || "_-.:".contains(c) {
        ops.push(Op::JoinAll(vec![format!("{c}a{c}"), format!("#{c}")]));
      }
    }
    local.trace();
    history(&ops.iter().collect::<Vec<_>>(), local)
  });
  let calls = run.pick(70_000u64, 300_000);
  let ops: Vec<Op> = history_ops().into_iter().chain([Op::privmsg(&"y".repeat(3000)), Op::Ping("é".repeat(600))]).collect();
  run.family("many calls", &format!("{calls} calls on one connection x 8 orders"), 8, |i, local| {
    local.trace();
    crate::net::run(async {
      let world = World::new(vec![Plan::new(vec![greeting(), In::Silence])]);
      let mut client = connected(&world).await?;
      let stride = [1, 3, 5, 7][i as usize / 2];
      for n in 0..calls {
        world.forget();
        local.alive();
        local.steps(1);
        // half of them the same call for a long time
        let k = if i % 2 == 0 { n * stride } else { (n >> 12) * stride };
        let op = &ops[(k % ops.len() as u64) as usize];
        let Call::Done(result) = drive(&world, op.perform(&mut client)).await else {
          return Err(format!("call {n} never ends"));
        };
        match (&result, op.want()) {
          (Err(SendError::InvalidMessage(_)), Want::Rejected) => {}
          (Ok(()), Want::Line(_) | Want::Raw(_)) => {}
          _ => return Err(format!("call {n}: {result:?}")),
        }
        op.check(&world.last().accepted).map_err(|e| mc_core::clip(&format!("call {n}: {e}"), 600))?;
      }
      Ok(())
    })
  });
}

/// The line of a call, as written when nothing goes wrong.
fn full_line(op: &Op) -> Result<Vec<u8>, String> {
  run(async {
    let world = World::new(vec![Plan::new(vec![greeting(), In::Silence])]);
    let mut client = connected(&world).await?;
    let from = world.last().accepted.len();
    let _ = drive(&world, op.perform(&mut client)).await;
    Ok(world.last().accepted[from..].to_vec())
  })
}

/// Perform calls on a connected client and judge each by what the transport did.
async fn delivery(world: &World, client: &mut Client, ops: &[(&Op, &[u8])], local: &mut Local) -> Verdict {
  for (op, line) in ops {
    let before = world.last();
    let result = drive(world, op.perform(client)).await;
    let seen = world.last();
    let written = &seen.accepted[before.accepted.len()..];
    let errors = &seen.write_errors[before.write_errors.len()..];
    local.state(&(written, errors.len(), matches!(result, Call::Cancelled)));
    if !line.starts_with(written) {
      return Err(format!(
        "{op:?}: wrote {:?}, which is no prefix of its line {:?}",
        String::from_utf8_lossy(written),
        String::from_utf8_lossy(line)
      ));
    }
    match result {
      Call::Hung => return Err(format!("{op:?} never ends")),
      Call::Cancelled => {}
      Call::Done(Ok(())) => {
        // only this kind asks to try again
        if errors.iter().any(|e| *e != ErrorKind::Interrupted) {
          return Err(format!("{op:?}: success in spite of {errors:?}"));
        }
        if written != *line {
          return Err(format!("{op:?}: success after {} of {} bytes", written.len(), line.len()));
        }
        if seen.flushed != seen.accepted.len() {
          return Err(format!("{op:?}: success with {} bytes unflushed", seen.accepted.len() - seen.flushed));
        }
      }
      Call::Done(Err(SendError::InvalidMessage(_))) if matches!(op.want(), Want::Rejected) => {}
      Call::Done(Err(SendError::Io(e))) => {
        if errors.last() != Some(&e.kind()) {
          return Err(format!("{op:?}: {e} instead of {errors:?}"));
        }
        if e.kind() != ErrorKind::WriteZero && !e.to_string().contains(MARK) {
          return Err(format!("{op:?}: the error of the transport became {e:?}"));
        }
      }
      Call::Done(Err(e)) => return Err(format!("{op:?}: failed with {e:?} after {errors:?}")),
    }
  }
  Ok(())
}

/// C16: success means that everything was delivered.
pub fn delivered(run_: &mut Run) {
  let ops = history_ops();
  let mut lines = vec![];
  for op in &ops {
    match full_line(op) {
      Ok(l) => {
        if let Err(e) = op.check(&l) {
          // C15 decides what a line looks like; here it only has to be known
          eprintln!("note: {e}");
        }
        lines.push(l)
      }
      Err(e) => mc_core::error(&e),
    }
  }
  let ops: Vec<(&Op, &[u8])> = ops.iter().zip(&lines).map(|(o, l)| (o, l.as_slice())).collect();
  let n = ops.len() as u64;
  let all = May { short_writes: true, pend_writes: true, fail_writes: true, cancel: true, ..May::default() };
  let bound = run_.pick(3, 4);
  let scenario = |seq: Vec<(&Op, &[u8])>, bound: usize, may: May, local: &mut Local| {
    dfs::explore(bound, local, |chooser, local| {
      run(async {
        let world = World::new(vec![Plan::new(vec![greeting(), In::Silence])]);
        let mut client = connected(&world).await?;
        world.decide(Some(chooser), may);
        delivery(&world, &mut client, &seq, local).await?;
        // later calls still work
        world.decide(None, May::default());
        delivery(&world, &mut client, &[ops[0], ops[1]], local).await
      })
    })
  };
  run_.family(
    "pairs of calls",
    &format!("all pairs of {n} calls, then two more; at most {} deviations (1, half or all but 1 byte accepted, pending, error, nothing accepted, flush pending, flush error, cancelled)", bound + 1),
    n * n,
    |i, local| scenario(vec![ops[(i / n) as usize], ops[(i % n) as usize]], bound + 1, all, local),
  );
  run_.family(
    "triples of calls",
    &format!("all triples of {n} calls, then two more; at most {bound} deviations"),
    n * n * n,
    |i, local| scenario(vec![ops[(i / n / n) as usize], ops[(i / n % n) as usize], ops[(i % n) as usize]], bound, all, local),
  );
  let short: Vec<usize> = (0..ops.len()).filter(|i| (1..=run_.pick(15, 18)).contains(&ops[*i].1.len())).collect();
  run_.family(
    "all partitions of a line",
    &format!("{} short lines, every way to accept them in pieces", short.len()),
    short.len() as u64,
    |i, local| {
      let may = May { split_writes: true, ..May::default() };
      scenario(vec![ops[short[i as usize]]], 0, may, local)
    },
  );
  // a failure, hang or cancellation after every number of bytes
  let space = Product(vec![n, 64, 5, n]);
  run_.family("interrupted at every byte", &format!("{n} calls x after 0..=63 bytes x 5 kinds of interruption x {n} following calls"), space.total(), |i, local| {
    let v = space.get(i);
    local.trace();
    local.steps(3);
    let out = match v[2] {
      0 => Out::FailAfter(v[1], BROKEN),
      1 => Out::FailAfter(v[1], ErrorKind::TimedOut),
      2 => Out::HangAfter(v[1]),
      3 => Out::FlushFails(ErrorKind::ConnectionAborted),
      _ => Out::FlushHangs,
    };
    run(async {
      let world = World::new(vec![Plan::new(vec![greeting(), In::Silence])]);
      let mut client = connected(&world).await?;
      world.set_out(out);
      let (op, line) = ops[v[0]];
      let interrupted = match out {
        Out::FailAfter(n, _) | Out::HangAfter(n) => n < line.len(),
        _ => !line.is_empty(),
      };
      if interrupted && matches!(out, Out::HangAfter(_) | Out::FlushHangs) {
        let before = world.last().accepted.len();
        let result = crate::net::cancel_at(0, op.perform(&mut client)).await;
        if !matches!(result, Call::Cancelled) {
          return Err(format!("{op:?}: {result:?} although the transport is not ready"));
        }
        let written = world.last().accepted[before..].to_vec();
        if !line.starts_with(&written) {
          return Err(format!("{op:?}: wrote {written:?}"));
        }
      } else {
        delivery(&world, &mut client, &[(op, line)], local).await?;
        if interrupted && world.last().write_errors.is_empty() {
          return Err(format!("{op:?}: the transport was not asked to write or flush everything"));
        }
      }
      world.set_out(Out::Accept);
      delivery(&world, &mut client, &[ops[v[3]], ops[0]], local).await
    })
  });
  // each kind of failure, once
  let kinds: Vec<ErrorKind> = crate::errors::KINDS.iter().copied().chain([ErrorKind::Interrupted]).collect();
  let space = Product(vec![n, kinds.len() as u64, 64]);
  run_.family("kinds of failures", &format!("{n} calls x {} kinds of errors, once, after 0..=62 bytes or by flushing, then three more calls", kinds.len()), space.total(), |i, local| {
    let v = space.get(i);
    let (op, line) = ops[v[0]];
    local.trace();
    local.steps(4);
    let kind = kinds[v[1]];
    let out = if v[2] == 63 { Out::FlushFailsOnce(kind) } else { Out::FailOnce(v[2], kind) };
    run(async {
      let world = World::new(vec![Plan::new(vec![greeting(), In::Silence])]);
      let mut client = connected(&world).await?;
      world.set_out(out);
      delivery(&world, &mut client, &[(op, line)], local).await?;
      world.set_out(Out::Accept);
      delivery(&world, &mut client, &[(op, line), ops[0], ops[v[1] % ops.len()]], local).await
    })
  });
  // whatever was received before
  let b = |s: &str| In::Bytes(s.as_bytes().to_vec());
  let received: Vec<Vec<In>> = vec![
    vec![In::Eof],
    vec![b("PING :a\r\n"), In::Eof],
    vec![b("PING :a\r\nhalf"), In::Eof],
    vec![b("\r\n\r\n"), In::Silence],
    vec![b(":tmi.twitch.tv RECONNECT\r\n"), In::Silence],
    vec![b(":tmi.twitch.tv NOTICE * :Login authentication failed\r\n"), In::Eof],
    vec![b("@msg-id=msg_banned :tmi.twitch.tv NOTICE #c :no\r\nhalf"), In::Silence],
    vec![In::Bytes(b"\xff\xfe\r\nX\r\n".to_vec()), In::Silence],
    vec![b("X\r\nhalf"), In::Err(ErrorKind::ConnectionReset), b("Y\r\n"), In::Eof],
    vec![In::Err(ErrorKind::UnexpectedEof), In::Silence],
    vec![In::Err(ErrorKind::TimedOut), In::Err(ErrorKind::ConnectionAborted), In::Eof],
    vec![In::Delay(MS * 10), b("ERROR :closing\r\n"), In::Delay(MS * 10), In::Eof],
  ];
  let outs = [Out::Accept, Out::FailOnce(3, BROKEN), Out::FailOnce(0, ErrorKind::WouldBlock), Out::FlushFailsOnce(ErrorKind::ConnectionReset)];
  let space = Product(vec![n, n, received.len() as u64, 4, outs.len() as u64]);
  run_.family("after receiving", &format!("{} things to receive x 0 to 3 receiving calls x all pairs of {n} calls x {} answers of the transport", received.len(), outs.len()), space.total(), |i, local| {
    let v = space.get(i);
    local.trace();
    local.steps(6);
    run(async {
      let world = World::new(vec![Plan::new([vec![greeting()], received[v[2]].clone()].concat())]);
      let mut client = connected(&world).await?;
      for _ in 0..v[3] {
        let _ = tokio::time::timeout(MS * 100, client.recv()).await;
      }
      if outs[v[4]] != Out::Accept {
        world.set_out(outs[v[4]]);
      }
      delivery(&world, &mut client, &[ops[v[0]], ops[v[1]]], local).await?;
      let _ = tokio::time::timeout(MS * 100, client.recv()).await;
      world.set_out(Out::Accept);
      delivery(&world, &mut client, &[ops[0], ops[1]], local).await
    })
  });
  let most = run_.pick(64, 1000);
  let space = Product(vec![n, 7, 4]);
  run_.family("interrupted many times", &format!("{n} calls, each interrupted {most} times in a row, with a good call after 1, 2, 4, 8.. of them x 7 kinds of interruption x 4 places"), space.total(), |i, local| {
    let v = space.get(i);
    local.trace();
    let (op, line) = ops[v[0]];
    let at = [0, 1, 10, line.len().saturating_sub(1)][v[2]];
    let out = match v[1] {
      0 => Out::FailAfter(at, BROKEN),
      1 => Out::FailAfter(at, ErrorKind::TimedOut),
      2 => Out::FailAfter(at, ErrorKind::ConnectionReset),
      3 => Out::FailAfter(at, ErrorKind::Other),
      4 => Out::HangAfter(at),
      5 => Out::FlushFails(ErrorKind::ConnectionAborted),
      _ => Out::FlushHangs,
    };
    run(async {
      let world = World::new(vec![Plan::new(vec![greeting(), In::Silence])]);
      let mut client = connected(&world).await?;
      for k in 1..=most {
        local.alive();
        local.steps(1);
        world.forget();
        world.set_out(out);
        if matches!(out, Out::HangAfter(_) | Out::FlushHangs) {
          let _ = crate::net::cancel_at(0, op.perform(&mut client)).await;
          let written = world.last().accepted;
          if !line.starts_with(&written) {
            return Err(format!("time {k}: {op:?}: wrote {:?}", String::from_utf8_lossy(&written)));
          }
        } else {
          delivery(&world, &mut client, &[(op, line)], local).await.map_err(|e| format!("time {k}: {e}"))?;
        }
        if k & (k - 1) == 0 || k == most {
          world.set_out(Out::Accept);
          delivery(&world, &mut client, &[ops[k % ops.len()], ops[0]], local).await.map_err(|e| format!("after {k} times: {e}"))?;
        }
      }
      Ok(())
    })
  });
}

/// C24: the same-message bypass.
pub fn bypass(run: &mut Run) {
  use tmi::client::write::SameMessageBypass;
  // all states which can be told apart, if there are not too many
  let limit = run.pick(1usize << 17, 1 << 21);
  run.family("reachable states", &format!("all states reachable by asking, or the first {limit} of them"), 1, |_, local| {
    let mut states = std::collections::HashMap::new();
    let mut at = SameMessageBypass::default();
    let mut parity = false;
    local.trace();
    while states.len() < limit {
      let name = format!("{at:?}");
      if let Some((seen, odd)) = states.insert(name.clone(), (at, parity)) {
        if seen != at || odd != parity {
          return Err(format!("after {} calls, the state is {name}, as after a number of calls of the other parity", states.len()));
        }
        break;
      }
      local.state(&name);
      local.steps(2);
      let mut copy = at;
      let (a, b) = (copy.get(), at.get());
      if a != b || copy != at {
        return Err(format!("a copy of {name} gives {a:?} and becomes {copy:?}, the original gives {b:?} and becomes {at:?}"));
      }
      if a.is_empty() == parity {
        return Err(format!("call {} gives {a:?}", states.len()));
      }
      parity = !parity;
    }
    local.sample(0, || format!("{} states", states.len()));
    Ok(())
  });
  // long histories
  let calls = (run.pick(1u64 << 32, 1 << 34)) + 1000;
  run.family("many calls", &format!("{calls} calls in a row"), 1, |_, local| {
    local.trace();
    let mut b = SameMessageBypass::default();
    for block in 0..=calls >> 24 {
      local.alive();
      for n in block << 24..calls.min((block + 1) << 24) {
        if std::hint::black_box(&mut b).get().is_empty() != (n % 2 == 0) {
          return Err(format!("call {n} is wrong"));
        }
      }
    }
    local.steps(calls);
    Ok(())
  });
  let depth = run.pick(8, 10);
  let total: u64 = (1..=depth).map(|k| 6u64.pow(k)).sum();
  let invisible = |c: char| c.is_whitespace() || matches!(c, '\u{2800}' | '\u{200b}'..='\u{200f}' | '\u{2060}'..='\u{2064}' | '\u{feff}' | '\u{ad}' | '\u{34f}' | '\u{115f}' | '\u{1160}' | '\u{3164}' | '\u{ffa0}' | '\u{e0000}'..='\u{e0fff}');
  run.family("asking and copying", &format!("all histories of at most {depth} of: asking or copying one of up to 3 copies"), total, |mut i, local| {
    local.trace();
    let mut len = 1;
    while i >= 6u64.pow(len) {
      i -= 6u64.pow(len);
      len += 1;
    }
    let mut copies: Vec<SameMessageBypass> = vec![SameMessageBypass::default()];
    let mut model = vec![0u32];
    let mut last: Vec<String> = vec!["same text".into()];
    let mut log = vec![];
    for step in 0..len {
      local.steps(1);
      let d = (i % 6) as usize;
      i /= 6;
      let at = d % 3 % copies.len();
      if d < 3 {
        let got = copies[at].get();
        log.push(format!("ask {at}: {got:?}"));
        let fail = |what: &str| Err(format!("{what} after {log:?}"));
        if model[at] % 2 == 0 {
          if !got.is_empty() {
            return fail("a suffix where there should be none");
          }
        } else {
          if got.is_empty() {
            return fail("no suffix");
          }
          if !got.starts_with(' ') || !got.chars().all(invisible) || got.contains(['\r', '\n']) {
            return fail("a visible suffix");
          }
          if got.trim_end_matches(' ').is_empty() {
            return fail("a suffix which is trimmed away");
          }
        }
        let text = format!("same text{got}");
        if step > 0 && model[at] > 0 && text == last[at] {
          return fail("two equal texts");
        }
        last[at] = text;
        model[at] += 1;
      } else {
        let copy = if d % 2 == 0 { copies[at] } else { #[allow(clippy::clone_on_copy)] copies[at].clone() };
        log.push(format!("copy {at}"));
        let (m, l) = (model[at], last[at].clone());
        if copies.len() < 3 {
          copies.push(copy);
          model.push(m);
          last.push(l);
        } else {
          let to = (at + 1) % 3;
          copies[to] = copy;
          model[to] = m;
          last[to] = l;
        }
      }
      local.state(&model.iter().map(|m| m % 2).collect::<Vec<_>>());
    }
    local.sample(i, || format!("{log:?}"));
    Ok(())
  });
}
