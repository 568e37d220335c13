//! C26: sending and receiving on one connection.

use crate::net::{cancel_at, drive, run, Call, In, May, Out, Plan, World, BROKEN, MARK, RESET};
use crate::recv::{expected, got, Got};
use crate::ops::{history_ops, Op};
use crate::send::{connected, greeting};
use mc_core::{dfs, Local, Run, Verdict};
use std::io::ErrorKind;
use std::time::Duration;
use tmi::client::write::SendError;
use tmi::Client;

const MS: Duration = Duration::from_millis(1);

#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
  Receive,
  ReceiveCancelled,
  Wait,
  Send(usize),
  SendFails(usize, usize),
  SendCancelled(usize, usize),
  FlushFails(usize),
  FlushCancelled(usize),
}
use Step::*;

/// Numbers are those of calls in `history_ops`.
const STEPS: &[Step] = &[
  Receive,
  Send(0),
  ReceiveCancelled,
  SendCancelled(4, 9),
  SendFails(1, 3),
  Wait,
  Send(6),
  Send(3),
  FlushCancelled(0),
  FlushFails(7),
  SendCancelled(5, 0),
];

/// What the server sends, with the results of receiving it.
fn servers(unit: Duration) -> Vec<(Vec<In>, Vec<Got>)> {
  let wait = || In::Delay(unit * 5);
  let b = |s: &str| In::Bytes(s.as_bytes().to_vec());
  let m = |s: &str| Got::Message(s.into());
  let long = "x".repeat(9000);
  vec![
    (
      vec![b("PING :1\r\n"), wait(), b(":a P"), wait(), b(" :2\r\nL 3\nL "), In::Err(RESET), b("4\r\n"), wait(), b("rest"), In::Eof],
      vec![m("PING :1"), m(":a P :2"), m("L 3"), Got::Io(RESET), m("L 4"), m("rest"), Got::Closed],
    ),
    (
      vec![In::Err(BROKEN), b("PING :1\r\n\r\nL 2\r\n"), wait(), In::Bytes(b"L \xff\r\nL 3\r".to_vec()), wait(), b("\nPONG"), In::Eof],
      vec![Got::Io(BROKEN), m("PING :1"), Got::Unparsable("".into()), m("L 2"), Got::NotUtf8, m("L 3"), m("PONG"), Got::Closed],
    ),
    (
      vec![b("RECONNECT\r\n"), b("L "), wait(), b(&long), In::Err(ErrorKind::TimedOut), wait(), b(&long), b("\r\nL 3\r\n"), In::Eof],
      vec![m("RECONNECT"), Got::Io(ErrorKind::TimedOut), m(&format!("L {long}{long}")), m("L 3"), Got::Closed],
    ),
    (vec![In::Eof], vec![Got::Closed]),
  ]
}

struct History<'a> {
  world: &'a World,
  client: Client,
  ops: &'a [Op],
  want: Vec<Got>,
  received: usize,
  /// The server's delays are 5 of it, the client's 6.
  unit: Duration,
  log: Vec<String>,
}

impl History<'_> {
  /// Whether `g` is what has to be received next.
  fn receive(&mut self, g: Got) -> Verdict {
    let want = self.want.get(self.received).or(self.want.last()).cloned();
    self.received += 1;
    if want.as_ref() != Some(&g) {
      return Err(format!("received {}, expected {}", short(&g), want.as_ref().map(short).unwrap_or_default()));
    }
    Ok(())
  }

  fn sent(&mut self, n: usize, before: usize, result: &Call<Result<(), SendError>>, fails: Option<ErrorKind>) -> Verdict {
    let op = &self.ops[n];
    let seen = self.world.last();
    let written = &seen.accepted[before..];
    match (result, fails) {
      (Call::Hung, _) => Err(format!("{op:?} never ends")),
      (Call::Cancelled, _) => Ok(()),
      (Call::Done(Ok(())), None) if seen.flushed != seen.accepted.len() => Err(format!("{op:?}: success with unflushed bytes")),
      (Call::Done(Ok(())), None) => op.check(written),
      (Call::Done(Err(SendError::InvalidMessage(_))), None) => op.check(written),
      (Call::Done(Err(SendError::Io(e))), Some(k)) if e.kind() == k && e.to_string().contains(MARK) => Ok(()),
      (r, f) => Err(format!("{op:?}: {r:?}, the transport's error is {f:?}")),
    }
  }

  async fn step(&mut self, step: Step) -> Verdict {
    let before = self.world.last();
    let from = before.accepted.len();
    let world = self.world;
    match step {
      Receive => match drive(world, self.client.recv()).await {
        Call::Done(r) => self.receive(got(r)?)?,
        Call::Cancelled => {}
        Call::Hung => return Err("receiving never ends".into()),
      },
      ReceiveCancelled => match cancel_at(0, self.client.recv()).await {
        Call::Done(r) => self.receive(got(r)?)?,
        Call::Cancelled => {}
        Call::Hung => return Err("receiving never ends".into()),
      },
      Wait => tokio::time::sleep(self.unit * 6).await,
      Send(n) => {
        let r = drive(world, self.ops[n].perform(&mut self.client)).await;
        let error = world.last().write_errors.get(before.write_errors.len()).copied();
        if error == Some(ErrorKind::WriteZero) {
          // accepting nothing is an error of its own
          return match r {
            Call::Done(Err(SendError::Io(e))) if e.kind() == ErrorKind::WriteZero => Ok(()),
            r => Err(format!("{r:?}, although the transport accepts nothing")),
          };
        }
        self.sent(n, from, &r, error)?;
      }
      SendFails(n, at) => {
        world.set_out(Out::FailAfter(at, BROKEN));
        let r = drive(world, self.ops[n].perform(&mut self.client)).await;
        world.set_out(Out::Accept);
        self.sent(n, from, &r, Some(BROKEN))?;
      }
      SendCancelled(n, at) => {
        world.set_out(Out::HangAfter(at));
        let r = cancel_at(0, self.ops[n].perform(&mut self.client)).await;
        world.set_out(Out::Accept);
        if !matches!(r, Call::Cancelled) {
          return Err(format!("{:?}: {r:?} although the transport is not ready", self.ops[n]));
        }
      }
      FlushFails(n) => {
        world.set_out(Out::FlushFails(RESET));
        let r = drive(world, self.ops[n].perform(&mut self.client)).await;
        world.set_out(Out::Accept);
        self.sent(n, from, &r, Some(RESET))?;
      }
      FlushCancelled(n) => {
        world.set_out(Out::FlushHangs);
        let r = cancel_at(0, self.ops[n].perform(&mut self.client)).await;
        world.set_out(Out::Accept);
        if !matches!(r, Call::Cancelled) {
          return Err(format!("{:?}: {r:?} although the transport is not ready", self.ops[n]));
        }
      }
    }
    let written = world.last().accepted.len() - from;
    if matches!(step, Receive | ReceiveCancelled | Wait) && written > 0 {
      let bytes = world.last().accepted[from..].to_vec();
      return Err(format!("receiving wrote {:?}", String::from_utf8_lossy(&bytes)));
    }
    Ok(())
  }

  async fn run(mut self, steps: &[Step], local: &mut Local) -> Verdict {
    for step in steps {
      local.steps(1);
      let before = self.received;
      self.step(*step).await.map_err(|e| format!("{e}, in {step:?} after {:?}", self.log))?;
      self.log.push(format!("{step:?}{}", if self.received > before { " (received)" } else { "" }));
      local.state(&(self.received, self.world.last().accepted.len(), self.world.last().delivered));
    }
    self.world.decide(None, May::default());
    // everything else can still be received, and calls still work
    while self.received < self.want.len() + 1 {
      local.steps(2);
      for step in [Receive, Send(self.received % 2)] {
        self.step(step).await.map_err(|e| format!("{e}, afterwards; {:?}", self.log))?;
      }
    }
    Ok(())
  }
}

fn short(g: &Got) -> String {
  let text = format!("{g:?}");
  if text.len() > 200 {
    return format!("{}… ({} bytes)", text.chars().take(60).collect::<String>(), text.len());
  }
  text
}

pub fn run_check(check: &mut Run) {
  let servers = servers(MS);
  let ops = history_ops();
  // the reference's own consistency: the results are those of the plain stream
  for (input, want) in &servers {
    let stream: Vec<u8> = input.iter().flat_map(|i| if let In::Bytes(b) = i { b.clone() } else { vec![] }).collect();
    let mut plain = expected(&stream);
    plain.push(Got::Closed);
    if plain != want.iter().filter(|g| !matches!(g, Got::Io(_))).cloned().collect::<Vec<_>>() {
      mc_core::error("the expected results are inconsistent");
    }
  }
  let depth = check.pick(5, 6);
  let n = STEPS.len() as u64;
  let per: u64 = (0..=depth).map(|k| n.pow(k as u32)).sum();
  check.family(
    "interleavings",
    &format!("all sequences of at most {depth} of {n} steps (receiving, sending, waiting; completed, cancelled, failing) x {} servers", servers.len()),
    per * servers.len() as u64,
    |i, local| {
      let (input, want) = &servers[(i / per) as usize];
      let mut k = i % per;
      let mut len = 0;
      while k >= n.pow(len) {
        k -= n.pow(len);
        len += 1;
      }
      let steps: Vec<Step> = (0..len)
        .map(|_| {
          let s = STEPS[(k % n) as usize];
          k /= n;
          s
        })
        .collect();
      local.trace();
      local.sample(i, || format!("{steps:?}"));
      run(async {
        let world = World::new(vec![Plan::new([vec![greeting()], input.clone()].concat())]);
        let client = connected(&world).await?;
        let h = History { world: &world, client, ops: &ops, want: want.clone(), received: 0, unit: MS, log: vec![] };
        h.run(&steps, local).await
      })
    },
  );
  // the same with long silences
  let units = [1u64, 7, 11, 61, 601, 3601, 86_400 * 30];
  let depth = check.pick(3, 4);
  let few: u64 = (0..=depth).map(|k| n.pow(k as u32)).sum();
  let space = mc_core::space::Product(vec![few, servers.len() as u64, units.len() as u64]);
  check.family(
    "long silences",
    &format!("all sequences of at most {depth} of {n} steps x {} servers, with delays and waiting of {units:?} times 5 and 6 s", servers.len()),
    space.total(),
    |i, local| {
      let v = space.get(i);
      let unit = Duration::from_secs(units[v[2]]);
      let (input, want) = self::servers(unit).swap_remove(v[1]);
      let steps: Vec<Step> = mc_core::space::sequence(v[0] as u64, n).into_iter().map(|k| STEPS[k]).collect();
      local.trace();
      run(async {
        let world = World::new(vec![Plan::new([vec![greeting()], input].concat())]);
        let client = connected(&world).await?;
        let h = History { world: &world, client, ops: &ops, want, received: 0, unit, log: vec![] };
        h.run(&steps, local).await
      })
      .map_err(|e| format!("{e} (with delays of 5 x {unit:?})"))
    },
  );
  // the transport decides in both directions
  let bound = check.pick(2, 3);
  let plain = [Receive, Send(0), Send(4), Receive, Send(6)];
  let p = plain.len() as u64;
  let may = May { short_reads: true, pend_reads: true, short_writes: true, pend_writes: true, fail_writes: true, cancel: true, ..May::default() };
  let few = &servers[..2];
  check.family(
    "decisions in both directions",
    &format!("all sequences of 4 of {p} steps x {} servers; at most {bound} deviations in reading, writing, flushing and cancelling", few.len()),
    p.pow(4) * few.len() as u64,
    |i, local| {
      let (input, want) = &few[(i / p.pow(4)) as usize];
      let mut k = i % p.pow(4);
      let steps: Vec<Step> = (0..4)
        .map(|_| {
          let s = plain[(k % p) as usize];
          k /= p;
          s
        })
        .collect();
      dfs::explore(bound, local, |chooser, local| {
        run(async {
          let world = World::new(vec![Plan::new([vec![greeting()], input.clone()].concat())]);
          let client = connected(&world).await?;
          world.decide(Some(chooser), may);
          let h = History { world: &world, client, ops: &ops, want: want.clone(), received: 0, unit: MS, log: vec![] };
          h.run(&steps, local).await
        })
      })
    },
  );
  // long histories
  let rounds = check.pick(70_000u64, 300_000);
  check.family("long histories", &format!("{rounds} lines received and calls made on one connection x 4 orders"), 4, |i, local| {
    local.trace();
    run(async {
      let world = World::new(vec![Plan::new(vec![greeting(), In::Silence])]);
      let mut client = connected(&world).await?;
      world.forget();
      let mut sent = 0u64;
      for n in 0..rounds {
        if i != 1 || n % 3 == 0 {
          let line = format!("L {n}");
          world.push([In::Bytes(format!("{line}\r\n").into_bytes())]);
          local.steps(1);
          match drive(&world, client.recv()).await {
            Call::Done(Ok(m)) if m.raw() == line => {}
            other => return Err(format!("instead of line {n} received {other:?}")),
          }
        }
        if i != 2 || n % 3 == 0 {
          let op = &ops[(n % if i == 3 { 1 } else { 11 }) as usize];
          local.steps(1);
          let r = drive(&world, op.perform(&mut client)).await;
          let seen = world.last();
          match r {
            Call::Done(Ok(()) | Err(SendError::InvalidMessage(_))) => op.check(&seen.accepted).map_err(|e| format!("call {sent}: {e}"))?,
            other => return Err(format!("call {sent}: {other:?}")),
          }
          if seen.flushed != seen.accepted.len() {
            return Err(format!("call {sent}: unflushed bytes"));
          }
          world.forget();
          sent += 1;
        }
      }
      local.state(&(i, sent));
      Ok(())
    })
  });
}
