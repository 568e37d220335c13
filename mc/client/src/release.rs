//! C31: connections are released.

use crate::connect::{age, failing, old_plan, Attempt, CREDS, Creds, OLD, REPLIES, Reply};
use crate::net::{cancel_at, drive, run, Call, In, May, Open, Out, Plan, World, BROKEN, RESET};
use crate::ops::history_ops;
use crate::proto;
use crate::send::{bytes, greeting, LOGIN, TOKEN};
use mc_core::space::Product;
use mc_core::{dfs, Local, Run, Verdict};
use std::io::ErrorKind;
use std::time::Duration;
use tmi::client::Backoff;
use tmi::{Client, Credentials};

const MS: Duration = Duration::from_millis(1);

/// Whether only so many connections are left, at most soon after.
async fn held(world: &World, most: usize, when: &str) -> Verdict {
  if world.held() > most {
    for _ in 0..4 {
      tokio::task::yield_now().await;
    }
  }
  if world.held() > most {
    // closing may take its time
    tokio::time::sleep(Duration::from_secs(20)).await;
  }
  match world.held() {
    n if n > most => Err(format!("{n} connections are still open or being opened {when}")),
    _ => Ok(()),
  }
}

fn peak(world: &World, most: usize) -> Verdict {
  match world.peak() {
    n if n > most => Err(format!("there were {n} connections at the same time")),
    _ => Ok(()),
  }
}

/// After everything is over: no connection is open, none is opened, nothing is written any more.
async fn over(world: &World, when: &str) -> Verdict {
  held(world, 0, when).await?;
  let before: Vec<(bool, usize)> = world.seen().iter().map(|s| (s.opened, s.accepted.len())).collect();
  tokio::time::sleep(Duration::from_secs(300)).await;
  let after: Vec<(bool, usize)> = world.seen().iter().map(|s| (s.opened, s.accepted.len())).collect();
  if before != after {
    return Err(format!("connections were used {when}: before {before:?}, after {after:?}"));
  }
  Ok(())
}

fn backoff() -> Backoff {
  Backoff { max_tries: Some(3), initial_delay: MS * 5, delay_multiplier: 2, max_delay: MS * 20 }
}

fn connecting(creds: Creds, timeout: Duration) -> impl std::future::Future<Output = Result<Client, tmi::client::ConnectError>> {
  let mut b = Client::builder().timeout(timeout).backoff(backoff());
  if let Some(c) = creds.make() {
    b = b.credentials(c);
  }
  b.connect()
}

/// What becomes of a connected client.
async fn finish(world: &World, client: Client, way: usize) -> Verdict {
  let mut client = client;
  held(world, 1, "while there is one client").await?;
  match way {
    0 => {}
    1 => {
      // errors and the end of the stream do not close anything twice
      for _ in 0..5 {
        let _ = cancel_at(2, client.recv()).await;
      }
    }
    2 => {
      for op in history_ops().iter().take(4) {
        let _ = drive(world, op.perform(&mut client)).await;
      }
    }
    3 => {
      let _ = cancel_at(0, client.recv()).await;
      let moved = Box::new(client);
      held(world, 1, "after moving the client").await?;
      drop(moved);
      return over(world, "after dropping the client").await;
    }
    _ => {
      let _ = drive(world, client.reconnect()).await;
      held(world, 1, "after reconnecting").await?;
    }
  }
  drop(client);
  over(world, "after dropping the client").await
}

const WAYS: usize = 5;

/// A plan on which every step is pending at least once.
fn slow() -> Plan {
  Plan {
    open: Open::Late(MS),
    input: vec![In::Delay(MS), In::Bytes(b":tmi.twitch.tv CAP * A".to_vec()), In::Delay(MS), In::Bytes(b"CK :x\r\n:tmi".to_vec()), In::Delay(MS), In::Bytes(b".twitch.tv 001 x :y\r\n".to_vec()), In::Delay(MS), bytes(&["PING :x"]), In::Silence],
    out: Out::Accept,
  }
}

fn answers(replies: [Reply; 2]) -> Vec<In> {
  let mut input = vec![];
  for r in replies {
    match r {
      Reply::Line(l) => input.push(bytes(&[l])),
      Reply::NotUtf8 => input.push(In::Bytes(b":tmi.twitch.tv 001 \xff\r\n".to_vec())),
      Reply::Err(k) => input.push(In::Err(k)),
      Reply::Eof => {
        input.push(In::Eof);
        return input;
      }
      Reply::Silence => {
        input.push(In::Silence);
        return input;
      }
    }
  }
  input.extend([bytes(&["PING :rest"]), In::Eof]);
  input
}

/// The ways in which opening and sending go wrong.
fn trouble() -> Vec<Plan> {
  let mut plans = vec![];
  for k in [ErrorKind::ConnectionRefused, ErrorKind::TimedOut, ErrorKind::Interrupted, ErrorKind::Other, BROKEN, RESET] {
    for d in [0u32, 10, 1000, 29_000, 40_000] {
      plans.push(Plan::open(Open::Err(k, MS * d)));
    }
    for n in 0..150 {
      plans.push(Plan::out(vec![greeting(), In::Eof], Out::FailAfter(n, k)));
    }
    plans.push(Plan::out(vec![greeting(), In::Silence], Out::FlushFails(k)));
  }
  for n in 0..150 {
    plans.push(Plan::out(vec![greeting(), In::Silence], Out::HangAfter(n)));
  }
  plans.push(Plan::out(vec![greeting(), In::Silence], Out::FlushHangs));
  plans.push(Plan::open(Open::Hang));
  for d in [0u32, 10, 1000, 4999, 29_000, 40_000, 200_000] {
    plans.push(Plan { open: Open::Late(MS * d), input: vec![greeting(), In::Eof], out: Out::Accept });
    plans.push(Plan { open: Open::Late(MS * d), input: vec![In::Silence], out: Out::Accept });
  }
  plans
}

/// Connect once; whatever the result, nothing is left.
async fn once(world: &World, creds: Creds, timeout: Duration, cancel: Option<u32>, way: usize, local: &mut Local) -> Verdict {
  let call = connecting(creds, timeout);
  let result = match cancel {
    Some(n) => cancel_at(n, call).await,
    None => drive(world, call).await,
  };
  local.state(&(matches!(result, Call::Cancelled), matches!(result, Call::Done(Ok(_))), world.last().accepted.len(), way));
  match result {
    Call::Done(Ok(client)) => finish(world, client, way).await?,
    Call::Done(Err(e)) => {
      // while the error is around, too
      held(world, 0, "after connecting failed").await?;
      drop(e);
      over(world, "after connecting failed").await?;
    }
    Call::Cancelled => over(world, "after connecting was cancelled").await?,
    Call::Hung => return Err("connecting never ends".into()),
  }
  peak(world, 2)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
  Receive,
  ReceiveCancelled,
  Send(usize),
  SendFails(usize),
  SendCancelled(usize),
  FlushCancelled,
  Reconnect,
  ReconnectFails(Attempt),
  ReconnectCancelled(u32),
  /// replace the client by a new one
  Connect,
  /// try to, in vain
  ConnectFails(Attempt),
  ConnectCancelled(u32),
  Wait,
}
use Step::*;

const STEPS: &[Step] = &[
  Receive,
  Reconnect,
  ReconnectFails(Attempt::OpenErr),
  ReconnectFails(Attempt::PartialWriteErr),
  ReconnectFails(Attempt::WriteHang),
  ReconnectFails(Attempt::Nak),
  ReconnectFails(Attempt::Silence),
  ReconnectFails(Attempt::OpenHang),
  ReconnectCancelled(1),
  ReconnectCancelled(3),
  ReconnectCancelled(5),
  Connect,
  ConnectFails(Attempt::AuthFailed),
  ConnectFails(Attempt::FlushErr),
  ConnectCancelled(0),
  ConnectCancelled(2),
  ReceiveCancelled,
  Send(0),
  SendFails(4),
  SendCancelled(6),
  FlushCancelled,
  Wait,
];

/// One or two clients.
fn histories(steps: &[Step], clients: usize, local: &mut Local) -> Verdict {
  local.trace();
  run(async {
    let usual = Plan::new(vec![greeting(), bytes(&["NEW 1", ":x P"]), In::Delay(MS), bytes(&["NEW 2"]), In::Silence]);
    let world = World::new(vec![]);
    world.otherwise(usual.clone());
    let mut all = vec![];
    let timeout = MS * 3000;
    let connect = || connecting(Creds::Prefixed, timeout);
    for _ in 0..clients {
      match drive(&world, connect()).await {
        Call::Done(Ok(c)) => all.push(c),
        _ => return Err("does not connect".into()),
      }
    }
    let ops = history_ops();
    for (i, step) in steps.iter().enumerate() {
      local.steps(1);
      let which = i % clients;
      let client = &mut all[which];
      match *step {
        Receive => {
          let _ = cancel_at(3, client.recv()).await;
        }
        ReceiveCancelled => {
          let _ = cancel_at(0, client.recv()).await;
        }
        Send(n) => {
          let _ = cancel_at(3, ops[n].perform(client)).await;
        }
        SendFails(n) => {
          world.set_out(Out::FailAfter(3, BROKEN));
          let _ = cancel_at(3, ops[n].perform(client)).await;
          world.set_out(Out::Accept);
        }
        SendCancelled(n) => {
          world.set_out(Out::HangAfter(3));
          let _ = cancel_at(0, ops[n].perform(client)).await;
          world.set_out(Out::Accept);
        }
        FlushCancelled => {
          world.set_out(Out::FlushHangs);
          let _ = cancel_at(0, ops[1].perform(client)).await;
        }
        Reconnect => {
          let _ = drive(&world, client.reconnect()).await;
        }
        ReconnectFails(a) => {
          world.otherwise(a.plan());
          let _ = drive(&world, client.reconnect()).await;
        }
        ReconnectCancelled(n) => {
          world.otherwise(slow());
          let _ = cancel_at(n, client.reconnect()).await;
        }
        Connect => {
          // the old one lives until the new one is there
          if let Call::Done(Ok(new)) = drive(&world, connect()).await {
            held(&world, clients + 1, &format!("after step {i} connected")).await?;
            *client = new;
          }
        }
        ConnectFails(a) => {
          world.otherwise(a.plan());
          let r = drive(&world, connect()).await;
          held(&world, clients, &format!("after step {i} failed")).await?;
          drop(r);
        }
        ConnectCancelled(n) => {
          world.otherwise(slow());
          let _ = cancel_at(n, connect()).await;
        }
        Wait => tokio::time::sleep(MS * 10).await,
      }
      world.otherwise(usual.clone());
      held(&world, clients, &format!("after step {i}, with {clients} clients")).await?;
    }
    peak(&world, clients + 1)?;
    let attempts = world.seen().len();
    local.state(&(attempts, world.peak(), steps.last().map(|s| format!("{s:?}"))));
    // all the orders of dropping two clients
    if steps.len() % 2 == 0 {
      all.reverse();
    }
    while let Some(c) = all.pop() {
      drop(c);
      held(&world, all.len(), "after dropping a client").await?;
    }
    over(&world, "after dropping all clients").await?;
    if world.seen().len() != attempts {
      return Err("connected without being asked".into());
    }
    Ok(())
  })
  .map_err(|e: String| format!("{e}\n  steps: {steps:?}"))
}

/// Reconnect from a state of the old connection, and check after each call.
async fn reconnecting(world: &World, client: &mut Client, calls: usize, cancel: Option<u32>, local: &mut Local) -> Verdict {
  for call in 0..calls {
    let before = world.seen();
    let r = match cancel {
      Some(n) => cancel_at(n, client.reconnect()).await,
      None => drive(world, client.reconnect()).await,
    };
    local.steps(1);
    held(world, 1, &format!("after call {call} of reconnect")).await?;
    let now = world.seen();
    if matches!(r, Call::Done(Ok(()))) {
      // it is the newest one which is left
      if let Some(n) = now.iter().position(|s| s.held).filter(|n| n + 1 < now.len()) {
        return Err(format!("connection {n} of {} is still open after reconnecting", now.len()));
      }
      if !now.last().is_some_and(|s| s.held) {
        return Err("the new connection is closed".into());
      }
    }
    if matches!(r, Call::Hung) {
      return Err("reconnecting never ends".into());
    }
    local.state(&(before.len(), now.len(), now.iter().position(|s| s.held), world.peak()));
  }
  peak(world, 2)
}

async fn client(world: &World) -> Result<Client, String> {
  match drive(world, Client::builder().credentials(Credentials::new(LOGIN, TOKEN)).backoff(backoff()).connect()).await {
    Call::Done(Ok(c)) => Ok(c),
    _ => Err("does not connect".into()),
  }
}

pub fn run_check(check: &mut Run) {
  let n = REPLIES.len() as u64;
  let timeouts = [MS * 500, MS * 30_000];
  let creds = [Creds::Prefixed, Creds::Anon];
  let space = Product(vec![n, n, timeouts.len() as u64, creds.len() as u64, WAYS as u64]);
  check.family("answers", &format!("every pair of {n} replies x 2 timeouts x 2 credentials; a client which is connected is dropped in one of {WAYS} ways"), space.total(), |i, local| {
    let v = space.get(i);
    let replies = [REPLIES[v[0]], REPLIES[v[1]]];
    local.trace();
    local.steps(2);
    local.sample(i, || format!("{replies:?}"));
    run(async {
      let world = World::new(vec![Plan::new(answers(replies)), Plan::new(answers(replies))]);
      world.otherwise(Plan::open(Open::Err(RESET, MS)));
      once(&world, creds[v[3]], timeouts[v[2]], None, v[4], local).await
    })
    .map_err(|e: String| format!("{e}\n  replies: {replies:?}, timeout: {:?}, credentials: {:?}, way {}", timeouts[v[2]], creds[v[3]], v[4]))
  });
  let plans = trouble();
  let timeouts = [MS * 500, MS * 5000, MS * 30_000, MS * 100_000];
  let space = Product(vec![plans.len() as u64, timeouts.len() as u64, CREDS.len() as u64, WAYS as u64]);
  check.family("trouble while opening and sending", &format!("{} kinds of trouble (every number of bytes) x 4 timeouts x 7 credentials x {WAYS} ways to end", plans.len()), space.total(), |i, local| {
    let v = space.get(i);
    local.trace();
    local.steps(2);
    local.sample(i, || format!("{:?}", plans[v[0]]));
    run(async {
      let world = World::new(vec![plans[v[0]].clone(), plans[v[0]].clone()]);
      world.otherwise(Plan::new(vec![greeting(), In::Silence]));
      once(&world, CREDS[v[2]], timeouts[v[1]], None, v[3], local).await
    })
    .map_err(|e: String| format!("{e}\n  plan: {:?}, timeout: {:?}, credentials: {:?}, way {}", plans[v[0]], timeouts[v[1]], CREDS[v[2]], v[3]))
  });
  // connecting dropped whenever it is pending
  let mut slow_plans = vec![slow(), Plan::open(Open::Hang), Plan::new(vec![In::Silence]), Plan::out(vec![greeting()], Out::FlushHangs)];
  slow_plans.push(Plan { open: Open::Late(MS * 100), ..slow() });
  slow_plans.extend((0..110).map(|n| Plan::out(vec![greeting()], Out::HangAfter(n))));
  for a in FAILED {
    slow_plans.push(a.plan());
  }
  let space = Product(vec![slow_plans.len() as u64, 12, CREDS.len() as u64, WAYS as u64]);
  check.family("connecting which is dropped", &format!("{} plans x dropped when pending for the 1st to 12th time x 7 credentials x {WAYS} ways to end when it was not", slow_plans.len()), space.total(), |i, local| {
    let v = space.get(i);
    local.trace();
    local.steps(2);
    run(async {
      let world = World::new(vec![slow_plans[v[0]].clone(), slow_plans[v[0]].clone()]);
      world.otherwise(slow());
      once(&world, CREDS[v[2]], MS * 30_000, Some(v[1] as u32), v[3], local).await
    })
    .map_err(|e: String| format!("{e}\n  plan: {:?}, dropped at {}, credentials: {:?}, way {}", slow_plans[v[0]], v[1], CREDS[v[2]], v[3]))
  });
  let sequences = failing(check.pick(3, 4));
  let space = Product(vec![OLD as u64, sequences.len() as u64]);
  check.family("reconnecting", &format!("{OLD} states of the old connection x all sequences of failed attempts ({})", sequences.len()), space.total(), |i, local| {
    let v = space.get(i);
    local.trace();
    local.sample(i, || format!("state {}, {:?}", v[0], sequences[v[1]]));
    run(async {
      let mut plans = vec![old_plan(v[0])];
      plans.extend(sequences[v[1]].iter().map(|a| a.plan()));
      let world = World::new(plans);
      world.otherwise(slow());
      let mut c = client(&world).await?;
      age(v[0], &world, &mut c).await;
      reconnecting(&world, &mut c, 3, None, local).await?;
      drop(c);
      over(&world, "after dropping the client").await
    })
    .map_err(|e: String| format!("{e}\n  old connection in state {}, attempts {:?}", v[0], sequences[v[1]]))
  });
  let sequences = failing(check.pick(1, 2));
  let space = Product(vec![OLD as u64, sequences.len() as u64, 10, 3]);
  check.family("reconnects which are dropped", &format!("{OLD} states x {} attempts x dropped when pending for the 1st to 10th time, once to three times", sequences.len()), space.total(), |i, local| {
    let v = space.get(i);
    local.trace();
    run(async {
      let mut plans = vec![old_plan(v[0])];
      plans.extend(sequences[v[1]].iter().map(|a| a.plan()));
      let world = World::new(plans);
      world.otherwise(slow());
      let mut c = client(&world).await?;
      age(v[0], &world, &mut c).await;
      reconnecting(&world, &mut c, v[3] + 1, Some(v[2] as u32), local).await?;
      if v[2] % 2 == 0 {
        let _ = drive(&world, c.reconnect()).await;
        held(&world, 1, "after reconnecting").await?;
      }
      drop(c);
      over(&world, "after dropping the client").await
    })
    .map_err(|e: String| format!("{e}\n  old connection in state {}, attempts {:?}, dropped at {} {} times", v[0], sequences[v[1]], v[2], v[3] + 1))
  });
  let m = STEPS.len() as u64;
  for clients in [1usize, 2] {
    let depth = check.pick(4, 5);
    let total: u64 = (0..=depth).map(|k| m.pow(k)).sum();
    check.family(if clients == 1 { "histories" } else { "histories of two clients" }, &format!("all sequences of at most {depth} of {m} steps"), total, |mut i, local| {
      let mut len = 0;
      while i >= m.pow(len) {
        i -= m.pow(len);
        len += 1;
      }
      let steps: Vec<Step> = (0..len)
        .map(|_| {
          let s = STEPS[(i % m) as usize];
          i /= m;
          s
        })
        .collect();
      local.sample(i, || format!("{steps:?}"));
      histories(&steps, clients, local)
    });
  }
  let bound = check.pick(4, 5);
  let may = May { short_reads: true, pend_reads: true, fail_reads: true, short_writes: true, pend_writes: true, fail_writes: true, cancel: true, fail_open: true, ..May::default() };
  check.family("decisions of the transport", &format!("connecting, reconnecting or both; at most {bound} deviations in opening, reading, writing, flushing and cancelling"), 3, |i, local| {
    dfs::explore(bound, local, |chooser, local| {
      run(async {
        let plan = Plan::new(vec![bytes(&[proto::ACK]), bytes(&[proto::WELCOME, "PING :x"]), In::Silence]);
        let world = World::new(vec![]);
        world.otherwise(plan);
        if i != 1 {
          world.decide(Some(chooser), may);
        }
        let r = drive(&world, connecting(Creds::Prefixed, MS * 30_000)).await;
        world.decide(None, May::default());
        if let Call::Done(Ok(mut c)) = r {
          held(&world, 1, "after connecting").await?;
          if i != 0 {
            world.decide(Some(chooser), may);
            for call in 0..2 {
              let _ = drive(&world, c.reconnect()).await;
              held(&world, 1, &format!("after call {call} of reconnect")).await?;
            }
            world.decide(None, May::default());
          }
          drop(c);
        } else {
          held(&world, 0, "after connecting failed").await?;
        }
        local.state(&(world.seen().len(), world.peak()));
        peak(&world, 2)?;
        over(&world, "at the end").await
      })
    })
  });
}

const FAILED: [Attempt; 17] = [
  Attempt::OpenErr, Attempt::OpenErrLate, Attempt::WriteErr, Attempt::PartialWriteErr, Attempt::FlushErr, Attempt::OpenHang, Attempt::WriteHang, Attempt::Nak,
  Attempt::AuthFailed, Attempt::NoticeOther, Attempt::Unexpected, Attempt::Unparsable, Attempt::NotUtf8, Attempt::Closed, Attempt::ReadErr, Attempt::ReadErrLater, Attempt::Silence,
];
