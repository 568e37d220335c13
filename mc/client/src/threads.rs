//! C32: calls which move from thread to thread.

use crate::connect::{failing, Attempt, CREDS, Creds};
use crate::net::{run, In, May, Open, Out, Plan, World, FOREVER, RESET};
use crate::ops::{history_ops, Op};
use crate::proto;
use crate::send::{bytes, greeting};
use crate::sendable::{calls, sent, types};
use mc_core::dfs::{self, Chooser};
use mc_core::{Local, Run, Verdict};
use std::collections::HashMap;
use std::future::Future;
use std::sync::mpsc::{channel, Receiver, Sender};
use std::task::{Context, Poll};
use std::time::Duration;
use tmi::client::Backoff;
use tmi::Client;

const MS: Duration = Duration::from_millis(1);

type Job = Box<dyn FnOnce() + Send>;

/// What is only used by one thread at a time, while another one waits for it.
struct Passed<T>(T);
// SAFETY: only checked by running it; whether it really is `Send` is checked separately
unsafe impl<T> Send for Passed<T> {}

impl<T> Passed<T> {
  fn take(self) -> T {
    self.0
  }
}

struct Thread {
  jobs: Sender<Job>,
}

impl Thread {
  fn new(world: &World) -> Self {
    let (jobs, todo): (Sender<Job>, Receiver<Job>) = channel();
    let runtime = tokio::runtime::Handle::current();
    let world = world.clone();
    std::thread::spawn(move || {
      let _guard = runtime.enter();
      world.attach();
      drop(world);
      for job in todo {
        job();
      }
      World::detach();
    });
    Thread { jobs }
  }
}

/// Where things run: here, on one other thread, or on one which ends right after.
struct Threads<'a> {
  world: &'a World,
  other: Option<Thread>,
  here: bool,
  /// which decisions were about threads
  decided: Vec<usize>,
  chooser: Option<&'a Chooser>,
}

impl<'a> Threads<'a> {
  fn new(world: &'a World, chooser: Option<&'a Chooser>) -> Self {
    Threads { world, other: None, here: true, decided: vec![], chooser }
  }

  fn run<T>(&mut self, f: impl FnOnce() -> T) -> T {
    let fresh;
    let choice = match self.chooser {
      Some(c) => {
        self.decided.push(c.decisions());
        c.choose(3, "the same thread, the other one, a new one")
      }
      None => 0,
    };
    let thread = match choice {
      2 => {
        fresh = Thread::new(self.world);
        &fresh
      }
      n => {
        self.here ^= n == 1;
        if self.here {
          return f();
        }
        self.other.get_or_insert_with(|| Thread::new(self.world))
      }
    };
    let (done, result) = channel();
    let work = Passed(f);
    let job = move || {
      let r = mc_core::guarded(|| work.take()());
      let _ = done.send(Passed(r));
    };
    let job: Box<dyn FnOnce() + Send + '_> = Box::new(job);
    // SAFETY: it has ended, or was dropped, before this function returns
    let job: Job = unsafe { std::mem::transmute(job) };
    if thread.jobs.send(job).is_err() {
      mc_core::error("a thread has ended");
    }
    match result.recv() {
      Ok(Passed(Ok(v))) => v,
      Ok(Passed(Err(e))) => std::panic::resume_unwind(Box::new(Moved(e))),
      Err(_) => mc_core::error("a thread has failed"),
    }
  }

  /// Run a call to its end, or drop it when it is pending for the `n`th time.
  async fn call<F: Future>(&mut self, drop_at: Option<u32>, call: F) -> Option<F::Output> {
    let mut call = Some(Box::pin(call));
    let mut left = drop_at;
    let polling = std::future::poll_fn(|cx| {
      let waker = cx.waker().clone();
      let f = &mut call;
      let polled = self.run(move || {
        let mut cx = Context::from_waker(&waker);
        f.as_mut().map(|f| f.as_mut().poll(&mut cx))
      });
      match polled {
        Some(Poll::Ready(v)) => Poll::Ready(Some(v)),
        _ => match &mut left {
          Some(0) => Poll::Ready(None),
          Some(n) => {
            *n -= 1;
            Poll::Pending
          }
          None => Poll::Pending,
        },
      }
    });
    let r = tokio::time::timeout(FOREVER, polling).await.unwrap_or(None);
    self.run(|| drop(call.take()));
    r
  }
}

/// A panic on one of the threads.
struct Moved(String);

#[derive(Clone, Debug)]
enum Act {
  Receive,
  Send(usize),
  SendDropped(usize),
  Reconnect,
  ReconnectDropped(u32),
  Move,
}

struct Script {
  creds: Creds,
  plans: Vec<Plan>,
  /// connect again when connecting was dropped at this point
  connect_dropped: Option<u32>,
  acts: Vec<Act>,
}

fn backoff() -> Backoff {
  Backoff { max_tries: Some(4), initial_delay: MS * 5, delay_multiplier: 2, max_delay: MS * 15 }
}

/// Anonymous names are random.
fn masked(bytes: &[u8]) -> String {
  let text = String::from_utf8_lossy(bytes);
  let mut out = String::new();
  let mut rest = &text[..];
  while let Some(at) = rest.find("justinfan") {
    let (before, after) = rest.split_at(at + 9);
    out.push_str(before);
    rest = after.trim_start_matches(|c: char| c.is_ascii_digit());
    out.push('_');
  }
  out + rest
}

/// The results of all calls, and what the servers have seen.
async fn trace(script: &Script, world: &World, threads: &mut Threads<'_>, ops: &[Op]) -> Vec<String> {
  let mut log = vec![];
  let connecting = || {
    let mut b = Client::builder().timeout(MS * 3000).backoff(backoff());
    if let Some(c) = script.creds.make() {
      b = b.credentials(c);
    }
    b
  };
  if script.connect_dropped.is_some() {
    let call = threads.run(|| connecting().connect());
    let r = threads.call(script.connect_dropped, call).await;
    log.push(format!("connecting: {:?}", r.map(|r| r.map(drop))));
  }
  let call = threads.run(|| connecting().connect());
  let mut client = match threads.call(None, call).await {
    Some(Ok(c)) => Some(c),
    r => {
      log.push(format!("connecting: {:?}", r.map(|r| r.map(drop))));
      None
    }
  };
  if let Some(client) = &mut client {
    log.push(masked(format!("{:?}", threads.run(|| client.config().clone())).as_bytes()));
    for act in &script.acts {
      let r = match *act {
        Act::Receive => format!("{:?}", threads.call(Some(6), client.recv()).await),
        Act::Send(n) => format!("{:?}", threads.call(None, ops[n].perform(client)).await),
        Act::SendDropped(n) => {
          world.set_out(Out::HangAfter(5));
          let r = format!("{:?}", threads.call(Some(0), ops[n].perform(client)).await);
          world.set_out(Out::Accept);
          r
        }
        Act::Reconnect => format!("{:?}", threads.call(None, client.reconnect()).await),
        Act::ReconnectDropped(n) => format!("{:?}", threads.call(Some(n), client.reconnect()).await),
        Act::Move => {
          threads.run(|| ());
          String::new()
        }
      };
      log.push(format!("{act:?}: {r}"));
    }
  }
  threads.run(move || drop(client));
  for s in world.seen() {
    let sent = masked(&s.accepted);
    log.push(format!("at {:?}: opened {}, delivered {}, sent {sent:?}, flushed {}, left {}", s.at, s.opened, s.delivered, s.flushed == s.accepted.len(), s.held));
  }
  log
}

fn compare(script: &Script, ops: &[Op], bound: usize, may: May, local: &mut Local) -> Verdict {
  let perform = |environment: &Chooser, moved: bool| {
    let ran = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
      run(async {
        let world = World::new(script.plans.clone());
        world.otherwise(Plan::new(vec![greeting(), In::Delay(MS), bytes(&["NEW 1", ":x"]), In::Silence]));
        world.decide(Some(environment), may);
        let mut threads = Threads::new(&world, moved.then_some(environment));
        let log = trace(script, &world, &mut threads, ops).await;
        (log, threads.decided)
      })
    }));
    match ran {
      Ok(r) => Ok(r),
      Err(p) => match p.downcast::<Moved>() {
        Ok(m) => Err(m.0),
        Err(p) => std::panic::resume_unwind(p),
      },
    }
  };
  let mut wanted: HashMap<Vec<u32>, Vec<String>> = HashMap::new();
  dfs::explore(bound, local, |chooser, local| {
    let (got, decided) = perform(chooser, true)?;
    local.state(&(&got, chooser.decisions()));
    let same = chooser.without(&decided);
    let key = same.planned();
    if !wanted.contains_key(&key) {
      wanted.insert(key.clone(), perform(&same, false)?.0);
    }
    let want = &wanted[&key];
    for (n, (g, w)) in got.iter().zip(want).enumerate() {
      if g != w {
        return Err(format!("on several threads, {n}: {g}\n  on one thread: {w}"));
      }
    }
    match got.len() == want.len() {
      true => Ok(()),
      false => Err(format!("{} results instead of {}: {got:?}", got.len(), want.len())),
    }
  })
  .map_err(|e| format!("{e}\n  credentials {:?}, plans {:?}, calls {:?}", script.creds, script.plans, script.acts))
}

/// A plan on which every step is pending at least once.
fn slow() -> Plan {
  Plan {
    open: Open::Late(MS),
    input: vec![In::Delay(MS), In::Bytes(b":tmi.twitch.tv CAP * A".to_vec()), In::Delay(MS), In::Bytes(b"CK :x\r\n".to_vec()), In::Delay(MS), bytes(&[proto::WELCOME]), In::Delay(MS), bytes(&["PING :1", "L 2"]), In::Delay(MS), In::Bytes(b"L ".to_vec()), In::Delay(MS), bytes(&["3", "L 4"]), In::Err(RESET), In::Delay(MS), In::Bytes(b"L \xff\r\nL 5".to_vec()), In::Eof],
    out: Out::Accept,
  }
}

pub fn run_check(check: &mut Run) {
  check.family("types and calls", "everything public, and the futures of all calls", 2, |i, local| {
    if i == 0 {
      return sent(types(), local);
    }
    run(async {
      let world = World::new(vec![Plan::new(vec![greeting(), In::Silence])]);
      let c = Client::builder().connect().await;
      drop(world);
      match c {
        Ok(mut c) => sent(calls(&mut c).await, local),
        Err(e) => Err(format!("{e}")),
      }
    })
  });
  let ops = history_ops();
  let ops = &ops[..];
  let none = May::default();
  let pending = May { pend_reads: true, pend_writes: true, short_reads: true, short_writes: true, ..none };
  let acts = vec![Act::Receive, Act::Receive];
  let mut scripts = vec![];
  for creds in CREDS {
    for dropped in (0..6).map(Some).chain([None]) {
      scripts.push(Script { creds: *creds, plans: vec![slow(), slow()], connect_dropped: dropped, acts: acts.clone() });
    }
    for attempt in failing(1).into_iter().flatten() {
      scripts.push(Script { creds: *creds, plans: vec![attempt.plan()], connect_dropped: None, acts: vec![] });
    }
  }
  let bound = check.pick(2, 3);
  let writes = May { pend_writes: true, ..none };
  check.family("connecting", &format!("{} scripts of connecting, fast, slow, failing or dropped; at most {bound} deviations in threads, and in when it is written", scripts.len()), scripts.len() as u64, |i, local| {
    compare(&scripts[i as usize], ops, bound, writes, local)
  });
  let fast = || Plan::new(vec![greeting(), In::Delay(MS), bytes(&["PING :1", "L 2"]), In::Delay(MS), In::Bytes(b"L ".to_vec()), In::Delay(MS), bytes(&["3"]), In::Silence]);
  let mut scripts = vec![];
  let n = ops.len();
  let kinds = |m: usize| [Act::Send(m), Act::SendDropped(m)];
  for a in (0..n).flat_map(kinds) {
    for b in (0..n).flat_map(kinds) {
      scripts.push(Script { creds: Creds::Prefixed, plans: vec![fast()], connect_dropped: None, acts: vec![a.clone(), b.clone(), Act::Receive, Act::Send(1)] });
    }
  }
  let bound = check.pick(2, 3);
  check.family("sending", &format!("all pairs of {n} calls, dropped or not, then receiving and one more; at most {bound} deviations in threads, and in when and how much is read and written", ), scripts.len() as u64, |i, local| {
    compare(&scripts[i as usize], ops, bound, pending, local)
  });
  let long = [400, 700, 1100, 2100, 4100, 8300, 17_000];
  let lines: Vec<Op> = long.iter().map(|n| Op::privmsg(&(0..*n).map(|n| char::from(b'a' + (n % 23) as u8)).collect::<String>())).collect();
  let writes = May { pend_writes: true, short_writes: true, ..none };
  let bound = check.pick(3, 4);
  check.family("sending long lines", &format!("lines of {long:?} bytes; at most {bound} deviations in threads, and in when and how much is written"), long.len() as u64, |i, local| {
    let script = Script { creds: Creds::Prefixed, plans: vec![fast()], connect_dropped: None, acts: vec![Act::Send(i as usize), Act::Send(0)] };
    compare(&script, &lines, bound, writes, local)
  });
  let mut scripts = vec![];
  for first in 0..=6 {
    let receive = |n: usize| std::iter::repeat(Act::Receive).take(n);
    let acts: Vec<Act> = receive(first).chain([Act::Send(first % n), Act::Move]).chain(receive(7 - first)).collect();
    scripts.push(Script { creds: Creds::Prefixed, plans: vec![slow()], connect_dropped: None, acts: acts.clone() });
    scripts.push(Script { creds: Creds::Prefixed, plans: vec![fast()], connect_dropped: None, acts });
  }
  let bound = check.pick(2, 3);
  check.family("receiving", &format!("{} histories; at most {bound} deviations in threads, and in when and how much is read and written", scripts.len()), scripts.len() as u64, |i, local| {
    compare(&scripts[i as usize], ops, bound, pending, local)
  });
  let mut scripts = vec![];
  for attempts in failing(2) {
    let mut plans = vec![fast()];
    plans.extend(attempts.iter().map(|a: &Attempt| a.plan()));
    plans.push(slow());
    let dropped: &[Option<u32>] = match attempts.len() {
      2 if !check.thorough() => &[None],
      _ => &[None, Some(0), Some(2), Some(5)],
    };
    for dropped in dropped.iter().copied() {
      let first = match dropped {
        Some(n) => Act::ReconnectDropped(n),
        None => Act::Reconnect,
      };
      scripts.push(Script { creds: Creds::Prefixed, plans: plans.clone(), connect_dropped: None, acts: vec![Act::Receive, first, Act::Receive, Act::Send(0), Act::Reconnect, Act::Receive] });
    }
  }
  let bound = check.pick(2, 3);
  check.family("reconnecting", &format!("{} scripts of up to two failed attempts and of reconnects which are dropped; at most {bound} changes of the thread", scripts.len()), scripts.len() as u64, |i, local| {
    compare(&scripts[i as usize], ops, bound, none, local)
  });
}
