//! C25: the configuration is used as it was given.

use crate::connect::{DEFAULT_BACKOFF, DEFAULT_TIMEOUT, attempted, backoff_call, ended, reconnect, Attempt, End};
use crate::net::{drive, run, Call, In, Open, Out, Plan, World};
use crate::proto;
use crate::send::greeting;
use mc_core::space::{Product, Strings};
use mc_core::{Local, Run, Verdict};
use std::time::Duration;
use tmi::client::{Backoff, Config};
use tmi::{Client, Credentials};
use Attempt as A;

const MS: Duration = Duration::from_millis(1);

#[derive(Clone, Copy, Debug, PartialEq)]
enum Set {
  Credentials(usize),
  Timeout(u64),
  Backoff(usize),
}

const LOGINS: &[(&str, Option<&str>)] = &[
  ("some_login", Some("oauth:zq7x9kvw3j")),
  ("Some_Login", Some("zq7x9kvw3j")),
  ("other", None),
  ("", Some("")),
  ("x y", Some("oauth:oauth:a b:c")),
];

/// Made in all ways.
fn credentials(n: usize) -> Credentials {
  let (login, token) = LOGINS[n];
  match token {
    Some(t) if n % 2 == 0 => Credentials::new(login, t),
    Some(t) => Credentials { login: login.into(), token: Some(t.into()) },
    None => Credentials { login: login.into(), token: None },
  }
}

fn backoffs(n: usize) -> Backoff {
  let b = |max_tries, initial: u64, delay_multiplier, max: u64| Backoff { max_tries, initial_delay: MS * initial as u32, delay_multiplier, max_delay: MS * max as u32 };
  match n {
    0 => b(Some(3), 10, 2, 30),
    1 => b(None, 0, 1, 0),
    _ => b(Some(1), 70_000, 5, 5),
  }
}

const SETS: &[Set] = &[
  Set::Credentials(0),
  Set::Timeout(3000),
  Set::Backoff(0),
  Set::Credentials(2),
  Set::Timeout(90_000),
  Set::Backoff(1),
  Set::Credentials(1),
  Set::Timeout(7),
  Set::Backoff(2),
  Set::Credentials(3),
  Set::Credentials(4),
];

#[derive(Clone, Debug)]
struct Given {
  /// `None`: anonymous
  credentials: Option<usize>,
  timeout: Duration,
  backoff: Backoff,
}

fn same_backoff(a: &Backoff, b: &Backoff) -> bool {
  (a.max_tries, a.initial_delay, a.delay_multiplier, a.max_delay) == (b.max_tries, b.initial_delay, b.delay_multiplier, b.max_delay)
}

fn anonymous(login: &str) -> bool {
  login.strip_prefix("justinfan").is_some_and(|d| !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit()))
}

impl Given {
  /// What a client tells; returns its login.
  fn check(&self, config: &Config, c: &Credentials) -> Result<String, String> {
    let fail = |what: &str| Err(format!("{what} is not as given: {config:?}, {c:?}"));
    if config.timeout != self.timeout {
      return fail("the timeout");
    }
    if !same_backoff(&config.backoff, &self.backoff) {
      return fail("the backoff");
    }
    for c in [&config.credentials, c] {
      let ok = match self.credentials {
        Some(n) => {
          let (login, token) = LOGINS[n];
          c.login == login && c.token.as_deref() == token && c.is_anon() == token.is_none()
        }
        None => anonymous(&c.login) && c.token.is_none() && c.is_anon(),
      };
      if !ok || c.login() != c.login || c.token() != c.token.as_deref() {
        return fail("the login or token");
      }
    }
    if config.credentials.login != c.login {
      return fail("one of the logins");
    }
    Ok(c.login.clone())
  }

  fn token(&self) -> Option<&'static str> {
    self.credentials.and_then(|n| LOGINS[n].1)
  }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Then {
  /// the connection is never opened
  Hang,
  /// nothing is accepted by the server
  WriteHang,
  /// these attempts to reconnect, one after another
  Reconnect(&'static [&'static [Attempt]]),
}

const THENS: &[Then] = &[
  Then::Reconnect(&[&[A::Success]]),
  Then::Hang,
  Then::Reconnect(&[&[A::OpenErr, A::WriteErr, A::FlushErr, A::OpenErr, A::OpenErr, A::OpenErr, A::OpenErr, A::OpenErr, A::OpenErr, A::OpenErr, A::OpenErr, A::Success], &[A::Success]]),
  Then::WriteHang,
  Then::Reconnect(&[&[A::AuthFailed], &[A::OpenErr, A::Success], &[A::Success]]),
  Then::Reconnect(&[&[A::OpenHang], &[A::Success]]),
  Then::Reconnect(&[&[A::Closed], &[A::Nak], &[A::PartialWriteErr, A::Success]]),
];

/// `how`: with a builder, or without one if nothing is set.
fn execute(sets: &[Set], how: u64, then: Then, local: &mut Local) -> Verdict {
  let mut given = Given { credentials: None, timeout: DEFAULT_TIMEOUT, backoff: DEFAULT_BACKOFF };
  for s in sets {
    match *s {
      Set::Credentials(n) => given.credentials = Some(n),
      Set::Timeout(ms) => given.timeout = Duration::from_millis(ms),
      Set::Backoff(n) => given.backoff = backoffs(n),
    }
  }
  local.trace();
  let result = run(async {
    let first = match then {
      Then::Hang => Plan::open(Open::Hang),
      Then::WriteHang => Plan::out(vec![greeting(), In::Eof], Out::HangAfter(0)),
      Then::Reconnect(_) => Plan::new(vec![greeting(), In::Eof]),
    };
    let mut plans = vec![first];
    if let Then::Reconnect(calls) = then {
      for attempts in calls {
        plans.extend(attempts[..attempted(&given.backoff, attempts)].iter().map(|a| a.plan()));
      }
    }
    let world = World::new(plans);
    let call = async {
      if sets.is_empty() && how == 1 {
        return Client::anonymous().await;
      }
      let mut b = Client::builder();
      for s in sets {
        b = match *s {
          Set::Credentials(n) => b.credentials(credentials(n)),
          Set::Timeout(ms) => b.timeout(Duration::from_millis(ms)),
          Set::Backoff(n) => b.backoff(backoffs(n)),
        };
      }
      b.connect().await
    };
    local.steps(1 + sets.len() as u64);
    let result = match drive(&world, call).await {
      Call::Done(r) => r,
      _ => return Err("connecting never ends".into()),
    };
    if !matches!(then, Then::Reconnect(_)) {
      let end = ended(result.map(|_| ()))?;
      let took = world.now();
      local.state(&(format!("{end:?}"), took));
      if end != End::Timeout || took < given.timeout || took > given.timeout + MS {
        return Err(format!("ended with {end:?} after {took:?}, with a timeout of {:?}", given.timeout));
      }
      if world.seen().len() != 1 {
        return Err("several attempts".into());
      }
      return Ok(());
    }
    let mut client = result.map_err(|e| format!("could not connect: {e}"))?;
    let login = given.check(client.config(), client.credentials())?;
    let check_all = |client: &Client| -> Verdict {
      if given.check(client.config(), client.credentials())? != login {
        return Err("the login has changed".into());
      }
      for (n, s) in world.seen().iter().enumerate() {
        if !proto::handshake_prefix(&s.accepted, &login, given.token()) {
          return Err(format!("connection {n} did not use the credentials given: {:?}", String::from_utf8_lossy(&s.accepted)));
        }
      }
      Ok(())
    };
    check_all(&client)?;
    let Then::Reconnect(calls) = then else { unreachable!() };
    let mut ok = true;
    for attempts in calls {
      if given.timeout < MS * 1000 && attempts.iter().any(|a| matches!(a, A::OpenErrLate | A::SuccessLate)) {
        ok = false;
      }
      if ok {
        backoff_call(&world, &mut client, &given.backoff, given.timeout, attempts, local).await?;
      }
      check_all(&client)?;
    }
    // and once more, with the default for unknown connections
    world.otherwise(Plan::new(vec![greeting(), In::Eof]));
    match reconnect(&world, &mut client).await {
      Call::Done(Ok(())) => {}
      Call::Done(Err(e)) => return Err(format!("reconnecting failed: {e}")),
      _ => return Err("reconnecting never ends".into()),
    }
    check_all(&client)?;
    let wire = world.last().accepted;
    if proto::handshake(&wire, &login, given.token())? != wire.len() {
      return Err("more than a handshake on the new connection".into());
    }
    local.state(&(world.seen().len(), &given.credentials, given.timeout));
    Ok(())
  });
  result.map_err(|e| format!("{e}\n  settings {sets:?}, then {then:?}"))
}

/// Settings of any size are reported and used as they are.
fn extreme(timeout: Duration, backoff: Backoff, order: u64, hang: bool, local: &mut Local) -> Verdict {
  local.trace();
  local.steps(3);
  run(async {
    let first = if hang { Plan::open(Open::Hang) } else { Plan::new(vec![greeting(), In::Silence]) };
    let world = World::new(vec![first]);
    let b = Client::builder();
    let call = if order == 0 { b.timeout(timeout).backoff(backoff) } else { b.backoff(backoff).timeout(timeout) }.connect();
    let result = match drive(&world, call).await {
      Call::Done(r) => r,
      _ => return Err("connecting never ends".into()),
    };
    let took = world.now();
    local.state(&(took, result.is_ok()));
    let client = match result {
      Ok(client) => client,
      Err(e) => {
        let end = ended(Err(e))?;
        // what is ready at once may still come too late
        return match end {
          End::Timeout if hang && took >= timeout && took <= timeout + MS => Ok(()),
          End::Timeout if timeout < MS && took <= MS => Ok(()),
          _ => Err(format!("ended with {end:?} after {took:?}")),
        };
      }
    };
    if hang {
      return Err("connected to nothing".into());
    }
    let config = client.config();
    if config.timeout != timeout {
      return Err(format!("the timeout is {:?}", config.timeout));
    }
    if !same_backoff(&config.backoff, &backoff) {
      return Err(format!("the backoff is {:?}", config.backoff));
    }
    Ok(())
  })
  .map_err(|e| format!("{e}\n  timeout {timeout:?}, {backoff:?}, order {order}, hanging: {hang}"))
}

/// The timers of tokio 1.44 fail when a paused clock advances for longer than 2^36 ms.
const LONGEST: Duration = Duration::from_millis(1 << 35);

fn extremes(check: &mut Run) {
  let times: Vec<Duration> = [
    Duration::ZERO,
    Duration::from_nanos(1),
    Duration::from_nanos(999_999),
    Duration::from_millis(1),
    Duration::from_nanos(1_000_001),
    Duration::from_micros(1_500),
    Duration::from_millis(999),
    Duration::from_nanos(1_000_000_001),
    Duration::from_secs(5),
    Duration::from_secs(29),
    DEFAULT_TIMEOUT,
    Duration::from_secs(31),
    Duration::from_secs(u16::MAX.into()),
    Duration::from_millis(u32::MAX.into()),
    Duration::from_secs(u32::MAX.into()),
    Duration::from_secs(1 << 40),
    Duration::from_millis(u64::MAX),
    Duration::from_secs(i64::MAX as u64),
    Duration::MAX,
  ]
  .to_vec();
  let d = DEFAULT_BACKOFF;
  let mut backoffs = vec![d];
  for n in [0, 1, 2, 7, 8, 9, u8::MAX.into(), u32::MAX.into(), 1 << 40, i64::MAX as u64, u64::MAX - 1, u64::MAX] {
    backoffs.push(Backoff { max_tries: Some(n), ..d });
  }
  backoffs.push(Backoff { max_tries: None, ..d });
  for n in [0, 1, 2, 4, 255, u32::MAX - 1, u32::MAX] {
    backoffs.push(Backoff { delay_multiplier: n, ..d });
  }
  for t in &times {
    backoffs.push(Backoff { initial_delay: *t, ..d });
    backoffs.push(Backoff { max_delay: *t, ..d });
  }
  let space = Product(vec![times.len() as u64, backoffs.len() as u64, 2, 2]);
  let bound = format!("{} timeouts from 0 to the longest x {} backoffs with one setting at all its limits x 2 orders, when connected and when nothing answers", times.len(), backoffs.len());
  check.family("extreme settings", &bound, space.total(), |i, local| {
    let v = space.get(i);
    local.sample(i, || format!("{:?} {:?}", times[v[0]], backoffs[v[1]]));
    let hang = v[3] == 1 && times[v[0]] < LONGEST;
    extreme(times[v[0]], backoffs[v[1]], v[2] as u64, hang, local)
  });
}

pub fn run_check(check: &mut Run) {
  extremes(check);
  let max = check.pick(5, 6);
  let sigma = vec![""; SETS.len()];
  let space = Strings { sigma: &sigma, max };
  let all = Product(vec![space.total(), THENS.len() as u64]);
  let bound = format!("all sequences of at most {max} of {} settings x {} courses", SETS.len(), THENS.len());
  check.family("settings", &bound, all.total(), |i, local| {
    let v = all.get(i);
    let sets: Vec<Set> = space.symbols(v[0] as u64).into_iter().map(|n| SETS[n]).collect();
    local.sample(i, || format!("{sets:?} {:?}", THENS[v[1]]));
    execute(&sets, 0, THENS[v[1]], local)
  });
  crate::connect::names_family(check);
  check.family("no settings", &format!("a client made without a builder x {} courses", THENS.len()), THENS.len() as u64, |i, local| {
    local.sample(i, || format!("{:?}", THENS[i as usize]));
    execute(&[], 1, THENS[i as usize], local)
  });
}
