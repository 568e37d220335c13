//! Exhaustive bounded exploration: the engine shared by all checks.
//!
//! A *family* is a finite, fully enumerated space of cases, numbered `0..total`.
//! Every case is executed against the real implementation and judged by an
//! oracle. Cases are handed out in increasing order, so that the violation
//! which is reported is always the one with the smallest number.
//!
//! Inside a case, [`dfs`] explores all sequences of environment decisions up to
//! a bound on the number of decisions which differ from the default.

mod crash;
pub mod guard;
pub mod lines;
pub mod memory;
pub mod dfs;
mod report;
pub mod space;

use std::any::Any;
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
  Quick,
  Thorough,
}

/// Returned by a case: `Err` is a violation of the property.
pub type Verdict = Result<(), String>;

/// Per-thread results of an exploration.
#[derive(Default)]
pub struct Local {
  states: HashSet<u64, BuildHasherDefault<IdentityHasher>>,
  transitions: u64,
  traces: u64,
  digest: u64,
  samples: Vec<(u64, String)>,
  /// decisions to replay inside this case instead of exploring
  replay_choices: Option<Vec<u32>>,
  /// decisions which led to the violation reported by this case
  pub failing_choices: Option<Vec<u32>>,
  max_deviations: u64,
  capped: u64,
  since: Option<&'static AtomicU64>,
}

impl Local {
  /// A long case is making progress.
  pub fn alive(&self) {
    if let Some(since) = self.since {
      since.store(EPOCH.load(Relaxed).max(1), Relaxed);
    }
  }
  /// Count a state reached (deduplicated by its observation).
  pub fn state(&mut self, observation: &impl Hash) {
    self.states.insert(hash(observation));
  }
  /// Count operations executed on the implementation.
  pub fn steps(&mut self, n: u64) {
    self.transitions += n;
  }
  /// Count one complete execution of the implementation compared with the oracle.
  pub fn trace(&mut self) {
    self.alive();
    self.traces += 1;
  }
  /// Add something observed to the digest of this run, independently of the order of cases.
  pub fn digest(&mut self, case: u64, observation: &impl Hash) {
    self.digest = self.digest.wrapping_add(hash(&(case, hash(observation))));
  }
  /// Keep a written-out case for the report.
  pub fn sample(&mut self, case: u64, text: impl FnOnce() -> String) {
    if self.samples.len() < 2 {
      self.samples.push((case, text()));
    }
  }
}

/// At most `n` bytes of `s`.
pub fn clip(s: &str, n: usize) -> String {
  let mut end = n.min(s.len());
  while !s.is_char_boundary(end) {
    end -= 1;
  }
  format!("{}{}", &s[..end], if end < s.len() { "..." } else { "" })
}

pub fn hash(v: &impl Hash) -> u64 {
  // FNV-1a with a final mix; stable across runs and builds
  struct H(u64);
  impl Hasher for H {
    fn finish(&self) -> u64 {
      let mut x = self.0;
      x ^= x >> 33;
      x = x.wrapping_mul(0xff51afd7ed558ccd);
      x ^= x >> 33;
      x = x.wrapping_mul(0xc4ceb9fe1a85ec53);
      x ^ (x >> 33)
    }
    fn write(&mut self, bytes: &[u8]) {
      for b in bytes {
        self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
      }
    }
    fn write_u64(&mut self, v: u64) {
      self.0 = (self.0 ^ v).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(29);
    }
    fn write_u32(&mut self, v: u32) {
      self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
      self.write_u64(v as u64)
    }
  }
  let mut h = H(0xcbf29ce484222325);
  v.hash(&mut h);
  h.finish()
}

#[derive(Default)]
pub struct IdentityHasher(u64);
impl Hasher for IdentityHasher {
  fn finish(&self) -> u64 {
    self.0
  }
  fn write(&mut self, _: &[u8]) {
    unreachable!()
  }
  fn write_u64(&mut self, v: u64) {
    self.0 = v
  }
}

thread_local! {
  static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
  static CASE: std::cell::Cell<(&'static str, u64)> = const { std::cell::Cell::new(("", 0)) };
}

/// What a property is explored for.
#[derive(Debug)]
struct Found {
  family: String,
  case: u64,
  message: String,
  choices: Option<Vec<u32>>,
}

struct FamilyReport {
  name: String,
  cases: u64,
  total: u64,
  states: u64,
  transitions: u64,
  traces: u64,
  digest: u64,
  bound: String,
  wall: f64,
  max_deviations: u64,
}

/// One run of a check.
pub struct Run {
  pub property: String,
  pub tier: Tier,
  pub seed: u64,
  pub replay: Option<Replay>,
  variant: String,
  root: String,
  evidence: String,
  jobs: usize,
  start: Instant,
  families: Vec<FamilyReport>,
  samples: Vec<Value>,
  found: Option<Found>,
  known: Vec<(String, String)>,
  known_hits: Mutex<Vec<String>>,
  assumptions: Vec<String>,
  after: Option<fn() -> Verdict>,
}

#[derive(Clone, Debug)]
pub struct Replay {
  pub family: String,
  pub case: u64,
  pub choices: Option<Vec<u32>>,
}

static WATCH: Mutex<Vec<(&'static AtomicU64, &'static AtomicU64, &'static str)>> =
  Mutex::new(Vec::new());
static EPOCH: AtomicU64 = AtomicU64::new(0);

impl Run {
  /// `PROPERTY [--tier T] [--replay FILE] [--evidence FILE] [--variant NAME] [--root DIR]`
  pub fn from_args() -> Self {
    let mut args = std::env::args().skip(1);
    let property = args.next().unwrap_or_else(|| error("usage: <property> [options]"));
    let mut run = Run {
      property,
      tier: Tier::Quick,
      seed: std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1),
      replay: None,
      variant: "default".into(),
      root: "/verif".into(),
      evidence: String::new(),
      jobs: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4),
      start: Instant::now(),
      families: vec![],
      samples: vec![],
      found: None,
      known: vec![],
      known_hits: Mutex::new(vec![]),
      assumptions: vec![],
      after: None,
    };
    while let Some(arg) = args.next() {
      let value = args.next().unwrap_or_else(|| error("missing value"));
      match arg.as_str() {
        "--tier" => {
          run.tier = match value.as_str() {
            "quick" => Tier::Quick,
            "thorough" => Tier::Thorough,
            _ => error("unknown tier"),
          }
        }
        "--variant" => run.variant = value,
        "--root" => run.root = value,
        "--evidence" => run.evidence = value,
        "--jobs" => run.jobs = value.parse().unwrap_or(1),
        "--replay" => {
          let text = std::fs::read_to_string(&value).unwrap_or_else(|e| error(&format!("{value}: {e}")));
          let v: Value = serde_json::from_str(&text).unwrap_or_else(|e| error(&format!("{value}: {e}")));
          run.replay = Some(Replay {
            family: v["family"].as_str().unwrap_or_default().into(),
            case: v["case"].as_u64().unwrap_or(0),
            choices: v["choices"]
              .as_array()
              .map(|a| a.iter().map(|n| n.as_u64().unwrap_or(0) as u32).collect()),
          });
          if v["tier"] == "thorough" {
            run.tier = Tier::Thorough;
          }
        }
        _ => error("unknown option"),
      }
    }
    run.load_known();
    run.install_hooks();
    run
  }

  pub fn thorough(&self) -> bool {
    self.tier == Tier::Thorough
  }

  /// `quick` or `thorough`, depending on the tier.
  pub fn pick<T>(&self, quick: T, thorough: T) -> T {
    if self.thorough() {
      thorough
    } else {
      quick
    }
  }

  pub fn assume(&mut self, text: &str) {
    self.assumptions.push(text.into());
  }

  /// Judge what is left behind by every case which is fine so far, on its thread.
  pub fn after_each(&mut self, judge: fn() -> Verdict) {
    self.after = Some(judge);
  }

  fn load_known(&mut self) {
    let path = format!("{}/known-findings.json", self.root);
    let Ok(text) = std::fs::read_to_string(&path) else { return };
    let v: Value = serde_json::from_str(&text).unwrap_or_else(|e| error(&format!("{path}: {e}")));
    for f in v["findings"].as_array().into_iter().flatten() {
      if f["property"] == self.property.as_str() {
        if let (Some(family), Some(contains)) = (f["family"].as_str(), f["contains"].as_str()) {
          self.known.push((family.into(), contains.into()));
        }
      }
    }
  }

  fn install_hooks(&self) {
    std::panic::set_hook(Box::new(|info| {
      let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
      let text = payload(info.payload());
      LAST_PANIC.with(|p| *p.borrow_mut() = Some((at, text)));
    }));
    crash::install(
      &self.property,
      &self.variant,
      &format!("{}/replays", self.root),
      self.tier == Tier::Thorough,
    );
    let property = self.property.clone();
    let variant = self.variant.clone();
    let root = self.root.clone();
    let tier = self.tier;
    std::thread::spawn(move || loop {
      std::thread::sleep(Duration::from_secs(1));
      let now = EPOCH.fetch_add(1, Relaxed) + 1;
      for (case, since, family) in WATCH.lock().unwrap().iter() {
        let s = since.load(Relaxed);
        if s != 0 && now.saturating_sub(s) > 60 {
          let found = Found {
            family: family.to_string(),
            case: case.load(Relaxed),
            message: "no result within 60 s: the implementation hangs".into(),
            choices: None,
          };
          report::violation(&root, &property, &variant, tier, &found);
          std::process::exit(1);
        }
      }
    });
  }

  /// Execute all cases `0..total` of a family.
  pub fn family<F>(&mut self, name: &'static str, bound: &str, total: u64, case: F)
  where
    F: Fn(u64, &mut Local) -> Verdict + Sync,
  {
    if self.found.is_some() {
      return;
    }
    if let Some(replay) = &self.replay {
      if replay.family != name {
        return;
      }
    }
    let start = Instant::now();
    let replay = self.replay.clone();
    let (first, end) = match &replay {
      Some(r) => (r.case, r.case + 1),
      None => (0, total),
    };
    let next = AtomicU64::new(first);
    let min_found = AtomicU64::new(u64::MAX);
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let executed = AtomicU64::new(0);
    let jobs = if replay.is_some() { 1 } else { self.jobs };
    let chunk = (total / (jobs as u64 * 64)).clamp(1, 4096);
    let known = &self.known;
    let known_hits = &self.known_hits;
    let after = self.after;
    let merged = Mutex::new(Local::default());
    std::thread::scope(|s| {
      for _ in 0..jobs {
        s.spawn(|| {
          crash::thread_init();
          let current: &'static AtomicU64 = Box::leak(Box::new(AtomicU64::new(0)));
          let since: &'static AtomicU64 = Box::leak(Box::new(AtomicU64::new(0)));
          WATCH.lock().unwrap().push((current, since, name));
          let mut local = Local { since: Some(since), ..Local::default() };
          if let Some(r) = &replay {
            local.replay_choices = r.choices.clone();
          }
          loop {
            let from = next.fetch_add(chunk, Relaxed);
            if from >= end || from > min_found.load(Relaxed) {
              break;
            }
            let to = (from + chunk).min(end);
            let mut done = 0;
            for i in from..to {
              if i > min_found.load(Relaxed) {
                break;
              }
              current.store(i, Relaxed);
              since.store(EPOCH.load(Relaxed).max(1), Relaxed);
              CASE.with(|c| c.set((name, i)));
              crash::set_case(name, i);
              local.failing_choices = None;
              let mut result = run_case(&case, i, &mut local);
              if let Some(judge) = after {
                let judged = judge();
                result = result.and(judged);
              }
              crash::clear_case();
              since.store(0, Relaxed);
              done += 1;
              if let Err(message) = result {
                if let Some((_, what)) =
                  known.iter().find(|(f, c)| f == name && message.contains(c.as_str()))
                {
                  known_hits.lock().unwrap().push(format!("{name}: {what}"));
                  continue;
                }
                min_found.fetch_min(i, Relaxed);
                let mut found = found.lock().unwrap();
                if found.as_ref().map_or(true, |f| i < f.case) {
                  *found = Some(Found {
                    family: name.into(),
                    case: i,
                    message,
                    choices: local.failing_choices.take(),
                  });
                }
                break;
              }
            }
            executed.fetch_add(done, Relaxed);
          }
          let mut m = merged.lock().unwrap();
          m.transitions += local.transitions;
          m.traces += local.traces;
          m.digest = m.digest.wrapping_add(local.digest);
          m.max_deviations = m.max_deviations.max(local.max_deviations);
          m.capped += local.capped;
          if m.states.is_empty() {
            m.states = local.states;
          } else {
            m.states.extend(local.states.drain());
          }
          m.samples.extend(local.samples);
        });
      }
    });
    let mut merged = merged.into_inner().unwrap();
    self.found = found.into_inner().unwrap();
    merged.samples.sort();
    for (i, text) in merged.samples.into_iter().take(2) {
      self.samples.push(json!({"family": name, "case": i, "what": text}));
    }
    if merged.capped > 0 {
      error(&format!("{name}: {} executions exceeded the horizon", merged.capped));
    }
    let executed = executed.into_inner();
    if self.found.is_none() && replay.is_none() && executed != total {
      error(&format!("{name}: {executed} of {total} cases executed"));
    }
    self.families.push(FamilyReport {
      name: name.into(),
      cases: executed,
      total,
      states: merged.states.len() as u64,
      transitions: merged.transitions,
      traces: merged.traces,
      digest: merged.digest,
      bound: bound.into(),
      wall: start.elapsed().as_secs_f64(),
      max_deviations: merged.max_deviations,
    });
  }

  /// Write the evidence and end the process with the verdict.
  pub fn finish(self) -> ! {
    let mut hits = self.known_hits.lock().unwrap().clone();
    hits.sort();
    hits.dedup();
    for hit in &hits {
      println!("KNOWN-FINDING: property={} {hit}", self.property);
    }
    report::evidence(&self);
    for f in &self.families {
      println!(
        "{} {} [{}]: {} cases, {} states, {} transitions, {} traces, {:.1} s",
        self.property, f.name, self.variant, f.cases, f.states, f.transitions, f.traces, f.wall
      );
    }
    match &self.found {
      Some(found) => {
        report::violation(&self.root, &self.property, &self.variant, self.tier, found);
        std::process::exit(1)
      }
      None => {
        if let (Some(r), true) = (&self.replay, self.families.is_empty()) {
          error(&format!("no such family: {}", r.family));
        }
        println!("OK property={} [{}] {:.1} s", self.property, self.variant, self.start.elapsed().as_secs_f64());
        std::process::exit(0)
      }
    }
  }
}

fn payload(p: &(dyn Any + Send)) -> String {
  if let Some(s) = p.downcast_ref::<&str>() {
    s.to_string()
  } else if let Some(s) = p.downcast_ref::<String>() {
    s.clone()
  } else {
    "panic".into()
  }
}

/// An internal error of a harness, never a verdict.
pub struct HarnessError(pub String);

/// Abort the check because the harness itself is at fault.
pub fn harness_error(message: impl Into<String>) -> ! {
  std::panic::panic_any(HarnessError(message.into()))
}

fn run_case<F>(case: &F, i: u64, local: &mut Local) -> Verdict
where
  F: Fn(u64, &mut Local) -> Verdict + Sync,
{
  match catch_unwind(AssertUnwindSafe(|| case(i, local))) {
    Ok(v) => v,
    Err(p) => {
      let (at, text) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
      if let Some(HarnessError(e)) = p.downcast_ref::<HarnessError>() {
        error(&format!("harness error: {e}"));
      }
      if is_harness(&at) {
        error(&format!("harness panicked at {at}: {text}"));
      }
      Err(format!("panicked at {at}: {text}"))
    }
  }
}

fn is_harness(at: &str) -> bool {
  // the crates of the harness are compiled from paths containing these
  ["/mc/core/", "/mc/parse/", "/mc/client/", "/mc/tls/", "/mc/backends/"].iter().any(|p| at.contains(p))
    || at.starts_with("src/")
}

/// Run `f`, turning a panic of the implementation into an error message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
    if p.is::<HarnessError>() {
      std::panic::resume_unwind(p);
    }
    let (at, text) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
    if is_harness(&at) {
      error(&format!("harness panicked at {at}: {text}"));
    }
    format!("panicked at {at}: {text}")
  })
}

/// End the check without a verdict.
pub fn error(message: &str) -> ! {
  let (family, case) = CASE.with(|c| c.get());
  eprintln!("ERROR: {message} (family {family:?}, case {case})");
  std::process::exit(2)
}
