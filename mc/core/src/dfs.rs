//! Deviation-bounded exploration of environment decisions.
//!
//! An execution asks for a decision at every point where the environment could
//! act in more than one way. The default decision is 0. All executions with at
//! most `bound` decisions other than 0 are run to completion, those with fewer
//! deviations first. A decision point may be declared free: its alternatives
//! don't count as deviations.

use crate::{harness_error, Local, Verdict};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq)]
struct Point {
  options: u32,
  taken: u32,
  free: bool,
}

#[derive(Default, Debug)]
struct Inner {
  prefix: Vec<Point>,
  points: Vec<Point>,
  log: Vec<String>,
  keep_log: bool,
  horizon: usize,
  lenient: bool,
}

/// Handle through which an execution asks for decisions.
#[derive(Clone)]
pub struct Chooser(Arc<Mutex<Inner>>);

impl Chooser {
  /// Decide between `options` ways; every way but 0 is a deviation.
  pub fn choose(&self, options: u32, label: &str) -> u32 {
    self.at(options, false, label)
  }
  /// Decide between `options` ways, all of which are explored at any bound.
  pub fn free(&self, options: u32, label: &str) -> u32 {
    self.at(options, true, label)
  }
  fn at(&self, options: u32, free: bool, label: &str) -> u32 {
    if options <= 1 {
      return 0;
    }
    let mut s = self.0.lock().unwrap_or_else(|e| e.into_inner());
    let n = s.points.len();
    if n >= s.horizon {
      drop(s);
      harness_error("an execution has too many decisions");
    }
    let taken = match s.prefix.get(n) {
      Some(p) if s.lenient => p.taken.min(options - 1),
      Some(p) => {
        if p.options != options || p.free != free {
          let log = s.log.join(", ");
          drop(s);
          harness_error(format!("replaying a prefix diverged at {n} ({label}): {log}"));
        }
        p.taken
      }
      None => 0,
    };
    s.points.push(Point { options, taken, free });
    if s.keep_log {
      s.log.push(format!("{label}={taken}/{options}"));
    }
    taken
  }
  /// Annotate the decision log.
  pub fn note(&self, text: impl FnOnce() -> String) {
    let mut s = self.0.lock().unwrap_or_else(|e| e.into_inner());
    if s.keep_log {
      let t = text();
      s.log.push(t);
    }
  }
  /// All decisions so far except some, to be taken again; what they choose from may differ.
  pub fn without(&self, except: &[usize]) -> Chooser {
    let s = self.0.lock().unwrap_or_else(|e| e.into_inner());
    let prefix = s.points.iter().enumerate().filter(|(n, _)| !except.contains(n)).map(|(_, p)| *p).collect();
    Chooser(Arc::new(Mutex::new(Inner { prefix, horizon: s.horizon, lenient: true, ..Default::default() })))
  }
  /// The decisions which [`Chooser::without`] was made from.
  pub fn planned(&self) -> Vec<u32> {
    let s = self.0.lock().unwrap_or_else(|e| e.into_inner());
    s.prefix.iter().map(|p| p.taken).collect()
  }
  pub fn decisions(&self) -> usize {
    self.0.lock().unwrap_or_else(|e| e.into_inner()).points.len()
  }
}

fn execute<F>(prefix: Vec<Point>, keep_log: bool, f: &mut F, local: &mut Local) -> (Verdict, Vec<Point>, Vec<String>)
where
  F: FnMut(&Chooser, &mut Local) -> Verdict,
{
  let planned = prefix.len();
  let chooser = Chooser(Arc::new(Mutex::new(Inner {
    prefix,
    keep_log,
    horizon: 20_000,
    ..Default::default()
  })));
  let result = match crate::guarded(|| f(&chooser, local)) {
    Ok(v) => v,
    Err(e) => Err(e),
  };
  let mut inner = chooser.0.lock().unwrap_or_else(|e| e.into_inner());
  if inner.points.len() < planned && result.is_ok() {
    harness_error("replaying a prefix diverged: the execution ended early");
  }
  (result, std::mem::take(&mut inner.points), std::mem::take(&mut inner.log))
}

/// Run all executions with at most `bound` deviations.
pub fn explore<F>(bound: usize, local: &mut Local, mut f: F) -> Verdict
where
  F: FnMut(&Chooser, &mut Local) -> Verdict,
{
  if let Some(choices) = local.replay_choices.clone() {
    return replay(choices, local, f);
  }
  // executions are grouped by number of deviations, so that the first
  // counterexample has the fewest
  let mut layers: Vec<Vec<Vec<Point>>> = vec![vec![]; bound + 1];
  layers[0].push(vec![]);
  for level in 0..=bound {
    while let Some(prefix) = layers[level].pop() {
      let from = prefix.len();
      local.alive();
      let (result, points, _) = execute(prefix, false, &mut f, local);
      local.transitions += (points.len() - from.min(points.len())) as u64;
      local.traces += 1;
      local.max_deviations = local.max_deviations.max(level as u64);
      if let Err(message) = result {
        // run it again: a violation must be reproducible
        let choices: Vec<u32> = points.iter().map(|p| p.taken).collect();
        let (again, points2, log) = execute(points.clone(), true, &mut f, local);
        match again {
          Err(m) if points2 == points || m.contains("panicked") => {
            local.failing_choices = Some(choices);
            let log: Vec<_> = log.iter().filter(|l| !l.contains("=0/")).cloned().collect();
            return Err(format!("{m}\n  decisions: {}", log.join(", ")));
          }
          _ => harness_error(format!("violation is not reproducible: {message}")),
        }
      }
      for i in (from..points.len()).rev() {
        let cost = level + if points[i].free { 0 } else { 1 };
        if cost > bound {
          continue;
        }
        for alt in (1..points[i].options).rev() {
          let mut next = points[..i].to_vec();
          next.push(Point { taken: alt, ..points[i] });
          layers[cost].push(next);
        }
      }
    }
  }
  Ok(())
}

fn replay<F>(choices: Vec<u32>, local: &mut Local, mut f: F) -> Verdict
where
  F: FnMut(&Chooser, &mut Local) -> Verdict,
{
  // the number of options is not stored; find it while running
  let log = Rc::new(RefCell::new(Vec::new()));
  let mut prefix: Vec<Point> = vec![];
  loop {
    let (result, points, l) = execute(prefix.clone(), true, &mut f, local);
    *log.borrow_mut() = l;
    let n = prefix.len();
    if n == choices.len() || n >= points.len() {
      println!("  decisions: {}", log.borrow().join(", "));
      return result;
    }
    // skip over defaults, fix the next decision which differs
    let mut next = points[..n].to_vec();
    let mut i = n;
    while i < points.len() && i < choices.len() {
      let mut p = points[i];
      p.taken = choices[i];
      next.push(p);
      i += 1;
      if choices[i - 1] != 0 {
        break;
      }
    }
    prefix = next;
  }
}
