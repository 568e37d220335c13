//! What a program prints, or could print.

use std::cell::RefCell;
use std::fmt::Debug;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

thread_local! {
  static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}
static ACTIVE: AtomicBool = AtomicBool::new(false);

pub fn active() -> bool {
  ACTIVE.load(Relaxed)
}

/// Something that a user may print.
pub fn note(text: impl FnOnce() -> String) {
  if active() {
    let text = text();
    LOG.with(|l| l.borrow_mut().push(text));
  }
}

/// Everything noted and logged by this thread since the last call.
pub fn printed() -> Vec<String> {
  LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

/// Whether a part of `token` which is long enough to be recognized is in `text`.
pub fn leaks(token: &str, text: &str) -> bool {
  leaks_part(token, text, 3)
}

/// Whether `n` adjacent characters of `token` (or all, if it has fewer) are in `text`.
pub fn leaks_part(token: &str, text: &str, n: usize) -> bool {
  let ends: Vec<usize> = token.char_indices().map(|(i, _)| i).chain([token.len()]).collect();
  let n = n.min(ends.len() - 1);
  n > 0 && ends.windows(n + 1).any(|w| text.contains(&token[w[0]..w[n]]))
}

/// Receive everything that is logged, at any level.
pub fn capture() {
  if tracing::subscriber::set_global_default(Capture).is_err() {
    mc_core::error("cannot capture the log");
  }
  ACTIVE.store(true, Relaxed);
}

struct Capture;

struct Text<'a>(&'a mut String);
impl tracing::field::Visit for Text<'_> {
  fn record_debug(&mut self, field: &tracing::field::Field, value: &dyn Debug) {
    use std::fmt::Write;
    let _ = write!(self.0, " {}={value:?} {value:#?}", field.name());
  }
}

impl tracing::Subscriber for Capture {
  fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
    true
  }
  fn new_span(&self, span: &tracing::span::Attributes<'_>) -> tracing::span::Id {
    let mut s = span.metadata().name().to_string();
    span.record(&mut Text(&mut s));
    LOG.with(|l| l.borrow_mut().push(s));
    tracing::span::Id::from_u64(1)
  }
  fn record(&self, _: &tracing::span::Id, values: &tracing::span::Record<'_>) {
    let mut s = String::new();
    values.record(&mut Text(&mut s));
    LOG.with(|l| l.borrow_mut().push(s));
  }
  fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
  fn event(&self, event: &tracing::Event<'_>) {
    let mut s = format!("{} {}", event.metadata().name(), event.metadata().target());
    event.record(&mut Text(&mut s));
    LOG.with(|l| l.borrow_mut().push(s));
  }
  fn enter(&self, _: &tracing::span::Id) {}
  fn exit(&self, _: &tracing::span::Id) {}
}
