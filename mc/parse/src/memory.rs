//! C29: what parsing, converting and dropping messages does with memory.

use crate::lines::{show, touch};
use crate::owned::{own, roundtrip};
use crate::spaces::*;
use crate::view::Viewed;
use mc_core::lines::{self, Lines};
use mc_core::memory::{left_behind, peak};
use mc_core::{Run, Verdict};
use std::hint::black_box;
use tmi::*;

/// What is done with a line, from parsing to dropping everything.
const LIVES: &[(&str, fn(&str))] = &[
  ("parsed and read", |s| {
    black_box(touch(s, true));
  }),
  ("parsed owned, copied, and dropped in either order", |s| {
    let Some(a) = IrcMessage::parse(s) else { return };
    let b = a.as_ref().into_owned();
    let c = IrcMessageRef::parse(s).map(|m| m.into_owned());
    drop(a);
    black_box(b.tags().count());
    drop(b);
    drop(black_box(c.as_ref().map(|c| c.as_ref())));
    drop(c);
  }),
  ("typed and copied", |s| match Message::parse(s) {
    Ok(a) => {
      let b = a.clone();
      drop(a);
      black_box((b.view(), format!("{b:?}")));
    }
    Err(e) => drop(black_box((e.to_string(), format!("{e:?}")))),
  }),
  ("typed from an owned line", |s| {
    let Some(a) = IrcMessage::parse(s) else { return };
    for m in [a.as_typed(), a.as_ref().as_typed()] {
      drop(black_box(m.and_then(|m| own(m, false).ok_or(MessageParseError))));
    }
  }),
  ("detached", |s| {
    let one = Message::parse(s).ok().and_then(|m| own(m, false));
    let two = Message::parse(s).ok().and_then(|m| own(m, true));
    drop(black_box(one));
    drop(black_box(two));
  }),
  ("serialized and read back", |s| {
    if let Ok(m) = Message::parse(s) {
      black_box(roundtrip(&m).is_ok());
    }
  }),
  ("unescaped", |s| {
    let Some(m) = IrcMessageRef::parse(s) else { return };
    for (k, v) in m.tags() {
      black_box(tmi::unescape(v));
      black_box(tmi::maybe_unescape(v));
      black_box(tmi::maybe_unescape(v.to_string()));
      black_box(Tag::parse(k).to_string());
    }
  }),
];

/// Memory which may be used while a line of this length is looked at.
fn most(len: usize) -> i64 {
  256 * len as i64 + (64 << 10)
}

fn judge(line: &str, i: u64, local: &mut mc_core::Local) -> Verdict {
  local.trace();
  local.sample(i, || show(line));
  local.state(&IrcMessageRef::parse(line).map(|m| (m.tags().count(), m.raw().len())));
  for (what, life) in LIVES {
    local.steps(1);
    if let Some(n) = left_behind(1, || life(line)) {
      return Err(format!("{what}: leaves {n} bytes of memory behind each time\n  line: {}", show(line)));
    }
  }
  // parsing and typing by themselves
  for (what, life) in [
    ("parsing", (|s| drop(black_box(IrcMessageRef::parse(s)))) as fn(&str)),
    ("parsing owned", |s| drop(black_box(IrcMessage::parse(s)))),
    ("typing", |s| drop(black_box(Message::parse(s)))),
    ("detaching", |s| drop(black_box(Message::parse(s).ok().and_then(|m| own(m, false))))),
  ] {
    local.steps(1);
    let ((), n) = peak(|| life(line));
    if n > most(line.len()) {
      return Err(format!("{what} a line of {} bytes takes {n} bytes of memory\n  line: {}", line.len(), show(line)));
    }
  }
  Ok(())
}

fn over(run: &mut Run, space: Lines, step: u64) {
  let bound = if step == 1 { space.bound.clone() } else { format!("{}; every {step}th", space.bound) };
  run.family(space.name, &bound, space.total.div_ceil(step), |i, local| {
    let mut line = String::new();
    space.get(i * step, &mut line);
    judge(&line, i, local)
  });
}

/// A value which is never the same again.
fn vary(value: &str, n: u64) -> String {
  // numbers stay numbers, lists lists
  format!("{value}{n}")
}

pub fn run(run: &mut Run) {
  let kinds = all_kinds();
  let k = run.pick(2, 3);
  for kind in &kinds {
    for field in &kind.fields {
      assert!(field.key.is_ascii());
    }
  }
  let names: Vec<&str> = kinds.iter().map(|k| k.name).collect();
  let spaces: Vec<Space> = kinds.iter().map(|kind| Space::new(kind.clone(), k)).collect();
  let total = spaces.iter().map(|s| s.total()).sum();
  let bound = format!("complete messages of the kinds {} with at most {k} changes x {} lives", names.join(", "), LIVES.len());
  run.family("messages", &bound, total, |i, local| {
    let mut line = String::new();
    crate::typed::pick(&spaces, |s| s.total(), i, |s, i| s.get(i, &mut line));
    judge(&line, i, local)
  });
  over(run, lines::short(run.pick(5, 6)), 1);
  over(run, lines::tokens(run.pick(4, 5)), 1);
  over(run, lines::counts(run.pick(600, 2000)), 1);
  over(run, lines::lengths(run.pick(17, 18)), 1);
  over(run, lines::edits(), 1);
  // no two lines alike: nothing is kept for each
  let slots: Vec<(usize, usize)> =
    kinds.iter().enumerate().flat_map(|(k, kind)| (0..kind.fields.len() + 5).map(move |f| (k, f))).collect();
  let total = (slots.len() * LIVES.len()) as u64;
  let bound = "messages of every kind which differ, each time, in one tag, an unknown tag, the prefix, the command, the channel or the text x lives";
  run.family("no two alike", bound, total, |i, local| {
    let (kind, slot) = slots[i as usize / LIVES.len()];
    let (what, life) = LIVES[i as usize % LIVES.len()];
    let kind = &kinds[kind];
    local.trace();
    local.steps(1);
    local.state(&i);
    let fields = kind.fields.len();
    let line = |n: u64| {
      let mut tags: Vec<(String, String)> = vec![];
      for (f, field) in kind.fields.iter().enumerate() {
        match (field.base, f == slot) {
          (Some(b), true) => tags.push((field.key.into(), vary(b, n))),
          (None, true) => tags.push((field.key.into(), vary("", n))),
          (Some(b), false) => tags.push((field.key.into(), b.into())),
          (None, false) => {}
        }
      }
      if slot == fields {
        tags.push((vary("tag", n), vary("v", n)));
      }
      let tags: Vec<(&str, &str)> = tags.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
      let at = |s: usize, base: &str, other: String| if slot == fields + s { other } else { base.to_string() };
      let prefix = at(1, kind.prefixes[0], format!(":n{n}!n{n}@n{n}.tmi.twitch.tv "));
      let command = at(2, kind.command, format!("{}{n}", kind.command));
      let channel = at(3, kind.channels[0], format!(" #ch{n}"));
      let text = at(4, kind.texts[0], format!(" :text {n}"));
      let mut line = String::new();
      render(&mut line, &tags, &prefix, &command, &channel, &text);
      line
    };
    let mut n = 0;
    local.sample(i, || show(&line(0)));
    if let Some(bytes) = left_behind(200, || {
      // one of the same length, so that nothing differs but what it says
      n += 1;
      life(&line(100_000 + n));
    }) {
      return Err(format!("{what}: each different line leaves {bytes} bytes of memory behind\n  line: {}", show(&line(0))));
    }
    Ok(())
  });
}
