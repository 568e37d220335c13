//! C27: the result of parsing is determined by the line alone.

use crate::lines::show;
use crate::model::{self, View};
use crate::spaces::*;
use crate::view::{diff, Viewed};
use mc_core::lines::REAL;
use mc_core::space::Product;
use mc_core::{guard, Run, Verdict};
use std::collections::hash_map::Entry;
use std::collections::HashMap;
use tmi::*;

const LOOKUPS: &[&str] = &["id", "msg-id", "badges", "color", "no-such-tag", "user-type", "room-id", ""];

/// How many tags of a message are looked up by their names.
const OWN: usize = 50;

/// Everything that can be seen of a message.
#[derive(Clone, Debug, PartialEq)]
struct Seen {
  raw: String,
  tags: Vec<(String, String)>,
  prefix: Option<String>,
  command: String,
  parts: [Option<String>; 3],
  lookups: Vec<Option<String>>,
}

fn text(s: Option<&str>) -> Option<String> {
  s.map(str::to_string)
}

/// The line, with what is to be seen.
struct Known {
  line: String,
  plain: Option<Seen>,
  typed: Option<View>,
}

impl Known {
  fn new(line: &str) -> Self {
    let plain = model::parse(line).map(|m| {
      if let Some(p) = &m.prefix {
        assert!(p.well_formed);
      }
      Seen {
        raw: m.raw.into(),
        tags: m.tags.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
        prefix: m.prefix.as_ref().map(|p| format!("{:?} {:?} {:?}", p.nick, p.user, p.host)),
        command: m.command.into(),
        parts: [text(m.channel()), text(m.params), text(m.text())],
        lookups: LOOKUPS.iter().copied().chain(m.tags.iter().map(|t| t.0).take(OWN)).map(|n| text(m.tag(n))).collect(),
      }
    });
    Known { line: line.into(), plain, typed: model::typed(line).ok() }
  }
}

macro_rules! seen {
  ($m:expr) => {{
    let m = $m;
    Seen {
      raw: m.raw().into(),
      tags: m.tags().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
      prefix: m.prefix().map(|p| format!("{:?} {:?} {:?}", p.nick, p.user, p.host)),
      command: m.command().as_str().into(),
      parts: [text(m.channel()), text(m.params()), text(m.text())],
      lookups: LOOKUPS.iter().copied().chain(m.tags().map(|t| t.0).take(OWN)).map(|n| text(m.tag(n))).collect(),
    }
  }};
}

/// A message in one of its forms. References into memory which outlives it.
enum Form {
  Borrowed(IrcMessageRef<'static>),
  Owned(IrcMessage),
  Typed(Message<'static>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
  Borrowed,
  Owned,
  Typed,
  IntoOwned,
}
const HOW: [How; 4] = [How::Borrowed, How::Owned, How::Typed, How::IntoOwned];

fn parse(s: &'static str, how: How) -> Option<Form> {
  match how {
    How::Borrowed => IrcMessageRef::parse(s).map(Form::Borrowed),
    How::Owned => IrcMessage::parse(s).map(Form::Owned),
    How::IntoOwned => IrcMessageRef::parse(s).map(|m| Form::Owned(m.into_owned())),
    How::Typed => Message::parse(s).ok().map(Form::Typed),
  }
}

fn judge_typed(got: Option<View>, want: &Option<View>) -> Verdict {
  match (got, want) {
    (None, None) => Ok(()),
    (Some(g), Some(w)) => diff(&g, w).map_or(Ok(()), |d| Err(format!("typed: {d}"))),
    (g, w) => Err(format!("typed: {g:?}, expected {w:?}")),
  }
}

impl Known {
  /// The message is what the line says. `deep`: also converted.
  fn judge(&self, form: Option<&Form>, how: How, deep: bool) -> Verdict {
    let plain = |got: Seen| -> Verdict {
      if Some(&got) != self.plain.as_ref() {
        return Err(format!("{got:?}, expected {:?}", self.plain));
      }
      Ok(())
    };
    let result = match form {
      None if how == How::Typed => judge_typed(None, &self.typed),
      None if self.plain.is_none() => Ok(()),
      None => Err("rejected".into()),
      Some(Form::Borrowed(m)) => plain(seen!(m)).and_then(|_| {
        if deep {
          judge_typed(m.clone().as_typed().ok().map(|m| m.view()), &self.typed)
        } else {
          Ok(())
        }
      }),
      Some(Form::Owned(m)) => plain(seen!(m)).and_then(|_| {
        if deep {
          judge_typed(m.as_typed().ok().map(|m| m.view()), &self.typed)
        } else {
          Ok(())
        }
      }),
      Some(Form::Typed(m)) => judge_typed(Some(m.view()), &self.typed),
    };
    result.map_err(|e| format!("{how:?} of {}: {e}", show(&self.line)))
  }
}

/// Memory for lines, used again as soon as nothing refers to it.
struct Memory {
  at: *mut u8,
  size: usize,
}

impl Memory {
  fn new(size: usize) -> Self {
    Self { at: Box::leak(vec![b'#'; size].into_boxed_slice()).as_mut_ptr(), size }
  }
  /// Nothing may refer to what was written before.
  unsafe fn write(&self, offset: usize, line: &str) -> &'static str {
    assert!(offset + line.len() <= self.size);
    std::ptr::copy_nonoverlapping(line.as_ptr(), self.at.add(offset), line.len());
    std::str::from_utf8_unchecked(std::slice::from_raw_parts(self.at.add(offset), line.len()))
  }
  unsafe fn fill(&self, byte: u8) {
    std::ptr::write_bytes(self.at, byte, self.size);
  }
}

const SIZE: usize = 4096;

thread_local! {
  static MEMORY: [Memory; 4] = std::array::from_fn(|_| Memory::new(SIZE));
}

fn memory<T>(f: impl FnOnce(&[Memory; 4]) -> T) -> T {
  MEMORY.with(f)
}

/// Lines of every kind, and lines which differ from others in a single place.
fn corpus() -> Vec<Known> {
  let mut lines: Vec<String> = REAL.iter().map(|l| l.to_string()).collect();
  for kind in all_kinds() {
    let mut line = String::new();
    Space::new(kind, 0).get(0, &mut line);
    lines.push(line);
  }
  let twin = |line: &str, from: &str, to: &str| {
    let at = line.find(from).expect("part of the line");
    assert_eq!(from.len(), to.len());
    format!("{}{to}{}", &line[..at], &line[at + from.len()..])
  };
  for (n, from, to) in [
    (0, "PING", "PONG"),
    (1, "001", "353"),
    (1, "justinfan1", "justinfan2"),
    (2, "#jerma985", "#jerma986"),
    (4, "CLEARCHAT", "CLEARTEXT"),
    (4, "ban-duration=10", "ban-duration=11"),
    (4, "@ban", "@bun"),
    (4, ";room-id=1", "=room-id=1"),
    (4, ":ronni", ":ronnj"),
    (4, "#dallas", "#dallat"),
    (5, "ROOMSTATE", "USERSTATE"),
    (6, "mod=0", "mod=1"),
    (6, "display-name", "disp=ay-name"),
    (7, "carkeys!", "cbrkeys!"),
    (7, "Kappa", "Kapqa"),
    (7, "user-id=44317909", "user-id=44317908"),
    (7, " :carkeys", "_:carkeys"),
    (9, "msg-id=raid", "msg-id=rait"),
  ] {
    lines.push(twin(REAL[n], from, to));
  }
  lines.extend(
    [
      "", " ", "@", ":", "@a=b", "@a=b ", ":x", ":x ", "PING", "PONG", "@ PING", "@a PING", "RECONNECT", "@a=1;a=2;a=3 PING :x", "@a=1;b=2;a=3;c=4;b=5 PING",
      "@id=1;room-id=2;id=3;login=a;target-msg-id=b;room-id=4;tmi-sent-ts=5 :a!a@a CLEARMSG #c :hi",
      "FOO", "FOO #a", "FOO :#a", "@a=b FOO #a :b",
    ]
    .map(String::from),
  );
  // more tags than fit anywhere without allocating
  for last in ["z=1", "y=2"] {
    let tags: Vec<String> = (0..40).map(|n| format!("k{n}=v{n}")).chain([last.to_string()]).collect();
    lines.push(format!("@{} :n!u@h PRIVMSG #c :t", tags.join(";")));
  }
  lines.sort();
  lines.dedup();
  lines.iter().map(|l| Known::new(l)).collect()
}

pub fn run(run: &mut Run) {
  run.assume("messages are used in the ways the borrow checker permits: memory is reused only when nothing refers to it");
  same_memory(run);
  repeated(run);
  histories(run);
  queries(run);
  places(run);
  threads(run);
}

/// Sequences of lines in the same memory, each parsed in some form.
fn same_memory(run: &mut Run) {
  let known = corpus();
  let n = known.len() as u64;
  let space = Product(vec![n, n, 16]);
  let bound = format!("all ordered pairs of {n} lines parsed one after the other at the same address, in all pairs of the forms borrowed, owned, typed, detached");
  run.family("pairs in the same memory", &bound, space.total(), |i, local| {
    let v = space.get(i);
    let how = [HOW[v[2] / 4], HOW[v[2] % 4]];
    local.trace();
    local.steps(2);
    local.sample(i, || format!("{how:?} {} {}", show(&known[v[0]].line), show(&known[v[1]].line)));
    memory(|m| {
      for (k, how) in [(&known[v[0]], how[0]), (&known[v[1]], how[1])] {
        let s = unsafe { m[0].write(64, &k.line) };
        let form = parse(s, how);
        local.state(&mc_core::hash(&(&k.line, how as u8)));
        k.judge(form.as_ref(), how, true)?;
      }
      Ok(())
    })
  });
  let space = Product(vec![n, n, n, 2]);
  let total = if run.thorough() { space.total() } else { n * n * n };
  let bound = format!("all ordered triples of {n} lines parsed one after the other at the same address, {}", run.pick("borrowed", "borrowed and typed"));
  run.family("triples in the same memory", &bound, total, |i, local| {
    let v = space.get(i);
    let how = if v[3] == 0 { How::Borrowed } else { How::Typed };
    local.trace();
    local.steps(3);
    memory(|m| {
      for k in [&known[v[0]], &known[v[1]], &known[v[2]]] {
        let s = unsafe { m[0].write(64, &k.line) };
        k.judge(parse(s, how).as_ref(), how, false)?;
      }
      Ok(())
    })
  });
}

/// One line many times, then another one.
fn repeated(run: &mut Run) {
  let known = corpus();
  let n = known.len() as u64;
  let times = run.pick(300usize, 3000);
  let space = Product(vec![n, n, 2]);
  let bound = format!("all ordered pairs of {n} lines: the first {times} times, all kept or none, then the second");
  run.family("repeated lines", &bound, space.total(), |i, local| {
    let v = space.get(i);
    let (a, b, keep) = (&known[v[0]], &known[v[1]], v[2] == 1);
    local.trace();
    local.steps(times as u64 + 1);
    memory(|m| {
      let s = unsafe { m[0].write(0, &a.line) };
      let mut kept = vec![];
      for n in 1..=times {
        let how = HOW[n % 3];
        let form = parse(s, how);
        if n.is_power_of_two() {
          a.judge(form.as_ref(), how, true)?;
        }
        if keep {
          kept.push((form, how));
        }
      }
      let t = unsafe { m[1].write(0, &b.line) };
      for how in HOW {
        b.judge(parse(t, how).as_ref(), how, true)?;
      }
      for (form, how) in kept.iter().take(3).chain(kept.iter().rev().take(3)) {
        a.judge(form.as_ref(), *how, true)?;
      }
      Ok(())
    })
  });
}

/// A live message.
struct Live {
  known: usize,
  how: How,
  form: Option<Form>,
  /// which it refers to
  memory: Option<usize>,
}

#[derive(Clone, Copy, Debug)]
enum Step {
  Parse(usize, usize, How),
  Detach(usize),
  Typed(usize),
  Copy(usize),
  Query(usize),
  Drop(usize),
}

fn histories(run: &mut Run) {
  const SLOTS: usize = 2;
  let known: Vec<Known> = [
    "@badges=a/1;color=;id=1;room-id=1;tmi-sent-ts=1;user-id=1;display-name=A;emotes= :a!a@a PRIVMSG #a :x",
    // the same but for one character
    "@badges=a/1;color=;id=2;room-id=1;tmi-sent-ts=1;user-id=1;display-name=A;emotes= :a!a@a PRIVMSG #a :x",
    "@badges=a/1;color=;id=1;room-id=1;tmi-sent-ts=1;user-id=1;display-name=A;emotes= :a!a@a PRIVMSG #b :y",
    ":a!a@a JOIN #a",
    "@badges=a/1;color=;id=1;room-id=1",
  ]
  .map(Known::new)
  .into();
  let mut steps = vec![];
  for slot in 0..SLOTS {
    for how in [How::Borrowed, How::Owned, How::Typed] {
      for k in 0..known.len() {
        steps.push(Step::Parse(slot, k, how));
      }
    }
    for step in [Step::Detach, Step::Typed, Step::Copy, Step::Query, Step::Drop] {
      steps.push(step(slot));
    }
  }
  let depth = run.pick(4, 5);
  let n = steps.len() as u64;
  let space = Product(vec![n; depth]);
  let bound = format!("all sequences of {depth} of {n} steps on {SLOTS} messages: parsing one of {} lines in one of 3 forms, detaching, typing, copying, querying, dropping; memory of dropped messages is reused", known.len());
  run.family("histories", &bound, space.total(), |i, local| {
    let history: Vec<Step> = space.get(i).into_iter().map(|s| steps[s]).collect();
    // the other slot is the same but for its name
    if matches!(history[0], Step::Parse(1, ..)) || !matches!(history[0], Step::Parse(..)) {
      return Ok(());
    }
    local.trace();
    local.sample(i, || format!("{history:?}"));
    memory(|m| {
      let mut slots: [Option<Live>; SLOTS] = Default::default();
      for step in &history {
        local.steps(1);
        match *step {
          Step::Parse(slot, k, how) => {
            slots[slot] = None;
            let free = (0..m.len()).find(|n| slots.iter().flatten().all(|l| l.memory != Some(*n))).unwrap();
            let s = unsafe { m[free].write(0, &known[k].line) };
            let form = parse(s, how);
            let memory = (how != How::Owned).then_some(free);
            slots[slot] = Some(Live { known: k, how, form, memory });
          }
          Step::Detach(slot) => {
            if let Some(l) = &mut slots[slot] {
              if let Some(Form::Borrowed(_)) = l.form {
                let Some(Form::Borrowed(m)) = l.form.take() else { unreachable!() };
                l.form = Some(Form::Owned(m.into_owned()));
                l.how = How::IntoOwned;
                l.memory = None;
              }
            }
          }
          Step::Typed(slot) => {
            if let Some(l) = &mut slots[slot] {
              if let Some(Form::Borrowed(_)) = l.form {
                let Some(Form::Borrowed(m)) = l.form.take() else { unreachable!() };
                l.form = m.as_typed().ok().map(Form::Typed);
                l.how = How::Typed;
              }
            }
          }
          Step::Copy(slot) => {
            let copy = slots[slot].as_ref().map(|l| Live {
              known: l.known,
              how: if l.how == How::Owned { How::IntoOwned } else { l.how },
              form: l.form.as_ref().map(|f| match f {
                Form::Borrowed(m) => Form::Borrowed(m.clone()),
                Form::Owned(m) => Form::Owned(m.as_ref().into_owned()),
                Form::Typed(m) => Form::Typed(m.clone()),
              }),
              memory: l.memory,
            });
            slots[1 - slot] = copy;
          }
          Step::Query(slot) => {
            // without looking at the answers
            match slots[slot].as_ref().and_then(|l| l.form.as_ref()) {
              Some(Form::Borrowed(m)) => {
                m.tags().next();
                m.tag("color");
              }
              Some(Form::Owned(m)) => {
                m.tags().next();
                let _ = m.as_typed();
              }
              Some(Form::Typed(m)) => drop(format!("{m:?}")),
              None => {}
            }
          }
          Step::Drop(slot) => slots[slot] = None,
        }
        for l in slots.iter().flatten() {
          known[l.known].judge(l.form.as_ref(), l.how, false)?;
        }
        local.state(&slots.each_ref().map(|l| l.as_ref().map(|l| (l.known, l.how as u8, l.memory))));
      }
      Ok(())
    })
    .map_err(|e: String| format!("{e}\n  after {history:?}"))
  });
}

/// Asking a message anything does not change any other answer.
fn queries(run: &mut Run) {
  let known = corpus();
  let known: Vec<&Known> = known.iter().filter(|k| k.plain.is_some()).collect();
  // one number per question
  fn ask(k: &Known, m: &IrcMessageRef<'_>, o: &IrcMessage, q: usize) -> (String, String) {
    let text = |s: Option<&str>| format!("{s:?}");
    let pair = |s: Option<(&str, &str)>| format!("{s:?}");
    match q {
      0..=7 => (text(m.tag(LOOKUPS[q])), text(o.tag(LOOKUPS[q]))),
      8 => (text(m.channel()), text(o.channel())),
      9 => (text(m.text()), text(o.text())),
      10 => (text(m.params()), text(o.params())),
      11 => (format!("{:?}", m.prefix()), format!("{:?}", o.prefix())),
      12 => (format!("{:?}", m.command()), format!("{:?}", o.command())),
      13 => (pair(m.tags().next()), pair(o.tags().next())),
      14 => (pair(m.tags().last()), pair(o.tags().last())),
      15 => (m.tags().count().to_string(), o.tags().count().to_string()),
      16 => (text(m.tag(Tag::Id)), text(o.tag(Tag::Id))),
      17 => (text(m.tag(Tag::Unknown("id"))), text(o.tag(Tag::Unknown("id")))),
      18 => {
        let typed = |t: Result<Message<'_>, MessageParseError>| format!("{:?}", t.map(|t| t.view()).ok());
        (typed(m.clone().as_typed()), typed(o.as_typed()))
      }
      19 => (m.raw().to_string(), o.raw().to_string()),
      _ => {
        let name = k.plain.as_ref().and_then(|p| p.tags.get(q - 20)).map_or("", |t| t.0.as_str());
        (text(m.tag(name)), text(o.tag(name)))
      }
    }
  }
  const QUERIES: u64 = 26;
  let depth = run.pick(3, 4);
  let mut dims = vec![QUERIES; depth];
  dims.push(known.len() as u64);
  let space = Product(dims);
  let bound = format!("{} messages, borrowed and owned: all sequences of {depth} of {QUERIES} questions", known.len());
  // answers of messages which were never asked anything before
  let mut first: HashMap<(usize, usize), (String, String)> = HashMap::new();
  for (n, k) in known.iter().enumerate() {
    for q in 0..QUERIES as usize {
      let (m, o) = (IrcMessageRef::parse(&k.line), IrcMessage::parse(&k.line));
      if let (Some(m), Some(o), Entry::Vacant(e)) = (m, o, first.entry((n, q))) {
        e.insert(ask(k, &m, &o, q));
      }
    }
  }
  run.family("questions", &bound, space.total(), |i, local| {
    let v = space.get(i);
    let k = v[depth];
    let line = &known[k].line;
    local.trace();
    let (Some(m), Some(o)) = (IrcMessageRef::parse(line), IrcMessage::parse(line)) else {
      return Err(format!("rejected: {}", show(line)));
    };
    for q in &v[..depth] {
      local.steps(1);
      let got = ask(known[k], &m, &o, *q);
      local.state(&mc_core::hash(&got));
      if Some(&got) != first.get(&(k, *q)) {
        return Err(format!("answer {got:?}, first it was {:?}\n  questions {:?} about {}", first.get(&(k, *q)), &v[..depth], show(line)));
      }
    }
    known[k].judge(Some(&Form::Owned(o)), How::Owned, true)
  });
}

/// At every alignment, in every surrounding.
fn places(run: &mut Run) {
  let known = corpus();
  const FILL: &[u8] = b"#=; @:\\\0\n\xff\x80a!";
  let space = Product(vec![64, FILL.len() as u64, known.len() as u64]);
  let bound = format!("{} lines x 64 alignments x surrounded by each of {:?}", known.len(), String::from_utf8_lossy(FILL));
  run.family("places", &bound, space.total(), |i, local| {
    let v = space.get(i);
    let k = &known[v[2]];
    local.trace();
    local.steps(HOW.len() as u64);
    memory(|m| {
      unsafe { m[0].fill(FILL[v[1]]) };
      let s = unsafe { m[0].write(64 + v[0], &k.line) };
      local.state(&(v[0], s.len() % 64));
      for how in HOW {
        k.judge(parse(s, how).as_ref(), how, true)?;
      }
      Ok(())
    })
  });
  // next to unmapped memory on either side
  run.family("edges", &format!("{} lines before and behind unmapped memory", known.len()), known.len() as u64, |i, local| {
    let k = &known[i as usize];
    local.trace();
    local.steps(2 * HOW.len() as u64);
    guard::with(|g| {
      let judge = |s: &str| -> Verdict {
        // gone before the memory is used again
        let s: &'static str = unsafe { std::mem::transmute(s) };
        for how in HOW {
          k.judge(parse(s, how).as_ref(), how, true)?;
        }
        Ok(())
      };
      g.at_end(&k.line, judge)?;
      g.at_start(&k.line, judge)
    })
  });
}

/// On new threads, and handed over between threads.
fn threads(run: &mut Run) {
  let known = corpus();
  let n = known.len() as u64;
  let space = Product(vec![n, n]);
  let bound = format!("all ordered pairs of {n} lines: the first parsed on this thread, the second on a new one, each judged on the other");
  run.family("threads", &bound, space.total(), |i, local| {
    let v = space.get(i);
    let (a, b) = (&known[v[0]], &known[v[1]]);
    local.trace();
    local.steps(6);
    memory(|m| {
      let (s, t) = unsafe { (m[0].write(0, &a.line), m[1].write(0, &b.line)) };
      let mine: Vec<_> = HOW.iter().map(|how| (parse(s, *how), *how)).collect();
      let theirs = std::thread::scope(|scope| {
        scope
          .spawn(|| {
            for (form, how) in &mine {
              a.judge(form.as_ref(), *how, true)?;
            }
            Ok::<_, String>(HOW.iter().map(|how| (parse(t, *how), *how)).collect::<Vec<_>>())
          })
          .join()
          .unwrap_or_else(|e| std::panic::resume_unwind(e))
      })?;
      for (form, how) in &theirs {
        b.judge(form.as_ref(), *how, true)?;
      }
      for (form, how) in &mine {
        a.judge(form.as_ref(), *how, true)?;
      }
      Ok(())
    })
  });
}
