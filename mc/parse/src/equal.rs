//! C28: equality and copies of typed messages and their parts.

use crate::lines::show;
use crate::spaces::*;
use crate::view::{self, Viewed};
use mc_core::{Local, Run, Verdict};
use std::fmt::Debug;
use std::hash::{DefaultHasher, Hash, Hasher};
use tmi::*;

fn hash(v: &impl Hash) -> u64 {
  let mut h = DefaultHasher::new();
  v.hash(&mut h);
  h.finish()
}

/// Equality of two values which look the same or not.
///
/// Values which are spelled differently but read the same (escaped and plain)
/// may be told apart; `spelled` says that nothing here is spelled differently.
fn judge<T: PartialEq + Clone + Debug>(what: &str, a: &T, b: &T, alike: bool, spelled: bool) -> Verdict {
  let (eq, back) = (a == b, b == a);
  if eq != back {
    return Err(format!("{what}: a == b is {eq}, b == a is {back}: {a:?} and {b:?}"));
  }
  if (a != b) == eq {
    return Err(format!("{what}: == and != agree: {a:?} and {b:?}"));
  }
  if eq && !alike {
    return Err(format!("{what}: equal, although different: {a:?} and {b:?}"));
  }
  if !eq && alike && spelled {
    return Err(format!("{what}: not equal, although they carry the same: {a:?} and {b:?}"));
  }
  for v in [a, b] {
    let copy = v.clone();
    if copy != *v || *v != copy {
      return Err(format!("{what}: not equal to its copy: {v:?}"));
    }
  }
  if (a.clone() == b.clone()) != eq {
    return Err(format!("{what}: copies compare differently: {a:?} and {b:?}"));
  }
  Ok(())
}

fn users(what: &str, a: &User<'_>, b: &User<'_>, spelled: bool) -> Verdict {
  judge(what, a, b, view::user(a) == view::user(b), spelled)
}

/// Every badge of one with every badge of the other.
fn badges<'a, 'b: 'a, 'c, 'd: 'c>(a: impl Iterator<Item = &'a Badge<'b>>, b: impl Iterator<Item = &'c Badge<'d>>) -> Verdict {
  let b: Vec<&Badge<'_>> = b.collect();
  for x in a {
    for y in &b {
      judge("Badge", x, y, view::badge(x) == view::badge(y), true)?;
      let (p, q) = (x.as_badge_data(), y.as_badge_data());
      judge("BadgeData", &p, &q, view::data(&p) == view::data(&q), true)?;
      if let (Badge::Subscriber(p), Badge::Subscriber(q)) = (x, y) {
        judge("Subscriber", p, q, view::badge(x) == view::badge(y), true)?;
      }
    }
  }
  Ok(())
}

/// Compare two messages, of any kinds.
fn pair(a: &Message<'_>, b: &Message<'_>, spelled: bool) -> Verdict {
  macro_rules! whole {
    ($what:literal, $a:expr, $b:expr) => {
      judge($what, $a, $b, $a.view() == $b.view(), spelled)?
    };
  }
  match (a, b) {
    (Message::ClearChat(a), Message::ClearChat(b)) => {
      whole!("ClearChat", a, b);
      judge("Action", a.action(), b.action(), view::action(a.action()) == view::action(b.action()), spelled)?;
    }
    (Message::ClearMsg(a), Message::ClearMsg(b)) => whole!("ClearMsg", a, b),
    (Message::GlobalUserState(a), Message::GlobalUserState(b)) => {
      whole!("GlobalUserState", a, b);
      badges(a.badges(), b.badges())?;
    }
    (Message::Join(a), Message::Join(b)) => whole!("Join", a, b),
    (Message::Notice(a), Message::Notice(b)) => whole!("Notice", a, b),
    (Message::Part(a), Message::Part(b)) => whole!("Part", a, b),
    (Message::Ping(a), Message::Ping(b)) => whole!("Ping", a, b),
    (Message::Pong(a), Message::Pong(b)) => whole!("Pong", a, b),
    (Message::Privmsg(a), Message::Privmsg(b)) => {
      whole!("Privmsg", a, b);
      users("sender", a.sender(), b.sender(), spelled)?;
      if let (Some(a), Some(b)) = (a.reply_to(), b.reply_to()) {
        judge("Reply", a, b, view::reply(a) == view::reply(b), spelled)?;
        users("sender of the reply", a.sender(), b.sender(), spelled)?;
      }
      if let (Some(a), Some(b)) = (a.pinned_chat(), b.pinned_chat()) {
        judge("PinnedChat", a, b, view::pinned(a) == view::pinned(b), spelled)?;
      }
      badges(a.badges(), b.badges())?;
    }
    (Message::RoomState(a), Message::RoomState(b)) => whole!("RoomState", a, b),
    (Message::UserNotice(a), Message::UserNotice(b)) => {
      whole!("UserNotice", a, b);
      if let (Some(a), Some(b)) = (a.sender(), b.sender()) {
        users("sender", a, b, spelled)?;
      }
      judge("Event", a.event(), b.event(), view::event(a.event()) == view::event(b.event()), spelled)?;
      badges(a.badges(), b.badges())?;
    }
    (Message::UserState(a), Message::UserState(b)) => {
      whole!("UserState", a, b);
      badges(a.badges(), b.badges())?;
    }
    (Message::Whisper(a), Message::Whisper(b)) => {
      whole!("Whisper", a, b);
      users("sender", &a.sender(), &b.sender(), spelled)?;
      badges(a.badges(), b.badges())?;
    }
    (a, b) if a.view() == b.view() && !matches!(a, Message::Reconnect | Message::Other(_)) => {
      return Err(format!("{a:?} and {b:?} can not be told apart"));
    }
    _ => {}
  }
  Ok(())
}

/// A copy shows the same as the original.
fn copy(m: &Message<'_>) -> Verdict {
  let c = m.clone();
  if c.view() != m.view() {
    return Err(format!("copy is {c:?}, of {m:?}"));
  }
  if format!("{c:?}") != format!("{m:?}") {
    return Err(format!("copy is shown as {c:?}, the original as {m:?}"));
  }
  Ok(())
}

/// The base message, its parts, and the names in it.
fn base(a: &IrcMessageRef<'_>, b: &IrcMessageRef<'_>) -> Verdict {
  let c = a.clone();
  if !c.tags().eq(a.tags()) || c.prefix() != a.prefix() || c.command() != a.command() || c.channel() != a.channel() || c.params() != a.params() || c.raw() != a.raw() {
    return Err(format!("copy is {c:?}, of {a:?}"));
  }
  if let (Some(p), Some(q)) = (a.prefix(), b.prefix()) {
    judge("Prefix", &p, &q, (p.nick, p.user, p.host) == (q.nick, q.user, q.host), true)?;
  }
  names("Command", &a.command(), &b.command(), a.command().as_str() == b.command().as_str())
}

/// Names: equality, order and hash agree.
fn names<T: Ord + Hash + Clone + Debug>(what: &str, a: &T, b: &T, alike: bool) -> Verdict {
  judge(what, a, b, alike, true)?;
  let order = a.cmp(b);
  if order.is_eq() != alike || a.partial_cmp(b) != Some(order) || b.cmp(a) != order.reverse() {
    return Err(format!("{what}: order of {a:?} and {b:?} is {order:?} and {:?}", b.cmp(a)));
  }
  if alike && hash(a) != hash(b) {
    return Err(format!("{what}: equal values {a:?} with different hashes"));
  }
  Ok(())
}

/// Equality, order and hash agree, whatever is equal.
fn consistent<T: Ord + Hash + Clone + Debug>(what: &str, a: &T, b: &T) -> Verdict {
  names(what, a, b, a == b)
}

fn spelled(line: &str) -> bool {
  !line.contains(['\\', '⸝'])
}

/// The same line with what is not spelled in one way taken out.
fn plain(kind: &mut Kind) {
  fn fix(s: &'static str) -> &'static str {
    if spelled(s) { s } else { String::leak(s.replace(['\\', '⸝'], "_")) }
  }
  for f in &mut kind.fields {
    f.base = f.base.map(fix);
    for a in &mut f.alts {
      *a = a.map(fix);
    }
    f.alts.dedup();
  }
}

pub fn run(run: &mut Run) {
  // all pairs of lines of a kind, both with escapes and without
  let mut groups: Vec<(&str, Vec<String>)> = vec![];
  let mut kinds: Vec<Kind> = all_kinds();
  let mut plains = kinds.clone();
  plains.iter_mut().for_each(plain);
  kinds.extend(plains);
  for kind in kinds {
    let name = kind.name;
    let space = Space::new(kind, 1);
    let mut line = String::new();
    let mut lines: Vec<String> = vec![];
    for i in 0..space.total() {
      space.get(i, &mut line);
      if Message::parse(&line).is_ok() {
        lines.push(line.clone());
      }
    }
    groups.push((name, lines));
  }
  let total: u64 = groups.iter().map(|(_, l)| (l.len() * l.len()) as u64).sum();
  let names_: Vec<&str> = groups.iter().map(|g| g.0).collect();
  run.family(
    "pairs of one kind",
    &format!("all ordered pairs of messages of a kind, each complete or with one change; {}", names_[..names_.len() / 2].join(", ")),
    total,
    |mut i, local| {
      for (_, lines) in &groups {
        let n = lines.len() as u64;
        if i < n * n {
          return case(&lines[(i / n) as usize], &lines[(i % n) as usize], i, local);
        }
        i -= n * n;
      }
      unreachable!()
    },
  );
  // two changes against one
  let step = if run.thorough() { 1 } else { 13 };
  let mut wide: Vec<(Space, Vec<String>)> = vec![];
  for kind in all_kinds() {
    let one = Space::new(kind.clone(), 1);
    let mut lines = vec![];
    let mut line = String::new();
    for i in (0..one.total()).step_by(step) {
      one.get(i, &mut line);
      if Message::parse(&line).is_ok() {
        lines.push(line.clone());
      }
    }
    wide.push((Space::new(kind, 2), lines));
  }
  let total = wide.iter().map(|(s, l)| s.total() * l.len() as u64).sum();
  let bound = format!("all messages with at most two changes, against {} of those of the same kind with at most one", if step == 1 { "each" } else { "every thirteenth" });
  run.family("two changes against one", &bound, total, |mut i, local| {
    for (space, lines) in &wide {
      let n = lines.len() as u64;
      if i < space.total() * n {
        let mut line = String::new();
        space.get(i / n, &mut line);
        return case(&line, &lines[(i % n) as usize], i, local);
      }
      i -= space.total() * n;
    }
    unreachable!()
  });
  // the same part, spelled almost in the same way
  let mut slots: Vec<Vec<String>> = vec![];
  for mut kind in all_kinds() {
    plain(&mut kind);
    for slot in 0..kind.fields.len() + 3 {
      let n = kind.fields.len();
      let value = match slot.checked_sub(n) {
        None => match kind.fields[slot].base {
          Some(base) if !base.is_empty() => base.to_string(),
          _ => continue,
        },
        Some(0) => "Some text".to_string(),
        Some(1) => "some_channel".to_string(),
        Some(_) => "some_login".to_string(),
      };
      let mut values = vec![
        value.clone(), value.to_uppercase(), value.to_lowercase(), format!("0{value}"), format!("+{value}"), format!("{value}0"),
        format!("{value}{value}"), format!("{value}\u{301}"), format!("\u{feff}{value}"), format!("{value}\u{a0}"), format!("{value}\u{200b}"),
        format!("{value},"), format!(",{value}"), format!("{value}/"), value[..value.len() - 1].to_string(), value[1..].to_string(),
        value.replace('-', "_"), value.chars().rev().collect(), String::new(), "a".into(), "A".into(), "e\u{301}".into(), "\u{e9}".into(), "\u{c9}".into(),
        "\u{df}".into(), "ss".into(), "0".into(), "00".into(), "1".into(), "2".into(),
      ];
      values.sort();
      values.dedup();
      let lines: Vec<String> = values.iter().map(|v| crate::typed::with_part(&kind, slot, v)).collect();
      slots.push(lines.into_iter().filter(|l| Message::parse(l).is_ok()).collect());
    }
  }
  let total: u64 = slots.iter().map(|l| (l.len() * l.len()) as u64).sum();
  run.family("parts which look alike", &format!("all ordered pairs of about 30 spellings of each of {} parts of messages of all kinds", slots.len()), total, |mut i, local| {
    for lines in &slots {
      let n = lines.len() as u64;
      if i < n * n {
        return case(&lines[(i / n) as usize], &lines[(i % n) as usize], i, local);
      }
      i -= n * n;
    }
    unreachable!()
  });
  // different kinds
  let mut some: Vec<String> = vec![];
  for kind in all_kinds() {
    let space = Space::new(kind, 1);
    let mut line = String::new();
    for i in (0..space.total()).step_by(if run.thorough() { 3 } else { 9 }) {
      space.get(i, &mut line);
      some.push(line.clone());
    }
  }
  let n = some.len() as u64;
  run.family("pairs of any kinds", &format!("all ordered pairs of {n} messages of all kinds"), n * n, |i, local| {
    case(&some[(i / n) as usize], &some[(i % n) as usize], i, local)
  });
  // names
  let mut tags: Vec<&str> = crate::names::TAGS.iter().map(|t| t.1).collect();
  tags.extend(["", "x", "ID", "ids", "i", "room_id", "Room-Id", "é", "badge", "badge-infos"]);
  let n = tags.len() as u64;
  run.family("names of tags", &format!("all ordered pairs of {n} names of tags"), n * n, |i, local| {
    let (a, b) = (tags[(i / n) as usize], tags[(i % n) as usize]);
    local.trace();
    local.steps(8);
    local.state(&i);
    local.sample(i, || format!("{a:?} {b:?}"));
    let (x, y) = (Tag::parse(a), Tag::parse(b));
    names("Tag", &x, &y, a == b)?;
    consistent("Tag", &x, &Tag::Unknown(b))?;
    consistent("Tag", &Tag::Unknown(a), &Tag::Unknown(b))?;
    if (x.to_string() == y.to_string()) != (a == b) {
      return Err(format!("Tag: shown as {x} and {y}"));
    }
    Ok(())
  });
}

fn case(a: &str, b: &str, i: u64, local: &mut Local) -> Verdict {
  local.trace();
  local.sample(i, || format!("{} and {}", show(a), show(b)));
  let wrong = |e: String| Err(format!("{e}\n  lines: {}\n         {}", show(a), show(b)));
  let (Some(x), Some(y)) = (IrcMessageRef::parse(a), IrcMessageRef::parse(b)) else {
    return Ok(());
  };
  if let Err(e) = base(&x, &y) {
    return wrong(e);
  }
  local.steps(2);
  let (Ok(x), Ok(y)) = (x.as_typed(), y.as_typed()) else {
    return Ok(());
  };
  local.steps(8);
  local.state(&mc_core::hash(&(x.view(), y.view())));
  let verdict = pair(&x, &y, spelled(a) && spelled(b)).and_then(|()| copy(&x));
  verdict.or_else(wrong)
}
