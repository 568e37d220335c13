//! C01, C02, C05: the line parser.

use crate::model::{self, RefMsg};
use crate::view::Viewed;
use mc_core::lines::{self, Lines};
use mc_core::{guard, Local, Run, Verdict};
use std::hint::black_box;
use tmi::{IrcMessage, IrcMessageRef, Message, Tag};

fn spaces(run: &Run, line_ends: bool, short: usize) -> Vec<Lines> {
  let mut all = vec![
    lines::short(short),
    lines::tokens(run.pick(5, 6)),
    lines::parts(),
    lines::prefixes(run.pick(5, 7)),
    lines::arguments(run.pick(5, 7)),
    lines::characters(run.pick(70, 140)),
    lines::section_ends(run.pick(400, 700), run.pick(70, 140)),
    lines::no_end(run.pick(1000, 4000)),
    lines::clusters(run.pick(4, 6), 70, run.pick(36, 70)),
    lines::counts(run.pick(300, 1200)),
    lines::lengths(run.pick(17, 18)),
    lines::edits(),
    lines::blanks(line_ends),
    lines::separators(line_ends),
    lines::long_ends(),
  ];
  all.extend(lines::positions(run.pick(100, 140), if run.thorough() { &[31, 32, 33, 63, 64, 65] } else { &[] }));
  if run.thorough() {
    all.push(lines::double_edits());
  }
  all
}

fn over<F>(run: &mut Run, spaces: Vec<Lines>, check: F)
where
  F: Fn(&str, u64, &mut Local) -> Verdict + Sync,
{
  for space in spaces {
    let bound = space.bound.clone();
    run.family(space.name, &bound, space.total, |i, local| {
      let mut line = String::new();
      space.get(i, &mut line);
      local.trace();
      local.sample(i, || show(&line));
      check(&line, i, local).map_err(|e| format!("{e}\n  line: {}", show(&line)))
    });
  }
}

/// A line, shortened for reports.
pub fn show(s: &str) -> String {
  if s.len() <= 400 {
    return format!("{s:?}");
  }
  let cut = |mut n: usize| {
    while !s.is_char_boundary(n) {
      n += 1;
    }
    n
  };
  format!("{:?}...{:?} ({} bytes)", &s[..cut(150)], &s[cut(s.len() - 100)..], s.len())
}

/// Call everything that can be asked of a line.
pub fn touch(s: &str, owned: bool) -> (bool, u64) {
  let mut n = 0u64;
  let mut add = |s: &str| n = n.wrapping_mul(31).wrapping_add(s.bytes().map(u64::from).sum::<u64>());
  let Some(m) = IrcMessageRef::parse(s) else {
    assert_none(Message::parse(s).is_err());
    return (false, 0);
  };
  for (k, v) in m.tags() {
    add(k);
    add(v);
    black_box(Tag::parse(k));
  }
  if let Some(p) = m.prefix() {
    add(&p.to_string());
    black_box(format!("{p:?}"));
  }
  add(m.command().as_str());
  add(m.channel().unwrap_or(""));
  add(m.params().unwrap_or(""));
  add(m.text().unwrap_or(""));
  add(m.tag(Tag::Id).unwrap_or(""));
  add(m.tag("no-such-tag").unwrap_or(""));
  add(m.raw());
  if s.len() < 600 {
    black_box(format!("{m:?}"));
  }
  if owned {
    if let Some(o) = IrcMessage::parse(s) {
      for (k, v) in o.tags() {
        add(k);
        add(v);
      }
      add(o.command().as_str());
      add(o.channel().unwrap_or(""));
      add(o.params().unwrap_or(""));
      add(o.text().unwrap_or(""));
      add(o.tag(Tag::Id).unwrap_or(""));
      black_box(o.prefix());
      if s.len() < 600 {
        black_box(format!("{o:?}"));
      }
      black_box(o.as_typed().is_ok());
      black_box(o.as_ref().into_owned());
    }
  }
  if let Ok(t) = Message::parse(s) {
    if !matches!(t, Message::Other(_)) || s.len() < 600 {
      black_box(t.view());
      black_box(format!("{t:?}"));
    }
  }
  (true, n)
}

fn assert_none(_: bool) {}

/// C01: nothing panics, hangs or reads outside of the string.
pub fn total(run: &mut Run) {
  run.assume("the string is a valid &str; memory outside of it is unmapped on one side at a time");
  let spaces = spaces(run, true, run.pick(7, 8));
  over(run, spaces, |line, _, local| {
    let a = guard::with(|g| g.at_end(line, |s| touch(s, true)));
    let b = guard::with(|g| g.at_start(line, |s| touch(s, false)));
    local.steps(2);
    local.state(&a);
    // the result may not depend on what surrounds the string either
    if a.0 != b.0 {
      return Err("accepted or rejected depending on the surrounding memory".into());
    }
    Ok(())
  });
  crate::typed::hostile(run);
}

fn check_prefix(m: &RefMsg<'_>, got: Option<tmi::Prefix<'_>>) -> Verdict {
  let (want, got) = match (&m.prefix, got) {
    (None, None) => return Ok(()),
    (Some(w), Some(g)) => (w, g),
    (w, g) => return Err(format!("prefix is {g:?}, expected {w:?}")),
  };
  if !want.well_formed {
    return Ok(());
  }
  if got.nick != want.nick || got.user != want.user || got.host != want.host {
    return Err(format!("prefix is {got:?}, expected {want:?}"));
  }
  let text = got.to_string();
  if text != want.raw {
    return Err(format!("prefix is displayed as {text:?}, expected {:?}", want.raw));
  }
  Ok(())
}

/// C02: every part is the substring which the grammar says.
fn decompose(line: &str) -> Verdict {
  let want = model::parse(line);
  let got = IrcMessageRef::parse(line);
  let (want, got) = match (want, got) {
    (None, None) => return Ok(()),
    (Some(w), Some(g)) => (w, g),
    (w, _) => {
      let (was, not) = if w.is_some() { ("rejected", "accepted") } else { ("accepted", "rejected") };
      return Err(format!("was {was}, should be {not}"));
    }
  };
  let eq = |what: &str, got: Option<&str>, want: Option<&str>| -> Verdict {
    if got != want {
      return Err(format!("{what} is {}, expected {}", show(got.unwrap_or("(none)")), show(want.unwrap_or("(none)"))));
    }
    // a substring of the input, not a copy of something else
    if let Some(g) = got {
      let (a, b) = (line.as_ptr() as usize, line.as_ptr() as usize + line.len());
      let (c, d) = (g.as_ptr() as usize, g.as_ptr() as usize + g.len());
      if !g.is_empty() && (c < a || d > b) {
        return Err(format!("{what} is no part of the line"));
      }
    }
    Ok(())
  };
  eq("raw", Some(got.raw()), Some(want.raw))?;
  let mut n = 0;
  for (k, v) in got.tags() {
    match want.tags.get(n) {
      Some((wk, wv)) => {
        eq("tag key", Some(k), Some(wk))?;
        eq("tag value", Some(v), Some(wv))?;
      }
      None => return Err(format!("unexpected tag {}={}", show(k), show(v))),
    }
    n += 1;
  }
  if n != want.tags.len() {
    return Err(format!("{n} tags, expected {}", want.tags.len()));
  }
  check_prefix(&want, got.prefix())?;
  if got.command().as_str() != want.command {
    return Err(format!("command is {:?}, expected {:?}", got.command().as_str(), want.command));
  }
  eq("params", got.params(), want.params)?;
  eq("text", got.text(), want.text())?;
  eq("channel", got.channel(), want.channel())?;
  Ok(())
}

pub fn grammar(run: &mut Run) {
  let spaces = spaces(run, false, run.pick(8, 9));
  over(run, spaces, |line, _, local| {
    let m = model::parse(line);
    local.steps(1 + m.as_ref().map_or(0, |m| 6 + m.tags.len() as u64));
    local.state(&m.map(|m| m.shape(line)));
    decompose(line)
  });
}

/// C05: all ways to obtain and convert a message give the same.
fn same(line: &str, local: &mut Local) -> Verdict {
  let Some(reference) = IrcMessageRef::parse(line) else {
    return match IrcMessage::parse(line) {
      None => Ok(()),
      Some(_) => Err("rejected as borrowed, accepted as owned".into()),
    };
  };
  let Some(owned) = IrcMessage::parse(line) else {
    return Err("accepted as borrowed, rejected as owned".into());
  };
  // forms obtained by conversion, from a string which is gone afterwards
  let converted = guard::with(|g| {
    let m = g.at_end(line, |s| IrcMessageRef::parse(s).map(|m| m.into_owned()));
    g.scrub(line.len());
    m
  });
  let Some(converted) = converted else {
    return Err("accepted or rejected depending on its place in memory".into());
  };
  let again = converted.as_ref().into_owned();
  let cloned = reference.clone();
  let borrowed = owned.as_ref();
  local.steps(6);
  let borrowed_forms: [(&str, &IrcMessageRef<'_>); 3] =
    [("clone", &cloned), ("as_ref", &borrowed), ("as_ref of converted", &again.as_ref())];
  let owned_forms: [(&str, &IrcMessage); 3] =
    [("owned", &owned), ("into_owned", &converted), ("into_owned twice", &again)];
  macro_rules! compare {
    ($name:expr, $m:expr) => {{
      let (name, m) = ($name, $m);
      macro_rules! eq {
        ($what:literal, $a:expr, $b:expr) => {
          let (a, b) = ($a, $b);
          if a != b {
            return Err(format!("{name}: {} is {a:?}, the borrowed message has {b:?}", $what));
          }
        };
      }
      eq!("raw", m.raw(), reference.raw());
      if !m.tags().eq(reference.tags()) {
        return Err(format!("{name}: tags differ"));
      }
      eq!("prefix", m.prefix(), reference.prefix());
      eq!("command", m.command(), reference.command());
      eq!("channel", m.channel(), reference.channel());
      eq!("params", m.params(), reference.params());
      eq!("text", m.text(), reference.text());
      for (n, (k, _)) in reference.tags().enumerate() {
        // quadratic: not for all of many tags
        if n >= 40 && n % 50 != 0 {
          continue;
        }
        eq!("tag by name", m.tag(k), reference.tag(k));
        eq!("unknown tag", m.tag(Tag::Unknown(k)), reference.tag(Tag::Unknown(k)));
      }
      for tag in [Tag::Id, Tag::MsgId, Tag::Badges, Tag::RoomId, Tag::TmiSentTs] {
        eq!("tag", m.tag(tag.clone()), reference.tag(tag));
      }
      if line.len() < 600 {
        let fields = |s: String| s.split_once(' ').map(|(_, f)| f.to_string()).unwrap_or_default();
        eq!("debug form", fields(format!("{m:?}")), fields(format!("{reference:?}")));
      }
    }};
  }
  for (name, m) in borrowed_forms {
    compare!(name, m);
  }
  for (name, m) in owned_forms {
    compare!(name, m);
  }
  let views = [
    reference.clone().as_typed().map(|t| t.view()).ok(),
    owned.as_typed().map(|t| t.view()).ok(),
    converted.as_typed().map(|t| t.view()).ok(),
  ];
  if views[0] != views[1] || views[0] != views[2] {
    return Err(format!("typed messages differ: {views:?}"));
  }
  Ok(())
}

pub fn forms(run: &mut Run) {
  let spaces = vec![
    lines::short(run.pick(6, 7)),
    lines::tokens(run.pick(5, 6)),
    lines::parts(),
    lines::prefixes(run.pick(4, 6)),
    lines::arguments(run.pick(4, 6)),
    lines::characters(run.pick(36, 70)),
    lines::counts(run.pick(140, 300)),
    lines::lengths(run.pick(17, 18)),
    lines::edits(),
    lines::blanks(true),
    lines::separators(true),
    lines::long_ends(),
  ];
  over(run, spaces, |line, _, local| {
    local.state(&model::parse(line).map(|m| m.shape(line)));
    same(line, local)
  });
}
