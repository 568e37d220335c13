// Included once per copy of the crate, in a module where `tmi` names that copy.

use super::{show, Obs};
use crate::model::{self, RefMsg};
use mc_core::Verdict;
use std::hint::black_box;
use tmi::{IrcMessage, IrcMessageRef, Message, Tag};

/// Call everything that can be asked of a line.
pub fn touch(s: &str, owned: bool) -> (bool, u64) {
  let mut n = 0u64;
  let mut add = |s: &str| n = n.wrapping_mul(31).wrapping_add(s.bytes().map(u64::from).sum::<u64>());
  let Some(m) = IrcMessageRef::parse(s) else {
    black_box(Message::parse(s).is_err());
    return (false, 0);
  };
  for (k, v) in m.tags() {
    add(k);
    add(v);
    black_box(Tag::parse(k));
  }
  if let Some(p) = m.prefix() {
    add(&p.to_string());
    black_box(format!("{p:?}"));
  }
  add(m.command().as_str());
  add(m.channel().unwrap_or(""));
  add(m.params().unwrap_or(""));
  add(m.text().unwrap_or(""));
  add(m.tag(Tag::Id).unwrap_or(""));
  add(m.tag("no-such-tag").unwrap_or(""));
  add(m.raw());
  if s.len() < 600 {
    black_box(format!("{m:?}"));
  }
  if owned {
    if let Some(o) = IrcMessage::parse(s) {
      for (k, v) in o.tags() {
        add(k);
        add(v);
      }
      add(o.command().as_str());
      add(o.channel().unwrap_or(""));
      add(o.params().unwrap_or(""));
      add(o.text().unwrap_or(""));
      add(o.tag(Tag::Id).unwrap_or(""));
      black_box(o.prefix());
      if s.len() < 600 {
        black_box(format!("{o:?}"));
      }
      black_box(o.as_typed().is_ok());
      black_box(o.as_ref().into_owned());
    }
  }
  if let Ok(t) = Message::parse(s) {
    if !matches!(t, Message::Other(_)) || s.len() < 600 {
      black_box(format!("{t:?}"));
    }
  }
  (true, n)
}

/// What a line is decomposed into, relative to its start.
pub fn observe(s: &str) -> Option<Obs> {
  let m = IrcMessageRef::parse(s)?;
  let base = s.as_ptr() as usize;
  let span = |p: &str| ((p.as_ptr() as usize).wrapping_sub(base), p.len());
  Some(Obs {
    tags: m.tags().map(|(k, v)| (span(k), span(v))).collect(),
    prefix: m.prefix().map(|p| p.to_string()),
    command: m.command().as_str().to_string(),
    channel: m.channel().map(str::to_string),
    params: m.params().map(str::to_string),
    text: m.text().map(str::to_string),
  })
}

fn check_prefix(m: &RefMsg<'_>, got: Option<tmi::Prefix<'_>>) -> Verdict {
  let (want, got) = match (&m.prefix, got) {
    (None, None) => return Ok(()),
    (Some(w), Some(g)) => (w, g),
    (w, g) => return Err(format!("prefix is {g:?}, expected {w:?}")),
  };
  if !want.well_formed {
    return Ok(());
  }
  if got.nick != want.nick || got.user != want.user || got.host != want.host {
    return Err(format!("prefix is {got:?}, expected {want:?}"));
  }
  let text = got.to_string();
  if text != want.raw {
    return Err(format!("prefix is displayed as {text:?}, expected {:?}", want.raw));
  }
  Ok(())
}

/// Every part is the substring which the grammar says.
pub fn decompose(line: &str) -> Verdict {
  let want = model::parse(line);
  let got = IrcMessageRef::parse(line);
  let (want, got) = match (want, got) {
    (None, None) => return Ok(()),
    (Some(w), Some(g)) => (w, g),
    (w, _) => {
      let (was, not) = if w.is_some() { ("rejected", "accepted") } else { ("accepted", "rejected") };
      return Err(format!("was {was}, should be {not}"));
    }
  };
  let eq = |what: &str, got: Option<&str>, want: Option<&str>| -> Verdict {
    if got != want {
      return Err(format!("{what} is {}, expected {}", show(got.unwrap_or("(none)")), show(want.unwrap_or("(none)"))));
    }
    Ok(())
  };
  eq("raw", Some(got.raw()), Some(want.raw))?;
  let mut n = 0;
  for (k, v) in got.tags() {
    match want.tags.get(n) {
      Some((wk, wv)) => {
        eq("tag key", Some(k), Some(wk))?;
        eq("tag value", Some(v), Some(wv))?;
      }
      None => return Err(format!("unexpected tag {}={}", show(k), show(v))),
    }
    n += 1;
  }
  if n != want.tags.len() {
    return Err(format!("{n} tags, expected {}", want.tags.len()));
  }
  check_prefix(&want, got.prefix())?;
  if got.command().as_str() != want.command {
    return Err(format!("command is {:?}, expected {:?}", got.command().as_str(), want.command));
  }
  eq("params", got.params(), want.params)?;
  eq("text", got.text(), want.text())?;
  eq("channel", got.channel(), want.channel())?;
  Ok(())
}
