//! C30: reading back serialized messages which were edited.

use crate::lines::show;
use crate::owned::detached_equal;
use crate::spaces::*;
use crate::view::{self, Viewed};
use mc_core::{Local, Run, Verdict};
use serde::de::{Deserialize, Deserializer, MapAccess, SeqAccess, Visitor};
use std::collections::BTreeSet;
use std::fmt::Write;
use std::sync::OnceLock;
use tmi::*;

/// JSON with the order in which it was written.
#[derive(Clone, Debug, PartialEq)]
enum Tree {
  /// as text
  Plain(String),
  List(Vec<Tree>),
  Map(Vec<(String, Tree)>),
}

impl<'de> Deserialize<'de> for Tree {
  fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    struct V;
    impl<'de> Visitor<'de> for V {
      type Value = Tree;
      fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("anything")
      }
      fn visit_unit<E>(self) -> Result<Tree, E> {
        Ok(Tree::Plain("null".into()))
      }
      fn visit_bool<E>(self, v: bool) -> Result<Tree, E> {
        Ok(Tree::Plain(v.to_string()))
      }
      fn visit_u64<E>(self, v: u64) -> Result<Tree, E> {
        Ok(Tree::Plain(v.to_string()))
      }
      fn visit_i64<E>(self, v: i64) -> Result<Tree, E> {
        Ok(Tree::Plain(v.to_string()))
      }
      fn visit_f64<E>(self, v: f64) -> Result<Tree, E> {
        Ok(Tree::Plain(format!("{v:?}")))
      }
      fn visit_str<E>(self, v: &str) -> Result<Tree, E> {
        Ok(Tree::Plain(quoted(v)))
      }
      fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Tree, A::Error> {
        let mut v = vec![];
        while let Some(t) = a.next_element()? {
          v.push(t);
        }
        Ok(Tree::List(v))
      }
      fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Tree, A::Error> {
        let mut v = vec![];
        while let Some(e) = a.next_entry()? {
          v.push(e);
        }
        Ok(Tree::Map(v))
      }
    }
    d.deserialize_any(V)
  }
}

fn quoted(s: &str) -> String {
  serde_json::Value::from(s).to_string()
}

/// How a tree is written.
#[derive(Clone, Copy, PartialEq)]
enum Style {
  Usual,
  /// as many spaces and line breaks as possible
  Spaced,
  /// all characters of strings as escapes
  Escaped,
}

impl Style {
  fn string(self, quoted: &str, out: &mut String) {
    if self != Style::Escaped {
      out.push_str(quoted);
      return;
    }
    let s: String = serde_json::from_str(quoted).unwrap_or_default();
    out.push('"');
    for u in s.encode_utf16() {
      let _ = write!(out, "\\u{u:04x}");
    }
    out.push('"');
  }
}

impl Tree {
  fn text(&self, style: Style) -> String {
    let mut s = String::new();
    self.write(style, &mut s);
    s
  }

  fn write(&self, style: Style, out: &mut String) {
    let gap = if style == Style::Spaced { " \n\t\r " } else { "" };
    out.push_str(gap);
    match self {
      Tree::Plain(p) if p.starts_with('"') => style.string(p, out),
      Tree::Plain(p) => out.push_str(p),
      Tree::List(v) => {
        out.push('[');
        for (n, t) in v.iter().enumerate() {
          if n > 0 {
            out.push(',');
          }
          t.write(style, out);
        }
        out.push_str(gap);
        out.push(']');
      }
      Tree::Map(v) => {
        out.push('{');
        for (n, (k, t)) in v.iter().enumerate() {
          if n > 0 {
            out.push(',');
          }
          out.push_str(gap);
          style.string(&quoted(k), out);
          out.push_str(gap);
          out.push(':');
          t.write(style, out);
        }
        out.push_str(gap);
        out.push('}');
      }
    }
    out.push_str(gap);
  }

  /// The number of parts, this one included.
  fn size(&self) -> usize {
    1 + match self {
      Tree::Plain(_) => 0,
      Tree::List(v) => v.iter().map(Tree::size).sum(),
      Tree::Map(v) => v.iter().map(|(_, t)| t.size()).sum(),
    }
  }

  /// The parts, in order.
  fn part(&mut self, n: usize) -> Option<&mut Tree> {
    if n == 0 {
      return Some(self);
    }
    let mut n = n - 1;
    let parts: Vec<&mut Tree> = match self {
      Tree::Plain(_) => vec![],
      Tree::List(v) => v.iter_mut().collect(),
      Tree::Map(v) => v.iter_mut().map(|(_, t)| t).collect(),
    };
    for p in parts {
      let size = p.size();
      if n < size {
        return p.part(n);
      }
      n -= size;
    }
    None
  }
}

/// What may take the place of a part.
const INSTEAD: &[&str] = &[
  "null", "true", "false", "0", "1", "-1", "2", "255", "256", "4294967296", "9223372036854775807", "-9223372036854775808", "18446744073709551615",
  "18446744073709551616", "1.5", "-0.0", "1e300", "8210266876799999", "8210266876800000", "-8334601228800001", "999999999", "1000000000",
  "\"\"", "\"x\"", "\"0\"", "\"12\"", "\"+7\"", "\"007\"", "\"18446744073709551615\"", "\"18446744073709551616\"", "\"-1\"", "\"a\\\\sb\"", "\"\\\\\"", "\"\\u0000é\\\"\\\\ \"", "\"a,b\"",
  "\"2022-01-20T23:16:22.342Z\"", "\"2022-01-20T23:16:22.342+02:00\"", "\"2016-12-31T23:59:60Z\"", "\"+262142-12-31T23:59:59.999999999Z\"",
  "\"-262143-01-01T00:00:00Z\"", "\"-262143-01-01T00:00:00+23:59\"", "\"+262142-12-31T23:59:59-23:59\"", "\"0000-01-01T00:00:00Z\"", "\"1970-01-01T00:00:00.0005Z\"",
  "[]", "[null]", "[\"x\"]", "[0,0]", "{}", "{\"x\":0}", "{\"secs\":18446744073709551615,\"nanos\":999999999}", "{\"secs\":18446744073709551615,\"nanos\":4294967295}",
  "{\"secs\":1,\"nanos\":1000000000}", "[1,2]", "\"One\"", "\"None\"", "\"Anonymous\"", "{\"Other\":{}}", "{\"name\":\"a\",\"version\":\"b\",\"extra\":\"c\"}",
  "{\"Subscriber\":{\"version\":\"0\",\"months\":\"18446744073709551616\"}}", "{\"Other\":{\"name\":\"vip\",\"version\":\"\",\"extra\":null}}", "[{\"Moderator\":null}]",
];

#[derive(Clone, Copy, Debug)]
enum Edit {
  Replace(usize, usize),
  /// by a copy of another part
  Copy(usize, usize),
  Remove(usize, usize),
  Rename(usize, usize),
  /// something unknown in front
  Insert(usize),
  /// an entry for something which is part of a message, and not written
  Unwritten(usize, usize, usize),
  Twice(usize, usize),
  /// a struct as the list of its parts
  AsList(usize),
}

impl Edit {
  fn apply(self, tree: &mut Tree) -> Option<()> {
    let parse = |s: &str| serde_json::from_str::<Tree>(s).unwrap_or_else(|e| mc_core::error(&format!("{s}: {e}")));
    match self {
      Edit::Replace(n, with) => {
        // as it is written, however large the number
        let with = INSTEAD[with];
        *tree.part(n)? = if with.starts_with(['[', '{']) { parse(with) } else { Tree::Plain(with.into()) };
      }
      Edit::Copy(n, from) => {
        let t = tree.part(from)?.clone();
        *tree.part(n)? = t;
      }
      Edit::Remove(n, k) => match tree.part(n)? {
        Tree::List(v) if k < v.len() => drop(v.remove(k)),
        Tree::Map(v) if k < v.len() => drop(v.remove(k)),
        _ => return None,
      },
      Edit::Rename(n, k) => match tree.part(n)? {
        Tree::Map(v) => {
          let key = &mut v.get_mut(k)?.0;
          key.push('_');
        }
        _ => return None,
      },
      Edit::Insert(n) => match tree.part(n)? {
        Tree::Map(v) => v.insert(0, ("unknown".into(), parse("{\"a\":[1,\"x\",null]}"))),
        Tree::List(v) => v.insert(0, Tree::Plain("null".into())),
        _ => return None,
      },
      Edit::Unwritten(n, k, with) => match tree.part(n)? {
        Tree::Map(v) => v.push((UNWRITTEN.get()?.get(k)?.clone(), parse(SAYING[with]))),
        _ => return None,
      },
      Edit::Twice(n, k) => match tree.part(n)? {
        Tree::Map(v) => {
          let e = v.get(k)?.clone();
          v.push(e);
        }
        Tree::List(v) => {
          let e = v.get(k)?.clone();
          v.push(e);
        }
        _ => return None,
      },
      Edit::AsList(n) => {
        let t = tree.part(n)?;
        match t {
          Tree::Map(v) => *t = Tree::List(std::mem::take(v).into_iter().map(|(_, t)| t).collect()),
          _ => return None,
        }
      }
    }
    Some(())
  }
}

/// What is said for an unwritten part.
const SAYING: &[&str] = &["null", "true", "0", "1", "7", "\"x\"", "\"7\"", "[]", "{}"];

static UNWRITTEN: OnceLock<Vec<String>> = OnceLock::new();

/// The names of the parts of messages, as in the source, without those which are written.
fn unwritten(lines: &[String]) -> Vec<String> {
  let mut names = BTreeSet::new();
  let mut written = BTreeSet::new();
  fn keys(t: &Tree, all: &mut BTreeSet<String>) {
    match t {
      Tree::Plain(_) => {}
      Tree::List(v) => v.iter().for_each(|t| keys(t, all)),
      Tree::Map(v) => v.iter().for_each(|(k, t)| {
        all.insert(k.clone());
        keys(t, all);
      }),
    }
  }
  for line in lines {
    let Ok(m) = Message::parse(line.as_str()) else { continue };
    let debug = format!("{m:#?}");
    // strings are on one line, and their quotes and line breaks are escaped
    for l in debug.lines() {
      if let Some((name, _)) = l.trim_start().split_once(": ") {
        if !name.is_empty() && name.bytes().all(|b| b.is_ascii_lowercase() || b.is_ascii_digit() || b == b'_') {
          names.insert(name.to_string());
        }
      }
    }
    if let Some(t) = serialized(&m).and_then(|(_, text, _)| serde_json::from_str(&text).ok()) {
      keys(&t, &mut written);
    }
  }
  names.into_iter().filter(|n| !written.contains(n)).collect()
}

fn edits(tree: &Tree) -> Vec<Edit> {
  let names = UNWRITTEN.get().map_or(0, Vec::len);
  let mut tree = tree.clone();
  let size = tree.size();
  let mut all = vec![];
  for n in 0..size {
    all.extend((0..INSTEAD.len()).map(|w| Edit::Replace(n, w)));
    all.extend((0..size).filter(|m| *m != n).map(|m| Edit::Copy(n, m)));
    let parts = match tree.part(n) {
      Some(Tree::Map(v)) => v.len(),
      Some(Tree::List(v)) => v.len(),
      _ => continue,
    };
    all.extend([Edit::Insert(n), Edit::AsList(n)]);
    if matches!(tree.part(n), Some(Tree::Map(_))) {
      all.extend((0..names).flat_map(|k| (0..SAYING.len()).map(move |v| Edit::Unwritten(n, k, v))));
    }
    for k in 0..parts {
      all.extend([Edit::Remove(n, k), Edit::Rename(n, k), Edit::Twice(n, k)]);
    }
  }
  all
}

/// A serialized message and its name.
struct Form {
  line: String,
  kind: usize,
  tree: Tree,
  bytes: Vec<u8>,
}

macro_rules! kinds {
  ($($n:literal $name:ident),*) => {
    const KINDS: usize = [$($n),*].len();

    /// Serialized, as text and as bincode.
    fn serialized(m: &Message<'_>) -> Option<(usize, String, Vec<u8>)> {
      match m {
        $(Message::$name(m) => Some(($n, serde_json::to_string(m).ok()?, bincode::serialize(m).ok()?)),)*
        _ => None,
      }
    }

    fn read(kind: usize, text: &str) -> Result<Message<'_>, serde_json::Error> {
      match kind {
        $($n => serde_json::from_str(text).map(Message::$name),)*
        _ => unreachable!(),
      }
    }

    fn read_reader(kind: usize, text: &str) -> Result<Message<'static>, serde_json::Error> {
      let mut de = serde_json::Deserializer::from_reader(text.as_bytes());
      let m = match kind {
        $($n => $name::deserialize(&mut de).map(Message::$name)?,)*
        _ => unreachable!(),
      };
      de.end()?;
      Ok(m)
    }

    fn read_value(kind: usize, value: serde_json::Value) -> Result<Message<'static>, serde_json::Error> {
      match kind {
        $($n => $name::deserialize(value).map(Message::$name),)*
        _ => unreachable!(),
      }
    }

    fn read_bincode(kind: usize, bytes: &[u8]) -> Result<Message<'_>, bincode::Error> {
      match kind {
        $($n => bincode::deserialize(bytes).map(Message::$name),)*
        _ => unreachable!(),
      }
    }
  };
}
kinds!(0 ClearChat, 1 ClearMsg, 2 GlobalUserState, 3 Join, 4 Notice, 5 Part, 6 Ping, 7 Pong, 8 Privmsg, 9 RoomState, 10 UserNotice, 11 UserState, 12 Whisper);

fn same(what: &str, a: &Message<'_>, b: &Message<'_>) -> Verdict {
  if a.view() != b.view() {
    return Err(format!("{what}: {}", view::diff(&b.view(), &a.view()).unwrap_or_default()));
  }
  Ok(())
}

/// Whatever is read is a proper message, or an error.
fn judge(kind: usize, text: &str, agree: bool, local: &mut Local) -> Verdict {
  let got = read(kind, text);
  local.steps(1);
  let reader = read_reader(kind, text);
  let value = serde_json::from_str(text).map(|v| read_value(kind, v));
  if agree {
    let ok = [got.is_ok(), reader.is_ok(), matches!(value, Ok(Ok(_)))];
    if ok != [ok[0]; 3] {
      return Err(format!("accepted from text, a reader, a value: {ok:?}"));
    }
  }
  let Ok(m) = got else {
    local.state(&0);
    return Ok(());
  };
  local.state(&mc_core::hash(&m.view()));
  if let (true, Ok(r), Ok(Ok(v))) = (agree, &reader, &value) {
    same("from a reader", &m, r)?;
    same("from a value", &m, v)?;
  }
  again(kind, &m)
}

/// It is read back the same, and has the same owned form.
fn again(kind: usize, m: &Message<'_>) -> Verdict {
  let Some((n, text, bytes)) = serialized(m) else { return Err("can't be serialized again".into()) };
  if n != kind {
    return Err("is of another kind".into());
  }
  let text_form = read(kind, &text).map_err(|e| format!("serialized again, not read back: {e}: {text}"))?;
  same("serialized again", m, &text_form)?;
  let binary = read_bincode(kind, &bytes).map_err(|e| format!("serialized to bincode, not read back: {e}"))?;
  same("serialized to bincode", m, &binary)?;
  if serialized(&binary).is_none_or(|(_, t, b)| t != text || b != bytes) {
    return Err(format!("does not stay {text}"));
  }
  detached_equal(m)
}

fn whole(form: &Form, tree: &Tree, agree: bool, local: &mut Local) -> Verdict {
  let text = tree.text(Style::Usual);
  judge(form.kind, &text, agree, local).map_err(|e| format!("{e}\n  JSON: {text}\n  made from: {}", show(&form.line)))
}

fn duplicates(e: &Edit) -> bool {
  matches!(e, Edit::Twice(..))
}

fn forms(lines: impl Iterator<Item = String>) -> Vec<Form> {
  let mut all: Vec<Form> = vec![];
  let mut known = std::collections::HashSet::new();
  for line in lines {
    let Some(m) = Message::parse(line.as_str()).ok() else { continue };
    let Some((kind, text, bytes)) = serialized(&m) else { continue };
    if !known.insert((kind, text.clone())) {
      continue;
    }
    match serde_json::from_str(&text) {
      Ok(tree) => all.push(Form { kind, tree, bytes, line: line.clone() }),
      Err(e) => mc_core::error(&format!("{text}: {e}")),
    }
  }
  all
}

fn lines(k: usize) -> Vec<String> {
  let mut all = vec![];
  for kind in all_kinds() {
    let space = Space::new(kind, k);
    for i in 0..space.total() {
      let mut line = String::new();
      space.get(i, &mut line);
      all.push(line);
    }
  }
  all
}

/// Case numbers of all forms, one after another.
struct Sum(Vec<u64>);
impl Sum {
  fn new(counts: impl Iterator<Item = u64>) -> Self {
    let mut at = 0;
    let mut v = vec![0];
    v.extend(counts.map(|c| {
      at += c;
      at
    }));
    Sum(v)
  }
  fn total(&self) -> u64 {
    self.0[self.0.len() - 1]
  }
  fn get(&self, i: u64) -> (usize, u64) {
    let n = self.0.partition_point(|s| *s <= i) - 1;
    (n, i - self.0[n])
  }
}

/// Orders of `n` entries: all of a few, rotations and reversals of many.
fn orders(n: usize) -> Vec<Vec<usize>> {
  fn all(left: &[usize], so_far: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    if left.is_empty() {
      out.push(so_far.clone());
    }
    for (i, e) in left.iter().enumerate() {
      let mut rest = left.to_vec();
      rest.remove(i);
      so_far.push(*e);
      all(&rest, so_far, out);
      so_far.pop();
    }
  }
  let ids: Vec<usize> = (0..n).collect();
  let mut out = vec![];
  if n <= 6 {
    all(&ids, &mut vec![], &mut out);
    return out;
  }
  for r in 0..n {
    let mut v = ids.clone();
    v.rotate_left(r);
    out.push(v.clone());
    v.reverse();
    out.push(v);
    // each two exchanged
    for s in r + 1..n {
      let mut v = ids.clone();
      v.swap(r, s);
      out.push(v);
    }
  }
  out
}

pub fn run(check: &mut Run) {
  assert_eq!(KINDS, 13);
  let names = UNWRITTEN.get_or_init(|| unwritten(&lines(1)));
  let few = forms(lines(0).into_iter());
  let many = forms(lines(1).into_iter());
  let edits_of = |f: &Form| edits(&f.tree);
  let edits_of_many: Vec<Vec<Edit>> = many.iter().map(edits_of).collect();
  let sum = Sum::new(edits_of_many.iter().map(|e| e.len() as u64));
  check.family("edited", &format!("{} messages with at most one deviation of every kind, each part in turn replaced by {} others or a copy of any other, removed, renamed, given twice, with something unknown or an entry for a part which is not written ({})", many.len(), INSTEAD.len(), names.join(", ")), sum.total(), |i, local| {
    let (n, e) = sum.get(i);
    let form = &many[n];
    let edit = edits_of_many[n][e as usize];
    local.trace();
    let mut tree = form.tree.clone();
    if edit.apply(&mut tree).is_none() {
      return Ok(());
    }
    local.sample(i, || format!("{edit:?} {}", tree.text(Style::Usual)));
    whole(form, &tree, !duplicates(&edit), local)
  });
  // two edits of the complete messages
  let thorough = check.thorough();
  let pairs: Vec<(usize, Vec<Edit>)> = few
    .iter()
    .enumerate()
    .map(|(n, f)| (n, edits_of(f).into_iter().filter(|e| check.thorough() || !matches!(e, Edit::Copy(..))).collect::<Vec<_>>()))
    .collect();
  let sum = Sum::new(pairs.iter().map(|(_, e)| e.len() as u64));
  check.family("edited twice", &format!("{} complete messages, all pairs of edits{}", few.len(), if check.thorough() { "" } else { " but copies, each with every 7th of those after it where there are more than 700" }), sum.total(), |i, local| {
    let (n, e) = sum.get(i);
    let (form, edits) = (&few[pairs[n].0], &pairs[n].1);
    let step = if thorough || edits.len() < 700 { 1 } else { 7 };
    for second in edits.iter().skip(e as usize + 1).step_by(step) {
      let mut tree = form.tree.clone();
      if edits[e as usize].apply(&mut tree).is_none() {
        return Ok(());
      }
      if second.apply(&mut tree).is_none() {
        continue;
      }
      local.trace();
      let same_name = matches!((edits[e as usize], second), (Edit::Unwritten(_, a, _), Edit::Unwritten(_, b, _)) if a == *b);
      whole(form, &tree, !duplicates(&edits[e as usize]) && !duplicates(second) && !same_name, local)?;
    }
    Ok(())
  });
  // what a store may do to a message
  let sum = Sum::new(many.iter().map(|f| f.tree.size() as u64 + 1));
  check.family("rearranged", &format!("{} messages: the entries of each part in other orders, spaces, escapes", many.len()), sum.total(), |i, local| {
    let (n, part) = sum.get(i);
    let form = &many[n];
    let plain = form.tree.text(Style::Usual);
    let Ok(original) = read(form.kind, &plain) else { return Err(format!("not read back: {plain}")) };
    let mut texts = vec![];
    if part as usize == form.tree.size() {
      texts.extend([form.tree.text(Style::Spaced), form.tree.text(Style::Escaped)]);
    } else {
      let mut tree = form.tree.clone();
      let entries = match tree.part(part as usize) {
        Some(Tree::Map(v)) if v.len() > 1 => v.clone(),
        _ => return Ok(()),
      };
      for order in orders(entries.len()) {
        if let Some(Tree::Map(v)) = tree.part(part as usize) {
          *v = order.iter().map(|n| entries[*n].clone()).collect();
        }
        texts.push(tree.text(Style::Usual));
      }
    }
    for text in texts {
      local.trace();
      local.steps(1);
      let all = [read(form.kind, &text), read_reader(form.kind, &text)];
      for (how, got) in ["text", "a reader"].into_iter().zip(all) {
        match got {
          Ok(m) => same(&format!("rearranged, from {how}: {text}"), &original, &m)?,
          Err(e) => return Err(format!("from {how}: {e}: {text}")),
        }
      }
      local.state(&mc_core::hash(&text));
    }
    Ok(())
  });
  // damaged binary forms
  let values: &[u8] = &[0, 1, 2, 3, 0x7f, 0x80, 0xff];
  let sum = Sum::new(many.iter().map(|f| f.bytes.len() as u64));
  check.family("damaged", &format!("{} messages in bincode, cut at each byte, and each byte replaced by {} others", many.len(), values.len() + 2), sum.total(), |i, local| {
    let (n, at) = sum.get(i);
    let form = &many[n];
    let at = at as usize;
    let mut all = vec![form.bytes[..at].to_vec()];
    for v in values.iter().copied().chain([form.bytes[at] ^ 1, form.bytes[at].wrapping_add(1)]) {
      let mut b = form.bytes.clone();
      b[at] = v;
      all.push(b);
    }
    for b in all {
      local.trace();
      local.steps(1);
      let context = |e: String| format!("{e}\n  bincode: {b:?}\n  made from: {}", show(&form.line));
      let got = read_bincode(form.kind, &b);
      if let Ok(m) = got {
        local.state(&mc_core::hash(&m.view()));
        again(form.kind, &m).map_err(context)?;
      }
    }
    Ok(())
  });
}
