//! C06: unescaping.

use crate::model;
use mc_core::space::{Product, Strings};
use mc_core::{guard, Run, Verdict};
use std::borrow::Cow;

const SIGMA: &[&str] = &["\\", ":", "s", "n", "r", "⸝", "é", "x", ";", " ", ","];

fn check(s: &str) -> Verdict {
  let want = model::unescape(s);
  let a = tmi::unescape(s);
  if a != want {
    return Err(format!("unescape({s:?}) is {a:?}, expected {want:?}"));
  }
  let b = tmi::maybe_unescape(s);
  if b != want {
    return Err(format!("maybe_unescape({s:?}) is {b:?}, expected {want:?}"));
  }
  let nothing_to_do = !s.contains(['\\', '⸝']);
  if nothing_to_do && !matches!(b, Cow::Borrowed(v) if v.as_ptr() == s.as_ptr()) {
    return Err(format!("maybe_unescape({s:?}) copied a value with nothing to unescape"));
  }
  let owned = s.to_string();
  let at = owned.as_ptr();
  let c = tmi::maybe_unescape(owned);
  if c != want {
    return Err(format!("maybe_unescape of the owned {s:?} is {c:?}, expected {want:?}"));
  }
  if nothing_to_do && !s.is_empty() && c.as_ptr() != at {
    return Err(format!("maybe_unescape copied the owned {s:?}, with nothing to unescape"));
  }
  Ok(())
}

pub fn run(run: &mut Run) {
  let max = run.pick(7, 8);
  let space = Strings { sigma: SIGMA, max };
  let bound = format!("all strings of at most {max} of {SIGMA:?}");
  run.family("escape sequences", &bound, space.total(), |i, local| {
    let mut s = String::new();
    space.get(i, &mut s);
    local.trace();
    local.steps(3);
    local.state(&model::unescape(&s));
    local.sample(i, || format!("{s:?}"));
    guard::with(|g| g.at_end(&s, check))
  });
  // every character after a backslash, and on its own
  let space = Product(vec![0x110000, 3]);
  run.family("every character", "all Unicode scalar values alone, after a backslash, and after two", space.total(), |i, local| {
    let v = space.get(i);
    let Some(c) = char::from_u32(v[0] as u32) else { return Ok(()) };
    let s = format!("a{}{c}b", &"\\\\"[..v[1]]);
    local.trace();
    local.steps(3);
    local.state(&v);
    check(&s)
  });
  // escapes at every offset of longer values
  const E: &[&str] = &["\\s", "\\:", "\\\\", "\\", "⸝", "\\n", "\\⸝", "\\x", "\\r"];
  let space = Product(vec![72, 72, E.len() as u64, E.len() as u64, 4]);
  run.family("escapes in longer values", "two escapes with 0..=71 characters before and between them", space.total(), |i, local| {
    let v = space.get(i);
    let s = format!("{}{}{}{}{}", "a".repeat(v[0]), E[v[2]], "é".repeat(v[1]), E[v[3]], ["", "z", "sz", ":"][v[4]]);
    local.trace();
    local.steps(3);
    local.state(&s);
    check(&s)
  });
  // long values: with one escape, and of nothing but escapes
  let mut lengths: Vec<usize> = (0..=300).collect();
  for n in 8..=run.pick(17, 20) {
    lengths.extend([(1 << n) - 2, (1 << n) - 1, 1 << n, (1 << n) + 1, (1 << n) + 2]);
  }
  let space = Product(vec![lengths.len() as u64, E.len() as u64 + 1, 7]);
  let bound = format!("{} lengths up to {} x no or one escape of {} at the start, in the middle or the end, or as many as that of it", lengths.len(), lengths[lengths.len() - 1], E.len());
  run.family("long values", &bound, space.total(), |i, local| {
    let v = space.get(i);
    let (n, e) = (lengths[v[0]], E.get(v[1]).copied().unwrap_or(""));
    let a = |n: usize| "a".repeat(n);
    let s = match v[2] {
      0 => format!("{e}{}", a(n)),
      1 => format!("{}{e}", a(n)),
      2 => format!("{}{e}{}", a(n / 2), a(n - n / 2)),
      3 => e.repeat(n),
      4 => format!("{}{}", e.repeat(n), a(n)),
      5 => format!("{}{e}{}", "é".repeat(n), a(1)),
      _ => format!("{e}a").repeat(n),
    };
    local.trace();
    local.steps(3);
    local.state(&v);
    check(&s).map_err(|e| if n > 300 { format!("{} ({} bytes)", e.chars().take(300).collect::<String>(), s.len()) } else { e })
  });
  // every two bytes after and before what is special
  let space = Product(vec![128, 128, E.len() as u64, 3]);
  run.family("pairs", "every two ASCII characters after, before and around each escape", space.total(), |i, local| {
    let v = space.get(i);
    let (a, b, e) = (v[0] as u8 as char, v[1] as u8 as char, E[v[2]]);
    let s = match v[3] {
      0 => format!("{e}{a}{b}"),
      1 => format!("{a}{b}{e}"),
      _ => format!("{a}{e}{b}"),
    };
    local.trace();
    local.steps(3);
    local.state(&s);
    check(&s)
  });
}
