//! C12 and C13: owned forms and serialized forms of typed messages.

use crate::lines::show;
use crate::spaces::*;
use crate::typed::pick;
use crate::view::{self, Viewed};
use bincode::Options;
use mc_core::{guard, Local, Run, Verdict};
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use tmi::*;

type View = crate::model::View;

fn same<T: PartialEq + Debug, V: PartialEq + Debug>(what: &str, a: &T, b: &T, va: V, vb: V) -> Verdict {
  if va != vb {
    return Err(format!("{what}: getters of the converted value give {vb:?}, of the original {va:?}"));
  }
  if a != b || b != a {
    return Err(format!("{what}: {b:?} is not equal to the original {a:?}"));
  }
  Ok(())
}

/// A message in its owned form, with its parts.
pub enum Owned {
  ClearChat(ClearChat<'static>, Action<'static>),
  ClearMsg(ClearMsg<'static>),
  GlobalUserState(GlobalUserState<'static>, Badges),
  Join(Join<'static>),
  Notice(Notice<'static>),
  Part(Part<'static>),
  Ping(Ping<'static>),
  Pong(Pong<'static>),
  Privmsg(Privmsg<'static>, User<'static>, Option<Reply<'static>>, Option<PinnedChat<'static>>, Badges),
  RoomState(RoomState<'static>),
  UserNotice(UserNotice<'static>, Option<User<'static>>, Event<'static>, Promo, Badges),
  UserState(UserState<'static>, Badges),
  Whisper(Whisper<'static>, User<'static>, Badges),
  Other(IrcMessage),
}

pub type Promo = Option<SubGiftPromo<'static>>;
pub type Badges = Vec<(Badge<'static>, BadgeData<'static>)>;

/// Detached once, or a second time from the detached form.
macro_rules! detach {
  ($twice:expr, $v:expr) => {{
    let v = $v.into_owned();
    if $twice { v.into_owned() } else { v }
  }};
}

fn own_badges<'a, 'b: 'a>(it: impl Iterator<Item = &'a Badge<'b>>, twice: bool) -> Badges {
  it.map(|b| {
    let badge = match b {
      // the part by itself
      Badge::Subscriber(s) if twice => Badge::Subscriber(detach!(twice, s.clone())),
      b => detach!(twice, b.clone()),
    };
    (badge, detach!(twice, b.as_badge_data()))
  })
  .collect()
}

fn promo<'a, 'b>(e: &'a Event<'b>) -> Option<&'a SubGiftPromo<'b>> {
  match e {
    Event::GiftPaidUpgrade(e) => e.promotion(),
    Event::AnonGiftPaidUpgrade(e) => e.promotion(),
    _ => None,
  }
}

pub fn own(m: Message<'_>, twice: bool) -> Option<Owned> {
  Some(match m {
    Message::ClearChat(m) => {
      let action = detach!(twice, m.action().clone());
      Owned::ClearChat(detach!(twice, m), action)
    }
    Message::ClearMsg(m) => Owned::ClearMsg(detach!(twice, m)),
    Message::GlobalUserState(m) => {
      let badges = own_badges(m.badges(), twice);
      Owned::GlobalUserState(detach!(twice, m), badges)
    }
    Message::Join(m) => Owned::Join(detach!(twice, m)),
    Message::Notice(m) => Owned::Notice(detach!(twice, m)),
    Message::Part(m) => Owned::Part(detach!(twice, m)),
    Message::Ping(m) => Owned::Ping(detach!(twice, m)),
    Message::Pong(m) => Owned::Pong(detach!(twice, m)),
    Message::Privmsg(m) => {
      let sender = detach!(twice, m.sender().clone());
      let reply = m.reply_to().cloned().map(|r| detach!(twice, r));
      let pinned = m.pinned_chat().cloned().map(|p| detach!(twice, p));
      let badges = own_badges(m.badges(), twice);
      Owned::Privmsg(detach!(twice, m), sender, reply, pinned, badges)
    }
    Message::RoomState(m) => Owned::RoomState(detach!(twice, m)),
    Message::UserNotice(m) => {
      let sender = m.sender().cloned().map(|u| detach!(twice, u));
      let event = detach!(twice, m.event().clone());
      let promo = promo(m.event()).cloned().map(|p| detach!(twice, p));
      let badges = own_badges(m.badges(), twice);
      Owned::UserNotice(detach!(twice, m), sender, event, promo, badges)
    }
    Message::UserState(m) => {
      let badges = own_badges(m.badges(), twice);
      Owned::UserState(detach!(twice, m), badges)
    }
    Message::Whisper(m) => {
      let sender = detach!(twice, m.sender().clone());
      let badges = own_badges(m.badges(), twice);
      Owned::Whisper(detach!(twice, m), sender, badges)
    }
    Message::Other(m) => Owned::Other(m.into_owned()),
    _ => return None,
  })
}

fn same_badges<'a, 'b: 'a>(it: impl Iterator<Item = &'a Badge<'b>>, owned: &Badges) -> Verdict {
  let list: Vec<&Badge<'_>> = it.collect();
  if list.len() != owned.len() {
    return Err("number of badges".into());
  }
  for (b, (o, d)) in list.into_iter().zip(owned) {
    same("badge", b, o, view::badge(b), view::badge(o))?;
    let data = b.as_badge_data();
    same("badge data", &data, d, view::data(&data), view::data(d))?;
  }
  Ok(())
}

fn promo_view(p: &SubGiftPromo<'_>) -> String {
  let name = p.promo_name();
  let name: &str = name.as_ref();
  format!("{} {name:?}", p.total_gifts())
}

fn compare(m: &Message<'_>, o: &Owned) -> Verdict {
  macro_rules! eq {
    ($what:literal, $a:expr, $b:expr) => {
      same($what, $a, $b, $a.view(), $b.view())?
    };
  }
  let user = |what: &str, a: &User<'_>, b: &User<'_>| same(what, a, b, view::user(a), view::user(b));
  match (m, o) {
    (Message::ClearChat(m), Owned::ClearChat(o, action)) => {
      eq!("ClearChat", m, o);
      same("Action", m.action(), action, view::action(m.action()), view::action(action))?;
    }
    (Message::ClearMsg(m), Owned::ClearMsg(o)) => eq!("ClearMsg", m, o),
    (Message::GlobalUserState(m), Owned::GlobalUserState(o, b)) => {
      eq!("GlobalUserState", m, o);
      same_badges(m.badges(), b)?;
    }
    (Message::Join(m), Owned::Join(o)) => eq!("Join", m, o),
    (Message::Notice(m), Owned::Notice(o)) => eq!("Notice", m, o),
    (Message::Part(m), Owned::Part(o)) => eq!("Part", m, o),
    (Message::Ping(m), Owned::Ping(o)) => eq!("Ping", m, o),
    (Message::Pong(m), Owned::Pong(o)) => eq!("Pong", m, o),
    (Message::Privmsg(m), Owned::Privmsg(o, sender, reply, pinned, b)) => {
      eq!("Privmsg", m, o);
      user("sender", m.sender(), sender)?;
      match (m.reply_to(), reply) {
        (Some(a), Some(b)) => same("Reply", a, b, view::reply(a), view::reply(b))?,
        (None, None) => {}
        _ => return Err("presence of the reply".into()),
      }
      match (m.pinned_chat(), pinned) {
        (Some(a), Some(b)) => same("PinnedChat", a, b, view::pinned(a), view::pinned(b))?,
        (None, None) => {}
        _ => return Err("presence of the Hype Chat".into()),
      }
      same_badges(m.badges(), b)?;
    }
    (Message::RoomState(m), Owned::RoomState(o)) => eq!("RoomState", m, o),
    (Message::UserNotice(m), Owned::UserNotice(o, sender, event, p, b)) => {
      eq!("UserNotice", m, o);
      match (m.sender(), sender) {
        (Some(a), Some(b)) => user("sender", a, b)?,
        (None, None) => {}
        _ => return Err("presence of the sender".into()),
      }
      same("Event", m.event(), event, view::event(m.event()), view::event(event))?;
      match (promo(m.event()), p) {
        (Some(a), Some(b)) => same("promotion", a, b, promo_view(a), promo_view(b))?,
        (None, None) => {}
        _ => return Err("presence of the promotion".into()),
      }
      same_badges(m.badges(), b)?;
    }
    (Message::UserState(m), Owned::UserState(o, b)) => {
      eq!("UserState", m, o);
      same_badges(m.badges(), b)?;
    }
    (Message::Whisper(m), Owned::Whisper(o, sender, b)) => {
      eq!("Whisper", m, o);
      user("sender", &m.sender(), sender)?;
      same_badges(m.badges(), b)?;
    }
    (Message::Other(m), Owned::Other(o)) => {
      if m.raw() != o.raw() || !m.tags().eq(o.tags()) || m.params() != o.params() {
        return Err("passed-through message".into());
      }
    }
    _ => return Err("another kind of message".into()),
  }
  Ok(())
}

/// The owned form is equal to the message.
pub fn detached_equal(m: &Message<'_>) -> Verdict {
  match own(m.clone(), false) {
    Some(o) => compare(m, &o),
    None => Ok(()),
  }
}

fn spaces(run: &Run) -> (Vec<Space>, String) {
  let k = run.pick(2, 3);
  let kinds = all_kinds();
  let names: Vec<&str> = kinds.iter().map(|k| k.name).collect();
  let bound = format!("complete messages of the kinds {} with at most {k} changes", names.join(", "));
  let spaces = kinds
    .into_iter()
    .map(|mut kind| {
      for f in &mut kind.fields {
        if f.base.is_none() && kind.command != "USERNOTICE" {
          continue;
        }
        if run.thorough() {
          // presence and emptiness matter more here than the bounds of numbers
          f.alts.truncate(5);
        }
      }
      Space::new(kind, k)
    })
    .collect();
  (spaces, bound)
}

fn over(run: &mut Run, longest: usize, judge: crate::typed::Judge) {
  let (spaces, bound) = spaces(run);
  let total = spaces.iter().map(|s| s.total()).sum();
  run.family("deviations", &bound, total, |i, local| {
    let mut line = String::new();
    pick(&spaces, |s| s.total(), i, |s, i| s.get(i, &mut line));
    judge(&line, i, local)
  });
  let reply = Subsets::new(privmsg(), &["reply-parent-msg-id", "pinned-chat-paid-amount", "bits", "custom", "msg-id", "badges", "badge-info", "color", "emotes"]);
  let room = Subsets::new(roomstate(), &[]);
  let clear = Subsets::new(clearchat(), &[]);
  let sets = [reply, room, clear];
  let total = sets.iter().map(|s| s.total()).sum();
  run.family("subsets", "every subset of the optional parts of PRIVMSG, ROOMSTATE and CLEARCHAT", total, |i, local| {
    let mut line = String::new();
    pick(&sets, |s| s.total(), i, |s, i| s.get(i, &mut line));
    judge(&line, i, local)
  });
  // characters which need care in serialized forms, and large numbers of badges
  const CHARS: &[&str] = &["\"", "\\", "\\\\", "/", "\u{0}", "\u{1}", "\u{7f}", "é", "\u{2028}", "\u{10ffff}", "⸝", "{}", "null", "\t"];
  let kinds: Vec<Kind> = all_kinds();
  let slots: Vec<(usize, usize)> = kinds.iter().enumerate().flat_map(|(k, kind)| (0..kind.fields.len() + 1).map(move |f| (k, f))).collect();
  let total = (slots.len() * CHARS.len()) as u64;
  run.family("special characters", "every tag and the text of every kind of message x special characters", total, |i, local| {
    let (k, slot) = slots[i as usize / CHARS.len()];
    let c = CHARS[i as usize % CHARS.len()];
    let kind = &kinds[k];
    let value = format!("a{c}b{c}");
    let tags: Vec<(&str, &str)> = kind
      .fields
      .iter()
      .enumerate()
      .filter_map(|(n, f)| if n == slot { Some((f.key, value.as_str())) } else { f.base.map(|b| (f.key, b)) })
      .collect();
    let text = if slot == kind.fields.len() { format!(" :{value}") } else { kind.texts[0].into() };
    let mut line = String::new();
    render(&mut line, &tags, kind.prefixes[0], kind.command, kind.channels[0], &text);
    judge(&line, i, local)
  });
  let mut numeric = crate::typed::NUMERIC.to_vec();
  numeric.extend([
    "bits", "pinned-chat-paid-amount", "pinned-chat-paid-exponent", "pinned-chat-paid-is-system-message",
    "followers-only", "slow", "emote-only", "r9k", "subs-only", "ban-duration",
  ]);
  crate::typed::numbers(run, &kinds, &numeric, 2, judge);
  crate::typed::badge_numbers(run, &[privmsg(), whisper(), globaluserstate(), userstate(), usernotice("raid")], 2, judge);
  crate::typed::long_values(run, &kinds, longest, judge);
}

fn case(line: &str, i: u64, local: &mut Local, check: fn(&str, &mut Local) -> Verdict) -> Verdict {
  local.trace();
  local.steps(1);
  local.sample(i, || show(line));
  check(line, local).map_err(|e| format!("{e}\n  line: {}", show(line)))
}

pub fn owned(run: &mut Run) {
  over(run, 1 << 16, |line, i, local| case(line, i, local, check_owned));
}

fn check_owned(line: &str, local: &mut Local) -> Verdict {
  let Ok(m) = Message::parse(line) else {
    local.state(&0);
    return Ok(());
  };
  local.state(&mc_core::hash(&m.view()));
  for twice in [false, true] {
    let o = guard::with(|g| {
      let o = g.at_end(line, |s| Message::parse(s).ok().and_then(|m| own(m, twice)));
      // the input is gone
      g.scrub(line.len());
      o
    });
    local.steps(1);
    match (&m, o) {
      (Message::Reconnect, None) => {}
      (m, Some(o)) => compare(m, &o).map_err(|e| format!("{e} (detached {})", if twice { "twice" } else { "once" }))?,
      _ => return Err("no owned form".into()),
    }
  }
  Ok(())
}

// -- serialized forms

fn round<'a, T, F, V>(what: &str, original: &T, text: &'a str, value: &'a serde_json::Value, view: F) -> Verdict
where
  T: Deserialize<'a> + Serialize + PartialEq + Debug,
  F: Fn(&T) -> V,
  V: PartialEq + Debug,
{
  let check = |how: &str, got: Result<T, String>| -> Verdict {
    let got = got.map_err(|e| format!("{what}: deserializing {how} {text}: {e}"))?;
    same(&format!("{what} {how} {text}"), original, &got, view(original), view(&got))
  };
  let text_of = |e: serde_json::Error| e.to_string();
  check("from borrowed text", serde_json::from_str::<T>(text).map_err(text_of))?;
  check("from borrowed bytes", serde_json::from_slice::<T>(text.as_bytes()).map_err(text_of))?;
  check("from a borrowed value", T::deserialize(value).map_err(text_of))?;
  check("from an owned value", T::deserialize(value.clone()).map_err(text_of))?;
  let mut de = serde_json::Deserializer::from_reader(text.as_bytes());
  check("from a reader", T::deserialize(&mut de).map_err(text_of))?;
  Ok(())
}

/// The same in formats which are not text: one which describes itself, and one
/// in which the order of the parts decides.
fn round_binary<'a, T, F, V>(what: &str, original: &T, bytes: &'a [u8], cbor: &ciborium::Value, view: F) -> Verdict
where
  T: Deserialize<'a> + Serialize + PartialEq + Debug,
  F: Fn(&T) -> V,
  V: PartialEq + Debug,
{
  let check = |how: &str, got: Result<T, String>| -> Verdict {
    let got = got.map_err(|e| format!("{what}: deserializing {how}: {e}"))?;
    same(&format!("{what} {how}"), original, &got, view(original), view(&got))
  };
  check("borrowed bincode", bincode::deserialize(bytes).map_err(|e| e.to_string()))?;
  let mut de = bincode::Deserializer::with_reader(bytes, bincode::DefaultOptions::new().with_fixint_encoding());
  check("bincode from a reader", T::deserialize(&mut de).map_err(|e| e.to_string()))?;
  check("CBOR", cbor.deserialized().map_err(|e| e.to_string()))
}

macro_rules! round {
  ($what:expr, $v:expr, $view:expr) => {{
    let v = $v;
    let text = serde_json::to_string(v).map_err(|e| format!("{}: serializing: {e}", $what))?;
    let value = serde_json::to_value(v).map_err(|e| format!("{}: serializing: {e}", $what))?;
    round($what, v, &text, &value, $view)?;
    let bytes = bincode::serialize(v).map_err(|e| format!("{}: serializing to bincode: {e}", $what))?;
    let cbor = ciborium::Value::serialized(v).map_err(|e| format!("{}: serializing to CBOR: {e}", $what))?;
    round_binary($what, v, &bytes, &cbor, $view)?;
    if serde_json::from_str::<serde_json::Value>(&text).ok().as_ref() != Some(&value) {
      return Err(format!("{}: text and value forms differ: {text} {value}", $what));
    }
  }};
}

fn round_user(u: &User<'_>) -> Verdict {
  round!("User", u, |u: &User<'_>| view::user(u));
  Ok(())
}

fn round_badges<'a, 'b: 'a>(it: impl Iterator<Item = &'a Badge<'b>>) -> Verdict {
  for b in it {
    round!("Badge", b, |b: &Badge<'_>| view::badge(b));
    let d = b.as_badge_data();
    round!("BadgeData", &d, |d: &BadgeData<'_>| view::data(d));
  }
  Ok(())
}

pub fn roundtrip(m: &Message<'_>) -> Verdict {
  macro_rules! whole {
    ($what:literal, $m:expr) => {
      round!($what, $m, |m| -> View { m.view() })
    };
  }
  match m {
    Message::ClearChat(m) => {
      whole!("ClearChat", m);
      round!("Action", m.action(), |a: &Action<'_>| view::action(a));
    }
    Message::ClearMsg(m) => whole!("ClearMsg", m),
    Message::GlobalUserState(m) => {
      whole!("GlobalUserState", m);
      round_badges(m.badges())?;
    }
    Message::Join(m) => whole!("Join", m),
    Message::Notice(m) => whole!("Notice", m),
    Message::Part(m) => whole!("Part", m),
    Message::Ping(m) => whole!("Ping", m),
    Message::Pong(m) => whole!("Pong", m),
    Message::Privmsg(m) => {
      whole!("Privmsg", m);
      round_user(m.sender())?;
      if let Some(r) = m.reply_to() {
        round!("Reply", r, |r: &Reply<'_>| view::reply(r));
      }
      if let Some(p) = m.pinned_chat() {
        round!("PinnedChat", p, |p: &PinnedChat<'_>| view::pinned(p));
        let level = p.paid_level();
        round!("PinnedChatLevel", &level, |l: &PinnedChatLevel| l.as_str());
      }
      round_badges(m.badges())?;
    }
    Message::RoomState(m) => {
      whole!("RoomState", m);
      let f = m.followers_only();
      round!("FollowersOnly", &f, |f: &Option<FollowersOnly>| *f);
    }
    Message::UserNotice(m) => {
      whole!("UserNotice", m);
      if let Some(u) = m.sender() {
        round_user(u)?;
      }
      round!("Event", m.event(), |e: &Event<'_>| view::event(e));
      if let Some(p) = promo(m.event()) {
        round!("SubGiftPromo", p, |p: &SubGiftPromo<'_>| promo_view(p));
      }
      round_badges(m.badges())?;
    }
    Message::UserState(m) => {
      whole!("UserState", m);
      round_badges(m.badges())?;
    }
    Message::Whisper(m) => {
      whole!("Whisper", m);
      round_user(&m.sender())?;
      round_badges(m.badges())?;
    }
    _ => {}
  }
  Ok(())
}

pub fn serialized(run: &mut Run) {
  let longest = run.pick(1 << 10, 1 << 16);
  over(run, longest, |line, i, local| case(line, i, local, check_serialized));
}

fn check_serialized(line: &str, local: &mut Local) -> Verdict {
  let Ok(m) = Message::parse(line) else {
    local.state(&0);
    return Ok(());
  };
  local.state(&mc_core::hash(&m.view()));
  roundtrip(&m)
}
