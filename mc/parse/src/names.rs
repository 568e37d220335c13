//! C04: names of tags, commands and levels.

use mc_core::space::{Product, Strings};
use mc_core::{Local, Run, Verdict};
use std::collections::HashSet;
use std::str::FromStr;
use tmi::{Command, IrcMessage, IrcMessageRef, PinnedChatLevel, Tag};

/// The documented wire name of each tag.
pub const TAGS: &[(Tag<'static>, &str)] = &[
  (Tag::MsgId, "msg-id"),
  (Tag::Badges, "badges"),
  (Tag::BadgeInfo, "badge-info"),
  (Tag::DisplayName, "display-name"),
  (Tag::EmoteOnly, "emote-only"),
  (Tag::Emotes, "emotes"),
  (Tag::Flags, "flags"),
  (Tag::Id, "id"),
  (Tag::Mod, "mod"),
  (Tag::RoomId, "room-id"),
  (Tag::Subscriber, "subscriber"),
  (Tag::TmiSentTs, "tmi-sent-ts"),
  (Tag::Turbo, "turbo"),
  (Tag::UserId, "user-id"),
  (Tag::UserType, "user-type"),
  (Tag::ClientNonce, "client-nonce"),
  (Tag::FirstMsg, "first-msg"),
  (Tag::ReplyParentDisplayName, "reply-parent-display-name"),
  (Tag::ReplyParentMsgBody, "reply-parent-msg-body"),
  (Tag::ReplyParentMsgId, "reply-parent-msg-id"),
  (Tag::ReplyParentUserId, "reply-parent-user-id"),
  (Tag::ReplyParentUserLogin, "reply-parent-user-login"),
  (Tag::ReplyThreadParentMsgId, "reply-thread-parent-msg-id"),
  (Tag::ReplyThreadParentUserLogin, "reply-thread-parent-user-login"),
  (Tag::FollowersOnly, "followers-only"),
  (Tag::R9K, "r9k"),
  (Tag::Rituals, "rituals"),
  (Tag::Slow, "slow"),
  (Tag::SubsOnly, "subs-only"),
  (Tag::MsgParamCumulativeMonths, "msg-param-cumulative-months"),
  (Tag::MsgParamDisplayName, "msg-param-displayName"),
  (Tag::MsgParamLogin, "msg-param-login"),
  (Tag::MsgParamMonths, "msg-param-months"),
  (Tag::MsgParamPromoGiftTotal, "msg-param-promo-gift-total"),
  (Tag::MsgParamPromoName, "msg-param-promo-name"),
  (Tag::MsgParamRecipientDisplayName, "msg-param-recipient-display-name"),
  (Tag::MsgParamRecipientId, "msg-param-recipient-id"),
  (Tag::MsgParamRecipientUserName, "msg-param-recipient-user-name"),
  (Tag::MsgParamSenderLogin, "msg-param-sender-login"),
  (Tag::MsgParamSenderName, "msg-param-sender-name"),
  (Tag::MsgParamShouldShareStreak, "msg-param-should-share-streak"),
  (Tag::MsgParamStreakMonths, "msg-param-streak-months"),
  (Tag::MsgParamSubPlan, "msg-param-sub-plan"),
  (Tag::MsgParamSubPlanName, "msg-param-sub-plan-name"),
  (Tag::MsgParamViewerCount, "msg-param-viewerCount"),
  (Tag::MsgParamRitualName, "msg-param-ritual-name"),
  (Tag::MsgParamThreshold, "msg-param-threshold"),
  (Tag::MsgParamGiftMonths, "msg-param-gift-months"),
  (Tag::MsgParamColor, "msg-param-color"),
  (Tag::Login, "login"),
  (Tag::Bits, "bits"),
  (Tag::SystemMsg, "system-msg"),
  (Tag::EmoteSets, "emote-sets"),
  (Tag::ThreadId, "thread-id"),
  (Tag::MessageId, "message-id"),
  (Tag::ReturningChatter, "returning-chatter"),
  (Tag::Color, "color"),
  (Tag::Vip, "vip"),
  (Tag::TargetUserId, "target-user-id"),
  (Tag::TargetMsgId, "target-msg-id"),
  (Tag::BanDuration, "ban-duration"),
  (Tag::MsgParamMultimonthDuration, "msg-param-multimonth-duration"),
  (Tag::MsgParamWasGifted, "msg-param-was-gifted"),
  (Tag::MsgParamMultimonthTenure, "msg-param-multimonth-tenure"),
  (Tag::SentTs, "sent-ts"),
  (Tag::MsgParamOriginId, "msg-param-origin-id"),
  (Tag::MsgParamFunString, "msg-param-fun-string"),
  (Tag::MsgParamSenderCount, "msg-param-sender-count"),
  (Tag::MsgParamProfileImageUrl, "msg-param-profileImageURL"),
  (Tag::MsgParamMassGiftCount, "msg-param-mass-gift-count"),
  (Tag::MsgParamGiftMonthBeingRedeemed, "msg-param-gift-month-being-redeemed"),
  (Tag::MsgParamAnonGift, "msg-param-anon-gift"),
  (Tag::CustomRewardId, "custom-reward-id"),
  (Tag::PinnedChatPaidAmount, "pinned-chat-paid-amount"),
  (Tag::PinnedChatPaidCanonicalAmount, "pinned-chat-paid-canonical-amount"),
  (Tag::PinnedChatPaidCurrency, "pinned-chat-paid-currency"),
  (Tag::PinnedChatPaidExponent, "pinned-chat-paid-exponent"),
  (Tag::PinnedChatPaidLevel, "pinned-chat-paid-level"),
  (Tag::PinnedChatPaidIsSystemMessage, "pinned-chat-paid-is-system-message"),
];

const COMMANDS: &[(Command<'static>, &str)] = &[
  (Command::Ping, "PING"),
  (Command::Pong, "PONG"),
  (Command::Join, "JOIN"),
  (Command::Part, "PART"),
  (Command::Privmsg, "PRIVMSG"),
  (Command::Whisper, "WHISPER"),
  (Command::ClearChat, "CLEARCHAT"),
  (Command::ClearMsg, "CLEARMSG"),
  (Command::GlobalUserState, "GLOBALUSERSTATE"),
  (Command::Notice, "NOTICE"),
  (Command::Reconnect, "RECONNECT"),
  (Command::RoomState, "ROOMSTATE"),
  (Command::UserNotice, "USERNOTICE"),
  (Command::UserState, "USERSTATE"),
  (Command::Capability, "CAP"),
  (Command::RplWelcome, "001"),
  (Command::RplYourHost, "002"),
  (Command::RplCreated, "003"),
  (Command::RplMyInfo, "004"),
  (Command::RplNames, "353"),
  (Command::RplEndOfNames, "366"),
  (Command::RplMotd, "372"),
  (Command::RplMotdStart, "375"),
  (Command::RplEndOfMotd, "376"),
];

const LEVELS: &[(PinnedChatLevel, &str)] = &[
  (PinnedChatLevel::ONE, "ONE"),
  (PinnedChatLevel::TWO, "TWO"),
  (PinnedChatLevel::THREE, "THREE"),
  (PinnedChatLevel::FOUR, "FOUR"),
  (PinnedChatLevel::FIVE, "FIVE"),
  (PinnedChatLevel::SIX, "SIX"),
  (PinnedChatLevel::SEVEN, "SEVEN"),
  (PinnedChatLevel::EIGHT, "EIGHT"),
  (PinnedChatLevel::NINE, "NINE"),
  (PinnedChatLevel::TEN, "TEN"),
];

/// Strings close to a name: prefixes, suffixes, single-character edits, case changes.
fn near(name: &str, letters: &str) -> Vec<String> {
  let c: Vec<char> = name.chars().collect();
  let mut out = vec![];
  let text = |v: &[char]| v.iter().collect::<String>();
  for i in 0..=c.len() {
    out.push(text(&c[..i]));
    out.push(text(&c[i..]));
    for l in letters.chars() {
      let mut v = c.clone();
      v.insert(i, l);
      out.push(text(&v));
      if i < c.len() {
        let mut v = c.clone();
        v[i] = l;
        out.push(text(&v));
      }
    }
    if i < c.len() {
      let mut v = c.clone();
      v.remove(i);
      out.push(text(&v));
      let mut v = c.clone();
      v[i] = if v[i].is_uppercase() { v[i].to_ascii_lowercase() } else { v[i].to_ascii_uppercase() };
      out.push(text(&v));
      if i + 1 < c.len() {
        let mut v = c.clone();
        v.swap(i, i + 1);
        out.push(text(&v));
      }
    }
  }
  out.push(name.to_uppercase());
  out.push(name.to_lowercase());
  out.push(name.replace('-', "_"));
  out.push(name.replace('-', ""));
  out.push(format!("{name}{name}"));
  out.sort();
  out.dedup();
  out
}

macro_rules! eq {
  ($what:expr, $got:expr, $want:expr) => {
    let (got, want) = ($got, $want);
    if got != want {
      return Err(format!("{}: got {got:?}, expected {want:?}", $what));
    }
  };
}

fn tag_name(s: &str) -> Verdict {
  let known = TAGS.iter().find(|(_, n)| *n == s).map(|(t, _)| t.clone());
  let want = known.unwrap_or(Tag::Unknown(s));
  eq!(format!("Tag::parse({s:?})"), Tag::parse(s), want.clone());
  eq!(format!("Tag::from({s:?})"), Tag::from(s), want.clone());
  eq!(format!("name of {want:?}"), want.as_str(), s);
  eq!(format!("text of {want:?}"), want.to_string(), s);
  // and inside of a message
  if s.is_empty() || s.contains(['=', ';', ' ']) {
    return Ok(());
  }
  let line = format!("@first={s};{s}=value;last=x PRIVMSG #c :t");
  if s == "first" || s == "last" {
    return Ok(());
  }
  let m = IrcMessageRef::parse(&line).ok_or("rejected")?;
  let o = IrcMessage::parse(&line).ok_or("rejected")?;
  eq!(format!("{want:?} by value in {line:?}"), m.tag(want.clone()), Some("value"));
  eq!(format!("{s:?} by name in {line:?}"), m.tag(s), Some("value"));
  eq!(format!("{want:?} by value in {line:?}"), o.tag(want.clone()), Some("value"));
  eq!(format!("{s:?} by name in {line:?}"), o.tag(s), Some("value"));
  for (tag, name) in TAGS {
    let want = if *name == s { Some("value") } else { None };
    eq!(format!("{tag:?} in {line:?}"), m.tag(tag.clone()), want);
  }
  Ok(())
}

fn command_name(s: &str) -> Verdict {
  if s.is_empty() || s.contains(' ') || s.starts_with([':', '@']) {
    return Ok(());
  }
  let known = COMMANDS.iter().find(|(_, n)| *n == s).map(|(t, _)| *t);
  let want = known.unwrap_or(Command::Other(s));
  for line in [s.to_string(), format!("{s} #c :t"), format!("@a=b :n!u@h {s} x")] {
    let m = IrcMessageRef::parse(&line).ok_or("rejected")?;
    eq!(format!("command of {line:?}"), m.command(), want);
    let o = IrcMessage::parse(&line).ok_or("rejected")?;
    eq!(format!("command of {line:?}"), o.command(), want);
  }
  eq!(format!("name of {want:?}"), want.as_str(), s);
  eq!(format!("text of {want:?}"), want.to_string(), s);
  Ok(())
}

fn level_name(s: &str) -> Verdict {
  let want = LEVELS.iter().find(|(_, n)| *n == s).map(|(l, _)| *l).ok_or(());
  eq!(format!("level {s:?}"), PinnedChatLevel::from_str(s), want);
  if let Ok(l) = want {
    eq!(format!("name of {l:?}"), l.as_str(), s);
  }
  Ok(())
}

fn levels(_: u64, local: &mut Local) -> Verdict {
  let mut seen = HashSet::new();
  for (level, _) in LEVELS {
    let n = u8::from(*level);
    if !seen.insert(n) {
      return Err(format!("two levels have number {n}"));
    }
    eq!(format!("level of number {n}"), PinnedChatLevel::try_from(n), Ok(*level));
  }
  for n in 0..=u8::MAX {
    local.steps(1);
    local.state(&n);
    if let Ok(level) = PinnedChatLevel::try_from(n) {
      if !LEVELS.iter().any(|(l, _)| *l == level) || u8::from(level) != n {
        return Err(format!("number {n} is taken for a level"));
      }
    } else if seen.contains(&n) {
      return Err(format!("number {n} is not taken for its level"));
    }
  }
  eq!("lowest level", PinnedChatLevel::MIN, PinnedChatLevel::ONE);
  eq!("highest level", PinnedChatLevel::MAX, PinnedChatLevel::TEN);
  Ok(())
}

/// Which tag is found when names repeat.
fn lookup(keys: &[&str], values: &[&str], line: &str) -> Verdict {
  let m = IrcMessageRef::parse(line).ok_or("rejected")?;
  let o = IrcMessage::parse(line).ok_or("rejected")?;
  let mut names: Vec<&str> = keys.to_vec();
  names.extend(["id", "msg-id", "room-id", "nope", "i", "ID"]);
  for name in names {
    let want = keys.iter().position(|k| *k == name).map(|n| values[n]);
    eq!(format!("{name:?} by name in {line:?}"), m.tag(name), want);
    eq!(format!("{name:?} by name in {line:?}"), o.tag(name), want);
    eq!(format!("{name:?} by value in {line:?}"), m.tag(Tag::parse(name)), want);
    eq!(format!("{name:?} by value in {line:?}"), o.tag(Tag::parse(name)), want);
    let it = m.tags().find(|(k, _)| *k == name).map(|(_, v)| v);
    eq!(format!("{name:?} by iterating {line:?}"), it, want);
  }
  Ok(())
}

pub fn names(run: &mut Run) {
  // everything printable, and some of the rest
  let mut letters: String = (33..127u8).map(char::from).collect();
  letters.push_str("\0\u{1}\u{7f}éſK⸝");
  let mut all: Vec<String> = TAGS.iter().flat_map(|(_, n)| near(n, &letters)).collect();
  for (_, a) in TAGS {
    for (_, b) in TAGS {
      all.push(format!("{a}-{b}"));
    }
  }
  all.sort();
  all.dedup();
  run.family("tag names", "every tag name and its near misses", all.len() as u64, |i, local| {
    let s = &all[i as usize];
    local.trace();
    local.steps(2);
    local.state(s);
    local.sample(i, || s.clone());
    tag_name(s)
  });
  let mut all: Vec<String> = COMMANDS.iter().flat_map(|(_, n)| near(n, &letters)).collect();
  all.extend((0..1000).map(|n| format!("{n:03}")));
  all.extend((0..10000).map(|n| format!("{n}")));
  all.sort();
  all.dedup();
  run.family("command names", "every command name, its near misses and all numerics", all.len() as u64, |i, local| {
    let s = &all[i as usize];
    local.trace();
    local.steps(3);
    local.state(s);
    local.sample(i, || s.clone());
    command_name(s)
  });
  let mut all: Vec<String> = LEVELS.iter().flat_map(|(_, n)| near(n, &letters)).collect();
  all.extend((0..300).map(|n| n.to_string()));
  all.sort();
  all.dedup();
  run.family("level names", "every level name and its near misses", all.len() as u64, |i, local| {
    let s = &all[i as usize];
    local.trace();
    local.steps(1);
    local.state(s);
    level_name(s)
  });
  // short names, whatever they are
  let lower: Vec<String> = ('a'..='z').chain('0'..='9').chain(['-']).map(String::from).collect();
  let upper: Vec<String> = ('A'..='Z').map(String::from).collect();
  let lower: Vec<&str> = lower.iter().map(String::as_str).collect();
  let upper: Vec<&str> = upper.iter().map(String::as_str).collect();
  for (what, sigma, max, f) in [
    ("short tag names", &lower, run.pick(4, 5), tag_name as fn(&str) -> Verdict),
    ("short command names", &upper, run.pick(5, 6), command_name),
    ("short level names", &upper, run.pick(5, 6), level_name),
  ] {
    let space = Strings { sigma, max };
    let bound = format!("all strings of at most {max} of {} letters", sigma.len());
    run.family(what, &bound, space.total(), |i, local| {
      let mut s = String::new();
      space.get(i, &mut s);
      local.trace();
      local.steps(1);
      local.state(&s.len());
      f(&s)
    });
  }
  // the end of one name and the start of another
  let mut all: Vec<String> = vec![];
  let names = TAGS.iter().map(|(_, n)| *n).chain(COMMANDS.iter().map(|(_, n)| *n));
  for a in names.clone() {
    for b in names.clone() {
      for i in 1..a.len() {
        all.push(format!("{}{}", &a[..i], b.get(i..).unwrap_or("")));
        all.push(format!("{}{}", &a[..i], &b[b.len().saturating_sub(a.len() - i)..]));
      }
    }
  }
  all.sort();
  all.dedup();
  run.family("mixed names", "the first letters of each name with the last of each other", all.len() as u64, |i, local| {
    let s = &all[i as usize];
    local.trace();
    local.steps(2);
    local.state(s);
    tag_name(s)?;
    command_name(s)
  });
  run.family("level numbers", "all 256 numbers", 1, levels);

  const KEYS: &[&str] = &["id", "msg-id", "room-id", "x", "idx", "i", "msg", "ID"];
  let max = run.pick(5, 7);
  let space = Strings { sigma: KEYS, max };
  let bound = format!("all sequences of at most {max} of {KEYS:?}, each with its own value");
  run.family("lookup", &bound, space.total(), |i, local| {
    let keys: Vec<&str> = space.symbols(i).iter().map(|k| KEYS[*k]).collect();
    let values = ["v0", "v1", "v2", "v3", "v4", "v5", "v6"];
    let tags: Vec<String> = keys.iter().zip(values).map(|(k, v)| format!("{k}={v}")).collect();
    let line = if tags.is_empty() { "X".into() } else { format!("@{} X", tags.join(";")) };
    local.trace();
    local.steps(5 * keys.len() as u64);
    local.state(&keys);
    local.sample(i, || line.clone());
    lookup(&keys, &values, &line)
  });

  // values which may count as absent, as less, or as a name
  const FEW: &[&str] = &["id", "x", "zz"];
  const VALUES: &[&str] = &["", "0", "1", "id", "x", "\\s", "=", "é"];
  let pairs = FEW.len() * VALUES.len();
  let max = run.pick(3, 4) as u32;
  let total: u64 = (1..=max).map(|n| (pairs as u64).pow(n)).sum();
  let bound = format!("all sequences of 1 to {max} of {FEW:?} with values from {VALUES:?}");
  run.family("lookup with values", &bound, total, |i, local| {
    let (mut rest, mut len) = (i, 1);
    while rest >= (pairs as u64).pow(len) {
      rest -= (pairs as u64).pow(len);
      len += 1;
    }
    let (mut keys, mut values) = (vec![], vec![]);
    for _ in 0..len {
      let pair = (rest % pairs as u64) as usize;
      rest /= pairs as u64;
      keys.push(FEW[pair / VALUES.len()]);
      values.push(VALUES[pair % VALUES.len()]);
    }
    let tags: Vec<String> = keys.iter().zip(&values).map(|(k, v)| format!("{k}={v}")).collect();
    let line = format!("@{} X", tags.join(";"));
    local.trace();
    local.steps(5 * keys.len() as u64);
    local.state(&(&keys, &values));
    local.sample(i, || line.clone());
    lookup(&keys, &values, &line)
  });

  // every known tag at every position among all others
  let n = TAGS.len() as u64;
  let space = Product(vec![n, n]);
  run.family("all tags at once", "all known tags in one message, in every rotation", space.total(), |i, local| {
    let v = space.get(i);
    let order: Vec<usize> = (0..TAGS.len()).map(|k| (k + v[0]) % TAGS.len()).collect();
    let pairs: Vec<String> = order.iter().map(|k| format!("{}=v{k}", TAGS[*k].1)).collect();
    let line = format!("@{} X", pairs.join(";"));
    let (tag, name) = &TAGS[v[1]];
    let want = format!("v{}", v[1]);
    local.trace();
    local.steps(4);
    local.state(&(v[0], v[1]));
    let m = IrcMessageRef::parse(&line).ok_or("rejected")?;
    let o = IrcMessage::parse(&line).ok_or("rejected")?;
    eq!(format!("{tag:?} by value"), m.tag(tag.clone()), Some(want.as_str()));
    eq!(format!("{name:?} by name"), m.tag(*name), Some(want.as_str()));
    eq!(format!("{tag:?} by value"), o.tag(tag.clone()), Some(want.as_str()));
    eq!(format!("{name:?} by name"), o.tag(*name), Some(want.as_str()));
    Ok(())
  });
}
