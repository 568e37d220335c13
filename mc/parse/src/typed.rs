//! C01 (typed part), C07, C08, C09, C10: typed messages.

use crate::lines::show;
use crate::model;
use crate::spaces::*;
use crate::view::{diff, Viewed};
use mc_core::space::{Product, Strings};
use mc_core::{guard, Local, Run, Verdict};
use std::hint::black_box;
use tmi::*;

/// The typed message of a line is the one of the reference model.
pub fn compare(line: &str) -> Verdict {
  let want = model::typed(line);
  let got = Message::parse(line);
  let wrong = |e: String| Err(format!("{e}\n  line: {}", show(line)));
  match (&want, &got) {
    (Err(_), Err(_)) => Ok(()),
    (Ok(_), Err(_)) => wrong("rejected, although everything required is present".into()),
    (Err(missing), Ok(m)) => wrong(format!("accepted without a valid {missing}: {m:?}")),
    (Ok(w), Ok(m)) => match diff(&m.view(), w) {
      None => Ok(()),
      Some(d) => wrong(d),
    },
  }
}

/// Deviations from complete messages.
fn deviations(run: &mut Run, kinds: Vec<Kind>, k: usize) {
  let names: Vec<&str> = kinds.iter().map(|k| k.name).collect();
  let spaces: Vec<Space> = kinds.iter().map(|kind| Space::new(kind.clone(), k)).collect();
  let total = spaces.iter().map(|s| s.total()).sum();
  let bound = format!(
    "complete {} messages with at most {k} of their tags, prefix, channel, text, tag order or duplicates changed",
    names.join(", ")
  );
  run.family("deviations", &bound, total, |i, local| {
    let mut line = String::new();
    pick(&spaces, |s| s.total(), i, |s, i| s.get(i, &mut line));
    judge(&line, i, local)
  });
}

/// Which of several spaces a number belongs to.
pub fn pick<S>(spaces: &[S], total: impl Fn(&S) -> u64, mut i: u64, f: impl FnOnce(&S, u64)) {
  for s in spaces {
    if i < total(s) {
      return f(s, i);
    }
    i -= total(s);
  }
  unreachable!()
}

pub type Judge = fn(&str, u64, &mut Local) -> Verdict;

pub fn judge(line: &str, i: u64, local: &mut Local) -> Verdict {
  local.trace();
  let want = model::typed(line);
  local.steps(want.as_ref().map_or(1, |v| v.len() as u64));
  local.state(&want.map(|v| mc_core::hash(&v)));
  local.sample(i, || show(line));
  compare(line)
}

fn subsets(run: &mut Run, name: &'static str, s: Subsets) {
  let bound = format!("every subset of {} tags of {}", s.len(), s.kind.name);
  run.family(name, &bound, s.total(), |i, local| {
    let mut line = String::new();
    s.get(i, &mut line);
    judge(&line, i, local)
  });
}

pub fn chat(run: &mut Run) {
  deviations(run, vec![privmsg(), whisper(), clearmsg()], run.pick(3, 4));
  subsets(run, "subsets: reply and Hype Chat", Subsets::new(privmsg(), &["reply-parent", "reply-thread-parent-msg", "reply-thread-parent-user", "pinned-chat-paid-a", "pinned-chat-paid-cur", "pinned-chat-paid-e", "pinned-chat-paid-l", "pinned-chat-paid-i"]));
  subsets(run, "subsets: message", Subsets::new(privmsg(), &["room-id", "id", "user-id", "display-name", "tmi-sent-ts", "bits", "emotes", "custom", "msg-id", "badge", "color"]));
  subsets(run, "subsets: whisper", Subsets::new(whisper(), &[]));
  subsets(run, "subsets: deleted message", Subsets::new(clearmsg(), &[]));
  // three deviations among the tags of one optional part
  let only = |keys: &[&str]| {
    let mut kind = privmsg();
    for f in &mut kind.fields {
      if !keys.iter().any(|k| f.key.starts_with(k)) {
        f.alts.clear();
      }
    }
    kind.prefixes = &kind.prefixes[..1];
    kind.channels = &kind.channels[..1];
    kind.texts = &kind.texts[..1];
    kind
  };
  let k = run.pick(3, 4);
  let parts = [only(&["reply-"]), only(&["pinned-"]), only(&["bits", "emotes", "custom", "msg-id", "badge", "color", "tmi"])];
  let spaces: Vec<Space> = parts.into_iter().map(|p| Space::new(p, k)).collect();
  let bound = format!("at most {k} changes among the tags of a reply, of Hype Chat, or of optional data");
  run.family("deviations of parts", &bound, spaces.iter().map(|s| s.total()).sum(), |i, local| {
    let mut line = String::new();
    pick(&spaces, |s| s.total(), i, |s, i| s.get(i, &mut line));
    judge(&line, i, local)
  });
  texts(run);
  numbers(run, &[privmsg(), clearmsg()], &["bits", "tmi-sent-ts", "pinned-chat-paid-amount", "pinned-chat-paid-exponent", "pinned-chat-paid-is-system-message"], 4, judge);
  long_values(run, &[privmsg(), whisper(), clearmsg()], 1 << 16, judge);
  foreign(run, &[privmsg(), whisper(), clearmsg()], judge);
  equal_parts(run, &[privmsg(), whisper(), clearmsg()], judge);
  characters(run, &[privmsg(), whisper(), clearmsg()], judge);
}

/// Texts around the ACTION wrapper.
fn texts(run: &mut Run) {
  const SIGMA: &[&str] = &["\u{1}", "ACTION", " ", ":", "a", "\u{1}ACTION ", "é", "#x"];
  let space = mc_core::space::Strings { sigma: SIGMA, max: run.pick(5, 6) };
  let bound = format!("all texts of at most {} of {SIGMA:?} in PRIVMSG, CLEARMSG and WHISPER", space.max);
  let kinds = [privmsg(), clearmsg(), whisper()];
  run.family("texts", &bound, space.total() * 3, |i, local| {
    let mut text = String::from(" :");
    let mut s = String::new();
    space.get(i / 3, &mut s);
    text += &s;
    let k = &kinds[(i % 3) as usize];
    let tags: Vec<(&str, &str)> = k.fields.iter().filter_map(|f| f.base.map(|b| (f.key, b))).collect();
    let mut line = String::new();
    render(&mut line, &tags, k.prefixes[0], k.command, k.channels[0], &text);
    judge(&line, i, local)
  });
}

pub fn notices(run: &mut Run) {
  let kinds: Vec<Kind> = EVENTS.iter().map(|e| usernotice(e)).collect();
  deviations(run, kinds.clone(), run.pick(3, 3));
  // every subset of the tags which the event itself uses, for both kinds of gifters
  let mut spaces = vec![];
  for anon in [false, true] {
    for kind in &kinds {
      let mut kind = kind.clone();
      if anon {
        for f in &mut kind.fields {
          if f.key == "user-id" {
            f.base = Some("274598607");
          }
        }
      }
      let keys: Vec<&str> = kind.fields.iter().filter(|f| f.base.is_some()).map(|f| f.key).collect();
      let keys: Vec<&str> =
        keys.into_iter().filter(|k| !["emotes", "badges", "badge-info", "color", "system-msg"].contains(k)).collect();
      spaces.push(Subsets::new(kind, &keys));
    }
  }
  let bound = "every event type, from a user and from the anonymous gifter, with every subset of the common required and the event's own tags";
  run.family("subsets", bound, spaces.iter().map(|s| s.total()).sum(), |i, local| {
    let mut line = String::new();
    pick(&spaces, |s| s.total(), i, |s, i| s.get(i, &mut line));
    judge(&line, i, local)
  });
  let mut ids: Vec<String> = EVENTS.iter().map(|s| s.to_string()).collect();
  for e in EVENTS {
    for n in 0..e.len() {
      ids.push(e[..n].into());
      ids.push(e[n..].into());
      ids.push(format!("{}-{}", &e[..n], &e[n..]));
      let mut c = e.to_string().into_bytes();
      c[n] = c[n].to_ascii_uppercase();
      ids.push(String::from_utf8(c).unwrap());
    }
    for o in EVENTS {
      ids.push(format!("{e}{o}"));
    }
  }
  ids.sort();
  ids.dedup();
  let senders = ["93", "274598607"];
  run.family("event names", "near misses of event names, with the tags of all events, from a user and the anonymous gifter", ids.len() as u64 * 2, |i, local| {
    let kind = usernotice("announcement");
    let id = &ids[(i / 2) as usize];
    let tags: Vec<(&str, &str)> = kind
      .fields
      .iter()
      .map(|f| match f.key {
        "msg-id" => ("msg-id", id.as_str()),
        "user-id" => ("user-id", senders[(i % 2) as usize]),
        k => (k, f.base.or(f.alts[0]).unwrap()),
      })
      .collect();
    let mut line = String::new();
    render(&mut line, &tags, kind.prefixes[0], kind.command, kind.channels[0], kind.texts[0]);
    judge(&line, i, local)
  });
  gifters(run, &kinds);
  // the values of an event's own tags
  let k = run.pick(3, 4);
  let spaces: Vec<Space> = kinds
    .into_iter()
    .map(|mut kind| {
      for f in &mut kind.fields {
        if f.base.is_none() || !(f.key.starts_with("msg-param") || f.key == "user-id") {
          f.alts.clear();
        }
      }
      kind.prefixes = &kind.prefixes[..1];
      kind.channels = &kind.channels[..1];
      kind.texts = &kind.texts[..1];
      Space::new(kind, k)
    })
    .collect();
  let bound = format!("every event type with at most {k} changes to its own tags, order or duplicates");
  run.family("deviations of events", &bound, spaces.iter().map(|s| s.total()).sum(), |i, local| {
    let mut line = String::new();
    pick(&spaces, |s| s.total(), i, |s, i| s.get(i, &mut line));
    judge(&line, i, local)
  });
  let kinds: Vec<Kind> = EVENTS.iter().map(|e| usernotice(e)).collect();
  numbers(run, &kinds, NUMERIC, 4, judge);
  long_values(run, &kinds[..13], 1 << 16, judge);
  foreign(run, &kinds, judge);
  equal_parts(run, &kinds, judge);
  characters(run, &kinds, judge);
}

/// Who sends an event: ids and names like those of the anonymous gifter.
fn gifters(run: &mut Run, kinds: &[Kind]) {
  const ANON: &str = "274598607";
  let mut ids: Vec<String> = (0..=ANON.len()).flat_map(|n| [ANON[..n].to_string(), ANON[n..].to_string()]).collect();
  for n in 0..ANON.len() {
    for c in ["", "0", "1", "8", "x", "_", ".", "-", "\\", "\\s", "\u{feff}", "\u{a0}"] {
      ids.push(format!("{}{c}{}", &ANON[..n], &ANON[n + 1..]));
      ids.push(format!("{}{c}{}", &ANON[..n], &ANON[n..]));
    }
  }
  for c in ["0", "00", "+", "-", "0x", "\\s", "\\:", "\\\\", ".0", "#", "@", "\u{feff}", "\u{200b}", "\u{a0}", "\u{0}", "\t", "=", ","] {
    ids.extend([format!("{c}{ANON}"), format!("{ANON}{c}"), format!("{c}{ANON}{c}")]);
  }
  ids.extend(["２７４５９８６０７", "274598606", "274598608", "274,598,607", "274598607274598607", "0", "1", "407665396", "2745986070", "12826", "anonymous"].map(String::from));
  ids.sort();
  ids.dedup();
  const NAMES: &[&str] = &["ann", "ananonymousgifter", "AnAnonymousGifter", "ananonymouscheerer", "anonymous", "An\\sAnonymous\\sGifter", ""];
  let space = Product(vec![ids.len() as u64, NAMES.len() as u64, NAMES.len() as u64, kinds.len() as u64]);
  let bound = format!("every event type, from {} ids and {} logins and display names, close to those of the anonymous gifter", ids.len(), NAMES.len());
  run.family("senders", &bound, space.total(), |i, local| {
    let v = space.get(i);
    let kind = &kinds[v[3]];
    let tags: Vec<(&str, &str)> = kind
      .fields
      .iter()
      .filter_map(|f| match f.key {
        "user-id" => Some((f.key, ids[v[0]].as_str())),
        "login" => Some((f.key, NAMES[v[1]])),
        "display-name" => Some((f.key, NAMES[v[2]])),
        _ => f.base.map(|b| (f.key, b)),
      })
      .collect();
    let mut line = String::new();
    render(&mut line, &tags, kind.prefixes[0], kind.command, kind.channels[0], kind.texts[0]);
    judge(&line, i, local)
  });
}

pub const NUMERIC: &[&str] = &[
  "tmi-sent-ts", "msg-param-cumulative-months", "msg-param-streak-months", "msg-param-viewerCount", "msg-param-months",
  "msg-param-gift-months", "msg-param-mass-gift-count", "msg-param-sender-count", "msg-param-promo-gift-total",
  "msg-param-threshold",
];

pub fn moderation(run: &mut Run) {
  deviations(run, vec![clearchat(), roomstate()], run.pick(5, 7));
  subsets(run, "subsets: CLEARCHAT", Subsets::new(clearchat(), &[]));
  subsets(run, "subsets: ROOMSTATE", Subsets::new(roomstate(), &[]));
  let keys = ["followers-only", "slow", "emote-only", "r9k", "subs-only", "ban-duration", "tmi-sent-ts"];
  numbers(run, &[roomstate(), clearchat()], &keys, 4, judge);
  long_values(run, &[clearchat(), roomstate()], 1 << 16, judge);
  foreign(run, &[clearchat(), roomstate()], judge);
  equal_parts(run, &[clearchat(), roomstate()], judge);
  characters(run, &[clearchat(), roomstate()], judge);
}

/// Numbers around every power of two and ten, and around the limits of units.
fn number_texts(max: usize) -> Vec<String> {
  let mut numbers: Vec<i128> = (-1200..=1200).collect();
  for k in 0..70 {
    numbers.extend((-2..=2).map(|d| (1i128 << k) + d));
    numbers.extend((-2..=2).map(|d| -(1i128 << k) + d));
    for unit in [60i128, 1000, 60_000] {
      numbers.extend((-2..=2).map(|d| (1i128 << k) / unit + d));
    }
  }
  for k in 0..25 {
    numbers.extend((-2..=2).map(|d| 10i128.pow(k) + d));
  }
  numbers.sort();
  numbers.dedup();
  let mut texts: Vec<String> = numbers.iter().map(|n| n.to_string()).collect();
  texts.extend(numbers.iter().map(|n| format!("0{n}")));
  texts.extend(numbers.iter().map(|n| format!("+{n}")));
  texts.extend(["1.0", "1e3", "0x10", "1_000", "1,000", "٣", "½", "１", " 1", "1 ", "inf", "NaN"].map(|s| s.replace(' ', "\u{a0}")));
  // what is almost a number
  let symbols = Strings { sigma: &["0", "1", "7", "+", "-", ".", "e", "_", "\t", "\u{a0}"], max };
  let mut text = String::new();
  for i in 0..symbols.total() {
    symbols.get(i, &mut text);
    texts.push(text.clone());
  }
  texts.sort();
  texts.dedup();
  texts
}

/// Each of the given tags, where a kind of message has it, with many numbers.
pub fn numbers(run: &mut Run, kinds: &[Kind], keys: &[&str], max: usize, judge: Judge) {
  let texts = number_texts(max);
  let slots: Vec<(&Kind, usize)> = kinds
    .iter()
    .flat_map(|k| k.fields.iter().enumerate().filter(|(_, f)| f.base.is_some() && keys.contains(&f.key)).map(move |(n, _)| (k, n)))
    .collect();
  let space = Product(vec![texts.len() as u64, slots.len() as u64]);
  let bound = format!("{} numbers around 0, powers of two and ten, and limits of units, and all short texts of digits, signs, points and blanks, in every numeric tag ({} of {} kinds)", texts.len(), slots.len(), kinds.len());
  run.family("numbers", &bound, space.total(), |i, local| {
    let v = space.get(i);
    let mut line = String::new();
    let (kind, slot) = slots[v[1]];
    let tags: Vec<(&str, &str)> = kind
      .fields
      .iter()
      .enumerate()
      .filter_map(|(n, f)| if n == slot { Some((f.key, texts[v[0]].as_str())) } else { f.base.map(|b| (f.key, b)) })
      .collect();
    render(&mut line, &tags, kind.prefixes[0], kind.command, kind.channels[0], kind.texts[0]);
    judge(&line, i, local)
  });
}

/// Numbers as versions of badges and in `badge-info`.
pub fn badge_numbers(run: &mut Run, kinds: &[Kind], max: usize, judge: Judge) {
  const NAMES: &[&str] = &["subscriber", "moderator", "founder", "bits", "predictions", "sub-gifter"];
  let texts = number_texts(max);
  let space = Product(vec![texts.len() as u64, kinds.len() as u64, NAMES.len() as u64, 2]);
  let bound = format!("{} numbers around 0, powers of two and ten, and limits of units, and all short texts of digits, signs, points and blanks, as the version or the information of {NAMES:?} in {} kinds of messages", texts.len(), kinds.len());
  run.family("numbers of badges", &bound, space.total(), |i, local| {
    let v = space.get(i);
    let (n, kind, name) = (&texts[v[0]], &kinds[v[1]], NAMES[v[2]]);
    let (version, info) = if v[3] == 0 { ("3", n.as_str()) } else { (n.as_str(), "7") };
    let (badges, info) = (format!("vip/1,{name}/{version}"), format!("{name}/{info}"));
    let tags: Vec<(&str, &str)> = kind
      .fields
      .iter()
      .filter_map(|f| match f.key {
        "badges" => Some((f.key, badges.as_str())),
        "badge-info" => Some((f.key, info.as_str())),
        _ => f.base.map(|b| (f.key, b)),
      })
      .collect();
    let mut line = String::new();
    render(&mut line, &tags, kind.prefixes[0], kind.command, kind.channels[0], kind.texts[0]);
    judge(&line, i, local)
  });
}

/// Every part of every kind of message, in many lengths.
pub fn long_values(run: &mut Run, kinds: &[Kind], longest: usize, judge: Judge) {
  let mut sizes: Vec<usize> = (0..=70).collect();
  for k in 7..=16 {
    sizes.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
  }
  sizes.extend([99, 100, 101, 199, 200, 201, 499, 500, 501, 999, 1000, 1001, 9999, 10000, 10001]);
  sizes.retain(|n| *n <= longest + 1);
  const UNITS: &[&str] = &["a", "é", "\\s", "x⸝", "a,b/c", "A\u{1f600}"];
  let slots: Vec<(&Kind, usize)> =
    kinds.iter().flat_map(|k| (0..k.fields.len() + 3).map(move |n| (k, n))).filter(|(k, n)| *n >= k.fields.len() || k.fields[*n].base.is_some()).collect();
  let space = Product(vec![sizes.len() as u64, UNITS.len() as u64, slots.len() as u64]);
  let bound = format!("{} lengths up to {} x {} contents x each tag, text, channel and prefix of {} kinds of messages", sizes.len(), sizes.iter().max().unwrap(), UNITS.len(), kinds.len());
  run.family("long values", &bound, space.total(), |i, local| {
    let v = space.get(i);
    let (kind, slot) = slots[v[2]];
    // numbered, so that no part of it is like another
    let mut value = String::new();
    let mut n = 0;
    while value.len() < sizes[v[0]] {
      value.push_str(UNITS[v[1]]);
      if n % 7 == 3 {
        value.push_str(&n.to_string());
      }
      n += 1;
    }
    let tags: Vec<(&str, &str)> = kind
      .fields
      .iter()
      .enumerate()
      .filter_map(|(n, f)| if n == slot { Some((f.key, value.as_str())) } else { f.base.map(|b| (f.key, b)) })
      .collect();
    let n = kind.fields.len();
    let text = if slot == n { format!(" :{value}") } else { kind.texts[0].into() };
    let channel = if slot == n + 1 { format!("{}{value}", kind.channels[0]) } else { kind.channels[0].into() };
    let prefix = if slot == n + 2 { format!(":{value}!u@h ") } else { kind.prefixes[0].into() };
    let mut line = String::new();
    render(&mut line, &tags, &prefix, kind.command, &channel, &text);
    judge(&line, i, local)
  });
}

/// Tags of Twitch which the library has no name for.
const UNNAMED: &[&str] = &[
  "source-room-id", "source-id", "source-badges", "source-badge-info", "source-msg-id", "source-only",
  "returning-chatter", "vip", "animation-id", "rm-received-ts", "rm-deleted", "historical", "sent-ts",
  "pinned-chat-paid-canonical-amount", "reply-thread-parent-display-name", "reply-thread-parent-user-id",
  "msg-param-was-gifted", "msg-param-multimonth-duration", "msg-param-multimonth-tenure", "msg-param-origin-id",
  "msg-param-community-gift-id", "msg-param-gifter-id", "msg-param-gifter-login", "msg-param-gifter-name",
  "msg-param-gift-theme", "msg-param-fun-string", "msg-param-goal-contribution-type", "msg-param-goal-description",
  "msg-param-goal-current-contributions", "msg-param-goal-target-contributions", "msg-param-goal-user-contributions",
  "msg-param-anon-gift", "msg-param-prior-gifter-anonymous", "msg-param-prior-gifter-id", "msg-param-is-upgrade",
  "msg-param-charity-name", "msg-param-donation-amount", "msg-param-donation-currency", "msg-param-exponent",
  "msg-param-value", "msg-param-copoReward", "msg-param-category", "msg-param-id", "msg-param-trigger-type",
  "thread-id", "message-id", "ban-reason", "target-login", "lang", "broadcaster-lang", "mercury", "sender-count",
  "anonymous", "anon", "system", "deleted", "bot", "verified", "slow-mode", "followers", "title", "status", "x", "",
];

/// Tags which a message has no use for change nothing.
pub fn foreign(run: &mut Run, kinds: &[Kind], judge: Judge) {
  const VALUES: &[&str] = &["", "0", "1", "-1", "true", "x", "274598607", "1642720582342"];
  let mut names: Vec<&str> = crate::names::TAGS.iter().map(|t| t.1).chain(UNNAMED.iter().copied()).collect();
  names.sort();
  names.dedup();
  // with one of the message's own tags missing, or complete
  let slots: Vec<(&Kind, Option<usize>)> = kinds
    .iter()
    .flat_map(|k| {
      let own = k.fields.iter().enumerate().filter(|(_, f)| f.base.is_some()).map(|(n, _)| Some(n));
      own.chain([None]).map(move |n| (k, n)).collect::<Vec<_>>()
    })
    .collect();
  let space = Product(vec![slots.len() as u64, names.len() as u64, VALUES.len() as u64, 2]);
  let bound = format!(
    "{} kinds of messages, complete or without one of their tags, x {} names of tags x {} values x before and after the others",
    kinds.len(), names.len(), VALUES.len(),
  );
  run.family("foreign tags", &bound, space.total(), |i, local| {
    let v = space.get(i);
    let (kind, without) = slots[v[0]];
    let own = kind.fields.iter().enumerate().filter(|(n, _)| Some(*n) != without);
    let mut tags: Vec<(&str, &str)> = own.filter_map(|(_, f)| f.base.map(|b| (f.key, b))).collect();
    // of an own tag this is a duplicate, or another value
    let at = if v[3] == 0 { 0 } else { tags.len() };
    tags.insert(at, (names[v[1]], VALUES[v[2]]));
    let mut line = String::new();
    render(&mut line, &tags, kind.prefixes[0], kind.command, kind.channels[0], kind.texts[0]);
    judge(&line, i, local)
  });
}

/// Parts of a message which happen to be equal to each other, or which differ only in case.
pub fn equal_parts(run: &mut Run, kinds: &[Kind], judge: Judge) {
  const FORMS: usize = 4;
  let part = |kind: &Kind, n: usize| -> String {
    let count = kind.fields.len();
    if n < count {
      return kind.fields[n].base.unwrap_or("").to_string();
    }
    match n - count {
      0 => kind.texts[0].trim_start_matches([' ', ':']).to_string(),
      1 => kind.channels[0].trim_start_matches([' ']).to_string(),
      2 => kind.channels[0].trim_start_matches([' ', '#']).to_string(),
      3 => kind.prefixes[0].trim_start_matches(':').split(['!', ' ']).next().unwrap_or("").to_string(),
      4 => kind.prefixes[0].trim_start_matches(':').trim().to_string(),
      5 => kind.command.to_string(),
      6 => kind.name.to_string(),
      // the name of the tag itself, and of the tag before
      7 => String::new(),
      _ => unreachable!(),
    }
  };
  let slots: Vec<(&Kind, usize)> = kinds
    .iter()
    .flat_map(|k| (0..k.fields.len() + 3).map(move |n| (k, n)))
    .filter(|(k, n)| *n >= k.fields.len() || k.fields[*n].base.is_some())
    .collect();
  let mut cases: Vec<(&Kind, usize, String)> = vec![];
  for (kind, slot) in slots {
    let mut values = vec![];
    for n in 0..kind.fields.len() + 8 {
      let p = part(kind, n);
      for form in 0..FORMS {
        values.push(match form {
          0 => p.clone(),
          1 => p.to_uppercase(),
          2 => p.to_lowercase(),
          _ => format!("{p}{p}"),
        });
      }
    }
    values.extend(kind.fields.iter().map(|f| f.key.to_string()));
    values.sort();
    values.dedup();
    cases.extend(values.into_iter().map(|v| (kind, slot, v)));
  }
  let bound = format!("{} kinds of messages, each part equal to each other part of it, in upper and lower case and doubled, and to each name of a tag", kinds.len());
  run.family("equal parts", &bound, cases.len() as u64, |i, local| {
    let (kind, slot, value) = &cases[i as usize];
    judge(&with_part(kind, *slot, value), i, local)
  });
}

/// The complete message of a kind with one of its parts replaced: a tag, the text, the channel, or the nick.
pub fn with_part(kind: &Kind, slot: usize, value: &str) -> String {
  let tags: Vec<(&str, &str)> = kind
    .fields
    .iter()
    .enumerate()
    .filter_map(|(n, f)| if n == slot { Some((f.key, value)) } else { f.base.map(|b| (f.key, b)) })
    .collect();
  let n = kind.fields.len();
  let text = if slot == n { format!(" :{value}") } else { kind.texts[0].into() };
  let channel = if slot == n + 1 { format!(" #{}", value.trim_start_matches('#')) } else { kind.channels[0].into() };
  // nicks contain neither of the marks which end them
  let prefix = if slot == n + 2 { format!(":{}!u@h ", value.replace(['!', '@'], "_")) } else { kind.prefixes[0].into() };
  let mut line = String::new();
  render(&mut line, &tags, &prefix, kind.command, &channel, &text);
  line
}

/// Every character in every part of every kind of message, also next to each other.
pub fn characters(run: &mut Run, kinds: &[Kind], judge: Judge) {
  let mut chars: Vec<char> = (0u8..=0x7f).map(char::from).filter(|c| !matches!(c, '\r' | '\n')).collect();
  chars.extend((0x80..=0x17f).filter_map(char::from_u32));
  chars.extend([
    '\u{34f}', '\u{ad}', '\u{1680}', '\u{180e}', '\u{2000}', '\u{2003}', '\u{200b}', '\u{200d}', '\u{200e}', '\u{2028}', '\u{2029}',
    '\u{202f}', '\u{205f}', '\u{2060}', '\u{2800}', '\u{3000}', '\u{e000}', '\u{fe0f}', '\u{feff}', '\u{fffd}', '\u{ffff}',
    '\u{1f600}', '\u{e0000}', '\u{e0001}', '\u{e007f}', '\u{10ffff}', '\u{2e1d}', '\u{130}', '\u{3a9}', '\u{212a}',
  ]);
  const FORMS: &[(&str, &str, &str)] = &[("", "", ""), ("", "", "ab"), ("ab", "", ""), ("a", "", "b"), ("", "a", ""), ("1", "", "2"), ("", " ", "")];
  let slots: Vec<(&Kind, usize)> = kinds
    .iter()
    .flat_map(|k| (0..k.fields.len() + 3).map(move |n| (k, n)))
    .filter(|(k, n)| *n >= k.fields.len() || k.fields[*n].base.is_some())
    .collect();
  let space = Product(vec![chars.len() as u64, FORMS.len() as u64, slots.len() as u64]);
  let bound = format!(
    "{} characters, among them all of ASCII, alone, at the start, at the end, inside and at both ends of each tag, the text, the channel and the nick of {} kinds of messages",
    chars.len(), kinds.len()
  );
  run.family("characters", &bound, space.total(), |i, local| {
    let v = space.get(i);
    let (kind, slot) = slots[v[2]];
    let (before, between, after) = FORMS[v[1]];
    let c = chars[v[0]];
    let value = match between {
      "" => format!("{before}{c}{after}"),
      b => format!("{c}{b}{c}"),
    };
    judge(&with_part(kind, slot, &value), i, local)
  });
  // two characters at either end of the text, and of a tag's value
  let two = Product(vec![94, 94, 2, kinds.len() as u64, 2]);
  let bound = format!("every two printable characters of ASCII at the start or the end of the text and of the first tag of {} kinds of messages", kinds.len());
  run.family("two characters", &bound, two.total(), |i, local| {
    let v = two.get(i);
    let pair: String = [v[0], v[1]].iter().map(|c| (b'!' + *c as u8) as char).collect();
    let value = if v[2] == 0 { format!("{pair}some text") } else { format!("some text{pair}") };
    let value = if v[4] == 0 { value } else { value.replace(' ', "-") };
    let kind = &kinds[v[3]];
    let slot = if v[4] == 0 || kind.fields.is_empty() { kind.fields.len() } else { 0 };
    judge(&with_part(kind, slot, &value), i, local)
  });
}

/// The dedicated conversions of all types, each with its command.
type Conversion = (&'static str, fn(IrcMessageRef<'_>) -> Option<model::View>);

macro_rules! conversion {
  ($command:literal, $T:ident) => {
    ($command, |m| $T::from_irc(m).ok().map(|t| t.view()))
  };
}

const CONVERSIONS: &[Conversion] = &[
  conversion!("CLEARCHAT", ClearChat),
  conversion!("CLEARMSG", ClearMsg),
  conversion!("GLOBALUSERSTATE", GlobalUserState),
  conversion!("JOIN", Join),
  conversion!("NOTICE", Notice),
  conversion!("PART", Part),
  conversion!("PING", Ping),
  conversion!("PONG", Pong),
  conversion!("PRIVMSG", Privmsg),
  conversion!("ROOMSTATE", RoomState),
  conversion!("USERNOTICE", UserNotice),
  conversion!("USERSTATE", UserState),
  conversion!("WHISPER", Whisper),
];

fn conversions(line: &str) -> Verdict {
  let wrong = |e: String| Err(format!("{e}\n  line: {}", show(line)));
  let Some(m) = IrcMessageRef::parse(line) else {
    return match Message::parse(line) {
      Ok(_) => wrong("a line which is no message was converted".into()),
      Err(_) => Ok(()),
    };
  };
  let generic = Message::parse(line).ok().map(|t| t.view());
  let others = [
    ("Message::from_irc", Message::from_irc(m.clone()).ok().map(|t| t.view())),
    ("Message::try_from", Message::try_from(m.clone()).ok().map(|t| t.view())),
    ("IrcMessageRef::as_typed", m.clone().as_typed().ok().map(|t| t.view())),
    ("IrcMessage::as_typed", IrcMessage::parse(line).and_then(|m| m.as_typed().ok().map(|t| t.view()))),
  ];
  for (name, v) in &others {
    if *v != generic {
      return wrong(format!("{name} gives {v:?}, Message::parse gives {generic:?}"));
    }
  }
  let command = m.command();
  for (own, convert) in CONVERSIONS {
    let got = convert(m.clone());
    let want = if command.as_str() == *own { generic.clone() } else { None };
    if got != want {
      return wrong(format!("conversion to the type of {own} gives {got:?}, expected {want:?}"));
    }
  }
  Ok(())
}

pub fn dispatch(run: &mut Run) {
  let kinds = vec![
    membership("JOIN"), membership("PART"), notice(), ping("PING"), ping("PONG"), globaluserstate(), userstate(),
  ];
  deviations(run, kinds, run.pick(5, 6));
  subsets(run, "subsets: GLOBALUSERSTATE", Subsets::new(globaluserstate(), &[]));
  subsets(run, "subsets: USERSTATE", Subsets::new(userstate(), &[]));
  let rest = [membership("JOIN"), membership("PART"), notice(), ping("PING"), ping("PONG"), globaluserstate(), userstate()];
  long_values(run, &rest, 1 << 16, judge);
  foreign(run, &rest, judge);
  equal_parts(run, &rest, judge);
  characters(run, &rest, judge);
  // the tags and form of every kind of message, under every command
  let mut commands: Vec<&str> = model::COMMANDS.to_vec();
  commands.extend(["X", "421", "privmsg", "PRIVMSGX", "PRIVMS", "PIN", "005", "NAMES", "CLEAR", "USERNOTICES"]);
  let kinds = all_kinds();
  let forms: Vec<Space> = kinds
    .iter()
    .map(|k| {
      let mut k = k.clone();
      for f in &mut k.fields {
        f.alts.truncate(run.pick(1, 2));
      }
      Space::new(k, run.pick(1, 2))
    })
    .collect();
  let total: u64 = forms.iter().map(|s| s.total()).sum();
  let n = commands.len() as u64;
  run.family("every form under every command", "the complete message of every kind and its deviations, with its command replaced by every other one, through every conversion", total * n, |i, local| {
    let mut line = String::new();
    pick(&forms, |s| s.total(), i / n, |s, i| s.get(i, &mut line));
    let line = with_command(&line, commands[(i % n) as usize]);
    judge(&line, i, local)?;
    local.steps(CONVERSIONS.len() as u64 + 4);
    conversions(&line)
  });
}

/// `line` with another command.
fn with_command(line: &str, command: &str) -> String {
  let mut at = 0;
  for c in ['@', ':'] {
    if line[at..].starts_with(c) {
      at += line[at..].find(' ').unwrap() + 1;
    }
  }
  let end = line[at..].find(' ').map_or(line.len(), |e| at + e);
  format!("{}{command}{}", &line[..at], &line[end..])
}

/// C01: hostile values in typed messages.
pub fn hostile(run: &mut Run) {
  let lists: Vec<String> = [0usize, 1, 2, 31, 32, 33, 64, 65, 128, 129, 300, 3000]
    .iter()
    .flat_map(|n| {
      let n = *n;
      [
        vec!["subscriber/1"; n].join(","),
        vec![""; n].join(","),
        vec!["x"; n].join(","),
        vec!["é/⸝/"; n].join(","),
        "\\".repeat(n),
        "/".repeat(n),
        "9".repeat(n),
        "⸝".repeat(n),
        "\u{1}".repeat(n),
        format!("-{}", "0".repeat(n)),
      ]
    })
    .collect();
  let mut values: Vec<String> = lists;
  for k in 0..70 {
    for d in [-1i128, 0, 1] {
      values.push(((1i128 << k) + d).to_string());
      values.push((-(1i128 << k) + d).to_string());
    }
  }
  values.extend(["NaN", "inf", "1e9", "0x10", " ", "+", "-", "+0", "--1", "\u{10ffff}", "\u{0}", "ONE", "\\s\\", ":", "!"].map(String::from));
  values.retain(|v| !v.contains(' '));
  let kinds = all_kinds();
  let slots: Vec<(usize, usize)> =
    kinds.iter().enumerate().flat_map(|(k, kind)| (0..kind.fields.len() + 2).map(move |f| (k, f))).collect();
  let space = Product(vec![slots.len() as u64, values.len() as u64]);
  let bound = format!("{} kinds of messages x each of their tags, text and prefix x {} hostile values", kinds.len(), values.len());
  run.family("hostile values", &bound, space.total(), |i, local| {
    let v = space.get(i);
    let (k, slot) = slots[v[0]];
    let kind = &kinds[k];
    let value = values[v[1]].as_str();
    let tags: Vec<(&str, &str)> = kind
      .fields
      .iter()
      .enumerate()
      .filter_map(|(n, f)| if n == slot { Some((f.key, value)) } else { f.base.map(|b| (f.key, b)) })
      .collect();
    let n = kind.fields.len();
    let text = if slot == n { format!(" :{value}") } else { kind.texts[0].into() };
    let prefix = if slot == n + 1 { format!(":{value}!{value}@{value} ") } else { kind.prefixes[0].into() };
    let mut line = String::new();
    render(&mut line, &tags, &prefix, kind.command, kind.channels[0], &text);
    local.trace();
    local.steps(1);
    let ok = guard::with(|g| {
      g.at_end(&line, |s| match Message::parse(s) {
        Ok(m) => {
          black_box(m.view());
          black_box(format!("{m:?}"));
          black_box(m.clone());
          true
        }
        Err(e) => {
          black_box(e.to_string());
          false
        }
      })
    });
    local.state(&(v[0], v[1], ok));
    Ok(())
  });
}
