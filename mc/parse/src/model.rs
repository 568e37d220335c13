//! Reference model of the line grammar and of the typed messages.
//!
//! Written from the documentation of the message formats, with no code of the
//! implementation: a message is a list of substrings, a typed message is a list
//! of named values (a [`View`]).

#[derive(Clone, Debug, PartialEq)]
pub struct RefPrefix<'a> {
  pub raw: &'a str,
  pub nick: Option<&'a str>,
  pub user: Option<&'a str>,
  pub host: &'a str,
  /// of the form `host`, `nick@host` or `nick!user@host`; nothing is said about others
  pub well_formed: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct RefMsg<'a> {
  pub raw: &'a str,
  pub tags: Vec<(&'a str, &'a str)>,
  pub prefix: Option<RefPrefix<'a>>,
  pub command: &'a str,
  pub channel: Option<&'a str>,
  pub params: Option<&'a str>,
}

/// Where the parts of a message are, but not what they are.
pub type Shape = (Vec<(usize, usize, usize)>, [Option<(usize, usize)>; 6]);

impl<'a> RefMsg<'a> {
  /// The state which a scanner of `line` ends in: all the places it found.
  pub fn shape(&self, line: &str) -> Shape {
    let base = line.as_ptr() as usize;
    let span = |s: &str| (s.as_ptr() as usize - base, s.len());
    let tags = self.tags.iter().map(|(k, v)| (k.as_ptr() as usize - base, k.len(), v.len())).collect();
    let prefix = self.prefix.as_ref();
    let parts = [
      prefix.map(|p| span(p.host)),
      prefix.and_then(|p| p.nick).map(span),
      prefix.and_then(|p| p.user).map(span),
      Some(span(self.command)),
      self.channel.map(span),
      self.params.map(span),
    ];
    (tags, parts)
  }
}

fn cut<'a>(s: &'a str, at: &str) -> Option<(&'a str, &'a str)> {
  let i = s.find(at)?;
  Some((&s[..i], &s[i + at.len()..]))
}

pub fn parse(raw: &str) -> Option<RefMsg<'_>> {
  let mut rest = raw;
  let mut tags = vec![];
  if rest.starts_with('@') {
    if let Some((section, after)) = cut(&rest[1..], " ") {
      tags = parse_tags(section);
      rest = after;
    }
  }
  let mut prefix = None;
  if rest.starts_with(':') {
    if let Some((section, after)) = cut(&rest[1..], " ") {
      prefix = Some(parse_prefix(section));
      rest = after;
    }
  }
  let (command, mut rest) = cut(rest, " ").unwrap_or((rest, ""));
  if command.is_empty() {
    return None;
  }
  let mut channel = None;
  if rest.starts_with('#') {
    let (name, after) = cut(rest, " ").unwrap_or((rest, ""));
    channel = Some(name);
    rest = after;
  }
  let params = if rest.is_empty() { None } else { Some(rest) };
  Some(RefMsg { raw, tags, prefix, command, channel, params })
}

fn parse_tags(section: &str) -> Vec<(&str, &str)> {
  let mut out = vec![];
  let mut rest = section;
  while let Some((key, after)) = cut(rest, "=") {
    match cut(after, ";") {
      Some((value, after)) => {
        out.push((key, value));
        rest = after;
      }
      None => {
        out.push((key, after));
        break;
      }
    }
  }
  out
}

fn parse_prefix(raw: &str) -> RefPrefix<'_> {
  let plain = |s: &str| !s.contains(['!', '@']);
  let (nick, user, host) = match cut(raw, "@") {
    None => (None, None, raw),
    Some((left, host)) => match cut(left, "!") {
      None => (Some(left), None, host),
      Some((nick, user)) => (Some(nick), Some(user), host),
    },
  };
  let well_formed = nick.map_or(true, plain) && user.map_or(true, plain) && plain(host);
  RefPrefix { raw, nick, user, host, well_formed }
}

impl<'a> RefMsg<'a> {
  pub fn tag(&self, name: &str) -> Option<&'a str> {
    self.tags.iter().find(|(k, _)| *k == name).map(|(_, v)| *v)
  }
  pub fn channel(&self) -> Option<&'a str> {
    let word = |n: usize| self.params.and_then(|p| p.split_whitespace().nth(n));
    match self.command {
      "353" => word(2),
      "366" => word(1),
      _ => self.channel,
    }
  }
  pub fn text(&self) -> Option<&'a str> {
    self.params.map(|p| cut(p, ":").map(|(_, t)| t).unwrap_or(p))
  }
}

pub const COMMANDS: &[&str] = &[
  "PING", "PONG", "JOIN", "PART", "PRIVMSG", "WHISPER", "CLEARCHAT", "CLEARMSG",
  "GLOBALUSERSTATE", "NOTICE", "RECONNECT", "ROOMSTATE", "USERNOTICE", "USERSTATE", "CAP", "001",
  "002", "003", "004", "353", "366", "372", "375", "376",
];

pub fn unescape(s: &str) -> String {
  let mut out = String::new();
  let mut it = s.chars();
  while let Some(c) = it.next() {
    match c {
      '\\' => match it.next() {
        Some(':') => out.push(';'),
        Some('s') => out.push(' '),
        Some('r') => out.push('\r'),
        Some('n') => out.push('\n'),
        Some('⸝') => out.push(','),
        Some(c) => out.push(c),
        None => {}
      },
      '⸝' => out.push(','),
      c => out.push(c),
    }
  }
  out
}

/// Named values of a typed message.
pub type View = Vec<(&'static str, String)>;

fn digits(s: &str) -> Option<i128> {
  let (neg, d) = match s.strip_prefix('-') {
    Some(d) => (true, d),
    None => (false, s.strip_prefix('+').unwrap_or(s)),
  };
  if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) || d.trim_start_matches('0').len() > 30 {
    return None;
  }
  let n = d.bytes().fold(0i128, |n, b| {
    if n > i128::MAX / 100 { n } else { n * 10 + (b - b'0') as i128 }
  });
  Some(if neg { -n } else { n })
}

fn uint(s: &str, max: u64) -> Option<u64> {
  if s.starts_with('-') {
    return None;
  }
  digits(s).filter(|n| *n <= max as i128).map(|n| n as u64)
}

pub fn u64_of(s: &str) -> Option<u64> {
  uint(s, u64::MAX)
}

pub fn i64_of(s: &str) -> Option<i64> {
  digits(s).filter(|n| *n >= i64::MIN as i128 && *n <= i64::MAX as i128).map(|n| n as i64)
}

fn flag(s: &str) -> bool {
  uint(s, u8::MAX as u64).is_some_and(|n| n > 0)
}

/// First and last millisecond of the representable calendar (years -262143..=262142).
pub const MIN_MS: i64 = -8334601228800000;
pub const MAX_MS: i64 = 8210266876799999;

fn timestamp(s: &str) -> Option<i64> {
  i64_of(s).filter(|ms| (MIN_MS..=MAX_MS).contains(ms))
}

fn action(s: &str) -> (&str, bool) {
  match s.strip_prefix("\u{1}ACTION ").and_then(|s| s.strip_suffix('\u{1}')) {
    Some(s) => (s, true),
    None => (s, false),
  }
}

fn non_empty(s: &str) -> Option<&str> {
  Some(s).filter(|s| !s.is_empty())
}

#[derive(Clone, Debug)]
pub struct RefBadge {
  pub name: String,
  pub version: String,
  pub extra: Option<String>,
}

pub fn badges(badges: Option<&str>, info: Option<&str>) -> Vec<RefBadge> {
  let entries = |s: &str| -> Vec<(String, String)> {
    s.split(',').filter_map(|e| cut(e, "/")).map(|(a, b)| (a.into(), b.into())).collect()
  };
  let info = info.map(entries).unwrap_or_default();
  badges
    .map(entries)
    .unwrap_or_default()
    .into_iter()
    .map(|(name, version)| {
      let extra = info.iter().find(|(n, _)| *n == name).map(|(_, v)| v.clone());
      RefBadge { name, version, extra }
    })
    .collect()
}

/// Canonical text of a list of badges: variant, then the plain data.
pub fn badges_text(list: &[RefBadge]) -> String {
  let mut out = String::new();
  for b in list {
    match b.name.as_str() {
      "staff" | "turbo" | "broadcaster" | "moderator" => {
        out += &format!("{}[{}/1]", b.name, b.name);
      }
      "subscriber" => {
        let months = b.extra.as_deref().and_then(u64_of).unwrap_or(1);
        let extra = b.extra.as_deref().unwrap_or("1");
        out += &format!("subscriber({},{})[subscriber/{}+{}]", b.version, months, b.version, extra);
      }
      _ => {
        out += &format!("other[{}/{}", b.name, b.version);
        if let Some(e) = &b.extra {
          out += &format!("+{e}");
        }
        out += "]";
      }
    }
    out += ";";
  }
  out += &format!("#{}", list.len());
  out
}

fn dbg(v: &impl std::fmt::Debug) -> String {
  format!("{v:?}")
}

fn opt(v: Option<&str>) -> String {
  dbg(&v)
}

fn user(id: &str, login: &str, name: &str) -> String {
  dbg(&(id, login, unescape(name)))
}

fn seconds(n: u64) -> String {
  format!("{n}s+0")
}

fn time(ms: i64) -> String {
  format!("{ms}ms+0")
}

/// The typed message for a line, or why there is none.
pub fn typed(raw: &str) -> Result<View, &'static str> {
  typed_of(&parse(raw).ok_or("not a message")?)
}

pub fn typed_of(m: &RefMsg<'_>) -> Result<View, &'static str> {
  let tag = |name: &'static str| m.tag(name);
  let need = |name: &'static str| m.tag(name).ok_or(name);
  let nick = || m.prefix.as_ref().and_then(|p| p.nick).ok_or("nick");
  let channel = || m.channel().ok_or("channel");
  let badge_list = || badges_text(&badges(tag("badges"), tag("badge-info")));
  let color = || opt(tag("color").and_then(non_empty));
  let ts = || need("tmi-sent-ts").and_then(|v| timestamp(v).ok_or("tmi-sent-ts"));
  let emotes = || dbg(&tag("emotes").unwrap_or(""));
  let emote_sets = || {
    let sets: Vec<&str> = tag("emote-sets").map(|s| s.split(',').collect()).unwrap_or_default();
    let all: String = sets.iter().map(|s| dbg(s) + ";").collect();
    format!("{all}#{}", sets.len())
  };
  let num = |name: &'static str| need(name).and_then(|v| u64_of(v).ok_or(name));
  let mut v: View = vec![];
  let mut put = |k: &'static str, s: String| v.push((k, s));
  match m.command {
    "PRIVMSG" => {
      put("type", "Privmsg".into());
      let (text, is_action) = action(m.text().ok_or("text")?);
      put("channel", dbg(&channel()?));
      put("channel_id", dbg(&need("room-id")?));
      put("msg_id", opt(tag("msg-id")));
      put("id", dbg(&need("id")?));
      put("sender", user(need("user-id")?, nick()?, need("display-name")?));
      put("reply", match (
        tag("reply-parent-msg-id"),
        tag("reply-thread-parent-msg-id"),
        tag("reply-thread-parent-user-login"),
        tag("reply-parent-user-id"),
        tag("reply-parent-user-login"),
        tag("reply-parent-display-name"),
        tag("reply-parent-msg-body"),
      ) {
        (Some(id), Some(tid), Some(tlogin), Some(uid), Some(login), Some(name), Some(body)) => {
          dbg(&(id, tid, tlogin, user(uid, login, name), unescape(body)))
        }
        _ => "None".into(),
      });
      put("pinned", match (
        tag("pinned-chat-paid-amount").and_then(i64_of),
        tag("pinned-chat-paid-currency"),
        tag("pinned-chat-paid-exponent").and_then(i64_of),
        tag("pinned-chat-paid-level").filter(|l| LEVELS.contains(l)),
        tag("pinned-chat-paid-is-system-message").map(flag),
      ) {
        (Some(a), Some(c), Some(e), Some(l), Some(s)) => dbg(&(a, c, e, l, s)),
        _ => "None".into(),
      });
      put("text", dbg(&text));
      put("is_action", dbg(&is_action));
      put("badges", badge_list());
      put("color", color());
      put("reward", opt(tag("custom-reward-id").and_then(non_empty)));
      put("bits", dbg(&tag("bits").and_then(u64_of)));
      put("emotes", emotes());
      put("timestamp", time(ts()?));
    }
    "WHISPER" => {
      put("type", "Whisper".into());
      let (recipient, text) = m.params.and_then(|p| cut(p, " :")).ok_or("params")?;
      put("recipient", dbg(&recipient));
      put("sender", user(need("user-id")?, nick()?, need("display-name")?));
      put("text", dbg(&text));
      put("badges", badge_list());
      put("emotes", emotes());
      put("color", color());
    }
    "CLEARMSG" => {
      put("type", "ClearMsg".into());
      let (text, is_action) = action(m.text().ok_or("text")?);
      put("channel", dbg(&channel()?));
      put("channel_id", dbg(&need("room-id")?));
      put("sender", dbg(&need("login")?));
      put("target", dbg(&need("target-msg-id")?));
      put("text", dbg(&text));
      put("is_action", dbg(&is_action));
      put("timestamp", time(ts()?));
    }
    "CLEARCHAT" => {
      put("type", "ClearChat".into());
      put("channel", dbg(&channel()?));
      put("channel_id", dbg(&need("room-id")?));
      let action = match (m.text(), tag("ban-duration").and_then(u64_of)) {
        (None, _) => "clear".to_string(),
        (Some(u), Some(d)) => format!("timeout {:?} {:?} {}", u, need("target-user-id")?, seconds(d)),
        (Some(u), None) => format!("ban {:?} {:?}", u, need("target-user-id")?),
      };
      put("action", action);
      put("target", opt(m.text()));
      put("timestamp", time(ts()?));
    }
    "ROOMSTATE" => {
      put("type", "RoomState".into());
      put("channel", dbg(&channel()?));
      put("channel_id", dbg(&need("room-id")?));
      put("emote_only", dbg(&tag("emote-only").map(flag)));
      put("followers_only", match tag("followers-only").and_then(i64_of) {
        None => "None".into(),
        Some(0) => "any".into(),
        Some(n) if n < 0 => "disabled".into(),
        // the unit is minutes; what doesn't fit is the longest duration
        Some(n) => seconds((n as u64).saturating_mul(60)),
      });
      put("r9k", dbg(&tag("r9k").map(flag)));
      put("slow", tag("slow").and_then(u64_of).map(seconds).unwrap_or("None".into()));
      put("subs_only", dbg(&tag("subs-only").map(flag)));
    }
    "JOIN" | "PART" => {
      put("type", if m.command == "JOIN" { "Join" } else { "Part" }.into());
      put("channel", dbg(&channel()?));
      put("user", dbg(&nick()?));
    }
    "NOTICE" => {
      put("type", "Notice".into());
      put("channel", opt(m.channel()));
      put("text", dbg(&m.text().ok_or("text")?));
      put("id", opt(tag("msg-id")));
    }
    "PING" | "PONG" => {
      put("type", if m.command == "PING" { "Ping" } else { "Pong" }.into());
      put("nonce", opt(m.text()));
    }
    "GLOBALUSERSTATE" => {
      put("type", "GlobalUserState".into());
      put("id", dbg(&need("user-id")?));
      put("name", dbg(&unescape(need("display-name")?)));
      put("badges", badge_list());
      put("emote_sets", emote_sets());
      put("color", color());
    }
    "USERSTATE" => {
      put("type", "UserState".into());
      put("channel", dbg(&channel()?));
      put("name", dbg(&unescape(need("display-name")?)));
      put("badges", badge_list());
      put("emote_sets", emote_sets());
      put("color", color());
    }
    "USERNOTICE" => {
      put("type", "UserNotice".into());
      const ANON: &str = "274598607";
      let from_anon = tag("user-id") == Some(ANON);
      let event_id = need("msg-id")?;
      let promotion = || match (
        tag("msg-param-promo-gift-total").and_then(u64_of),
        tag("msg-param-promo-name"),
      ) {
        (Some(n), Some(name)) => dbg(&(n, unescape(name))),
        _ => "None".into(),
      };
      let plan = || -> Result<String, &'static str> {
        Ok(dbg(&(need("msg-param-sub-plan")?, unescape(need("msg-param-sub-plan-name")?))))
      };
      let mut anonymous = false;
      let event = match event_id {
        "sub" | "resub" => format!(
          "SubOrResub resub={} {} streak={:?} {}",
          event_id == "resub",
          num("msg-param-cumulative-months")?,
          tag("msg-param-streak-months").and_then(u64_of).filter(|n| *n > 0),
          plan()?
        ),
        "raid" => format!(
          "Raid {} {:?}",
          num("msg-param-viewerCount")?,
          need("msg-param-profileImageURL")?
        ),
        "subgift" | "anonsubgift" => {
          anonymous = event_id == "anonsubgift" || from_anon;
          format!(
            "SubGift {} {} {} {}",
            num("msg-param-months")?,
            user(
              need("msg-param-recipient-id")?,
              need("msg-param-recipient-user-name")?,
              need("msg-param-recipient-display-name")?
            ),
            plan()?,
            num("msg-param-gift-months")?
          )
        }
        "submysterygift" if !from_anon => format!(
          "SubMysteryGift {} {} {:?}",
          num("msg-param-mass-gift-count")?,
          num("msg-param-sender-count")?,
          need("msg-param-sub-plan")?
        ),
        "submysterygift" | "anonsubmysterygift" => {
          anonymous = true;
          format!(
            "AnonSubMysteryGift {} {:?}",
            num("msg-param-mass-gift-count")?,
            need("msg-param-sub-plan")?
          )
        }
        "giftpaidupgrade" => format!(
          "GiftPaidUpgrade {:?} {:?} {}",
          need("msg-param-sender-login")?,
          unescape(need("msg-param-sender-name")?),
          promotion()
        ),
        "anongiftpaidupgrade" => {
          anonymous = true;
          format!("AnonGiftPaidUpgrade {}", promotion())
        }
        "ritual" => format!("Ritual {:?}", need("msg-param-ritual-name")?),
        "bitsbadgetier" => format!("BitsBadgeTier {}", num("msg-param-threshold")?),
        "announcement" => format!("Announcement {:?}", tag("msg-param-color").unwrap_or("PRIMARY")),
        _ => {
          anonymous = true;
          "Unknown".into()
        }
      };
      put("channel", dbg(&channel()?));
      put("channel_id", dbg(&need("room-id")?));
      put("sender", if anonymous {
        "None".into()
      } else {
        user(need("user-id")?, need("login")?, need("display-name")?)
      });
      put("text", opt(m.text()));
      put("system_message", dbg(&tag("system-msg").and_then(non_empty).map(unescape)));
      put("event", event);
      put("event_id", dbg(&event_id));
      put("badges", badge_list());
      put("emotes", emotes());
      put("color", color());
      put("message_id", dbg(&need("id")?));
      put("timestamp", time(ts()?));
    }
    "RECONNECT" => put("type", "Reconnect".into()),
    _ => {
      put("type", "Other".into());
      put("raw", dbg(&m.raw));
    }
  }
  Ok(v)
}

pub const LEVELS: &[&str] =
  &["ONE", "TWO", "THREE", "FOUR", "FIVE", "SIX", "SEVEN", "EIGHT", "NINE", "TEN"];
