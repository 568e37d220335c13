//! Spaces of typed lines: a complete message of each kind, and its deviations.

use mc_core::space::Deviations;

/// One tag: its value in the complete message, and other values. `None` is absence.
#[derive(Clone)]
pub struct Field {
  pub key: &'static str,
  pub base: Option<&'static str>,
  pub alts: Vec<Option<&'static str>>,
}

/// A kind of message.
#[derive(Clone)]
pub struct Kind {
  pub name: &'static str,
  pub command: &'static str,
  pub fields: Vec<Field>,
  pub prefixes: &'static [&'static str],
  pub channels: &'static [&'static str],
  pub texts: &'static [&'static str],
}

const STR: &[Option<&str>] = &[None, Some(""), Some("é⸝=\\s:#"), Some("0")];
const ESC: &[Option<&str>] = &[None, Some(""), Some("a\\sb\\:c\\\\d⸝e"), Some("\\s"), Some("\\"), Some("=é")];
const U64: &[Option<&str>] = &[
  None, Some(""), Some("0"), Some("1"), Some("18446744073709551615"), Some("18446744073709551616"),
  Some("-1"), Some("x"), Some("007"), Some("1x"), Some("300000000000000000"), Some("4294967296"),
];
const I64: &[Option<&str>] = &[
  None, Some(""), Some("0"), Some("1"), Some("-1"), Some("-2"), Some("9223372036854775807"),
  Some("-9223372036854775808"), Some("9223372036854775808"), Some("x"), Some("1.5"), Some("10080"),
  Some("307445734561825861"), Some("153722867280912931"),
];
const FLAG: &[Option<&str>] = &[
  None, Some(""), Some("0"), Some("2"), Some("255"), Some("256"), Some("-1"), Some("true"), Some("00"),
];
const TS: &[Option<&str>] = &[
  None, Some(""), Some("0"), Some("-1"), Some("x"), Some("1642720582342x"), Some("999"),
  Some("8210266876799999"), Some("8210266876800000"), Some("-8334601228800000"),
  Some("-8334601228800001"), Some("9223372036854775807"), Some("18446744073709551615"),
];
const LEVEL: &[Option<&str>] = &[
  None, Some(""), Some("TWO"), Some("THREE"), Some("FOUR"), Some("FIVE"), Some("SIX"), Some("SEVEN"),
  Some("EIGHT"), Some("NINE"), Some("TEN"), Some("ELEVEN"), Some("one"), Some("1"),
];
const BADGES: &[Option<&str>] = &[
  None, Some(""), Some("moderator/1"), Some("broken"), Some("staff/1,turbo/1,broadcaster/1"),
  Some("subscriber/0"), Some(",vip/1,,subscriber/3000/x,"),
];
const INFO: &[Option<&str>] = &[
  None, Some(""), Some("subscriber/x"), Some("predictions/blue,subscriber/99"), Some("subscriber/"),
  Some("sub,moderator/5"),
];
const SETS: &[Option<&str>] = &[None, Some(""), Some("0"), Some("a,,b"), Some(",")];
const COLOR: &[Option<&str>] = &[None, Some(""), Some("red")];

fn f(key: &'static str, base: &'static str, alts: &[Option<&'static str>]) -> Field {
  let base = Some(base);
  Field { key, base, alts: alts.iter().copied().filter(|a| *a != base).collect() }
}

/// A field which the complete message lacks.
fn extra(key: &'static str, alts: &[&'static str]) -> Field {
  Field { key, base: None, alts: alts.iter().map(|a| Some(*a)).collect() }
}

const USER: &[&str] = &[":login!user@host ", ":login@host ", ":host ", ""];
const SERVER: &[&str] = &[":tmi.twitch.tv ", ":login!user@host ", ""];
const CHANNEL: &[&str] = &[" #chan", "", " #", " chan", " #é!@"];
const TEXT: &[&str] = &[
  " :hello", "", " :", " hello", " :\u{1}ACTION waves\u{1}", " :\u{1}ACTION waves", " :\u{1}ACTION \u{1}",
  " :\u{1}ACTION\u{1}", " :ACTION x\u{1}", " : a :b ", " a :b", " :\u{1}ACTION \u{1}ACTION x\u{1}\u{1}",
  " :\u{1}action x\u{1}", " :é\u{1}",
];
const NAMES: &[&str] = &[" :user", "", " :", " user", " :a b"];

fn common_user() -> Vec<Field> {
  vec![f("badges", "subscriber/12,vip/1", BADGES), f("badge-info", "subscriber/14", INFO), f("color", "#FF0000", COLOR)]
}

pub fn privmsg() -> Kind {
  let mut fields = vec![
    f("room-id", "11148817", STR),
    f("id", "2a31a9df", STR),
    f("user-id", "117691339", STR),
    f("display-name", "Login", ESC),
    f("tmi-sent-ts", "1642720582342", TS),
    f("bits", "100", U64),
    f("emotes", "25:0-4", STR),
    f("custom-reward-id", "reward", STR),
    extra("msg-id", &["highlighted-message", ""]),
  ];
  fields.extend(common_user());
  fields.extend(reply_fields(true));
  fields.extend(pinned_fields(true));
  fields.extend([
    extra("client-nonce", &["x"]), extra("pinned-chat-paid-canonical-amount", &["7"]),
    extra("reply-thread-parent-display-name", &["y"]), extra("source-room-id", &["z"]),
  ]);
  Kind { name: "PRIVMSG", command: "PRIVMSG", fields, prefixes: USER, channels: CHANNEL, texts: TEXT }
}

fn reply_fields(_: bool) -> Vec<Field> {
  vec![
    f("reply-parent-msg-id", "r1", STR),
    f("reply-thread-parent-msg-id", "r2", STR),
    f("reply-thread-parent-user-login", "r3", STR),
    f("reply-parent-user-id", "r4", STR),
    f("reply-parent-user-login", "r5", STR),
    f("reply-parent-display-name", "r\\s6", ESC),
    f("reply-parent-msg-body", "r\\s7", ESC),
  ]
}

fn pinned_fields(_: bool) -> Vec<Field> {
  vec![
    f("pinned-chat-paid-amount", "200", I64),
    f("pinned-chat-paid-currency", "USD", STR),
    f("pinned-chat-paid-exponent", "2", I64),
    f("pinned-chat-paid-level", "ONE", LEVEL),
    f("pinned-chat-paid-is-system-message", "1", FLAG),
  ]
}

pub fn whisper() -> Kind {
  let mut fields = vec![
    f("user-id", "5", STR),
    f("display-name", "Login", ESC),
    f("emotes", "25:0-4", STR),
    extra("tmi-sent-ts", &["x"]),
    extra("message-id", &["1"]),
    extra("thread-id", &["1_2"]),
  ];
  fields.extend(common_user());
  Kind {
    name: "WHISPER", command: "WHISPER", fields, prefixes: USER,
    channels: &[" recipient", "", " ", " #chan", " a b"],
    texts: TEXT,
  }
}

pub fn clearmsg() -> Kind {
  let fields = vec![
    f("room-id", "1", STR),
    f("login", "ronni", STR),
    f("target-msg-id", "abc", STR),
    f("tmi-sent-ts", "1642720582342", TS),
    extra("id", &["own"]),
    extra("user-id", &["u"]),
    extra("display-name", &["D"]),
  ];
  Kind { name: "CLEARMSG", command: "CLEARMSG", fields, prefixes: SERVER, channels: CHANNEL, texts: TEXT }
}

pub fn clearchat() -> Kind {
  let fields = vec![
    f("room-id", "1", STR),
    f("target-user-id", "2", STR),
    f("ban-duration", "600", U64),
    f("tmi-sent-ts", "1642720582342", TS),
    extra("user-id", &["u"]),
    extra("target-msg-id", &["m"]),
    extra("login", &["l"]),
  ];
  Kind { name: "CLEARCHAT", command: "CLEARCHAT", fields, prefixes: SERVER, channels: CHANNEL, texts: NAMES }
}

pub fn roomstate() -> Kind {
  let fields = vec![
    f("room-id", "1", STR),
    f("emote-only", "1", FLAG),
    f("followers-only", "10", I64),
    f("r9k", "1", FLAG),
    f("slow", "30", U64),
    f("subs-only", "1", FLAG),
    extra("rituals", &["1"]),
    extra("tmi-sent-ts", &["x"]),
  ];
  Kind {
    name: "ROOMSTATE", command: "ROOMSTATE", fields, prefixes: SERVER, channels: CHANNEL,
    texts: &["", " :x"],
  }
}

pub fn membership(command: &'static str) -> Kind {
  Kind {
    name: command, command,
    fields: vec![extra("user-id", &["x"]), extra("login", &["l"]), extra("display-name", &["d"]), extra("room-id", &["r"])],
    prefixes: USER, channels: CHANNEL, texts: &["", " :x", " #other"],
  }
}

pub fn notice() -> Kind {
  Kind {
    name: "NOTICE", command: "NOTICE",
    fields: vec![f("msg-id", "delete_message_success", STR), extra("id", &["i"]), extra("room-id", &["r"]), extra("tmi-sent-ts", &["x"])],
    prefixes: SERVER,
    channels: &[" #chan", " *", "", " #", " #é"],
    texts: TEXT,
  }
}

pub fn ping(command: &'static str) -> Kind {
  Kind {
    name: command, command,
    fields: vec![extra("id", &["i"]), extra("client-nonce", &["n"])],
    prefixes: &["", ":tmi.twitch.tv ", ":login!user@host "],
    channels: &["", " #chan", " tmi.twitch.tv"],
    texts: &["", " :nonce", " nonce", " :", " :a :b", " a:b", " :a b "],
  }
}

pub fn globaluserstate() -> Kind {
  let mut fields = vec![
    f("user-id", "5", STR),
    f("display-name", "Lo\\sgin", ESC),
    f("emote-sets", "0,33,abc-d", SETS),
    extra("user-type", &["mod"]),
    extra("login", &["l"]),
    extra("id", &["i"]),
  ];
  fields.extend(common_user());
  Kind {
    name: "GLOBALUSERSTATE", command: "GLOBALUSERSTATE", fields, prefixes: SERVER,
    channels: &["", " #chan"], texts: &["", " :x"],
  }
}

pub fn userstate() -> Kind {
  let mut fields = vec![
    f("display-name", "Lo\\sgin", ESC),
    f("emote-sets", "0,33,abc-d", SETS),
    extra("user-id", &["5"]),
    extra("mod", &["1"]),
    extra("login", &["l"]),
    extra("id", &["i"]),
  ];
  fields.extend(common_user());
  Kind { name: "USERSTATE", command: "USERSTATE", fields, prefixes: SERVER, channels: CHANNEL, texts: &["", " :x"] }
}

pub const EVENTS: &[&str] = &[
  "sub", "resub", "raid", "subgift", "anonsubgift", "submysterygift", "anonsubmysterygift",
  "giftpaidupgrade", "anongiftpaidupgrade", "ritual", "bitsbadgetier", "announcement",
  "primepaidupgrade", "Sub", "subs", "", "rewardgift",
];

pub fn usernotice(event: &'static str) -> Kind {
  let mut fields = vec![
    f("msg-id", event, &[None]),
    f("user-id", "93", &[None, Some(""), Some("274598607"), Some("2745986077")]),
    f("login", "ann", STR),
    f("display-name", "An\\sn", ESC),
    f("room-id", "5", STR),
    f("id", "ef14", STR),
    f("tmi-sent-ts", "1642720582342", TS),
    f("system-msg", "15\\sraiders", ESC),
    f("emotes", "25:0-4", STR),
  ];
  fields.extend(common_user());
  fields.extend(event_fields(event));
  Kind {
    name: event, command: "USERNOTICE", fields, prefixes: SERVER, channels: CHANNEL,
    texts: &[" :hello", "", " :", " hello", " :\u{1}ACTION x\u{1}"],
  }
}

/// The tags of all events, those of other events as intruders.
fn event_fields(event: &str) -> Vec<Field> {
  let uses: &[&str] = match event {
    "sub" | "resub" => &["msg-param-cumulative-months", "msg-param-streak-months", "msg-param-sub-plan", "msg-param-sub-plan-name"],
    "raid" => &["msg-param-viewerCount", "msg-param-profileImageURL"],
    "subgift" | "anonsubgift" => &[
      "msg-param-months", "msg-param-recipient-id", "msg-param-recipient-user-name",
      "msg-param-recipient-display-name", "msg-param-sub-plan", "msg-param-sub-plan-name", "msg-param-gift-months",
    ],
    "submysterygift" | "anonsubmysterygift" => &["msg-param-mass-gift-count", "msg-param-sender-count", "msg-param-sub-plan"],
    "giftpaidupgrade" => &["msg-param-sender-login", "msg-param-sender-name", "msg-param-promo-gift-total", "msg-param-promo-name"],
    "anongiftpaidupgrade" => &["msg-param-promo-gift-total", "msg-param-promo-name"],
    "ritual" => &["msg-param-ritual-name"],
    "bitsbadgetier" => &["msg-param-threshold"],
    "announcement" => &["msg-param-color"],
    _ => &[],
  };
  let all: Vec<Field> = vec![
    f("msg-param-cumulative-months", "6", U64),
    f("msg-param-streak-months", "2", U64),
    f("msg-param-sub-plan", "Prime", STR),
    f("msg-param-sub-plan-name", "Channel\\sSub", ESC),
    f("msg-param-viewerCount", "15", U64),
    f("msg-param-profileImageURL", "https://x/y=z.png", STR),
    f("msg-param-months", "7", U64),
    f("msg-param-recipient-id", "55", STR),
    f("msg-param-recipient-user-name", "mr", STR),
    f("msg-param-recipient-display-name", "M\\sr", ESC),
    f("msg-param-gift-months", "3", U64),
    f("msg-param-mass-gift-count", "20", U64),
    f("msg-param-sender-count", "100", U64),
    f("msg-param-sender-login", "sl", STR),
    f("msg-param-sender-name", "S\\sl", ESC),
    f("msg-param-promo-gift-total", "4003", U64),
    f("msg-param-promo-name", "Subt\\sember", ESC),
    f("msg-param-ritual-name", "new_chatter", STR),
    f("msg-param-threshold", "10000", U64),
    f("msg-param-color", "BLUE", STR),
  ];
  let mut out: Vec<Field> = vec![];
  let mut others = vec![];
  for field in all {
    if uses.contains(&field.key) {
      out.push(field);
    } else {
      others.push(Field { alts: vec![field.base], base: None, ..field });
    }
  }
  out.extend(others);
  out
}

/// How the tags are laid out.
const ORDERS: usize = 4;

pub struct Space {
  pub kind: Kind,
  deviations: Deviations,
}

impl Space {
  pub fn new(kind: Kind, k: usize) -> Self {
    let mut alternatives: Vec<u64> = kind.fields.iter().map(|f| f.alts.len() as u64).collect();
    let present = kind.fields.iter().filter(|f| f.base.is_some()).count() as u64;
    alternatives.push(kind.prefixes.len() as u64 - 1);
    alternatives.push(kind.channels.len() as u64 - 1);
    alternatives.push(kind.texts.len() as u64 - 1);
    // order of tags
    alternatives.push(ORDERS as u64 - 1);
    // a later tag with the name of an earlier one
    alternatives.push(present);
    Self { kind, deviations: Deviations::new(alternatives, k) }
  }
  pub fn total(&self) -> u64 {
    self.deviations.total()
  }
  pub fn get(&self, i: u64, out: &mut String) {
    let v = self.deviations.get(i);
    let k = &self.kind;
    let n = k.fields.len();
    let mut tags: Vec<(&str, &str)> = vec![];
    for (field, d) in k.fields.iter().zip(&v) {
      let value = if *d == 0 { field.base } else { field.alts[d - 1] };
      if let Some(value) = value {
        tags.push((field.key, value));
      }
    }
    match v[n + 3] {
      0 => {}
      1 => tags.reverse(),
      2 => {
        let half = tags.len() / 2;
        tags.rotate_left(half);
      }
      _ => tags.sort_by(|a, b| (a.0.len(), a.0).cmp(&(b.0.len(), b.0))),
    }
    if v[n + 4] > 0 {
      let key = k.fields.iter().filter(|f| f.base.is_some()).nth(v[n + 4] - 1).unwrap().key;
      tags.push((key, "999"));
    }
    render(out, &tags, k.prefixes[v[n]], k.command, k.channels[v[n + 1]], k.texts[v[n + 2]]);
  }
}

pub fn render(out: &mut String, tags: &[(&str, &str)], prefix: &str, command: &str, channel: &str, text: &str) {
  out.clear();
  if !tags.is_empty() {
    out.push('@');
    for (i, (key, value)) in tags.iter().enumerate() {
      if i > 0 {
        out.push(';');
      }
      out.push_str(key);
      out.push('=');
      out.push_str(value);
    }
    out.push(' ');
  }
  out.push_str(prefix);
  out.push_str(command);
  out.push_str(channel);
  out.push_str(text);
}

/// Lines with every subset of the tags of a kind, in its standard form.
pub struct Subsets {
  pub kind: Kind,
  /// fields which are taken away or not; all others are always present
  free: Vec<usize>,
}

impl Subsets {
  pub fn new(kind: Kind, keys: &[&str]) -> Self {
    let free = kind
      .fields
      .iter()
      .enumerate()
      .filter(|(_, f)| keys.is_empty() || keys.iter().any(|k| f.key.starts_with(k)))
      .map(|(i, _)| i)
      .collect();
    Self { kind, free }
  }
  pub fn total(&self) -> u64 {
    1 << self.free.len()
  }
  pub fn len(&self) -> usize {
    self.free.len()
  }
  pub fn get(&self, i: u64, out: &mut String) {
    let mut tags = vec![];
    for (n, field) in self.kind.fields.iter().enumerate() {
      let on = match self.free.iter().position(|f| *f == n) {
        Some(bit) => i >> bit & 1 == 1,
        None => field.base.is_some(),
      };
      if on {
        tags.push((field.key, field.base.or(field.alts[0]).unwrap_or("")));
      }
    }
    let k = &self.kind;
    render(out, &tags, k.prefixes[0], k.command, k.channels[0], k.texts[0]);
  }
}

/// All kinds of messages, for the checks which are about all of them.
pub fn all_kinds() -> Vec<Kind> {
  let mut all = vec![
    privmsg(), whisper(), clearmsg(), clearchat(), roomstate(), membership("JOIN"), membership("PART"),
    notice(), ping("PING"), ping("PONG"), globaluserstate(), userstate(),
  ];
  all.extend(EVENTS.iter().map(|e| usernotice(e)));
  all
}
