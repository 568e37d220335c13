//! The calls which send something.

use crate::proto::{self, Line};
use mc_core::space::Strings;
use mc_core::{harness_error, Verdict};
use tmi::client::write::SendError;
use tmi::{Client, IrcMessageRef, Message};

#[derive(Clone, Debug)]
pub enum Op {
  Privmsg { channel: String, text: String, reply: Option<String>, nonce: Option<String> },
  /// the setters in this order: true is the reply, false the nonce
  Setters(Vec<(bool, String)>),
  Ping(String),
  /// the PING line which is answered
  Pong(String),
  Join(String),
  JoinAll(Vec<String>),
  Raw(String),
}

pub enum Want {
  Line(Line),
  Raw(String),
  Rejected,
}

impl Op {
  pub fn privmsg(text: &str) -> Op {
    Op::Privmsg { channel: "#ch".into(), text: text.into(), reply: None, nonce: None }
  }

  pub async fn perform(&self, client: &mut Client) -> Result<(), SendError> {
    match self {
      Op::Privmsg { channel, text, reply, nonce } => {
        let mut m = client.privmsg(channel, text);
        if let Some(r) = reply {
          m = m.reply_to(r);
        }
        if let Some(n) = nonce {
          m = m.client_nonce(n);
        }
        m.send().await
      }
      Op::Setters(calls) => {
        let mut m = client.privmsg("#ch", "text");
        for (reply, value) in calls {
          m = if *reply { m.reply_to(value) } else { m.client_nonce(value) };
        }
        m.send().await
      }
      Op::Ping(nonce) => client.ping(nonce).await,
      Op::Pong(line) => {
        let Some(Ok(Message::Ping(ping))) = IrcMessageRef::parse(line).map(|m| m.as_typed()) else {
          harness_error("not a PING");
        };
        client.pong(&ping).await
      }
      Op::Join(channel) => client.join(channel).await,
      Op::JoinAll(channels) => client.join_all(channels).await,
      Op::Raw(text) => client.send_raw(text.as_str()).await,
    }
  }

  pub fn want(&self) -> Want {
    let line = |tags: Vec<(String, String)>, command: &str, params: Vec<String>| {
      Want::Line(Line { tags, command: command.into(), params })
    };
    let channel = |c: &String| format!("#{}", c.strip_prefix('#').unwrap_or(c));
    match self {
      Op::Privmsg { channel, text, reply, nonce } => {
        let mut tags = vec![];
        if let Some(n) = nonce {
          tags.push(("client-nonce".into(), n.clone()));
        }
        if let Some(r) = reply {
          tags.push(("reply-parent-msg-id".into(), r.clone()));
        }
        line(tags, "PRIVMSG", vec![channel.clone(), text.clone()])
      }
      Op::Setters(calls) => {
        let last = |which: bool| calls.iter().rev().find(|(r, _)| *r == which).map(|(_, v)| v.clone());
        Op::Privmsg { channel: "#ch".into(), text: "text".into(), reply: last(true), nonce: last(false) }.want()
      }
      Op::Ping(nonce) => line(vec![], "PING", vec![nonce.clone()]),
      Op::Pong(ping) => {
        let nonce = ping.split_once(" :").map(|(_, n)| n.to_string());
        line(vec![], "PONG", nonce.into_iter().collect())
      }
      Op::Join(c) => line(vec![], "JOIN", vec![channel(c)]),
      Op::JoinAll(cs) => line(vec![], "JOIN", vec![cs.iter().map(channel).collect::<Vec<_>>().join(",")]),
      Op::Raw(text) if text.ends_with("\r\n") => Want::Raw(text.clone()),
      Op::Raw(_) => Want::Rejected,
    }
  }

  /// Whether `bytes` are exactly what this call has to write.
  pub fn check(&self, bytes: &[u8]) -> Verdict {
    match self.want() {
      Want::Rejected if bytes.is_empty() => Ok(()),
      Want::Rejected => Err(format!("{self:?}: wrote {:?}", String::from_utf8_lossy(bytes))),
      Want::Raw(text) if text.as_bytes() == bytes => Ok(()),
      Want::Raw(text) => Err(format!("wrote {:?} for {text:?}", String::from_utf8_lossy(bytes))),
      Want::Line(want) => {
        let lines = proto::lines(bytes).map_err(|e| format!("{self:?}: {e}"))?;
        let [line] = lines[..] else {
          return Err(format!("{self:?}: wrote {} lines: {lines:?}", lines.len()));
        };
        match proto::read(line) {
          Some(got) if got == want => Ok(()),
          got => Err(format!("{self:?}: wrote {line:?}, which is {got:?}, expected {want:?}")),
        }
      }
    }
  }
}

fn strings(sigma: &[&str], max: usize) -> Vec<String> {
  let space = Strings { sigma, max };
  (0..space.total())
    .map(|i| {
      let mut s = String::new();
      space.get(i, &mut s);
      s
    })
    .collect()
}

pub fn single_ops(thorough: bool) -> Vec<Op> {
  let mut ops = vec![];
  let depth = if thorough { 4 } else { 3 };
  // texts and tags which contain every character with a meaning
  let texts = strings(&["a", " ", ":", ";", "=", "@", "#", "\\", ",", "é", "\u{1}", "!"], depth);
  for text in &texts {
    ops.push(Op::privmsg(text));
    ops.push(Op::Ping(text.clone()));
    ops.push(Op::Pong(format!("PING :{text}")));
    ops.push(Op::Pong(format!(":tmi.twitch.tv PING :{text}")));
  }
  let values = strings(&["a", ";", " ", "\\", ":", "=", "s", "é", "r", ",", "\r", "\n"], depth);
  for value in &values {
    for (reply, nonce) in [(true, false), (false, true), (true, true)] {
      ops.push(Op::Privmsg {
        channel: "#ch".into(),
        text: "t".into(),
        reply: reply.then(|| value.clone()),
        nonce: nonce.then(|| value.clone()),
      });
    }
  }
  let some = ["", "a", "; ", "\\s", ":", "x=y", "885196de-cb67-427a-baa8-82f9b0fcd05f"];
  for text in ["", "a", " :x", ":", "@a=b c", "\u{1}ACTION dances\u{1}"] {
    for channel in ["#ch", "#a", "#some_channel_1", "ch", "#CamelCase", "chatrooms:1:2"] {
      for reply in some.iter().map(Some).chain([None]) {
        for nonce in some.iter().map(Some).chain([None]) {
          ops.push(Op::Privmsg {
            channel: channel.into(),
            text: text.into(),
            reply: reply.map(|s| s.to_string()),
            nonce: nonce.map(|s| s.to_string()),
          });
        }
      }
    }
  }
  ops.push(Op::Pong("PING".into()));
  let channels = ["#a", "a", "#some_channel", "some_channel", "#b1", "b1", "1", "#x_", "CamelCase", "#A"];
  for c in channels {
    ops.push(Op::Join(c.into()));
  }
  let lists = Strings { sigma: &channels, max: depth + 1 };
  for i in 1..lists.total() {
    ops.push(Op::JoinAll(lists.symbols(i).into_iter().map(|n| channels[n].to_string()).collect()));
  }
  ops.push(Op::JoinAll((0..300).map(|n| format!("{}channel_{n}", if n % 2 == 0 { "#" } else { "" })).collect()));
  let setters: Vec<(bool, String)> = [true, false].into_iter().flat_map(|r| ["", "v", "; \\s"].map(|v| (r, v.to_string()))).collect();
  for a in &setters {
    for b in &setters {
      ops.push(Op::Setters(vec![a.clone(), b.clone()]));
      for c in &setters {
        ops.push(Op::Setters(vec![a.clone(), b.clone(), c.clone()]));
      }
    }
  }
  for raw in strings(&["\r\n", "\r", "\n", "a", " ", ":"], depth + 2) {
    ops.push(Op::Raw(raw));
  }
  // every two printable characters at either end of every argument
  let printable: Vec<char> = (b' '..=b'~').map(char::from).collect();
  for a in &printable {
    for b in &printable {
      for text in [format!("{a}{b}some text"), format!("some text{a}{b}")] {
        ops.push(Op::privmsg(&text));
        ops.push(Op::Ping(text.clone()));
        ops.push(Op::Pong(format!("PING :{text}")));
        for (reply, nonce) in [(true, false), (false, true)] {
          ops.push(Op::Privmsg {
            channel: "#ch".into(),
            text: "t".into(),
            reply: reply.then(|| text.clone()),
            nonce: nonce.then(|| text.clone()),
          });
        }
        ops.push(Op::Raw(format!("{text}\r\n")));
      }
    }
  }
  // every character of one and two bytes, and others which are easily taken for nothing
  let mut chars: Vec<char> = (0..0x250).filter_map(char::from_u32).filter(|c| !matches!(c, '\r' | '\n')).collect();
  chars.extend([
    '\u{34f}', '\u{1680}', '\u{180e}', '\u{2000}', '\u{2003}', '\u{200b}', '\u{200d}', '\u{200e}', '\u{2028}', '\u{2029}', '\u{202f}',
    '\u{205f}', '\u{2060}', '\u{2800}', '\u{3000}', '\u{e000}', '\u{fe0f}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{1f600}',
    '\u{e0000}', '\u{e0001}', '\u{e007f}', '\u{10ffff}', '\u{2e1d}',
  ]);
  for c in chars {
    for text in [format!("{c}"), format!("{c}ab"), format!("ab{c}"), format!("a{c}b"), format!("{c}{c}"), format!(" {c}"), format!("{c} ")] {
      ops.push(Op::privmsg(&text));
      ops.push(Op::Ping(text.clone()));
      ops.push(Op::Pong(format!("PING :{text}")));
      ops.push(Op::Privmsg { channel: "#ch".into(), text: "t".into(), reply: Some(text.clone()), nonce: None });
      ops.push(Op::Privmsg { channel: "#ch".into(), text: "t".into(), reply: None, nonce: Some(text.clone()) });
      ops.push(Op::Raw(format!("{text}\r\n")));
      // the assumption about channels
      if !text.contains([' ', ',', '#', '\0', '\u{7}']) {
        ops.push(Op::Join(format!("#{text}")));
        ops.push(Op::Join(text.clone()));
        ops.push(Op::JoinAll(vec!["other".into(), text.clone()]));
        ops.push(Op::JoinAll(vec![format!("#{text}"), "#other".into()]));
        ops.push(Op::Privmsg { channel: format!("#{text}"), text: "t".into(), reply: None, nonce: None });
      }
    }
  }
  for n in [1023, 1024, 1025, 5000, 70000] {
    let text: String = "x".repeat(n);
    ops.push(Op::privmsg(&text));
    ops.push(Op::Ping(text.clone()));
    ops.push(Op::Raw(format!("{text}\r\n")));
  }
  ops
}

/// Every kind of call with an argument of this many bytes.
pub fn long_ops(n: usize) -> Vec<Op> {
  let mut ops = vec![];
  for pattern in ["abcdefg", "é", "aé", "; ", " :", "⠀"] {
    let mut text = String::with_capacity(n);
    for c in pattern.chars().cycle() {
      if text.len() + c.len_utf8() > n {
        break;
      }
      text.push(c);
    }
    let word = !pattern.contains(' ');
    let message = |channel: &str, body: &str, reply: Option<&str>, nonce: Option<&str>| Op::Privmsg {
      channel: channel.into(),
      text: body.into(),
      reply: reply.map(String::from),
      nonce: nonce.map(String::from),
    };
    ops.push(message("#ch", &text, None, None));
    ops.push(message("#ch", "x", Some(&text), None));
    ops.push(message("#ch", "x", None, Some(&text)));
    ops.push(message("#ch", &text, Some(&text), Some(&text)));
    ops.push(Op::Ping(text.clone()));
    ops.push(Op::Pong(format!("PING :{text}")));
    ops.push(Op::Raw(format!("{text}\r\n")));
    ops.push(Op::Raw(text.clone()));
    if word && n > 0 {
      ops.push(message(&format!("#{text}"), "x", None, None));
      ops.push(Op::Join(text.clone()));
      ops.push(Op::JoinAll(vec![text.clone(), format!("#{text}"), "b".into()]));
    }
  }
  ops
}

/// The calls which histories are made of: every kind, short and long.
pub fn history_ops() -> Vec<Op> {
  vec![
    Op::privmsg("hi"),
    Op::Ping("n".into()),
    Op::Join("a".into()),
    Op::Raw("bad".into()),
    Op::Privmsg { channel: "#b".into(), text: ":; ".into(), reply: Some("r;".into()), nonce: Some("n ".into()) },
    Op::Pong("PING :tmi.twitch.tv".into()),
    Op::JoinAll(vec!["#a".into(), "b".into()]),
    Op::Raw("PART #a\r\n".into()),
    Op::Privmsg { channel: "#b".into(), text: "".into(), reply: None, nonce: Some("".into()) },
    Op::Pong("PING".into()),
    Op::Raw("".into()),
    Op::privmsg(&"long ".repeat(500)),
  ]
}
