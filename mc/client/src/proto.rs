//! What may be on the wire, independently of the implementation.

/// A client line, read back.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Line {
  pub tags: Vec<(String, String)>,
  pub command: String,
  pub params: Vec<String>,
}

/// Undo the escaping of a tag value as IRCv3 says.
fn unescape(v: &str) -> String {
  let mut out = String::new();
  let mut chars = v.chars();
  while let Some(c) = chars.next() {
    if c != '\\' {
      out.push(c);
      continue;
    }
    match chars.next() {
      Some(':') => out.push(';'),
      Some('s') => out.push(' '),
      Some('\\') => out.push('\\'),
      Some('r') => out.push('\r'),
      Some('n') => out.push('\n'),
      Some(c) => out.push(c),
      None => {}
    }
  }
  out
}

/// Read one line without its terminator.
pub fn read(line: &str) -> Option<Line> {
  let mut rest = line;
  let mut tags = vec![];
  if let Some(r) = rest.strip_prefix('@') {
    let (section, r) = r.split_once(' ')?;
    for tag in section.split(';') {
      let (k, v) = tag.split_once('=').unwrap_or((tag, ""));
      tags.push((k.to_string(), unescape(v)));
    }
    rest = r;
  }
  let (head, trailing) = match rest.split_once(" :") {
    Some((h, t)) => (h, Some(t)),
    None => (rest, None),
  };
  let mut words = head.split(' ');
  let command = words.next()?.to_string();
  let mut params: Vec<String> = words.map(String::from).collect();
  if command.is_empty() || params.iter().any(|p| p.is_empty()) {
    return None;
  }
  params.extend(trailing.map(String::from));
  tags.sort();
  Some(Line { tags, command, params })
}

/// Split what was written into lines, each ended by CRLF and free of other line breaks.
pub fn lines(bytes: &[u8]) -> Result<Vec<&str>, String> {
  let text = std::str::from_utf8(bytes).map_err(|_| "wrote invalid UTF-8".to_string())?;
  let mut out = vec![];
  let mut rest = text;
  while !rest.is_empty() {
    let Some((line, r)) = rest.split_once("\r\n") else {
      return Err(format!("wrote an unterminated line {rest:?}"));
    };
    if line.contains(['\r', '\n']) {
      return Err(format!("wrote a line break in the middle of {line:?}"));
    }
    out.push(line);
    rest = r;
  }
  Ok(out)
}

pub const CAPS: [&str; 3] = ["twitch.tv/commands", "twitch.tv/membership", "twitch.tv/tags"];

/// The number of bytes of a complete handshake at the start of `bytes`, or why there is none.
pub fn handshake(bytes: &[u8], login: &str, token: Option<&str>) -> Result<usize, String> {
  let text = String::from_utf8_lossy(bytes).into_owned();
  let mut end = 0;
  let mut lines = vec![];
  for _ in 0..3 {
    let Some(n) = text[end..].find("\r\n") else {
      return Err(format!("incomplete handshake {text:?}"));
    };
    lines.push(&text[end..end + n]);
    end += n + 2;
  }
  let cap = lines[0].strip_prefix("CAP REQ :").ok_or_else(|| format!("first line is {:?}", lines[0]))?;
  let mut caps: Vec<&str> = cap.split(' ').collect();
  caps.sort();
  if caps != CAPS {
    return Err(format!("requested capabilities {caps:?}"));
  }
  let password = match token {
    None => "oauth:just_a_lil_guy".to_string(),
    Some(t) if t.starts_with("oauth:") => t.to_string(),
    Some(t) => format!("oauth:{t}"),
  };
  let pass = lines[1].strip_prefix("PASS ").ok_or_else(|| format!("second line is {:?}", lines[1]))?;
  if pass != password {
    return Err(format!("password is {pass:?}, expected {password:?}"));
  }
  let nick = lines[2].strip_prefix("NICK ").ok_or_else(|| format!("third line is {:?}", lines[2]))?;
  if nick != login {
    return Err(format!("nick is {nick:?}, expected {login:?}"));
  }
  Ok(end)
}

/// Whether `bytes` is the start of a handshake.
pub fn handshake_prefix(bytes: &[u8], login: &str, token: Option<&str>) -> bool {
  // the order of the capabilities is the only freedom
  let password = match token {
    None => "oauth:just_a_lil_guy".to_string(),
    Some(t) if t.starts_with("oauth:") => t.to_string(),
    Some(t) => format!("oauth:{t}"),
  };
  let [a, b, c] = CAPS;
  [[a, b, c], [a, c, b], [b, a, c], [b, c, a], [c, a, b], [c, b, a]].iter().any(|o| {
    let full = format!("CAP REQ :{}\r\nPASS {password}\r\nNICK {login}\r\n", o.join(" "));
    full.as_bytes().starts_with(bytes)
  })
}

pub const ACK: &str = ":tmi.twitch.tv CAP * ACK :twitch.tv/commands twitch.tv/tags twitch.tv/membership";
pub const WELCOME: &str = ":tmi.twitch.tv 001 justinfan12345 :Welcome, GLHF!";
