//! Spaces of lines, shared by the checks of the line parser.

use crate::space::{Product, Strings};

pub struct Lines {
  pub name: &'static str,
  pub bound: String,
  pub total: u64,
  gen: Box<dyn Fn(u64, &mut String) + Sync + Send>,
}

impl Lines {
  pub fn get(&self, i: u64, out: &mut String) {
    out.clear();
    (self.gen)(i, out)
  }
}

const SIGMA: &[&str] = &["@", ":", " ", "=", ";", "!", "#", "a", "é"];

/// All strings of up to `max` structural symbols.
pub fn short(max: usize) -> Lines {
  let space = Strings { sigma: SIGMA, max };
  Lines {
    name: "short strings",
    bound: format!("all strings of at most {max} of {SIGMA:?}"),
    total: space.total(),
    gen: Box::new(move |i, out| space.get(i, out)),
  }
}

const TOKENS: &[&str] = &[
  "@", "k=v", "id=", "=x", "flag", ";", " ", ":", "n!u@h", "n@h", "PRIVMSG", "353", "366", "#ch",
  "word", "é",
];

/// All sequences of up to `max` tokens.
pub fn tokens(max: usize) -> Lines {
  let space = Strings { sigma: TOKENS, max };
  Lines {
    name: "token sequences",
    bound: format!("all sequences of at most {max} of {TOKENS:?}"),
    total: space.total(),
    gen: Box::new(move |i, out| space.get(i, out)),
  }
}

const TAGS: &[&str] = &[
  "", "@ ", "@a=b ", "@a= ", "@=b ", "@= ", "@a ", "@a;b=c ", "@a=b;c=d ", "@a=b; ", "@;a=b ",
  "@a=b=c;d=e ", "@a=b;;c=d ", "@é=⸝;b=\u{10ffff} ", "@a=b;a=c;b=a ", "@a=b:c#d!@;:=# ", "@a=b;c ",
  "@a=b", "@msg-id=x;id=y;badges=z;room-id=w ", "@a=b  ",
];
const PREFIX: &[&str] = &["", ":h ", ":n@h ", ":n!u@h ", ":é!ü@ö ", ":a_1!b.2@c-3.tmi.twitch.tv ", ":h", ": ", ":n!u@h  "];
const COMMAND: &[&str] = &[
  "PING", "PONG", "JOIN", "PART", "PRIVMSG", "WHISPER", "CLEARCHAT", "CLEARMSG",
  "GLOBALUSERSTATE", "NOTICE", "RECONNECT", "ROOMSTATE", "USERNOTICE", "USERSTATE", "CAP", "001",
  "002", "003", "004", "353", "366", "372", "375", "376", "X", "", "privmsg", "PRIVMSGS", "35",
  "3530", "é", "421",
];
const CHANNEL: &[&str] = &["", " ", " #", " #c", " c", " #c#d", " #é", " * ACK"];
const PARAMS: &[&str] = &[
  "", " ", " :", " :t", " t", " a :b :c", " a:b", " = #x :y", " n = #chan :x y", " n #chan :End",
  " :é⸝", " #x", " ::", " :\u{1}ACTION t\u{1}",
];

/// All combinations of the parts of a line.
pub fn parts() -> Lines {
  let dims: [&[&str]; 5] = [TAGS, PREFIX, COMMAND, CHANNEL, PARAMS];
  let space = Product(dims.iter().map(|d| d.len() as u64).collect());
  Lines {
    name: "combinations of parts",
    bound: format!(
      "{} tag sections x {} prefixes x {} commands x {} channels x {} params",
      TAGS.len(), PREFIX.len(), COMMAND.len(), CHANNEL.len(), PARAMS.len()
    ),
    total: space.total(),
    gen: Box::new(move |i, out| {
      for (d, n) in dims.iter().zip(space.get(i)) {
        out.push_str(d[n]);
      }
    }),
  }
}

/// A tag section ended by a space at every offset, followed by every length of rest.
pub fn section_ends(max: u64, rest: u64) -> Lines {
  let space = Product(vec![max + 1, rest + 1, 2]);
  Lines {
    name: "ends of the tag section",
    bound: format!("section length 0..={max} x rest length 0..={rest} x with and without an earlier tag"),
    total: space.total(),
    gen: Box::new(move |i, out| {
      let v = space.get(i);
      out.push('@');
      for n in 0..v[0] {
        out.push(if v[2] == 1 && n == 1 { '=' } else { (b'a' + (n % 23) as u8) as char });
      }
      out.push(' ');
      for n in 0..v[1] {
        out.push((b'A' + (n % 23) as u8) as char);
      }
    }),
  }
}

/// A section without an end, of every length.
pub fn no_end(max: u64) -> Lines {
  let space = Product(vec![max + 1, 4]);
  Lines {
    name: "tag sections without an end",
    bound: format!("length 0..={max} x 4 contents"),
    total: space.total(),
    gen: Box::new(move |i, out| {
      let v = space.get(i);
      out.push('@');
      for n in 0..v[0] {
        out.push(match v[1] {
          0 => 'a',
          1 => b"a=b;"[n % 4] as char,
          2 => '=',
          _ => b"k=;"[n % 3] as char,
        });
      }
    }),
  }
}

/// Every assignment of `=`, `;` or neither to pairs and triples of positions in
/// sections of every length.
pub fn positions(max: u64, triples: &'static [u64]) -> Vec<Lines> {
  let pairs = move |i: u64, out: &mut String| {
    let space = Product(vec![max + 1, max + 1, max + 1, 4]);
    let v = space.get(i);
    let len = v[0];
    place(out, len, &[(v[1], b"=;=;"[v[3]]), (v[2], b"==;;"[v[3]])]);
  };
  let space = Product(vec![max + 1, max + 1, max + 1, 4]);
  let mut all = vec![Lines {
    name: "pairs of separators",
    bound: format!("section length 0..={max} x every pair of positions x 4 kinds"),
    total: space.total(),
    gen: Box::new(pairs),
  }];
  if !triples.is_empty() {
    let top = *triples.last().unwrap();
    let space = Product(vec![triples.len() as u64, top, top, top, 4]);
    all.push(Lines {
      name: "triples of separators",
      bound: format!("section lengths {triples:?} x every triple of positions x 4 kinds"),
      total: space.total(),
      gen: Box::new(move |i, out| {
        let v = space.get(i);
        let kinds = [b"=;=", b"===", b"=;;", b";=;"][v[4]];
        place(
          out,
          triples[v[0]] as usize,
          &[(v[1], kinds[0]), (v[2], kinds[1]), (v[3], kinds[2])],
        );
      }),
    });
  }
  all
}

fn place(out: &mut String, len: usize, at: &[(usize, u8)]) {
  let mut section = vec![0u8; len];
  for (n, b) in section.iter_mut().enumerate() {
    *b = b'a' + (n % 23) as u8;
  }
  for (p, b) in at {
    if *p < len {
      section[*p] = *b;
    }
  }
  out.push('@');
  out.push_str(std::str::from_utf8(&section).unwrap());
  out.push_str(" PRIVMSG #c :t=;");
}

/// Every arrangement of `width` adjacent separators at every offset, with every
/// length of what follows.
pub fn clusters(width: u32, max: u64, tail: u64) -> Lines {
  let kinds = 3u64.pow(width);
  let space = Product(vec![kinds, max + 1, tail + 1]);
  Lines {
    name: "clusters of separators",
    bound: format!("every arrangement of {width} of {{=, ;, a}} x offset 0..={max} x tail 0..={tail}"),
    total: space.total(),
    gen: Box::new(move |i, out| {
      let v = space.get(i);
      out.push('@');
      for n in 0..v[1] {
        out.push((b'b' + (n % 20) as u8) as char);
      }
      let mut k = v[0];
      for _ in 0..width {
        out.push(['=', ';', 'a'][k % 3]);
        k /= 3;
      }
      for n in 0..v[2] {
        out.push((b'A' + (n % 23) as u8) as char);
      }
      out.push_str(" X");
    }),
  }
}

/// Every number of tags.
pub fn counts(max: u64) -> Lines {
  const FORMS: &[&str] = &["k=v", "k=", "=v", "=", "key-{}=value-{}", "k{}=", "kéy{}=⸝"];
  const ENDS: &[&str] = &[" X", "; X", ";last X", ";last= X", " :n!u@h PRIVMSG #c :t"];
  let space = Product(vec![max + 1, FORMS.len() as u64, ENDS.len() as u64]);
  Lines {
    name: "numbers of tags",
    bound: format!("0..={max} tags x {} forms x {} ends", FORMS.len(), ENDS.len()),
    total: space.total(),
    gen: Box::new(move |i, out| {
      let v = space.get(i);
      out.push('@');
      for n in 0..v[0] {
        if n > 0 {
          out.push(';');
        }
        out.push_str(&FORMS[v[1]].replace("{}", &n.to_string()));
      }
      out.push_str(ENDS[v[2]]);
    }),
  }
}

/// Lengths of a key, of its value and of the params around powers of two.
pub fn lengths(max_log: u32) -> Lines {
  let mut sizes = vec![0usize, 1];
  for k in 2..=max_log {
    sizes.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1]);
  }
  let bound = format!("key x value x params lengths 2^k-1, 2^k, 2^k+1 for k <= {max_log}, one of them at most 3");
  let small = [0usize, 1, 3];
  let space = Product(vec![sizes.len() as u64, sizes.len() as u64, 3, 3]);
  Lines {
    name: "lengths of a tag",
    bound,
    total: space.total(),
    gen: Box::new(move |i, out| {
      let v = space.get(i);
      let (a, b, c) = (sizes[v[0]], sizes[v[1]], small[v[2]]);
      let (key, value, rest) = match v[3] {
        0 => (a, b, c),
        1 => (a, c, b),
        _ => (c, a, b),
      };
      out.push('@');
      out.extend((0..key).map(|n| (b'a' + (n % 23) as u8) as char));
      out.push('=');
      out.extend((0..value).map(|n| (b'A' + (n % 23) as u8) as char));
      out.push_str(";id=1 :n!u@h PRIVMSG #c :");
      out.extend((0..rest).map(|n| (b'0' + (n % 10) as u8) as char));
    }),
  }
}

pub const REAL: &[&str] = &[
  "PING :tmi.twitch.tv",
  ":tmi.twitch.tv 001 justinfan1 :Welcome, GLHF!",
  ":justinfan1.tmi.twitch.tv 353 justinfan1 = #jerma985 :justinfan1 moobot",
  ":tmi.twitch.tv CAP * ACK :twitch.tv/commands twitch.tv/tags",
  "@ban-duration=10;room-id=1;target-user-id=2;tmi-sent-ts=1642720582342 :tmi.twitch.tv CLEARCHAT #dallas :ronni",
  "@emote-only=0;followers-only=-1;r9k=0;rituals=0;room-id=12345678;slow=0;subs-only=0 :tmi.twitch.tv ROOMSTATE #bar",
  "@badge-info=subscriber/14;badges=subscriber/12,bits/1;color=#FF0000;display-name=Foo\\sBar;emote-sets=0,33;mod=0;subscriber=1;user-type= :tmi.twitch.tv USERSTATE #ch",
  "@badge-info=;badges=;color=;display-name=carkeys;emotes=25:0-4;id=2a31a9df-d6ff-4840-b211-a2547c7e656e;mod=0;room-id=11148817;subscriber=0;tmi-sent-ts=1490382457309;turbo=0;user-id=44317909;user-type= :carkeys!carkeys@carkeys.tmi.twitch.tv PRIVMSG #pajlada :Kappa \u{10FFFF} é",
  "@badges=;color=#19E6E6;display-name=randers;emotes=;message-id=1;thread-id=1_2;turbo=0;user-id=1;user-type= :randers!randers@randers.tmi.twitch.tv WHISPER copyrandom :hello, this is a test",
  "@badge-info=;badges=premium/1;color=#8A2BE2;display-name=Ann;emotes=;flags=;id=1;login=ann;mod=0;msg-id=raid;msg-param-displayName=Ann;msg-param-login=ann;msg-param-profileImageURL=https://x/y.png;msg-param-viewerCount=15;room-id=5;subscriber=0;system-msg=15\\sraiders;tmi-sent-ts=1507246572675;user-id=9;user-type= :tmi.twitch.tv USERNOTICE #othertestchannel",
];

const EDITS: &[&str] = &["", "@", ":", " ", "=", ";", "!", "#", "\\", "é", "\u{1}", "0", "-", "/", ",", "\t", "\0", "\u{a0}", "\u{feff}"];

/// Characters which something may take for blanks.
const BLANKS: &[&str] = &["", " ", "\t", "\0", "\u{b}", "\u{c}", "\u{7f}", "\u{85}", "\u{a0}", "\u{2003}", "\u{2028}", "\u{3000}", "\u{feff}"];
const ENDS: &[&str] = &["\r", "\n", "\r\n", "\n\n", "\r\r\n", "\r\n\r\n"];

/// Real and minimal lines with blanks (and line ends) around and within them.
pub fn blanks(line_ends: bool) -> Lines {
  const MINIMAL: &[&str] = &["", "X", "PING :t", "@a=b X", "@a=b :n!u@h PRIVMSG #c :t", ":h X", "@a= X #c", "X #c", "X #c p"];
  let lines: Vec<&str> = MINIMAL.iter().chain(REAL).copied().collect();
  let mut extra: Vec<&str> = BLANKS.to_vec();
  if line_ends {
    extra.extend(ENDS);
  }
  // inside: at each of the first and last few boundaries of words
  const WORDS: u64 = 7;
  let n = extra.len() as u64;
  let bound = format!("{} lines x each of {extra:?} before x behind x before or behind one of {WORDS} blanks", lines.len());
  let space = Product(vec![n, n, n, 2, WORDS, lines.len() as u64]);
  Lines {
    name: "blanks and line ends",
    bound,
    total: space.total(),
    gen: Box::new(move |i, out| {
      let v = space.get(i);
      out.push_str(extra[v[0]]);
      for (k, word) in lines[v[5]].split(' ').enumerate() {
        if k > 0 {
          let here = k == v[4] + 1;
          if here && v[3] == 0 {
            out.push_str(extra[v[2]]);
          }
          out.push(' ');
          if here && v[3] == 1 {
            out.push_str(extra[v[2]]);
          }
        }
        out.push_str(word);
      }
      out.push_str(extra[v[1]]);
    }),
  }
}

/// Words of real lines separated by something else than one space.
pub fn separators(line_ends: bool) -> Lines {
  let mut lines: Vec<&str> = REAL.to_vec();
  lines.extend(["366 user #chan :End", ":h 366 u #c x y", "353 u = #c :n m", ":h 353 u = #c", "JOIN #a x :y z", ":a!a@a WHISPER b :x y"]);
  let mut extra: Vec<&str> = BLANKS.to_vec();
  if line_ends {
    extra.extend(ENDS);
  }
  const WORDS: u64 = 9;
  let n = extra.len() as u64;
  let others = ["", "\u{b}", "\u{a0}", ":"];
  let bound = format!("{} lines with one or two of the first {WORDS} blanks replaced, one by each of {extra:?}, one by each of {others:?}, each with a space on either side, both or none", lines.len());
  let space = Product(vec![n, others.len() as u64, 4, 4, WORDS, WORDS, lines.len() as u64]);
  Lines {
    name: "separators",
    bound,
    total: space.total(),
    gen: Box::new(move |i, out| {
      let v = space.get(i);
      for (k, word) in lines[v[6]].split(' ').enumerate() {
        if k > 0 {
          let chosen = if k == v[4] + 1 {
            Some((extra[v[0]], v[2]))
          } else if k == v[5] + 1 {
            Some((others[v[1]], v[3]))
          } else {
            None
          };
          match chosen {
            None => out.push(' '),
            Some((blank, sides)) => {
              if sides & 1 != 0 {
                out.push(' ');
              }
              out.push_str(blank);
              if sides & 2 != 0 {
                out.push(' ');
              }
            }
          }
        }
        out.push_str(word);
      }
    }),
  }
}

/// Long lines with each of many characters at their end.
pub fn long_ends() -> Lines {
  let sizes = [0usize, 15, 16, 17, 31, 32, 33, 255, 256, 510, 511, 512, 513, 1023, 1024, 4095, 4096, 8191, 8192, 8193, 16_384, 65_535, 65_536, 70_000];
  let ends: Vec<String> = (0..0x250u32).chain([0x2003, 0x2028, 0x2029, 0x202e, 0x200b, 0x3000, 0xfeff, 0xfffd, 0xffff, 0x1f600, 0x10ffff]).filter_map(char::from_u32).map(String::from).collect();
  const HEADS: &[&str] = &["X", "@a=", "@a=b;c=d :n!u@h PRIVMSG #c :", "366 u #c ", "PING :"];
  let space = Product(vec![ends.len() as u64, 3, HEADS.len() as u64, sizes.len() as u64]);
  Lines {
    name: "ends of long lines",
    bound: format!("{HEADS:?} with {} numbers of bytes up to {}, then one, two or three of each of {} characters", sizes.len(), sizes[sizes.len() - 1], ends.len()),
    total: space.total(),
    gen: Box::new(move |i, out| {
      let v = space.get(i);
      out.push_str(HEADS[v[2]]);
      out.extend(std::iter::repeat('x').take(sizes[v[3]]));
      if HEADS[v[2]].starts_with("@a=") && !HEADS[v[2]].contains(' ') {
        out.push_str(" X ");
      }
      out.push_str(&ends[v[0]].repeat(v[1] + 1));
    }),
  }
}

/// Every prefix of each real line, and each with one character replaced or
/// preceded by another one.
pub fn edits() -> Lines {
  let mut index = vec![];
  for line in REAL {
    index.push((*line, line.char_indices().map(|(i, c)| (i, c.len_utf8())).collect::<Vec<_>>()));
  }
  let kinds = EDITS.len() as u64 * 2 + 1;
  let chars: u64 = index.iter().map(|(_, c)| c.len() as u64).sum();
  Lines {
    name: "edited real lines",
    bound: format!("{} lines of {chars} characters: every truncation and every replacement and insertion of one of {EDITS:?}", REAL.len()),
    total: chars * kinds,
    gen: Box::new(move |i, out| {
      let kind = (i % kinds) as usize;
      let mut c = (i / kinds) as usize;
      for (line, chars) in &index {
        if c >= chars.len() {
          c -= chars.len();
          continue;
        }
        let (at, len) = chars[c];
        out.push_str(&line[..at]);
        if kind == 0 {
          return;
        }
        out.push_str(EDITS[(kind - 1) / 2]);
        out.push_str(&line[if kind % 2 == 1 { at + len } else { at }..]);
        return;
      }
    }),
  }
}

/// Every pair of single-character replacements in the shorter real lines.
pub fn double_edits() -> Lines {
  let lines: Vec<(&str, Vec<(usize, usize)>)> = REAL[..6]
    .iter()
    .map(|l| (*l, l.char_indices().map(|(i, c)| (i, c.len_utf8())).collect()))
    .collect();
  const E: &[&str] = &["", "@", ":", " ", "=", ";", "!", "#"];
  let sizes: Vec<u64> = lines.iter().map(|(_, c)| (c.len() * c.len() * E.len() * E.len()) as u64).collect();
  Lines {
    name: "doubly edited real lines",
    bound: format!("{} lines: every pair of replacements by {E:?}", lines.len()),
    total: sizes.iter().sum(),
    gen: Box::new(move |mut i, out| {
      for ((line, chars), size) in lines.iter().zip(&sizes) {
        if i >= *size {
          i -= size;
          continue;
        }
        let n = chars.len() as u64;
        let (a, b) = ((i % n) as usize, (i / n % n) as usize);
        let (x, y) = ((i / n / n % 8) as usize, (i / n / n / 8) as usize);
        for (k, (at, len)) in chars.iter().enumerate() {
          if k == a {
            out.push_str(E[x]);
          }
          if k == b {
            out.push_str(E[y]);
          }
          if k != a && k != b {
            out.push_str(&line[*at..at + len]);
          }
        }
        return;
      }
    }),
  }
}

/// Every kind of byte of UTF-8 at every place of a section.
pub fn characters(max: u64) -> Lines {
  // every ASCII character, and every lead and continuation byte in each position
  let mut chars: Vec<char> = (0..=0xffu32).filter_map(char::from_u32).collect();
  chars.extend((0x100..0x800).step_by(64).filter_map(char::from_u32));
  chars.extend((0x800..0x10000).step_by(64 * 9 + 1).filter_map(char::from_u32));
  chars.extend((0x10000..0x110000).step_by(64 * 64 * 2 + 64 + 1).filter_map(char::from_u32));
  const TAILS: [u64; 4] = [0, 1, 15, 33];
  let space = Product(vec![chars.len() as u64, max + 1, 3, TAILS.len() as u64]);
  Lines {
    name: "every kind of byte",
    bound: format!("{} characters, with every byte of UTF-8 among them, after 0..={max} others in a key, value or prefix x tails of {TAILS:?}", chars.len()),
    total: space.total(),
    gen: Box::new(move |i, out| {
      let v = space.get(i);
      out.push_str(["@", "@k=", ":"][v[2]]);
      out.extend((0..v[1]).map(|n| (b'a' + (n % 23) as u8) as char));
      out.push(chars[v[0]]);
      out.extend((0..TAILS[v[3]]).map(|n| (b'A' + (n % 23) as u8) as char));
      out.push_str(["=v;x=y PRIVMSG #c :t", ";x=y PRIVMSG #c :t", " PRIVMSG #c :t"][v[2]]);
    }),
  }
}

/// Every short prefix, and every short list of params of names replies and others.
pub fn prefixes(max: usize) -> Lines {
  const S: &[&str] = &["!", "@", "a", "B", ".", ":", "é", "#"];
  const TAIL: &[&str] = &[" X", "", " PRIVMSG #c :t", "  X"];
  let space = Strings { sigma: S, max };
  let per = space.total();
  Lines {
    name: "prefixes",
    bound: format!("all strings of at most {max} of {S:?} as prefix x {} tails", TAIL.len()),
    total: per * TAIL.len() as u64,
    gen: Box::new(move |i, out| {
      out.push(':');
      space.get(i % per, out);
      out.push_str(TAIL[(i / per) as usize]);
    }),
  }
}

pub fn arguments(max: usize) -> Lines {
  const S: &[&str] = &[" ", "=", "#", "c", ":", "é", "#ch", "\u{1}"];
  const HEAD: &[&str] = &["353", "366", "PRIVMSG", "WHISPER", "001", "@a=b :n!u@h 353 ", "@a=b :n!u@h JOIN "];
  let space = Strings { sigma: S, max };
  let per = space.total();
  Lines {
    name: "arguments",
    bound: format!("all strings of at most {max} of {S:?} behind each of {HEAD:?}"),
    total: per * HEAD.len() as u64,
    gen: Box::new(move |i, out| {
      out.push_str(HEAD[(i / per) as usize]);
      space.get(i % per, out);
    }),
  }
}
