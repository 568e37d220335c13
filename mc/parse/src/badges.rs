//! C11: badges.

use crate::lines::show;
use crate::model;
use crate::spaces::*;
use crate::view::{self, Viewed};
use mc_core::space::{Product, Strings};
use mc_core::{Local, Run, Verdict};
use tmi::*;

const KINDS: usize = 6;

fn kind(n: usize) -> Kind {
  match n {
    0 => privmsg(),
    1 => whisper(),
    2 => globaluserstate(),
    3 => userstate(),
    4 => usernotice("raid"),
    _ => usernotice("unheard-of"),
  }
}

fn line(out: &mut String, kind: &Kind, badges: Option<&str>, info: Option<&str>, info_first: bool) {
  let mut tags: Vec<(&str, &str)> = kind
    .fields
    .iter()
    .filter(|f| !matches!(f.key, "badges" | "badge-info"))
    .filter_map(|f| f.base.map(|b| (f.key, b)))
    .collect();
  if let (Some(info), true) = (info, info_first) {
    tags.push(("badge-info", info));
  }
  if let Some(badges) = badges {
    tags.push(("badges", badges));
  }
  if let (Some(info), false) = (info, info_first) {
    tags.push(("badge-info", info));
  }
  render(out, &tags, kind.prefixes[0], kind.command, kind.channels[0], kind.texts[0]);
}

fn check(line: &str, badges: Option<&str>, info: Option<&str>) -> Verdict {
  let wrong = |e: String| Err(format!("{e}\n  line: {}", show(line)));
  let want = model::badges_text(&model::badges(badges, info));
  let Ok(m) = Message::parse(line) else {
    return wrong("rejected".into());
  };
  let got = m.view().into_iter().find(|(k, _)| *k == "badges").map(|(_, v)| v).unwrap_or_default();
  if got != want {
    return wrong(format!("badges are {got}, expected {want}"));
  }
  // forwards, backwards and plain data agree
  fn list<'a, 'b: 'a>(it: impl DoubleEndedIterator<Item = &'a Badge<'b>> + ExactSizeIterator) -> Verdict {
    let (f, mut b): (Vec<_>, Vec<_>) = {
      let v: Vec<&Badge<'_>> = it.collect();
      (v.iter().map(|b| view::badge(b)).collect(), v.iter().rev().map(|b| view::badge(b)).collect())
    };
    b.reverse();
    if f != b {
      return Err("order of badges depends on the direction".into());
    }
    Ok(())
  }
  match &m {
    Message::Privmsg(m) => list(m.badges()),
    Message::Whisper(m) => list(m.badges()),
    Message::GlobalUserState(m) => list(m.badges()),
    Message::UserState(m) => list(m.badges()),
    Message::UserNotice(m) => list(m.badges()),
    _ => Ok(()),
  }
}

const ENTRIES: &[&str] = &[
  "subscriber/12", "subscriber/", "moderator/1", "broadcaster/1", "staff/1", "turbo/1", "vip/1", "novel",
  "", "predictions/blue-1", "/", "subscribe/1", "é/⸝",
  "predictions/a/b",
];
const INFOS: &[&str] = &["subscriber/14", "subscriber/x", "vip/3", "subscriber", "", "moderator/7", "predictions/a⸝b", "subscriber/0", "predictions/x/y", "subscriber/7/8"];

pub fn run(run: &mut Run) {
  let badges = Strings { sigma: ENTRIES, max: run.pick(3, 4) };
  let infos = Strings { sigma: INFOS, max: run.pick(2, 3) };
  // index 0 is absence, 1 is the empty value
  let (b, n) = (badges.total() + 1, infos.total() + 1);
  let join = |space: &Strings<'_>, i: u64| -> Option<String> {
    let i = i.checked_sub(1)?;
    Some(space.symbols(i).iter().map(|s| space.sigma[*s]).collect::<Vec<_>>().join(","))
  };
  let bound = format!(
    "at most {} of {} badge entries x at most {} of {} badge-info entries x 6 kinds of messages, badge-info after and before the badges",
    badges.max, ENTRIES.len(), infos.max, INFOS.len()
  );
  let space = Product(vec![KINDS as u64, n, b]);
  let run_case = |i: u64, k: usize, badges: Option<String>, info: Option<String>, local: &mut Local| {
    let kind = kind(k);
    let mut text = String::new();
    line(&mut text, &kind, badges.as_deref(), info.as_deref(), i % 2 == 1);
    local.trace();
    let count = badges.as_ref().map_or(0, |b| b.split(',').count());
    local.steps(1 + count as u64);
    local.state(&(model::badges_text(&model::badges(badges.as_deref(), info.as_deref())), k));
    local.sample(i, || show(&text));
    check(&text, badges.as_deref(), info.as_deref())
  };
  run.family("lists", &bound, space.total(), |i, local| {
    let v = space.get(i);
    run_case(i, v[0], join(&badges, v[2] as u64), join(&infos, v[1] as u64), local)
  });
  // long lists, the interesting entry at every place
  let max = run.pick(70, 200);
  let space = Product(vec![2, max, max + 1, 3]);
  let bound = format!("badge and badge-info lists of up to {max} entries, with the matching one at every place");
  run.family("long lists", &bound, space.total(), |i, local| {
    let v = space.get(i);
    let (len, at) = (v[1] + 1, v[2]);
    let entry = |n: usize| {
      if n == at {
        "subscriber/99".to_string()
      } else {
        format!("b{n}/{n}")
      }
    };
    let list: Vec<String> = (0..len).map(entry).collect();
    let list = list.join(",");
    let (badges, info) = match v[3] {
      0 => (list.clone(), list),
      1 => ("subscriber/3000,b7/1".to_string(), list),
      _ => (list, "b1/x,subscriber/7,subscriber/8".to_string()),
    };
    run_case(i, v[0] * 3, Some(badges), Some(info), local)
  });
  // every text of both tags
  let texts = Strings { sigma: &["a", "/", ",", "b"], max: run.pick(5, 6) };
  let infos = Strings { sigma: &["/", "a", ","], max: run.pick(6, 7) };
  let space = Product(vec![infos.total(), texts.total()]);
  let bound = format!("all pairs of badges of at most {} characters and badge-info of at most {}", texts.max, infos.max);
  run.family("texts", &bound, space.total(), |i, local| {
    let v = space.get(i);
    let (mut badges, mut info) = (String::new(), String::new());
    texts.get(v[1] as u64, &mut badges);
    infos.get(v[0] as u64, &mut info);
    run_case(i, (i % KINDS as u64) as usize, Some(badges), Some(info), local)
  });
  // names close to the known ones
  let names: Vec<String> = ["staff", "turbo", "broadcaster", "moderator", "subscriber"]
    .iter()
    .flat_map(|n| {
      let mut v: Vec<String> = (0..=n.len()).flat_map(|i| [n[..i].to_string(), n[i..].to_string()]).collect();
      v.extend([n.to_uppercase(), format!("{n}s"), format!("{n} ").trim_end().to_string(), format!("x{n}")]);
      v
    })
    .collect();
  const VERSIONS: &[&str] = &["1", "0", "", "é", "1000"];
  const EXTRA: &[&str] = &["", "5", "0", "18446744073709551615", "18446744073709551616", "x", "-1", "007"];
  let space = Product(vec![names.len() as u64, VERSIONS.len() as u64, EXTRA.len() as u64 + 1, KINDS as u64]);
  run.family("names", "names close to the known ones x versions x extra data", space.total(), |i, local| {
    let v = space.get(i);
    // versions of the kinds without one are not kept
    let plain = ["staff", "turbo", "broadcaster", "moderator"].contains(&names[v[0]].as_str());
    let version = if plain { "1" } else { VERSIONS[v[1]] };
    let badges = format!("{}/{version}", names[v[0]]);
    let info = v[2].checked_sub(1).map(|e| format!("{}/{}", names[v[0]], EXTRA[e]));
    run_case(i, v[3], Some(badges), info, local)
  });
  // badges which exist, with information for one of another name, also spelled in another way
  let mut names: Vec<String> = REAL.iter().map(|s| s.to_string()).collect();
  names.extend(REAL.iter().take(12).flat_map(|n| {
    let first = n[..1].to_uppercase() + &n[1..];
    [n.to_uppercase(), first, n.replace(['_', '-'], ""), n.replace('_', "-"), format!("{n}s"), format!("\u{feff}{n}"), format!("{n}\u{a0}")]
  }));
  names.sort();
  names.dedup();
  let space = Product(vec![names.len() as u64, names.len() as u64, 4]);
  run.family("real names", &format!("all pairs of {} names, real and misspelled, as badge and as badge-info x 4 versions and data", names.len()), space.total(), |i, local| {
    let v = space.get(i);
    let plain = ["staff", "turbo", "broadcaster", "moderator"].contains(&names[v[0]].as_str());
    let (version, extra) = [("1", "14"), ("0", "0"), ("3000", "blue"), ("", "")][v[2]];
    let badges = format!("{}/{}", names[v[0]], if plain { "1" } else { version });
    let info = format!("{}/{extra}", names[v[1]]);
    run_case(i, (i % KINDS as u64) as usize, Some(badges), Some(info), local)
  });
  crate::typed::badge_numbers(run, &(0..KINDS).map(kind).collect::<Vec<_>>(), 3, crate::typed::judge);
}

/// Names of badges on Twitch.
const REAL: &[&str] = &[
  "subscriber", "founder", "moderator", "lead_moderator", "broadcaster", "staff", "turbo", "admin", "global_mod", "vip", "partner", "premium",
  "bits", "bits-leader", "bits-charity", "sub-gifter", "sub-gift-leader", "predictions", "artist-badge", "no_audio", "no_video", "moments",
  "hype-train", "glhf-pledge", "glitchcon2020", "ambassador", "bot-badge", "chatbot", "extension", "anonymous-cheerer", "clip-champ", "clips-leader",
  "twitchbot", "twitch-intern-2024", "raging-wolf-helm", "ruby-pixel-heart---together-for-good-24", "subtember-2024", "game-developer",
  "minecraft-15th-anniversary-celebration", "share-the-love", "user-anniversary", "social-sharing", "overwatch-league-insider_2018B", "warcraft",
  "sub", "mod", "subscribers", "owner", "streamer", "prime", "editor", "verified", "gone-bananas", "k4sen", "1979-revolution_1", "power-rangers",
];
