//! What the implementation's getters say, as a [`View`].

use crate::model::View;
use tmi::*;

fn dbg(v: &impl std::fmt::Debug) -> String {
  format!("{v:?}")
}

pub fn user(u: &User<'_>) -> String {
  dbg(&(u.id(), u.login(), u.name().into_owned()))
}

fn time(t: chrono::DateTime<chrono::Utc>) -> String {
  format!("{}ms+{}", t.timestamp_millis(), t.timestamp_subsec_nanos() % 1_000_000)
}

fn dur(d: std::time::Duration) -> String {
  format!("{}s+{}", d.as_secs(), d.subsec_nanos())
}

pub fn data(d: &BadgeData<'_>) -> String {
  match d.extra() {
    Some(e) => format!("{}/{}+{}", d.name(), d.version(), e),
    None => format!("{}/{}", d.name(), d.version()),
  }
}

pub fn badge(b: &Badge<'_>) -> String {
  let kind = match b {
    Badge::Staff => "staff".into(),
    Badge::Turbo => "turbo".into(),
    Badge::Broadcaster => "broadcaster".into(),
    Badge::Moderator => "moderator".into(),
    Badge::Subscriber(s) => format!("subscriber({},{})", s.version(), s.months()),
    Badge::Other(_) => "other".to_string(),
  };
  format!("{kind}[{}]", data(&b.as_badge_data()))
}

/// A list with its number of elements, if all ways to go through it agree.
fn list<T, I>(it: impl Fn() -> I, n: usize, text: impl Fn(T) -> String) -> String
where
  I: DoubleEndedIterator<Item = T> + ExactSizeIterator,
{
  let all: Vec<String> = it().map(&text).collect();
  let mut back: Vec<String> = it().rev().map(&text).collect();
  back.reverse();
  let mut out = all.concat();
  if back != all {
    out += &format!(" backwards={back:?}");
  }
  if it().len() != all.len() {
    out += &format!(" len={}", it().len());
  }
  if all.len() > 1 {
    let (mut middle, mut ends) = (it(), vec![]);
    ends.extend(middle.next().map(&text));
    ends.extend(middle.next_back().map(&text));
    if ends != [all[0].clone(), all[all.len() - 1].clone()] || middle.len() != all.len() - 2 {
      out += &format!(" ends={ends:?}");
    }
  }
  out + &format!("#{n}")
}

fn badges<'a, 'b: 'a, I>(it: impl Fn() -> I, n: usize) -> String
where
  I: DoubleEndedIterator<Item = &'a Badge<'b>> + ExactSizeIterator,
{
  list(it, n, |b| badge(b) + ";")
}

fn sets<'a, I>(it: impl Fn() -> I, n: usize) -> String
where
  I: DoubleEndedIterator<Item = &'a str> + ExactSizeIterator,
{
  list(it, n, |s| dbg(&s) + ";")
}

pub trait Viewed {
  fn view(&self) -> View;
}

impl Viewed for Message<'_> {
  fn view(&self) -> View {
    match self {
      Message::ClearChat(m) => m.view(),
      Message::ClearMsg(m) => m.view(),
      Message::GlobalUserState(m) => m.view(),
      Message::Join(m) => m.view(),
      Message::Notice(m) => m.view(),
      Message::Part(m) => m.view(),
      Message::Ping(m) => m.view(),
      Message::Pong(m) => m.view(),
      Message::Privmsg(m) => m.view(),
      Message::Reconnect => vec![("type", "Reconnect".into())],
      Message::RoomState(m) => m.view(),
      Message::UserNotice(m) => m.view(),
      Message::UserState(m) => m.view(),
      Message::Whisper(m) => m.view(),
      Message::Other(m) => vec![("type", "Other".into()), ("raw", dbg(&m.raw()))],
    }
  }
}

pub fn reply(r: &Reply<'_>) -> String {
  dbg(&(
    r.message_id(),
    r.thread_parent_message_id(),
    r.thread_parent_user_login(),
    user(r.sender()),
    r.text().into_owned(),
  ))
}

pub fn pinned(p: &PinnedChat<'_>) -> String {
  dbg(&(
    p.paid_amount(),
    p.paid_currency(),
    p.paid_exponent(),
    p.paid_level().as_str(),
    p.is_system_message(),
  ))
}

impl Viewed for Privmsg<'_> {
  fn view(&self) -> View {
    vec![
      ("type", "Privmsg".into()),
      ("channel", dbg(&self.channel())),
      ("channel_id", dbg(&self.channel_id())),
      ("msg_id", dbg(&self.msg_id())),
      ("id", dbg(&self.id())),
      ("sender", user(self.sender())),
      ("reply", self.reply_to().map(reply).unwrap_or("None".into())),
      ("pinned", self.pinned_chat().map(pinned).unwrap_or("None".into())),
      ("text", dbg(&self.text())),
      ("is_action", dbg(&self.is_action())),
      ("badges", badges(|| self.badges(), self.num_badges())),
      ("color", dbg(&self.color())),
      ("reward", dbg(&self.custom_reward_id())),
      ("bits", dbg(&self.bits())),
      ("emotes", dbg(&self.raw_emotes())),
      ("timestamp", time(self.timestamp())),
    ]
  }
}

impl Viewed for Whisper<'_> {
  fn view(&self) -> View {
    vec![
      ("type", "Whisper".into()),
      ("recipient", dbg(&self.recipient())),
      ("sender", user(&self.sender())),
      ("text", dbg(&self.text())),
      ("badges", badges(|| self.badges(), self.num_badges())),
      ("emotes", dbg(&self.raw_emotes())),
      ("color", dbg(&self.color())),
    ]
  }
}

impl Viewed for ClearMsg<'_> {
  fn view(&self) -> View {
    vec![
      ("type", "ClearMsg".into()),
      ("channel", dbg(&self.channel())),
      ("channel_id", dbg(&self.channel_id())),
      ("sender", dbg(&self.sender())),
      ("target", dbg(&self.target_message_id())),
      ("text", dbg(&self.text())),
      ("is_action", dbg(&self.is_action())),
      ("timestamp", time(self.timestamp())),
    ]
  }
}

pub fn action(a: &Action<'_>) -> String {
  let flags = (a.is_clear(), a.is_ban(), a.is_time_out());
  let (text, expected) = match a {
    Action::Clear => ("clear".into(), (true, false, false)),
    Action::Ban(b) => (format!("ban {:?} {:?}", b.user(), b.id()), (false, true, false)),
    Action::TimeOut(t) => (
      format!("timeout {:?} {:?} {}", t.user(), t.id(), dur(t.duration())),
      (false, false, true),
    ),
  };
  if flags != expected {
    return format!("{text} with predicates {flags:?}");
  }
  text
}

impl Viewed for ClearChat<'_> {
  fn view(&self) -> View {
    vec![
      ("type", "ClearChat".into()),
      ("channel", dbg(&self.channel())),
      ("channel_id", dbg(&self.channel_id())),
      ("action", action(self.action())),
      ("target", dbg(&self.target())),
      ("timestamp", time(self.timestamp())),
    ]
  }
}

impl Viewed for RoomState<'_> {
  fn view(&self) -> View {
    vec![
      ("type", "RoomState".into()),
      ("channel", dbg(&self.channel())),
      ("channel_id", dbg(&self.channel_id())),
      ("emote_only", dbg(&self.emote_only())),
      ("followers_only", match self.followers_only() {
        None => "None".into(),
        Some(FollowersOnly::Disabled) => "disabled".into(),
        Some(FollowersOnly::Enabled(None)) => "any".into(),
        Some(FollowersOnly::Enabled(Some(d))) => dur(d),
      }),
      ("r9k", dbg(&self.r9k())),
      ("slow", self.slow().map(dur).unwrap_or("None".into())),
      ("subs_only", dbg(&self.subs_only())),
    ]
  }
}

impl Viewed for Join<'_> {
  fn view(&self) -> View {
    vec![
      ("type", "Join".into()),
      ("channel", dbg(&self.channel())),
      ("user", dbg(&self.user())),
    ]
  }
}

impl Viewed for Part<'_> {
  fn view(&self) -> View {
    vec![
      ("type", "Part".into()),
      ("channel", dbg(&self.channel())),
      ("user", dbg(&self.user())),
    ]
  }
}

impl Viewed for Notice<'_> {
  fn view(&self) -> View {
    vec![
      ("type", "Notice".into()),
      ("channel", dbg(&self.channel())),
      ("text", dbg(&self.text())),
      ("id", dbg(&self.id())),
    ]
  }
}

impl Viewed for Ping<'_> {
  fn view(&self) -> View {
    vec![("type", "Ping".into()), ("nonce", dbg(&self.nonce()))]
  }
}

impl Viewed for Pong<'_> {
  fn view(&self) -> View {
    vec![("type", "Pong".into()), ("nonce", dbg(&self.nonce()))]
  }
}

impl Viewed for GlobalUserState<'_> {
  fn view(&self) -> View {
    vec![
      ("type", "GlobalUserState".into()),
      ("id", dbg(&self.id())),
      ("name", dbg(&self.name().into_owned())),
      ("badges", badges(|| self.badges(), self.num_badges())),
      ("emote_sets", sets(|| self.emote_sets(), self.num_emote_sets())),
      ("color", dbg(&self.color())),
    ]
  }
}

impl Viewed for UserState<'_> {
  fn view(&self) -> View {
    // `AsRef` keeps this working if the name is returned as a `Cow`
    let name = self.user_name();
    let name: &str = name.as_ref();
    vec![
      ("type", "UserState".into()),
      ("channel", dbg(&self.channel())),
      ("name", dbg(&name)),
      ("badges", badges(|| self.badges(), self.num_badges())),
      ("emote_sets", sets(|| self.emote_sets(), self.num_emote_sets())),
      ("color", dbg(&self.color())),
    ]
  }
}

fn promotion(p: Option<&SubGiftPromo<'_>>) -> String {
  match p {
    Some(p) => {
      let name = p.promo_name();
      let name: &str = name.as_ref();
      dbg(&(p.total_gifts(), name))
    }
    None => "None".into(),
  }
}

pub fn event(e: &Event<'_>) -> String {
  match e {
    Event::SubOrResub(e) => format!(
      "SubOrResub resub={} {} streak={:?} {:?}",
      e.is_resub(),
      e.cumulative_months(),
      e.streak_months(),
      (e.sub_plan(), e.sub_plan_name().into_owned())
    ),
    Event::Raid(e) => format!("Raid {} {:?}", e.viewer_count(), e.profile_image_url()),
    Event::SubGift(e) => format!(
      "SubGift {} {} {:?} {}",
      e.cumulative_months(),
      user(e.recipient()),
      (e.sub_plan(), e.sub_plan_name().into_owned()),
      e.num_gifted_months()
    ),
    Event::SubMysteryGift(e) => format!(
      "SubMysteryGift {} {} {:?}",
      e.count(),
      e.sender_total_gifts(),
      e.sub_plan()
    ),
    Event::AnonSubMysteryGift(e) => format!("AnonSubMysteryGift {} {:?}", e.count(), e.sub_plan()),
    Event::GiftPaidUpgrade(e) => {
      let name = e.gifter_name();
      let name: &str = name.as_ref();
      format!("GiftPaidUpgrade {:?} {:?} {}", e.gifter_login(), name, promotion(e.promotion()))
    }
    Event::AnonGiftPaidUpgrade(e) => format!("AnonGiftPaidUpgrade {}", promotion(e.promotion())),
    Event::Ritual(e) => format!("Ritual {:?}", e.name()),
    Event::BitsBadgeTier(e) => format!("BitsBadgeTier {}", e.tier()),
    Event::Announcement(e) => format!("Announcement {:?}", e.highlight_color()),
    Event::Unknown => "Unknown".into(),
    _ => "a new variant".into(),
  }
}

impl Viewed for UserNotice<'_> {
  fn view(&self) -> View {
    vec![
      ("type", "UserNotice".into()),
      ("channel", dbg(&self.channel())),
      ("channel_id", dbg(&self.channel_id())),
      ("sender", self.sender().map(user).unwrap_or("None".into())),
      ("text", dbg(&self.text())),
      ("system_message", dbg(&self.system_message().map(|s| s.into_owned()))),
      ("event", event(self.event())),
      ("event_id", dbg(&self.event_id())),
      ("badges", badges(|| self.badges(), self.num_badges())),
      ("emotes", dbg(&self.raw_emotes())),
      ("color", dbg(&self.color())),
      ("message_id", dbg(&self.message_id())),
      ("timestamp", time(self.timestamp())),
    ]
  }
}

/// First difference between two views.
pub fn diff(got: &View, want: &View) -> Option<String> {
  if got == want {
    return None;
  }
  for (g, w) in got.iter().zip(want) {
    if g != w {
      return Some(format!("{} is {}, expected {} {}", g.0, g.1, w.0, w.1));
    }
  }
  Some(format!("{} values, expected {}", got.len(), want.len()))
}
