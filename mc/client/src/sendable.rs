//! Whether everything public can be sent to another thread.

use mc_core::{Local, Verdict};
use std::marker::PhantomData;
use tmi::Client;

/// Whether something may be sent to, or shared with, another thread, without
/// insisting on it while compiling.
pub struct Probe<T>(PhantomData<T>);

pub fn of<T>(_: &T) -> Probe<T> {
  Probe(PhantomData)
}

pub const fn of_type<T>() -> Probe<T> {
  Probe(PhantomData)
}

impl<T: Send> Probe<T> {
  pub fn sent(&self) -> bool {
    true
  }
}

impl<T: Sync> Probe<T> {
  pub fn shared(&self) -> bool {
    true
  }
}

pub trait NotSent {
  #[allow(dead_code)]
  fn sent(&self) -> bool {
    false
  }
}
impl<T> NotSent for Probe<T> {}

pub trait NotShared {
  #[allow(dead_code)]
  fn shared(&self) -> bool {
    false
  }
}
impl<T> NotShared for Probe<T> {}

#[macro_export]
macro_rules! sendable {
  ($all:ident: $($e:expr),* $(,)?) => {
    $($all.push((stringify!($e), $crate::sendable::of(&$e).sent()));)*
  };
}

#[macro_export]
macro_rules! sendable_types {
  ($all:ident: $($t:ty),* $(,)?) => {
    $(
      $all.push((stringify!($t), $crate::sendable::of_type::<$t>().sent()));
      $all.push((concat!("&", stringify!($t)), $crate::sendable::of_type::<$t>().shared()));
    )*
  };
}

pub fn types() -> Vec<(&'static str, bool)> {
  use tmi::client::conn::{OpenStreamError, TlsConfigError};
  use tmi::client::read::RecvError;
  use tmi::client::write::{InvalidMessage, SameMessageBypass, SendError};
  use tmi::client::*;
  let mut all = vec![];
  sendable_types!(all: Client, ClientBuilder, Config, Credentials, Backoff, ConnectError, ReconnectError, RecvError, SendError, InvalidMessage, OpenStreamError, TlsConfigError, SameMessageBypass);
  sendable_types!(all: tmi::IrcMessage, tmi::IrcMessageRef<'static>, tmi::Prefix<'static>, tmi::Tag<'static>, tmi::Command<'static>, tmi::Message<'static>, tmi::MessageParseError);
  sendable_types!(all: tmi::Privmsg<'static>, tmi::UserNotice<'static>, tmi::ClearChat<'static>, tmi::ClearMsg<'static>, tmi::RoomState<'static>, tmi::UserState<'static>, tmi::GlobalUserState<'static>, tmi::Whisper<'static>, tmi::Notice<'static>, tmi::Join<'static>, tmi::Part<'static>, tmi::Ping<'static>, tmi::Pong<'static>);
  sendable_types!(all: tmi::Badge<'static>, tmi::BadgeData<'static>, tmi::User<'static>, tmi::Reply<'static>, tmi::PinnedChat<'static>);
  all
}

/// The futures of all calls, and everything they give.
pub async fn calls(client: &mut Client) -> Vec<(&'static str, bool)> {
  let mut all = vec![];
  let ping = match tmi::Message::parse("PING :x") {
    Ok(tmi::Message::Ping(p)) => p,
    _ => mc_core::error("not a PING"),
  };
  let strings = vec![String::from("#a")];
  sendable!(all:
    Client::anonymous(),
    Client::builder(),
    Client::builder().connect(),
    client.recv(),
    client.reconnect(),
    client.send_raw("PING\r\n"),
    client.ping("x"),
    client.pong(&ping),
    client.join("#a"),
    client.join(String::from("#a")),
    client.join_all(["#a", "#b"]),
    client.join_all(strings.iter()),
    client.join_all(strings.iter().map(String::as_str)),
    client.privmsg("#a", "x"),
    client.privmsg("#a", "x").send(),
    client.privmsg("#a", "x").reply_to("r").client_nonce("n").send(),
    client.config(),
    client.credentials(),
  );
  let message = match tmi::IrcMessage::parse("@a=b :x!x@x JOIN #a") {
    Some(m) => m,
    None => mc_core::error("not a line"),
  };
  let borrowed = message.as_ref();
  sendable!(all: message.tags(), message.prefix(), borrowed.tags(), borrowed.prefix(), borrowed.as_typed());
  all
}

pub fn sent(all: Vec<(&'static str, bool)>, local: &mut Local) -> Verdict {
  for (name, sent) in all {
    local.trace();
    local.steps(1);
    local.state(&name);
    if !sent {
      return Err(format!("{name} can't be sent to another thread"));
    }
  }
  Ok(())
}
