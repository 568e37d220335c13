From 24c008b9e0bb62f3dca7831baff4567af81faeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:16 +0000
Subject: [PATCH 01/18] fix: don't panic on messages with more than 128 tags

The tag scanners collect pairs into a fixed 128-element array and indexed
past its end. Spill the rest into a Vec instead.
---
 src/irc/tags.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/irc/tags.rs b/src/irc/tags.rs
index c02837c..ef0eb49 100644
--- a/src/irc/tags.rs
+++ b/src/irc/tags.rs
@@ -262,6 +262,8 @@ impl TagPair {
 struct Array<const CAPACITY: usize, T> {
   data: [core::mem::MaybeUninit<T>; CAPACITY],
   len: usize,
+  // elements which didn't fit into `data`
+  overflow: Vec<T>,
 }
 
 impl<const CAPACITY: usize, T: Clone + Copy + Default> Array<CAPACITY, T> {
@@ -276,11 +278,16 @@ impl<const CAPACITY: usize, T: Clone + Copy + Default> Array<CAPACITY, T> {
       Self {
         data: array_of_uninit,
         len: 0,
+        overflow: Vec::new(),
       }
     }
   }
 
   fn push(&mut self, value: T) {
+    if self.len == CAPACITY {
+      self.overflow.push(value);
+      return;
+    }
     self.data[self.len].write(value);
     self.len += 1;
   }
@@ -288,7 +295,9 @@ impl<const CAPACITY: usize, T: Clone + Copy + Default> Array<CAPACITY, T> {
   fn to_vec(&self) -> Vec<T> {
     let init = &self.data[..self.len];
     let init = unsafe { core::mem::transmute::<&[core::mem::MaybeUninit<T>], &[T]>(init) };
-    init.to_vec()
+    let mut out = init.to_vec();
+    out.extend_from_slice(&self.overflow);
+    out
   }
 }
 
-- 
2.43.0


From fcb928417bd3db2df9dce6b75e2322373445111a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:16 +0000
Subject: [PATCH 02/18] fix: don't truncate tag key and value lengths to 16
 bits

A key or value of 64 KiB or more was silently returned as a prefix of
itself (or panicked when the cut fell inside a character).
---
 src/irc/tags.rs        | 10 +++++-----
 src/irc/tags/scalar.rs |  8 ++++----
 src/irc/tags/simd.rs   |  8 ++++----
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/irc/tags.rs b/src/irc/tags.rs
index ef0eb49..b4bc558 100644
--- a/src/irc/tags.rs
+++ b/src/irc/tags.rs
@@ -227,11 +227,11 @@ pub(super) struct TagPair {
   key_start: u32,
   // key=value
   //    ^
-  key_end: u16,
+  key_end: u32,
 
   // key=value
   //          ^
-  value_end: u16,
+  value_end: u32,
 }
 
 impl TagPair {
@@ -240,7 +240,7 @@ impl TagPair {
   #[inline]
   pub fn key(&self) -> Span {
     let start = self.key_start;
-    let end = start + self.key_end as u32;
+    let end = start + self.key_end;
     Span { start, end }
   }
 
@@ -248,8 +248,8 @@ impl TagPair {
   //     ^    ^
   #[inline]
   pub fn value(&self) -> Span {
-    let start = self.key_start + self.key_end as u32 + 1;
-    let end = start + self.value_end as u32;
+    let start = self.key_start + self.key_end + 1;
+    let end = start + self.value_end;
     Span { start, end }
   }
 
diff --git a/src/irc/tags/scalar.rs b/src/irc/tags/scalar.rs
index 0ef9d8f..606f7bb 100644
--- a/src/irc/tags/scalar.rs
+++ b/src/irc/tags/scalar.rs
@@ -22,8 +22,8 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
         if let State::Value { key_start, key_end } = state {
           tags.push(TagPair {
             key_start: key_start as u32 + 1,
-            key_end: (key_end - key_start) as u16,
-            value_end: (offset - (key_end + 1)) as u16,
+            key_end: (key_end - key_start) as u32,
+            value_end: (offset - (key_end + 1)) as u32,
           });
           state = State::Key {
             key_start: offset + 1,
@@ -34,8 +34,8 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
         if let State::Value { key_start, key_end } = state {
           tags.push(TagPair {
             key_start: key_start as u32 + 1,
-            key_end: (key_end - key_start) as u16,
-            value_end: (offset - (key_end + 1)) as u16,
+            key_end: (key_end - key_start) as u32,
+            value_end: (offset - (key_end + 1)) as u32,
           });
         }
         break;
diff --git a/src/irc/tags/simd.rs b/src/irc/tags/simd.rs
index b70e887..4d9b390 100644
--- a/src/irc/tags/simd.rs
+++ b/src/irc/tags/simd.rs
@@ -31,9 +31,9 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
       tags.push(TagPair {
         // relative to original `src`
         key_start: key_start as u32 + 1,
-        key_end: (key_end - key_start) as u16,
+        key_end: (key_end - key_start) as u32,
         // starts after `=`
-        value_end: (pos - (key_end + 1)) as u16,
+        value_end: (pos - (key_end + 1)) as u32,
       });
     }
   }
@@ -86,9 +86,9 @@ fn parse_chunk(offset: usize, chunk: V, state: &mut State, tags: &mut Array<128,
         tags.push(TagPair {
           // relative to original `src`
           key_start: key_start as u32 + 1,
-          key_end: (key_end - key_start) as u16,
+          key_end: (key_end - key_start) as u32,
           // starts after `=`
-          value_end: (pos - (key_end + 1)) as u16,
+          value_end: (pos - (key_end + 1)) as u32,
         });
       }
     }
-- 
2.43.0


From f08a690f950764a979ccc76558a19a962c955150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:16 +0000
Subject: [PATCH 03/18] fix: don't panic in the scalar tag parser when tags are
 unterminated

The position was moved past the end of the input if the tags weren't
followed by a space. The SIMD parser returns None in that case.
---
 src/irc/tags/scalar.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/irc/tags/scalar.rs b/src/irc/tags/scalar.rs
index 606f7bb..3b69072 100644
--- a/src/irc/tags/scalar.rs
+++ b/src/irc/tags/scalar.rs
@@ -7,8 +7,9 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
 
   let mut state = State::Key { key_start: 0 };
   let mut offset = 0;
-  while offset < src.len() {
-    let c = src[offset];
+  loop {
+    // tags end with a space, same as in the SIMD parser
+    let c = *src.get(offset)?;
     match c {
       b'=' => {
         if let State::Key { key_start } = state {
-- 
2.43.0


From 90e49fc1335c210f315b3b75c1c7379be4cfb752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:16 +0000
Subject: [PATCH 04/18] fix: look up pinned-chat-paid-canonical-amount by its
 own name

Its string form was "pinned-chat-paid-amount", so asking for the canonical
amount returned the value of a different tag.
---
 src/irc/tags.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irc/tags.rs b/src/irc/tags.rs
index b4bc558..2c505bd 100644
--- a/src/irc/tags.rs
+++ b/src/irc/tags.rs
@@ -173,7 +173,7 @@ tags_def! {
   b"pinned-chat-paid-amount"; "pinned-chat-paid-amount" = PinnedChatPaidAmount,
 
   /// The value of the Hype Chat sent by the user. This seems to always be the same as `pinned-chat-paid-amount`.
-  b"pinned-chat-paid-canonical-amount"; "pinned-chat-paid-amount" = PinnedChatPaidCanonicalAmount,
+  b"pinned-chat-paid-canonical-amount"; "pinned-chat-paid-canonical-amount" = PinnedChatPaidCanonicalAmount,
 
   /// The ISO 4217 alphabetic currency code the user has sent the Hype Chat in.
   b"pinned-chat-paid-currency"; "pinned-chat-paid-currency" = PinnedChatPaidCurrency,
-- 
2.43.0


From d66c1c084e2b7a2a148c42657148ea88c79aee79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:16 +0000
Subject: [PATCH 05/18] fix: return all params from IrcMessage::text if there
 is no trailer

IrcMessageRef::text does so since 0.9.0, the owned variant still
returned None.
---
 src/irc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/irc.rs b/src/irc.rs
index 3478b40..ab3b9a9 100644
--- a/src/irc.rs
+++ b/src/irc.rs
@@ -261,11 +261,13 @@ impl IrcMessage {
   }
 
   /// Returns the contents of the params after the last `:`.
+  ///
+  /// If `:` is not present, returns all params.
   pub fn text(&self) -> Option<&str> {
     match self.params() {
       Some(params) => match params.find(':') {
         Some(start) => Some(&params[start + 1..]),
-        None => None,
+        None => Some(params),
       },
       None => None,
     }
-- 
2.43.0


From f9a43d7eca49992108c626f0dc76705ed40e9437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:16 +0000
Subject: [PATCH 06/18] fix: only apply a backslash to the character which
 follows it

After an escape which isn't known, the pending backslash was kept, and
turned some later, unescaped character into an escape ("\\a:" -> "a;").
---
 src/irc.rs | 10 ++++++++--
 src/lib.rs | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/irc.rs b/src/irc.rs
index ab3b9a9..3dd4d4d 100644
--- a/src/irc.rs
+++ b/src/irc.rs
@@ -363,9 +363,15 @@ pub fn unescape(value: &str) -> String {
         out.push('\n');
         escape = false;
       }
-      '⸝' => out.push(','),
+      '⸝' => {
+        out.push(',');
+        escape = false;
+      }
       '\\' => escape = true,
-      c => out.push(c),
+      c => {
+        out.push(c);
+        escape = false;
+      }
     }
   }
   out
diff --git a/src/lib.rs b/src/lib.rs
index b9ced7f..462587f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -85,8 +85,14 @@ fn actually_unescape(input: &str, start: usize) -> String {
         out.push('\n');
         escape = false;
       }
-      '⸝' => out.push(','),
-      c => out.push(c),
+      '⸝' => {
+        out.push(',');
+        escape = false;
+      }
+      c => {
+        out.push(c);
+        escape = false;
+      }
     }
   }
 
-- 
2.43.0


From e3a9c1568dffa6529021f21f551e7bd0ba3afe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:16 +0000
Subject: [PATCH 07/18] =?UTF-8?q?fix:=20unescape=20`=E2=B8=9D`=20in=20mayb?=
 =?UTF-8?q?e=5Funescape=20without=20a=20preceding=20backslash?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

maybe_unescape only looked for a backslash, so the result for the same
character depended on what came before it, and differed from unescape.
---
 src/lib.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 462587f..9ea0fd9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -47,11 +47,8 @@ use std::borrow::Cow;
 /// Otherwise, it returns a borrow of the original `value`.
 pub fn maybe_unescape<'a>(value: impl Into<Cow<'a, str>>) -> Cow<'a, str> {
   let mut value: Cow<'_, str> = value.into();
-  for i in 0..value.len() {
-    if value.as_bytes()[i] == b'\\' {
-      value = Cow::Owned(actually_unescape(&value, i));
-      break;
-    }
+  if let Some(i) = value.find(['\\', '⸝']) {
+    value = Cow::Owned(actually_unescape(&value, i));
   }
   value
 }
-- 
2.43.0


From 85ce53af4844e4f978c56f05eedd0e00d5160851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:16 +0000
Subject: [PATCH 08/18] fix: don't overflow in the followers-only duration

A large enough number of minutes panicked in debug builds, and wrapped
in release builds.
---
 src/msg/room_state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msg/room_state.rs b/src/msg/room_state.rs
index 2c5f07d..402682b 100644
--- a/src/msg/room_state.rs
+++ b/src/msg/room_state.rs
@@ -103,7 +103,7 @@ impl<'src> RoomState<'src> {
         .tag(Tag::FollowersOnly)
         .and_then(|v| v.parse().ok())
         .map(|n: i64| match n {
-          n if n > 0 => FollowersOnly::Enabled(Some(Duration::from_secs((n * 60) as u64))),
+          n if n > 0 => FollowersOnly::Enabled(Some(Duration::from_secs((n as u64).saturating_mul(60)))),
           0 => FollowersOnly::Enabled(None),
           _ => FollowersOnly::Disabled,
         }),
-- 
2.43.0


From 10908ff50fb9f0acf4d9240c1840e62ea90cd799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:23 +0000
Subject: [PATCH 09/18] fix: don't drop all badges if the badge-info tag is
 missing

badge-info only adds extra data to some badges. WHISPERs never carry it,
so their badges were always empty.
---
 src/msg/global_user_state.rs | 3 +--
 src/msg/privmsg.rs           | 3 +--
 src/msg/user_notice.rs       | 3 +--
 src/msg/user_state.rs        | 3 +--
 src/msg/whisper.rs           | 3 +--
 5 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/msg/global_user_state.rs b/src/msg/global_user_state.rs
index dbe320a..1fb95c8 100644
--- a/src/msg/global_user_state.rs
+++ b/src/msg/global_user_state.rs
@@ -73,8 +73,7 @@ impl<'src> GlobalUserState<'src> {
       name: message.tag(Tag::DisplayName)?.into(),
       badges: message
         .tag(Tag::Badges)
-        .zip(message.tag(Tag::BadgeInfo))
-        .map(|(badges, badge_info)| parse_badges(badges, badge_info))
+        .map(|badges| parse_badges(badges, message.tag(Tag::BadgeInfo).unwrap_or_default()))
         .unwrap_or_default(),
       emote_sets: message
         .tag(Tag::EmoteSets)
diff --git a/src/msg/privmsg.rs b/src/msg/privmsg.rs
index 98b2ca6..a866945 100644
--- a/src/msg/privmsg.rs
+++ b/src/msg/privmsg.rs
@@ -386,8 +386,7 @@ impl<'src> Privmsg<'src> {
     let text = text.into();
     let badges = message
       .tag(Tag::Badges)
-      .zip(message.tag(Tag::BadgeInfo))
-      .map(|(badges, badge_info)| parse_badges(badges, badge_info))
+      .map(|badges| parse_badges(badges, message.tag(Tag::BadgeInfo).unwrap_or_default()))
       .unwrap_or_default();
     let color = message
       .tag(Tag::Color)
diff --git a/src/msg/user_notice.rs b/src/msg/user_notice.rs
index 316a0ee..81d2db0 100644
--- a/src/msg/user_notice.rs
+++ b/src/msg/user_notice.rs
@@ -601,8 +601,7 @@ impl<'src> UserNotice<'src> {
       event_id: event_id.into(),
       badges: message
         .tag(Tag::Badges)
-        .zip(message.tag(Tag::BadgeInfo))
-        .map(|(badges, badge_info)| parse_badges(badges, badge_info))
+        .map(|badges| parse_badges(badges, message.tag(Tag::BadgeInfo).unwrap_or_default()))
         .unwrap_or_default(),
       emotes: message.tag(Tag::Emotes).unwrap_or_default().into(),
       color: message
diff --git a/src/msg/user_state.rs b/src/msg/user_state.rs
index 69f8c99..3cbb544 100644
--- a/src/msg/user_state.rs
+++ b/src/msg/user_state.rs
@@ -76,8 +76,7 @@ impl<'src> UserState<'src> {
       user_name: message.tag(Tag::DisplayName)?.into(),
       badges: message
         .tag(Tag::Badges)
-        .zip(message.tag(Tag::BadgeInfo))
-        .map(|(badges, badge_info)| parse_badges(badges, badge_info))
+        .map(|badges| parse_badges(badges, message.tag(Tag::BadgeInfo).unwrap_or_default()))
         .unwrap_or_default(),
       emote_sets: message
         .tag(Tag::EmoteSets)
diff --git a/src/msg/whisper.rs b/src/msg/whisper.rs
index 1df8148..441e66a 100644
--- a/src/msg/whisper.rs
+++ b/src/msg/whisper.rs
@@ -83,8 +83,7 @@ impl<'src> Whisper<'src> {
         .map(|v| v.into()),
       badges: message
         .tag(Tag::Badges)
-        .zip(message.tag(Tag::BadgeInfo))
-        .map(|(badges, badge_info)| parse_badges(badges, badge_info))
+        .map(|badges| parse_badges(badges, message.tag(Tag::BadgeInfo).unwrap_or_default()))
         .unwrap_or_default(),
       emotes: message.tag(Tag::Emotes).unwrap_or_default().into(),
     })
-- 
2.43.0


From d986e51120fadbbd9700074566f088fc9a7f4403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:23 +0000
Subject: [PATCH 10/18] fix: deserialize subscriber badges the same way they
 are parsed

A subscriber badge whose months aren't a number is parsed as 1 month, but
its serialized form could not be deserialized.
---
 src/msg.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/msg.rs b/src/msg.rs
index 4ff0e04..e4112e2 100644
--- a/src/msg.rs
+++ b/src/msg.rs
@@ -441,7 +441,7 @@ static_assert_sync!(Message<'_>);
 #[cfg(feature = "serde")]
 mod _serde {
   use super::*;
-  use serde::{de, Deserialize, Deserializer};
+  use serde::{Deserialize, Deserializer};
 
   #[cfg(feature = "serde")]
   impl<'de: 'src, 'src> Deserialize<'de> for Subscriber<'src> {
@@ -459,7 +459,7 @@ mod _serde {
       let t = _T::deserialize(deserializer)?;
       Ok(Subscriber {
         version: t.version,
-        months_n: t.months.parse().map_err(de::Error::custom)?,
+        months_n: t.months.parse().unwrap_or(1),
         months: t.months,
       })
     }
-- 
2.43.0


From 71ef265a9f9c9194877165714ac894bcd32ee3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:23 +0000
Subject: [PATCH 11/18] fix: don't keep the handshake in the scratch buffer if
 it isn't sent

If writing the handshake failed or was cancelled, the buffer was not
cleared, and the CAP, PASS and NICK commands were sent again in front of
the next handshake or command.
---
 src/client.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index ed0421f..baaa557 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -324,7 +324,8 @@ impl Client {
     let credentials = &self.config.credentials;
     const CAP: &str = "twitch.tv/commands twitch.tv/tags twitch.tv/membership";
     trace!("CAP REQ {CAP:?}; NICK {:?}; PASS ***", credentials.login);
-    write!(&mut self.scratch, "CAP REQ :{CAP}\r\n").unwrap();
+    let mut scratch = std::mem::take(&mut self.scratch);
+    write!(&mut scratch, "CAP REQ :{CAP}\r\n").unwrap();
 
     let login = credentials.login.as_str();
     let token = match credentials.token.as_ref() {
@@ -336,12 +337,13 @@ impl Client {
     } else {
       "oauth:"
     };
-    write!(&mut self.scratch, "PASS {oauth}{token}\r\n").unwrap();
-    write!(&mut self.scratch, "NICK {login}\r\n").unwrap();
+    write!(&mut scratch, "PASS {oauth}{token}\r\n").unwrap();
+    write!(&mut scratch, "NICK {login}\r\n").unwrap();
 
-    self.writer.write_all(self.scratch.as_bytes()).await?;
+    self.writer.write_all(scratch.as_bytes()).await?;
     self.writer.flush().await?;
-    self.scratch.clear();
+    scratch.clear();
+    self.scratch = scratch;
 
     trace!("waiting for CAP * ACK");
     let message = self.recv().timeout(Duration::from_secs(5)).await??;
-- 
2.43.0


From b6e151356bf5f40ab8c93a364fb0edf356c9bcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:23 +0000
Subject: [PATCH 12/18] fix: flush after sending a message

The TLS stream accepts data into its own buffer when the socket is not
writable, so a message could stay there after it was reported as sent.
---
 src/client/write.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/write.rs b/src/client/write.rs
index 502b7ff..f6b4602 100644
--- a/src/client/write.rs
+++ b/src/client/write.rs
@@ -85,6 +85,7 @@ impl Client {
     let RawMessage { data } = s.try_into()?;
     trace!(data, "sending message");
     self.writer.write_all(data.as_bytes()).await?;
+    self.writer.flush().await?;
     Ok(())
   }
 
-- 
2.43.0


From 122103a69aec665f19e0e46ff5ae928cef780889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:23 +0000
Subject: [PATCH 13/18] fix: treat a connection reset as a disconnect

It is the most common way for a connection to be lost, but
RecvError::is_disconnect returned false for it.
---
 src/client/read.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client/read.rs b/src/client/read.rs
index 9b2e59a..dd4128c 100644
--- a/src/client/read.rs
+++ b/src/client/read.rs
@@ -42,7 +42,10 @@ impl RecvError {
       RecvError::Io(e)
         if matches!(
           e.kind(),
-          io::ErrorKind::UnexpectedEof | io::ErrorKind::ConnectionAborted | io::ErrorKind::TimedOut
+          io::ErrorKind::UnexpectedEof
+            | io::ErrorKind::ConnectionAborted
+            | io::ErrorKind::ConnectionReset
+            | io::ErrorKind::TimedOut
         ) =>
       {
         true
-- 
2.43.0


From 3740a043c80ce0dd4bc1324865a379e4a3a948d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 14/18] fix: escape the values of outgoing tags

A space, semicolon or backslash in a client nonce or reply id changed the
meaning of the rest of the message.
---
 src/client/write.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/client/write.rs b/src/client/write.rs
index f6b4602..90482a1 100644
--- a/src/client/write.rs
+++ b/src/client/write.rs
@@ -1,7 +1,7 @@
 use super::{conn, Client};
 use crate::common::JoinIter;
 use std::convert::Infallible;
-use std::fmt::Display;
+use std::fmt::{Display, Write};
 use tokio::io;
 use tokio::io::{AsyncWriteExt, WriteHalf};
 
@@ -23,8 +23,18 @@ struct Tag<'a> {
 impl<'a> std::fmt::Display for Tag<'a> {
   fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
     let Self { key, value } = self;
-    // TODO: handle escaping
-    write!(f, "{key}={value}")
+    write!(f, "{key}=")?;
+    for c in value.chars() {
+      match c {
+        ';' => f.write_str("\\:")?,
+        ' ' => f.write_str("\\s")?,
+        '\\' => f.write_str("\\\\")?,
+        '\r' => f.write_str("\\r")?,
+        '\n' => f.write_str("\\n")?,
+        c => f.write_char(c)?,
+      }
+    }
+    Ok(())
   }
 }
 
-- 
2.43.0


From bffb0e19746ff0cd760dcde36410150e053c810c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 15/18] fix: unescape the remaining display names

UserState::user_name, GiftPaidUpgrade::gifter_name and
SubGiftPromo::promo_name returned the raw tag value, unlike every other
display name.
---
 src/msg/user_notice.rs | 4 ++--
 src/msg/user_state.rs  | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/msg/user_notice.rs b/src/msg/user_notice.rs
index 81d2db0..4788ce1 100644
--- a/src/msg/user_notice.rs
+++ b/src/msg/user_notice.rs
@@ -450,7 +450,7 @@ fn parse_promotion<'src>(message: &IrcMessageRef<'src>) -> Option<SubGiftPromo<'
   ) {
     (Some(total_gifts), Some(promo_name)) => Some(SubGiftPromo {
       total_gifts,
-      promo_name: promo_name.into(),
+      promo_name: maybe_unescape(promo_name),
     }),
     _ => None,
   }
@@ -544,7 +544,7 @@ impl<'src> UserNotice<'src> {
       "giftpaidupgrade" => (
         Event::GiftPaidUpgrade(GiftPaidUpgrade {
           gifter_login: message.tag(Tag::MsgParamSenderLogin)?.into(),
-          gifter_name: message.tag(Tag::MsgParamSenderName)?.into(),
+          gifter_name: maybe_unescape(message.tag(Tag::MsgParamSenderName)?),
           promotion: parse_promotion(&message),
         }),
         false,
diff --git a/src/msg/user_state.rs b/src/msg/user_state.rs
index 3cbb544..67861b8 100644
--- a/src/msg/user_state.rs
+++ b/src/msg/user_state.rs
@@ -5,7 +5,9 @@
 //!
 //! For example, [`UserState::badges`] may be different from [`GlobalUserState::badges`][crate::msg::global_user_state::GlobalUserState::badges].
 
-use super::{is_not_empty, maybe_clone, parse_badges, split_comma, Badge, MessageParseError};
+use super::{
+  is_not_empty, maybe_clone, maybe_unescape, parse_badges, split_comma, Badge, MessageParseError,
+};
 use crate::irc::{Command, IrcMessageRef, Tag};
 use std::borrow::Cow;
 
@@ -73,7 +75,7 @@ impl<'src> UserState<'src> {
 
     Some(UserState {
       channel: message.channel()?.into(),
-      user_name: message.tag(Tag::DisplayName)?.into(),
+      user_name: maybe_unescape(message.tag(Tag::DisplayName)?),
       badges: message
         .tag(Tag::Badges)
         .map(|badges| parse_badges(badges, message.tag(Tag::BadgeInfo).unwrap_or_default()))
-- 
2.43.0


From 2dd4e4cc690aefc81d8d899fad1244f26367ad43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 16/18] verif: let a harness provide the connection under --cfg
 tmi_verif

Without the cfg, nothing changes.
---
 src/client/conn.rs | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/src/client/conn.rs b/src/client/conn.rs
index 1546323..d44b290 100644
--- a/src/client/conn.rs
+++ b/src/client/conn.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 use std::fmt::Display;
 use std::io;
 use std::sync::Arc;
@@ -9,10 +11,17 @@ use tokio_rustls::{rustls, TlsConnector};
 pub const HOST: &str = "irc.chat.twitch.tv";
 pub const PORT: u16 = 6697;
 
+#[cfg(not(tmi_verif))]
 pub type Stream = TlsStream<TcpStream>;
 
+#[cfg(tmi_verif)]
+pub type Stream = verif::Stream;
+
 pub async fn open(config: TlsConfig) -> Result<Stream, OpenStreamError> {
   trace!(?config, "opening tls stream to twitch");
+  #[cfg(tmi_verif)]
+  return Ok(verif::connect().await?);
+  #[cfg(not(tmi_verif))]
   Ok(
     TlsConnector::from(config.client())
       .connect(
@@ -110,3 +119,37 @@ impl Display for TlsConfigError {
 }
 
 impl std::error::Error for TlsConfigError {}
+
+/// Replaces the network connection with one provided by a verification harness.
+///
+/// Only compiled with `--cfg tmi_verif`.
+#[cfg(tmi_verif)]
+pub mod verif {
+  use std::cell::RefCell;
+  use std::future::Future;
+  use std::io;
+  use std::pin::Pin;
+  use tokio::io::{AsyncRead, AsyncWrite};
+
+  pub trait Transport: AsyncRead + AsyncWrite + Send + Sync + Unpin {}
+  impl<T: AsyncRead + AsyncWrite + Send + Sync + Unpin> Transport for T {}
+
+  pub type Stream = Box<dyn Transport>;
+  pub type Connecting = Pin<Box<dyn Future<Output = io::Result<Stream>> + Send>>;
+
+  thread_local! {
+    static CONNECTOR: RefCell<Option<Box<dyn FnMut() -> Connecting>>> = const { RefCell::new(None) };
+  }
+
+  /// Set the function called for every connection opened by this thread.
+  pub fn set_connector(connector: impl FnMut() -> Connecting + 'static) {
+    CONNECTOR.with(|c| *c.borrow_mut() = Some(Box::new(connector)));
+  }
+
+  pub(super) fn connect() -> Connecting {
+    CONNECTOR.with(|c| match &mut *c.borrow_mut() {
+      Some(connector) => connector(),
+      None => Box::pin(async { Err(io::ErrorKind::NotConnected.into()) }),
+    })
+  }
+}
-- 
2.43.0


From c20a62fefd9cf491195a27b3fa054d231dc18259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:06 +0000
Subject: [PATCH 17/18] fix: keep a partial line when a read fails

The lines of tokio lose the part of a line which was read before an error:
the next call panicked in debug builds, and otherwise returned the rest of
the line as if it was a line of its own, or an empty line instead of the end
of the stream. Collect the bytes of the current line in the client instead.
---
 src/client.rs      |  9 ++-------
 src/client/read.rs | 46 +++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 43 insertions(+), 12 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index baaa557..b140219 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -57,16 +57,14 @@ use self::read::{ReadStream, RecvError};
 use self::write::WriteStream;
 use crate::irc::Command;
 use crate::IrcMessage;
-use futures_util::StreamExt;
 use rand::{thread_rng, Rng};
 use std::fmt::{Display, Write};
 use std::future::Future;
 use std::io;
 use std::time::Duration;
-use tokio::io::{AsyncBufReadExt, AsyncWriteExt, BufReader};
+use tokio::io::AsyncWriteExt;
 use tokio_rustls::rustls::client::InvalidDnsNameError;
 use tokio_rustls::rustls::ServerName;
-use tokio_stream::wrappers::LinesStream;
 use util::Timeout;
 
 /// The default timeout used when connecting to Twitch IRC.
@@ -409,10 +407,7 @@ impl Client {
 fn split(stream: conn::Stream) -> (ReadStream, WriteStream) {
   let (reader, writer) = tokio::io::split(stream);
 
-  (
-    LinesStream::new(BufReader::new(reader).lines()).fuse(),
-    writer,
-  )
+  (ReadStream::new(reader), writer)
 }
 
 /// An error which occurred while attempting to reconnect to Twitch IRC.
diff --git a/src/client/read.rs b/src/client/read.rs
index dd4128c..2bffbc1 100644
--- a/src/client/read.rs
+++ b/src/client/read.rs
@@ -1,13 +1,49 @@
 use super::{conn, Client};
 use crate::irc::IrcMessage;
-use futures_util::stream::Fuse;
 use std::fmt::Display;
 use tokio::io;
-use tokio::io::{BufReader, ReadHalf};
-use tokio_stream::wrappers::LinesStream;
-use tokio_stream::StreamExt;
+use tokio::io::{AsyncBufReadExt, BufReader, ReadHalf};
 
-pub type ReadStream = Fuse<LinesStream<BufReader<ReadHalf<conn::Stream>>>>;
+/// Splits what is received into lines.
+///
+/// The part of a line which has been received before a call failed or was
+/// cancelled is kept for the next one.
+pub struct ReadStream {
+  reader: BufReader<ReadHalf<conn::Stream>>,
+  line: Vec<u8>,
+  closed: bool,
+}
+
+impl ReadStream {
+  pub(super) fn new(reader: ReadHalf<conn::Stream>) -> Self {
+    Self {
+      reader: BufReader::new(reader),
+      line: Vec::new(),
+      closed: false,
+    }
+  }
+
+  async fn next(&mut self) -> Option<io::Result<String>> {
+    if self.closed {
+      return None;
+    }
+    if let Err(e) = self.reader.read_until(b'\n', &mut self.line).await {
+      return Some(Err(e));
+    }
+    let mut line = std::mem::take(&mut self.line);
+    if line.is_empty() {
+      self.closed = true;
+      return None;
+    }
+    if line.ends_with(b"\n") {
+      line.pop();
+      if line.ends_with(b"\r") {
+        line.pop();
+      }
+    }
+    Some(String::from_utf8(line).map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e)))
+  }
+}
 
 impl Client {
   /// Read a single [`IrcMessage`] from the underlying stream.
-- 
2.43.0


From e48a6162eddbeb6c07039e089c25d8c218a4af8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:02 +0000
Subject: [PATCH 18/18] verif: replace the whole of client::conn under --cfg
 tmi_verif, conn.rs itself is as it was

---
 src/client.rs            |  6 +++++
 src/client/conn.rs       | 43 -----------------------------------
 src/client/conn_verif.rs | 48 ++++++++++++++++++++++++++++++++++++++++
 3 files changed, 54 insertions(+), 43 deletions(-)
 create mode 100644 src/client/conn_verif.rs

diff --git a/src/client.rs b/src/client.rs
index b140219..8566619 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -44,9 +44,15 @@
 //! - A polling interface for receiving messages
 //! - Sending commands (PRIVMSG, JOIN, PONG, etc.)
 
+#![allow(unexpected_cfgs)]
+
 #[macro_use]
 mod macros;
 
+#[cfg(not(tmi_verif))]
+pub mod conn;
+#[cfg(tmi_verif)]
+#[path = "client/conn_verif.rs"]
 pub mod conn;
 pub mod read;
 pub mod util;
diff --git a/src/client/conn.rs b/src/client/conn.rs
index d44b290..1546323 100644
--- a/src/client/conn.rs
+++ b/src/client/conn.rs
@@ -1,5 +1,3 @@
-#![allow(unexpected_cfgs)]
-
 use std::fmt::Display;
 use std::io;
 use std::sync::Arc;
@@ -11,17 +9,10 @@ use tokio_rustls::{rustls, TlsConnector};
 pub const HOST: &str = "irc.chat.twitch.tv";
 pub const PORT: u16 = 6697;
 
-#[cfg(not(tmi_verif))]
 pub type Stream = TlsStream<TcpStream>;
 
-#[cfg(tmi_verif)]
-pub type Stream = verif::Stream;
-
 pub async fn open(config: TlsConfig) -> Result<Stream, OpenStreamError> {
   trace!(?config, "opening tls stream to twitch");
-  #[cfg(tmi_verif)]
-  return Ok(verif::connect().await?);
-  #[cfg(not(tmi_verif))]
   Ok(
     TlsConnector::from(config.client())
       .connect(
@@ -119,37 +110,3 @@ impl Display for TlsConfigError {
 }
 
 impl std::error::Error for TlsConfigError {}
-
-/// Replaces the network connection with one provided by a verification harness.
-///
-/// Only compiled with `--cfg tmi_verif`.
-#[cfg(tmi_verif)]
-pub mod verif {
-  use std::cell::RefCell;
-  use std::future::Future;
-  use std::io;
-  use std::pin::Pin;
-  use tokio::io::{AsyncRead, AsyncWrite};
-
-  pub trait Transport: AsyncRead + AsyncWrite + Send + Sync + Unpin {}
-  impl<T: AsyncRead + AsyncWrite + Send + Sync + Unpin> Transport for T {}
-
-  pub type Stream = Box<dyn Transport>;
-  pub type Connecting = Pin<Box<dyn Future<Output = io::Result<Stream>> + Send>>;
-
-  thread_local! {
-    static CONNECTOR: RefCell<Option<Box<dyn FnMut() -> Connecting>>> = const { RefCell::new(None) };
-  }
-
-  /// Set the function called for every connection opened by this thread.
-  pub fn set_connector(connector: impl FnMut() -> Connecting + 'static) {
-    CONNECTOR.with(|c| *c.borrow_mut() = Some(Box::new(connector)));
-  }
-
-  pub(super) fn connect() -> Connecting {
-    CONNECTOR.with(|c| match &mut *c.borrow_mut() {
-      Some(connector) => connector(),
-      None => Box::pin(async { Err(io::ErrorKind::NotConnected.into()) }),
-    })
-  }
-}
diff --git a/src/client/conn_verif.rs b/src/client/conn_verif.rs
new file mode 100644
index 0000000..4c30cbc
--- /dev/null
+++ b/src/client/conn_verif.rs
@@ -0,0 +1,48 @@
+//! Replaces the network connection with one provided by a verification harness.
+//!
+//! Only compiled with `--cfg tmi_verif`, in the place of [`conn`][`real`].
+//! What is not replaced here is what it is there.
+
+#[path = "conn.rs"]
+pub mod real;
+
+#[allow(unused_imports)]
+pub use real::*;
+
+/// Instead of a TLS stream.
+pub type Stream = verif::Stream;
+
+/// Instead of connecting to Twitch.
+pub async fn open<C>(_config: C) -> Result<Stream, OpenStreamError> {
+  Ok(verif::connect().await?)
+}
+
+pub mod verif {
+  use std::cell::RefCell;
+  use std::future::Future;
+  use std::io;
+  use std::pin::Pin;
+  use tokio::io::{AsyncRead, AsyncWrite};
+
+  pub trait Transport: AsyncRead + AsyncWrite + Send + Sync + Unpin {}
+  impl<T: AsyncRead + AsyncWrite + Send + Sync + Unpin> Transport for T {}
+
+  pub type Stream = Box<dyn Transport>;
+  pub type Connecting = Pin<Box<dyn Future<Output = io::Result<Stream>> + Send>>;
+
+  thread_local! {
+    static CONNECTOR: RefCell<Option<Box<dyn FnMut() -> Connecting>>> = const { RefCell::new(None) };
+  }
+
+  /// Set the function called for every connection opened by this thread.
+  pub fn set_connector(connector: impl FnMut() -> Connecting + 'static) {
+    CONNECTOR.with(|c| *c.borrow_mut() = Some(Box::new(connector)));
+  }
+
+  pub(super) fn connect() -> Connecting {
+    CONNECTOR.with(|c| match &mut *c.borrow_mut() {
+      Some(connector) => connector(),
+      None => Box::pin(async { Err(io::ErrorKind::NotConnected.into()) }),
+    })
+  }
+}
-- 
2.43.0

