From 4f23b57a70b44729d3e5a72c07ed4e01b66d3f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:23 +0000
Subject: [PATCH 01/15] fix: RC6 encoder: leader too short at low and overflow
 at high tick frequencies

---
 src/protocol/rc6/encoder.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/protocol/rc6/encoder.rs b/src/protocol/rc6/encoder.rs
index 2b40348..3b767dc 100644
--- a/src/protocol/rc6/encoder.rs
+++ b/src/protocol/rc6/encoder.rs
@@ -1,15 +1,22 @@
 use crate::{protocol::Rc6, sender::ProtocolEncoder};
 
+/// Ticks in `l` microseconds
+const fn calc_ticks(l: u32, f: u32) -> u32 {
+    (l as u64 * f as u64 / 1_000_000) as u32
+}
+
 impl<const F: u32> ProtocolEncoder<F> for Rc6 {
-    type EncoderData = [u32; 1];
-    const DATA: Self::EncoderData = [((444 * F) / 1_000_000)];
+    // Time unit and leader mark. The leader is converted on its own, six times the rounded
+    // down unit can be too short to be recognized.
+    type EncoderData = [u32; 2];
+    const DATA: Self::EncoderData = [calc_ticks(444, F), calc_ticks(6 * 444, F)];
 
     fn encode(cmd: &Self::Cmd, b: &mut [u32]) -> usize {
         use Level::*;
 
-        let rc6len = <Self as ProtocolEncoder<F>>::DATA[0];
+        let [rc6len, leader_len] = <Self as ProtocolEncoder<F>>::DATA;
 
-        let header = leader(cmd.toggle, rc6len);
+        let header = leader(cmd.toggle, rc6len, leader_len);
 
         let bits = (u16::from(cmd.addr) << 8) | u16::from(cmd.cmd);
         let payload = payload(bits, rc6len);
@@ -53,11 +60,11 @@ enum Level {
 }
 
 /// Construct the leader
-const fn leader(toggle: bool, rc6len: u32) -> [Level; 12] {
+const fn leader(toggle: bool, rc6len: u32, leader_len: u32) -> [Level; 12] {
     use Level::*;
     [
         // Leader
-        High(6 * rc6len),
+        High(leader_len),
         Low(2 * rc6len),
         // Start bit after leading pause. Always one
         High(rc6len),
-- 
2.43.0


From 748453e0ea4643a9e2f84146ef724294b50df6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:21 +0000
Subject: [PATCH 02/15] fix: NEC and RC5 encoders: overflow and truncated tick
 frequency

---
 src/protocol/nec/encoder.rs | 12 ++----------
 src/protocol/rc5/encoder.rs | 12 ++----------
 2 files changed, 4 insertions(+), 20 deletions(-)

diff --git a/src/protocol/nec/encoder.rs b/src/protocol/nec/encoder.rs
index 858e080..57390d9 100644
--- a/src/protocol/nec/encoder.rs
+++ b/src/protocol/nec/encoder.rs
@@ -3,16 +3,8 @@ use crate::{
     sender::ProtocolEncoder,
 };
 
-const fn calc_ticks(l: u32, mut f: u32) -> u32 {
-    //TODO: Fix overflow
-    let mut div = 1_000_000;
-
-    if f > 1000 {
-        f /= 1000;
-        div /= 1000;
-    }
-
-    f * l / div
+const fn calc_ticks(l: u32, f: u32) -> u32 {
+    (l as u64 * f as u64 / 1_000_000) as u32
 }
 
 impl<Cmd, const F: u32> ProtocolEncoder<F> for Nec<Cmd>
diff --git a/src/protocol/rc5/encoder.rs b/src/protocol/rc5/encoder.rs
index 4019414..6226da1 100644
--- a/src/protocol/rc5/encoder.rs
+++ b/src/protocol/rc5/encoder.rs
@@ -1,15 +1,7 @@
 use crate::{protocol::Rc5, sender::ProtocolEncoder};
 
-//TODO: Check Overflow
-const fn calc_freq(mut f: u32) -> u32 {
-    let mut div = 1_000_000;
-
-    if f > 1000 {
-        f /= 1000;
-        div /= 1000;
-    }
-
-    (889 * f) / div
+const fn calc_freq(f: u32) -> u32 {
+    (889 * f as u64 / 1_000_000) as u32
 }
 
 impl<const FREQ: u32> ProtocolEncoder<FREQ> for Rc5 {
-- 
2.43.0


From e00ea83ea7e54bf84afd242a92e592fbd5c8e1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:17 +0000
Subject: [PATCH 03/15] fix: sender plays stale buffer contents after the
 loaded frame

---
 src/sender/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sender/buffer.rs b/src/sender/buffer.rs
index f24a0b9..0a05e06 100644
--- a/src/sender/buffer.rs
+++ b/src/sender/buffer.rs
@@ -23,7 +23,7 @@ impl<const S: usize> PulsedataBuffer<S> {
     }
 
     pub fn get(&self, index: usize) -> Option<u32> {
-        self.buf.get(index).cloned()
+        self.buffer().get(index).cloned()
     }
 
     pub fn buffer(&self) -> &[u32] {
-- 
2.43.0


From 8fdc915fa4bbc60a872a44d898bc1d053530d712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:18 +0000
Subject: [PATCH 04/15] fix: Denon decoder drops bit 47 and keeps bits of a
 failed frame

---
 src/protocol/denon/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/protocol/denon/mod.rs b/src/protocol/denon/mod.rs
index 00fcb5b..25555b8 100644
--- a/src/protocol/denon/mod.rs
+++ b/src/protocol/denon/mod.rs
@@ -83,10 +83,10 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Denon, Mono> for DenonDecoder<Mono> {
                 .unwrap_or(PulseWidth::Fail);
 
             self.state = match (self.state, pulsewidth) {
-                (DenonState::Idle,          PulseWidth::Sync)   => DenonState::Data(0),
+                (DenonState::Idle,          PulseWidth::Sync)   => { self.buf = 0; DenonState::Data(0) }
                 (DenonState::Idle,          _)                  => DenonState::Idle,
                 (DenonState::Data(47),      PulseWidth::Zero)   => DenonState::Done,
-                (DenonState::Data(47),      PulseWidth::One)    => DenonState::Done,
+                (DenonState::Data(47),      PulseWidth::One)    => { self.buf |= 1 << 47; DenonState::Done }
                 (DenonState::Data(idx),     PulseWidth::Zero)   => DenonState::Data(idx + 1),
                 (DenonState::Data(idx),     PulseWidth::One)    => { self.buf |= 1 << idx; DenonState::Data(idx + 1) }
                 (DenonState::Data(_ix),     _)                  => DenonState::Idle,
-- 
2.43.0


From cd992dd4aeff048754adfc7c0ac71298a0b50a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:19 +0000
Subject: [PATCH 05/15] fix: NEC repeat without a preceding frame reports a
 command never sent

---
 src/protocol/nec/decoder.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/protocol/nec/decoder.rs b/src/protocol/nec/decoder.rs
index 6bf3bf5..636456c 100644
--- a/src/protocol/nec/decoder.rs
+++ b/src/protocol/nec/decoder.rs
@@ -33,6 +33,7 @@ impl<Mono: InfraMonotonic, Cmd: NecCommandVariant> DecoderBuilder<Mono> for Nec<
         NecDecoder {
             state: NecState::Init,
             bitbuf: 0,
+            frame_valid: false,
             cmd_type: Default::default(),
             dt_save: Mono::ZERO_DURATION,
             pulsespans: PulseSpans::new(freq, &pulselens::<Cmd>(), &TOL),
@@ -45,6 +46,8 @@ pub struct NecDecoder<Mono: InfraMonotonic, C = NecCommand> {
     state: NecState,
     // Data buffer
     bitbuf: u32,
+    // Data buffer holds a completely received frame
+    frame_valid: bool,
     // Nec Command type
     cmd_type: PhantomData<C>,
     // Saved dt
@@ -100,12 +103,12 @@ where
                 .unwrap_or(PulseWidth::Invalid);
 
             let status = match (self.state, pulsewidth) {
-                (Init,              Sync)   => { self.bitbuf = 0; Receiving(0) },
+                (Init,              Sync)   => { self.bitbuf = 0; self.frame_valid = false; Receiving(0) },
                 (Init,              Repeat) => RepeatDone,
                 (Init,              _)      => Init,
 
-                (Receiving(31),     One)    => { self.bitbuf |= 1 << 31; Done }
-                (Receiving(31),     Zero)   => Done,
+                (Receiving(31),     One)    => { self.bitbuf |= 1 << 31; self.frame_valid = true; Done }
+                (Receiving(31),     Zero)   => { self.frame_valid = true; Done }
                 (Receiving(bit),    One)    => { self.bitbuf |= 1 << bit; Receiving(bit + 1) }
                 (Receiving(bit),    Zero)   => Receiving(bit + 1),
                 (Receiving(_),      _)      => Err(DecodingError::Data),
@@ -136,7 +139,7 @@ where
     fn command(&self) -> Option<Cmd> {
         match self.state {
             NecState::Done => Cmd::unpack(self.bitbuf, false),
-            NecState::RepeatDone => Cmd::unpack(self.bitbuf, true),
+            NecState::RepeatDone if self.frame_valid => Cmd::unpack(self.bitbuf, true),
             _ => None,
         }
     }
-- 
2.43.0


From a71c82fcf2d174a1a108cce23675fcb758897efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:21 +0000
Subject: [PATCH 06/15] fix: Apple command page lost in the generic command
 number

---
 src/protocol/nec/apple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/nec/apple.rs b/src/protocol/nec/apple.rs
index e925129..a416a60 100644
--- a/src/protocol/nec/apple.rs
+++ b/src/protocol/nec/apple.rs
@@ -70,7 +70,7 @@ impl AddressCommand for AppleNecCommand {
     }
 
     fn command(&self) -> u32 {
-        u32::from((self.command_page << 7) | self.command)
+        (u32::from(self.command_page) << 7) | u32::from(self.command)
     }
 
     fn create(_addr: u32, _cmd: u32) -> Option<Self> {
-- 
2.43.0


From 6af6d01145e7be9ec9825ace1646d3640826cda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:51 +0000
Subject: [PATCH 07/15] fix: decoders overflow when adding up long intervals

---
 src/protocol/denon/mod.rs   |  2 +-
 src/protocol/nec/decoder.rs |  4 +---
 src/protocol/sbp/mod.rs     |  4 ++--
 src/receiver/time.rs        | 16 ++++++++++++++++
 4 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/protocol/denon/mod.rs b/src/protocol/denon/mod.rs
index 25555b8..2653111 100644
--- a/src/protocol/denon/mod.rs
+++ b/src/protocol/denon/mod.rs
@@ -79,7 +79,7 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Denon, Mono> for DenonDecoder<Mono> {
     fn event(&mut self, rising: bool, dt: Mono::Duration) -> State {
 
         if rising {
-            let pulsewidth = self.spans.get::<PulseWidth>( self.dt_save + dt)
+            let pulsewidth = self.spans.get_sum::<PulseWidth>(self.dt_save, dt)
                 .unwrap_or(PulseWidth::Fail);
 
             self.state = match (self.state, pulsewidth) {
diff --git a/src/protocol/nec/decoder.rs b/src/protocol/nec/decoder.rs
index 636456c..2d4a6db 100644
--- a/src/protocol/nec/decoder.rs
+++ b/src/protocol/nec/decoder.rs
@@ -97,9 +97,7 @@ where
 
         if rising {
 
-            let total_duration = dur + self.dt_save;
-
-            let pulsewidth = self.pulsespans.get(total_duration)
+            let pulsewidth = self.pulsespans.get_sum(dur, self.dt_save)
                 .unwrap_or(PulseWidth::Invalid);
 
             let status = match (self.state, pulsewidth) {
diff --git a/src/protocol/sbp/mod.rs b/src/protocol/sbp/mod.rs
index 49551e8..bbf9b56 100644
--- a/src/protocol/sbp/mod.rs
+++ b/src/protocol/sbp/mod.rs
@@ -138,8 +138,8 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Sbp, Mono> for SbpDecoder<Mono> {
         use SbpState::*;
 
         if rising {
-            let dt = self.since_rising + dt;
-            let pulsewidth = self.spans.get::<SbpPulse>(dt).unwrap_or(SbpPulse::NotAPulseWidth);
+            let pulsewidth = self.spans.get_sum::<SbpPulse>(self.since_rising, dt)
+                .unwrap_or(SbpPulse::NotAPulseWidth);
 
             self.state = match (self.state, pulsewidth) {
                 (Init,          Sync)   => Address(0),
diff --git a/src/receiver/time.rs b/src/receiver/time.rs
index 96fe8fa..ee736ef 100644
--- a/src/receiver/time.rs
+++ b/src/receiver/time.rs
@@ -60,6 +60,22 @@ where
             .map(Into::into)
     }
 
+    /// Find the span containing the sum of two durations
+    pub(crate) fn get_sum<P: From<usize>>(
+        &self,
+        a: Mono::Duration,
+        b: Mono::Duration,
+    ) -> Option<P> {
+        // Longer than every span on its own: no need to add, which could overflow
+        let too_long = |d: Mono::Duration| self.spans.iter().all(|s| s.high < d);
+
+        if too_long(a) || too_long(b) {
+            return None;
+        }
+
+        self.get(a + b)
+    }
+
     pub fn check_overlaps(&self) -> bool {
         for i in 0..self.spans.len() {
             for j in 0..self.spans.len() {
-- 
2.43.0


From 5d64517f0d51b442d6862d8334bd35baabd0742f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:52 +0000
Subject: [PATCH 08/15] fix: a zero length interval is taken for a valid pulse

---
 src/receiver/time.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/receiver/time.rs b/src/receiver/time.rs
index ee736ef..40ae684 100644
--- a/src/receiver/time.rs
+++ b/src/receiver/time.rs
@@ -54,6 +54,11 @@ where
     }
 
     pub fn get<P: From<usize>>(&self, pl: Mono::Duration) -> Option<P> {
+        // Would match the unused, all zero, spans
+        if pl == Mono::ZERO_DURATION {
+            return None;
+        }
+
         self.spans
             .iter()
             .position(|v| v.contains(pl))
-- 
2.43.0


From 89c430fa28d1af188422c9f2b747c4452d76416f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:54 +0000
Subject: [PATCH 09/15] fix: buffer receiver stops at the first broken frame

---
 src/receiver/iter.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/receiver/iter.rs b/src/receiver/iter.rs
index 7398553..ab98a3e 100644
--- a/src/receiver/iter.rs
+++ b/src/receiver/iter.rs
@@ -60,11 +60,13 @@ where
                 State::Done => {
                     let cmd = self.decoder.command();
                     self.decoder.reset();
-                    break cmd.map(|r| r.into());
+                    if let Some(cmd) = cmd {
+                        break Some(cmd.into());
+                    }
                 }
                 State::Error(_) => {
+                    // Go on with the rest of the buffer
                     self.decoder.reset();
-                    break None;
                 }
             }
         }
-- 
2.43.0


From 986f8c9cf81e8ee8c0a171184a01f4567b3603ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:40 +0000
Subject: [PATCH 10/15] fix: commands created from numbers that do not fit are
 silently changed

---
 src/protocol/nec/samsung.rs  | 6 ++++--
 src/protocol/nec/standard.rs | 6 ++++--
 src/protocol/rc5/mod.rs      | 7 ++++++-
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/protocol/nec/samsung.rs b/src/protocol/nec/samsung.rs
index cd60a29..8193dc8 100644
--- a/src/protocol/nec/samsung.rs
+++ b/src/protocol/nec/samsung.rs
@@ -1,5 +1,7 @@
 //!NEC Samsung Command variant
 
+use core::convert::TryInto;
+
 use crate::{
     cmd::{AddressCommand, Command},
     protocol::nec::{NecCommandVariant, NecPulseLen, NEC_SAMSUNG_TIMING},
@@ -53,8 +55,8 @@ impl AddressCommand for SamsungNecCommand {
 
     fn create(addr: u32, cmd: u32) -> Option<Self> {
         Some(SamsungNecCommand {
-            addr: addr as u8,
-            cmd: cmd as u8,
+            addr: addr.try_into().ok()?,
+            cmd: cmd.try_into().ok()?,
             repeat: false,
         })
     }
diff --git a/src/protocol/nec/standard.rs b/src/protocol/nec/standard.rs
index e50d63e..dc80d2a 100644
--- a/src/protocol/nec/standard.rs
+++ b/src/protocol/nec/standard.rs
@@ -1,5 +1,7 @@
 //! The Standard NEC variant
 
+use core::convert::TryInto;
+
 use crate::{
     cmd::{AddressCommand, Command},
     protocol::nec::{NecCommandVariant, NecPulseLen, NEC_STANDARD_TIMING},
@@ -54,8 +56,8 @@ impl AddressCommand for NecCommand {
 
     fn create(addr: u32, cmd: u32) -> Option<Self> {
         Some(NecCommand {
-            addr: addr as u8,
-            cmd: cmd as u8,
+            addr: addr.try_into().ok()?,
+            cmd: cmd.try_into().ok()?,
             repeat: false,
         })
     }
diff --git a/src/protocol/rc5/mod.rs b/src/protocol/rc5/mod.rs
index 59ca5bb..7334bc8 100644
--- a/src/protocol/rc5/mod.rs
+++ b/src/protocol/rc5/mod.rs
@@ -90,7 +90,12 @@ impl AddressCommand for Rc5Command {
 
     fn create(addr: u32, cmd: u32) -> Option<Rc5Command> {
         let addr: u8 = addr.try_into().ok()?;
-        let cmd = cmd.try_into().ok()?;
+        let cmd: u8 = cmd.try_into().ok()?;
+
+        // 5 bits of address and 6 bits of command
+        if addr > 31 || cmd > 63 {
+            return None;
+        }
 
         Some(Rc5Command::new(addr, cmd, false))
     }
-- 
2.43.0


From 39f36b791fc2224ed686beeec0fde3c62bd74f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:42 +0000
Subject: [PATCH 11/15] fix: interval lost when a u32 timestamp clock wraps
 around

---
 src/receiver/time/primitives.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/receiver/time/primitives.rs b/src/receiver/time/primitives.rs
index feedf93..ef76756 100644
--- a/src/receiver/time/primitives.rs
+++ b/src/receiver/time/primitives.rs
@@ -10,7 +10,8 @@ impl InfraMonotonic for u32 {
     const ZERO_DURATION: Self::Duration = 0;
 
     fn checked_sub(a: Self::Instant, b: Self::Instant) -> Option<Self::Duration> {
-        a.checked_sub(b)
+        // The clock may wrap around
+        Some(a.wrapping_sub(b))
     }
 
     fn create_span(freq: u32, p: u32, t: u32) -> Span<Self::Duration> {
-- 
2.43.0


From 925ef41c937d6e8c080e24bd46b70cf5aa2a5f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:43 +0000
Subject: [PATCH 12/15] fix: sbp without remotes and embedded-hal without
 embedded do not compile

---
 src/protocol/sbp/mod.rs | 4 +---
 src/receiver/ppoll.rs   | 6 ++++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/protocol/sbp/mod.rs b/src/protocol/sbp/mod.rs
index bbf9b56..92fa323 100644
--- a/src/protocol/sbp/mod.rs
+++ b/src/protocol/sbp/mod.rs
@@ -9,14 +9,12 @@
 
 use core::convert::TryInto;
 
-#[cfg(feature = "remotes")]
-use crate::receiver::{DecodingError, ProtocolDecoder, State};
 use crate::{
     cmd::{AddressCommand, Command},
     protocol::Protocol,
     receiver::{
         time::{InfraMonotonic, PulseSpans},
-        DecoderBuilder,
+        DecoderBuilder, DecodingError, ProtocolDecoder, State,
     },
     ProtocolId,
 };
diff --git a/src/receiver/ppoll.rs b/src/receiver/ppoll.rs
index 02f6dd4..53fab9b 100644
--- a/src/receiver/ppoll.rs
+++ b/src/receiver/ppoll.rs
@@ -1,10 +1,12 @@
 use core::marker::PhantomData;
 
-#[cfg(feature = "embedded")]
+#[cfg(feature = "embedded-hal")]
 use embedded_hal::digital::v2::InputPin;
 
+#[cfg(feature = "embedded-hal")]
+use crate::receiver::Error;
 use crate::{
-    receiver::{DecoderBuilder, DecodingError, Error, NoPin, ProtocolDecoder},
+    receiver::{DecoderBuilder, DecodingError, NoPin, ProtocolDecoder},
     Protocol,
 };
 
-- 
2.43.0


From a438af504545d967034e3788487d14fea48a1779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:45 +0000
Subject: [PATCH 13/15] fix: NEC and RC5 frames are sent without their last
 mark

---
 src/protocol/nec/encoder.rs | 5 ++++-
 src/protocol/rc5/encoder.rs | 6 ++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/protocol/nec/encoder.rs b/src/protocol/nec/encoder.rs
index 57390d9..a5d3dde 100644
--- a/src/protocol/nec/encoder.rs
+++ b/src/protocol/nec/encoder.rs
@@ -41,6 +41,9 @@ where
             bi += 2;
         }
 
-        bi
+        // Stop mark, ends the space of the last bit
+        b[bi] = <Self as ProtocolEncoder<F>>::DATA[3];
+
+        bi + 1
     }
 }
diff --git a/src/protocol/rc5/encoder.rs b/src/protocol/rc5/encoder.rs
index 6226da1..79b4f1a 100644
--- a/src/protocol/rc5/encoder.rs
+++ b/src/protocol/rc5/encoder.rs
@@ -34,6 +34,12 @@ impl<const FREQ: u32> ProtocolEncoder<FREQ> for Rc5 {
             prev = cur;
         }
 
+        if prev {
+            // Second half of the last bit
+            buf[index] = rc5len;
+            index += 1;
+        }
+
         index
     }
 }
-- 
2.43.0


From 58df2921df30daab9f308ebf1ec355e84e9b4816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:46 +0000
Subject: [PATCH 14/15] fix: RC5, RC6 and Sbp decoders return a command before
 one is received

---
 src/protocol/rc5/decoder.rs | 5 ++++-
 src/protocol/rc6/decoder.rs | 5 ++++-
 src/protocol/sbp/mod.rs     | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/protocol/rc5/decoder.rs b/src/protocol/rc5/decoder.rs
index 3a404d1..fe4285d 100644
--- a/src/protocol/rc5/decoder.rs
+++ b/src/protocol/rc5/decoder.rs
@@ -68,7 +68,10 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Rc5, Mono> for Rc5Decoder<Mono> {
     }
 
     fn command(&self) -> Option<Rc5Command> {
-        Some(Rc5Command::unpack(self.bitbuf))
+        match self.state {
+            Rc5State::Done => Some(Rc5Command::unpack(self.bitbuf)),
+            _ => None,
+        }
     }
 
     fn reset(&mut self) {
diff --git a/src/protocol/rc6/decoder.rs b/src/protocol/rc6/decoder.rs
index 76234d6..798266e 100644
--- a/src/protocol/rc6/decoder.rs
+++ b/src/protocol/rc6/decoder.rs
@@ -93,7 +93,10 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Rc6, Mono> for Rc6Decoder<Mono> {
     }
 
     fn command(&self) -> Option<Rc6Command> {
-        Some(Rc6Command::from_bits(self.data, self.toggle))
+        match self.state {
+            Rc6State::Done => Some(Rc6Command::from_bits(self.data, self.toggle)),
+            _ => None,
+        }
     }
 
     fn reset(&mut self) {
diff --git a/src/protocol/sbp/mod.rs b/src/protocol/sbp/mod.rs
index 92fa323..cf45d87 100644
--- a/src/protocol/sbp/mod.rs
+++ b/src/protocol/sbp/mod.rs
@@ -168,7 +168,10 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Sbp, Mono> for SbpDecoder<Mono> {
         self.state.into()
     }
     fn command(&self) -> Option<SbpCommand> {
-        Some(SbpCommand::unpack(self.address, self.command))
+        match self.state {
+            SbpState::Done => Some(SbpCommand::unpack(self.address, self.command)),
+            _ => None,
+        }
     }
 
     fn reset(&mut self) {
-- 
2.43.0


From 3a5de70226260760f3bb57723d8ca4755ac7854a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:48 +0000
Subject: [PATCH 15/15] fix: overflow creating spans for 32 bit fugit instants
 of some rates

---
 src/receiver/time/fgt.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/receiver/time/fgt.rs b/src/receiver/time/fgt.rs
index 6e71079..6454a6f 100644
--- a/src/receiver/time/fgt.rs
+++ b/src/receiver/time/fgt.rs
@@ -1,4 +1,4 @@
-use fugit::{Duration, ExtU32, ExtU64, Instant};
+use fugit::{Duration, ExtU64, Instant};
 
 use crate::receiver::time::{InfraMonotonic, Span};
 
@@ -13,7 +13,13 @@ impl<const NOM: u32, const DENOM: u32> InfraMonotonic for Instant<u32, NOM, DENO
     }
 
     fn create_span(_freq: u32, p: u32, t: u32) -> Span<Self::Duration> {
-        Span::<Self::Duration>::new(p.micros(), t)
+        // The conversion can overflow in 32 bits, the result can't
+        let p: u64 = p.into();
+        let base: Duration<u64, NOM, DENOM> = p.micros();
+        Span::<Self::Duration>::new(
+            Duration::<u32, NOM, DENOM>::from_ticks(base.ticks() as u32),
+            t,
+        )
     }
 }
 
-- 
2.43.0

