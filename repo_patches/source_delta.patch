From 31c88c5a68a9d260eff4a43a7b3d198730eb9d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:40 +0000
Subject: [PATCH 01/15] fix: denon: do not leak bits of an aborted frame into
 the next command

An out of tolerance pulse moves the decoder from Data back to Idle without
clearing the bit buffer, so the ones received so far were or:ed into the
next, correctly received frame. Clear the buffer when a new frame starts.
---
 src/protocol/denon/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/denon/mod.rs b/src/protocol/denon/mod.rs
index 00fcb5b..9b6cd93 100644
--- a/src/protocol/denon/mod.rs
+++ b/src/protocol/denon/mod.rs
@@ -83,7 +83,7 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Denon, Mono> for DenonDecoder<Mono> {
                 .unwrap_or(PulseWidth::Fail);
 
             self.state = match (self.state, pulsewidth) {
-                (DenonState::Idle,          PulseWidth::Sync)   => DenonState::Data(0),
+                (DenonState::Idle,          PulseWidth::Sync)   => { self.buf = 0; DenonState::Data(0) }
                 (DenonState::Idle,          _)                  => DenonState::Idle,
                 (DenonState::Data(47),      PulseWidth::Zero)   => DenonState::Done,
                 (DenonState::Data(47),      PulseWidth::One)    => DenonState::Done,
-- 
2.43.0


From a2c26b91b19232ecc67581192785f5ce77ac8ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:40 +0000
Subject: [PATCH 02/15] fix: denon: keep the last of the 48 bits

The final bit was accepted but never stored, bit 47 of every command read 0.
---
 src/protocol/denon/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/denon/mod.rs b/src/protocol/denon/mod.rs
index 9b6cd93..25555b8 100644
--- a/src/protocol/denon/mod.rs
+++ b/src/protocol/denon/mod.rs
@@ -86,7 +86,7 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Denon, Mono> for DenonDecoder<Mono> {
                 (DenonState::Idle,          PulseWidth::Sync)   => { self.buf = 0; DenonState::Data(0) }
                 (DenonState::Idle,          _)                  => DenonState::Idle,
                 (DenonState::Data(47),      PulseWidth::Zero)   => DenonState::Done,
-                (DenonState::Data(47),      PulseWidth::One)    => DenonState::Done,
+                (DenonState::Data(47),      PulseWidth::One)    => { self.buf |= 1 << 47; DenonState::Done }
                 (DenonState::Data(idx),     PulseWidth::Zero)   => DenonState::Data(idx + 1),
                 (DenonState::Data(idx),     PulseWidth::One)    => { self.buf |= 1 << idx; DenonState::Data(idx + 1) }
                 (DenonState::Data(_ix),     _)                  => DenonState::Idle,
-- 
2.43.0


From c89bf79b8e6e241c1c217df8a4cabf5289f1fd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:57 +0000
Subject: [PATCH 03/15] fix: build with sbp but without remotes, and with only
 the embedded-hal feature

The sbp decoder imported its decoder traits only when the unrelated remotes
feature was on, and the polled receiver imported InputPin for 'embedded' but
used it for 'embedded-hal'.
---
 src/protocol/sbp/mod.rs | 4 +---
 src/receiver/ppoll.rs   | 2 +-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/protocol/sbp/mod.rs b/src/protocol/sbp/mod.rs
index 49551e8..ffaddd5 100644
--- a/src/protocol/sbp/mod.rs
+++ b/src/protocol/sbp/mod.rs
@@ -9,14 +9,12 @@
 
 use core::convert::TryInto;
 
-#[cfg(feature = "remotes")]
-use crate::receiver::{DecodingError, ProtocolDecoder, State};
 use crate::{
     cmd::{AddressCommand, Command},
     protocol::Protocol,
     receiver::{
         time::{InfraMonotonic, PulseSpans},
-        DecoderBuilder,
+        DecoderBuilder, DecodingError, ProtocolDecoder, State,
     },
     ProtocolId,
 };
diff --git a/src/receiver/ppoll.rs b/src/receiver/ppoll.rs
index 02f6dd4..82e96af 100644
--- a/src/receiver/ppoll.rs
+++ b/src/receiver/ppoll.rs
@@ -1,6 +1,6 @@
 use core::marker::PhantomData;
 
-#[cfg(feature = "embedded")]
+#[cfg(feature = "embedded-hal")]
 use embedded_hal::digital::v2::InputPin;
 
 use crate::{
-- 
2.43.0


From ee3aa4d38024bd4e335b3b2824ae92b1862fe710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:57 +0000
Subject: [PATCH 04/15] fix: do not match a zero duration against the unused
 pulse spans

The pulse tables are padded with zeros, so a zero duration (event_instant with
a timer that wrapped, two edges within a tick) was reported as the first unused
entry: three half bits for Rc5, seven time units for Rc6, and check_overlaps()
was true for every protocol.
---
 src/receiver/time.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/receiver/time.rs b/src/receiver/time.rs
index 96fe8fa..ca9f9a2 100644
--- a/src/receiver/time.rs
+++ b/src/receiver/time.rs
@@ -53,17 +53,22 @@ where
         }
     }
 
+    /// Unused entries in the pulse table are zero, they are not a pulse of zero length
+    fn in_use(span: &Span<Mono::Duration>) -> bool {
+        span.high > Mono::ZERO_DURATION
+    }
+
     pub fn get<P: From<usize>>(&self, pl: Mono::Duration) -> Option<P> {
         self.spans
             .iter()
-            .position(|v| v.contains(pl))
+            .position(|v| Self::in_use(v) && v.contains(pl))
             .map(Into::into)
     }
 
     pub fn check_overlaps(&self) -> bool {
         for i in 0..self.spans.len() {
             for j in 0..self.spans.len() {
-                if i == j {
+                if i == j || !Self::in_use(&self.spans[i]) || !Self::in_use(&self.spans[j]) {
                     continue;
                 }
 
-- 
2.43.0


From e5a53f4aaa433f0d7920ad6ac804c47f01e90ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:18 +0000
Subject: [PATCH 05/15] fix: do not overflow when adding the two halves of a
 pulse period

With a long idle time the sum of the high and low time does not fit the
duration type: a panic with fugit durations and in debug builds, and a wrapped
value that can match a pulse otherwise. Treat it as not a pulse.
---
 src/protocol/denon/mod.rs       | 3 ++-
 src/protocol/nec/decoder.rs     | 5 ++---
 src/protocol/sbp/mod.rs         | 5 +++--
 src/receiver/time.rs            | 5 +++++
 src/receiver/time/fgt.rs        | 8 ++++++++
 src/receiver/time/primitives.rs | 8 ++++++++
 6 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/protocol/denon/mod.rs b/src/protocol/denon/mod.rs
index 25555b8..6333967 100644
--- a/src/protocol/denon/mod.rs
+++ b/src/protocol/denon/mod.rs
@@ -79,7 +79,8 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Denon, Mono> for DenonDecoder<Mono> {
     fn event(&mut self, rising: bool, dt: Mono::Duration) -> State {
 
         if rising {
-            let pulsewidth = self.spans.get::<PulseWidth>( self.dt_save + dt)
+            let pulsewidth = Mono::checked_add(self.dt_save, dt)
+                .and_then(|dt| self.spans.get::<PulseWidth>(dt))
                 .unwrap_or(PulseWidth::Fail);
 
             self.state = match (self.state, pulsewidth) {
diff --git a/src/protocol/nec/decoder.rs b/src/protocol/nec/decoder.rs
index 6bf3bf5..04a6639 100644
--- a/src/protocol/nec/decoder.rs
+++ b/src/protocol/nec/decoder.rs
@@ -94,9 +94,8 @@ where
 
         if rising {
 
-            let total_duration = dur + self.dt_save;
-
-            let pulsewidth = self.pulsespans.get(total_duration)
+            let pulsewidth = Mono::checked_add(dur, self.dt_save)
+                .and_then(|total_duration| self.pulsespans.get(total_duration))
                 .unwrap_or(PulseWidth::Invalid);
 
             let status = match (self.state, pulsewidth) {
diff --git a/src/protocol/sbp/mod.rs b/src/protocol/sbp/mod.rs
index ffaddd5..daf33a4 100644
--- a/src/protocol/sbp/mod.rs
+++ b/src/protocol/sbp/mod.rs
@@ -136,8 +136,9 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Sbp, Mono> for SbpDecoder<Mono> {
         use SbpState::*;
 
         if rising {
-            let dt = self.since_rising + dt;
-            let pulsewidth = self.spans.get::<SbpPulse>(dt).unwrap_or(SbpPulse::NotAPulseWidth);
+            let pulsewidth = Mono::checked_add(self.since_rising, dt)
+                .and_then(|dt| self.spans.get::<SbpPulse>(dt))
+                .unwrap_or(SbpPulse::NotAPulseWidth);
 
             self.state = match (self.state, pulsewidth) {
                 (Init,          Sync)   => Address(0),
diff --git a/src/receiver/time.rs b/src/receiver/time.rs
index ca9f9a2..116e0d8 100644
--- a/src/receiver/time.rs
+++ b/src/receiver/time.rs
@@ -20,6 +20,11 @@ pub trait InfraMonotonic: Sized {
 
     fn checked_sub(a: Self::Instant, b: Self::Instant) -> Option<Self::Duration>;
 
+    /// Sum of two durations, None if it can't be represented
+    fn checked_add(a: Self::Duration, b: Self::Duration) -> Option<Self::Duration> {
+        Some(a + b)
+    }
+
     fn create_span(freq: u32, p: u32, t: u32) -> Span<Self::Duration>;
 }
 
diff --git a/src/receiver/time/fgt.rs b/src/receiver/time/fgt.rs
index 6e71079..e0c2518 100644
--- a/src/receiver/time/fgt.rs
+++ b/src/receiver/time/fgt.rs
@@ -12,6 +12,10 @@ impl<const NOM: u32, const DENOM: u32> InfraMonotonic for Instant<u32, NOM, DENO
         a.checked_duration_since(b)
     }
 
+    fn checked_add(a: Self::Duration, b: Self::Duration) -> Option<Self::Duration> {
+        a.checked_add(b)
+    }
+
     fn create_span(_freq: u32, p: u32, t: u32) -> Span<Self::Duration> {
         Span::<Self::Duration>::new(p.micros(), t)
     }
@@ -37,6 +41,10 @@ impl<const NOM: u32, const DENOM: u32> InfraMonotonic for Instant<u64, NOM, DENO
         a.checked_duration_since(b)
     }
 
+    fn checked_add(a: Self::Duration, b: Self::Duration) -> Option<Self::Duration> {
+        a.checked_add(b)
+    }
+
     fn create_span(_freq: u32, p: u32, t: u32) -> Span<Self::Duration> {
         let p: u64 = p.into();
         Span::<Self::Duration>::new(p.micros(), t)
diff --git a/src/receiver/time/primitives.rs b/src/receiver/time/primitives.rs
index feedf93..171405a 100644
--- a/src/receiver/time/primitives.rs
+++ b/src/receiver/time/primitives.rs
@@ -13,6 +13,10 @@ impl InfraMonotonic for u32 {
         a.checked_sub(b)
     }
 
+    fn checked_add(a: Self::Duration, b: Self::Duration) -> Option<Self::Duration> {
+        a.checked_add(b)
+    }
+
     fn create_span(freq: u32, p: u32, t: u32) -> Span<Self::Duration> {
         Span::<u32>::scaled(p, freq, t)
     }
@@ -28,6 +32,10 @@ impl InfraMonotonic for u64 {
         a.checked_sub(b)
     }
 
+    fn checked_add(a: Self::Duration, b: Self::Duration) -> Option<Self::Duration> {
+        a.checked_add(b)
+    }
+
     fn create_span(freq: u32, p: u32, t: u32) -> Span<Self::Duration> {
         Span::<u64>::scaled(p, freq, t)
     }
-- 
2.43.0


From 2ee927454c414518cc250b81927c7e5071ab6dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:49 +0000
Subject: [PATCH 06/15] fix: buffer receiver: keep going after a frame that
 does not decode

The iterator returned None, which ends every for loop and collect(), as soon as
one frame failed to decode, dropping all commands after it in the buffer.
---
 src/receiver/iter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/receiver/iter.rs b/src/receiver/iter.rs
index 7398553..dbb5537 100644
--- a/src/receiver/iter.rs
+++ b/src/receiver/iter.rs
@@ -60,11 +60,12 @@ where
                 State::Done => {
                     let cmd = self.decoder.command();
                     self.decoder.reset();
-                    break cmd.map(|r| r.into());
+                    if let Some(cmd) = cmd {
+                        break Some(cmd.into());
+                    }
                 }
                 State::Error(_) => {
                     self.decoder.reset();
-                    break None;
                 }
             }
         }
-- 
2.43.0


From 8769c53955bccc1159670542ec45bafe09bb275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:50 +0000
Subject: [PATCH 07/15] fix: rc5, rc6, sbp: no command before the decoder is
 done

ProtocolDecoder::command() is documented to return None unless the state is
Done, these decoders returned whatever bits they had so far.
---
 src/protocol/rc5/decoder.rs | 5 ++++-
 src/protocol/rc6/decoder.rs | 5 ++++-
 src/protocol/sbp/mod.rs     | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/protocol/rc5/decoder.rs b/src/protocol/rc5/decoder.rs
index 3a404d1..fe4285d 100644
--- a/src/protocol/rc5/decoder.rs
+++ b/src/protocol/rc5/decoder.rs
@@ -68,7 +68,10 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Rc5, Mono> for Rc5Decoder<Mono> {
     }
 
     fn command(&self) -> Option<Rc5Command> {
-        Some(Rc5Command::unpack(self.bitbuf))
+        match self.state {
+            Rc5State::Done => Some(Rc5Command::unpack(self.bitbuf)),
+            _ => None,
+        }
     }
 
     fn reset(&mut self) {
diff --git a/src/protocol/rc6/decoder.rs b/src/protocol/rc6/decoder.rs
index 76234d6..798266e 100644
--- a/src/protocol/rc6/decoder.rs
+++ b/src/protocol/rc6/decoder.rs
@@ -93,7 +93,10 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Rc6, Mono> for Rc6Decoder<Mono> {
     }
 
     fn command(&self) -> Option<Rc6Command> {
-        Some(Rc6Command::from_bits(self.data, self.toggle))
+        match self.state {
+            Rc6State::Done => Some(Rc6Command::from_bits(self.data, self.toggle)),
+            _ => None,
+        }
     }
 
     fn reset(&mut self) {
diff --git a/src/protocol/sbp/mod.rs b/src/protocol/sbp/mod.rs
index daf33a4..a83c950 100644
--- a/src/protocol/sbp/mod.rs
+++ b/src/protocol/sbp/mod.rs
@@ -169,7 +169,10 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Sbp, Mono> for SbpDecoder<Mono> {
         self.state.into()
     }
     fn command(&self) -> Option<SbpCommand> {
-        Some(SbpCommand::unpack(self.address, self.command))
+        match self.state {
+            SbpState::Done => Some(SbpCommand::unpack(self.address, self.command)),
+            _ => None,
+        }
     }
 
     fn reset(&mut self) {
-- 
2.43.0


From a1157ef2ada63bc8c80c6728734e8887cc4de5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:51 +0000
Subject: [PATCH 08/15] fix: nec: only report a repeat of a command that was
 received

A repeat code as the first thing received was reported as a repeat of address 0,
command 0, and after a frame that failed to decode it was reported as a repeat
of the bits received before the error.
---
 src/protocol/nec/decoder.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/protocol/nec/decoder.rs b/src/protocol/nec/decoder.rs
index 04a6639..7b5c249 100644
--- a/src/protocol/nec/decoder.rs
+++ b/src/protocol/nec/decoder.rs
@@ -33,6 +33,7 @@ impl<Mono: InfraMonotonic, Cmd: NecCommandVariant> DecoderBuilder<Mono> for Nec<
         NecDecoder {
             state: NecState::Init,
             bitbuf: 0,
+            complete: false,
             cmd_type: Default::default(),
             dt_save: Mono::ZERO_DURATION,
             pulsespans: PulseSpans::new(freq, &pulselens::<Cmd>(), &TOL),
@@ -45,6 +46,8 @@ pub struct NecDecoder<Mono: InfraMonotonic, C = NecCommand> {
     state: NecState,
     // Data buffer
     bitbuf: u32,
+    // The data buffer holds a complete command, one that can be repeated
+    complete: bool,
     // Nec Command type
     cmd_type: PhantomData<C>,
     // Saved dt
@@ -99,12 +102,12 @@ where
                 .unwrap_or(PulseWidth::Invalid);
 
             let status = match (self.state, pulsewidth) {
-                (Init,              Sync)   => { self.bitbuf = 0; Receiving(0) },
-                (Init,              Repeat) => RepeatDone,
+                (Init,              Sync)   => { self.bitbuf = 0; self.complete = false; Receiving(0) },
+                (Init,              Repeat) if self.complete => RepeatDone,
                 (Init,              _)      => Init,
 
-                (Receiving(31),     One)    => { self.bitbuf |= 1 << 31; Done }
-                (Receiving(31),     Zero)   => Done,
+                (Receiving(31),     One)    => { self.bitbuf |= 1 << 31; self.complete = true; Done }
+                (Receiving(31),     Zero)   => { self.complete = true; Done }
                 (Receiving(bit),    One)    => { self.bitbuf |= 1 << bit; Receiving(bit + 1) }
                 (Receiving(bit),    Zero)   => Receiving(bit + 1),
                 (Receiving(_),      _)      => Err(DecodingError::Data),
-- 
2.43.0


From 421435cf6e0b0005e6f9f2e9e4277f0a05593253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:52 +0000
Subject: [PATCH 09/15] fix: apple: do not shift out the command page

The page was shifted left by 7 in an u8, so command() and AnyCommand lost it and
commands on different pages could not be told apart.
---
 src/protocol/nec/apple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/nec/apple.rs b/src/protocol/nec/apple.rs
index e925129..a416a60 100644
--- a/src/protocol/nec/apple.rs
+++ b/src/protocol/nec/apple.rs
@@ -70,7 +70,7 @@ impl AddressCommand for AppleNecCommand {
     }
 
     fn command(&self) -> u32 {
-        u32::from((self.command_page << 7) | self.command)
+        (u32::from(self.command_page) << 7) | u32::from(self.command)
     }
 
     fn create(_addr: u32, _cmd: u32) -> Option<Self> {
-- 
2.43.0


From 616f263a86c89923e1d90f8c08815bd17795a173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:53 +0000
Subject: [PATCH 10/15] fix: apple: implement pack()

AppleNec can be given to the senders like the other Nec variants, but panicked
when the command was loaded.
---
 src/protocol/nec/apple.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/protocol/nec/apple.rs b/src/protocol/nec/apple.rs
index a416a60..d422d07 100644
--- a/src/protocol/nec/apple.rs
+++ b/src/protocol/nec/apple.rs
@@ -6,6 +6,8 @@ use crate::{
     ProtocolId,
 };
 
+const APPLE_VENDOR_ID: u16 = 0x43f;
+
 #[derive(Debug, Copy, Clone, PartialEq)]
 #[cfg_attr(feature = "defmt", derive(defmt::Format))]
 pub struct AppleNecCommand {
@@ -20,7 +22,6 @@ impl NecCommandVariant for AppleNecCommand {
 
     fn validate(bits: u32) -> bool {
         let vendor = ((bits >> 5) & 0x7FF) as u16;
-        const APPLE_VENDOR_ID: u16 = 0x43f;
 
         vendor == APPLE_VENDOR_ID &&
             // Odd parity
@@ -52,7 +53,13 @@ impl NecCommandVariant for AppleNecCommand {
     }
 
     fn pack(&self) -> u32 {
-        unimplemented!()
+        let bits = (u32::from(self.command_page) & 0x1F)
+            | (u32::from(APPLE_VENDOR_ID) << 5)
+            | ((u32::from(self.command) & 0x7F) << 17)
+            | (u32::from(self.device_id) << 24);
+
+        // Odd parity
+        bits | ((!bits.count_ones() & 0x1) << 16)
     }
 }
 
-- 
2.43.0


From 4e6e88e934d1ed43c3abfb17526e8c4523ec0db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:53 +0000
Subject: [PATCH 11/15] fix: AddressCommand::create: no command for values that
 do not fit

Nec and Samsung truncated address and command to 8 bits, Rc5 accepted values
wider than its 5 and 6 bits, which end up in the neighbouring fields when
packed. Return None as Rc6 and Sbp do.
---
 src/protocol/nec/samsung.rs  | 4 ++--
 src/protocol/nec/standard.rs | 4 ++--
 src/protocol/rc5/mod.rs      | 7 ++++++-
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/protocol/nec/samsung.rs b/src/protocol/nec/samsung.rs
index cd60a29..c3f8ac9 100644
--- a/src/protocol/nec/samsung.rs
+++ b/src/protocol/nec/samsung.rs
@@ -53,8 +53,8 @@ impl AddressCommand for SamsungNecCommand {
 
     fn create(addr: u32, cmd: u32) -> Option<Self> {
         Some(SamsungNecCommand {
-            addr: addr as u8,
-            cmd: cmd as u8,
+            addr: addr.try_into().ok()?,
+            cmd: cmd.try_into().ok()?,
             repeat: false,
         })
     }
diff --git a/src/protocol/nec/standard.rs b/src/protocol/nec/standard.rs
index e50d63e..ed70c3e 100644
--- a/src/protocol/nec/standard.rs
+++ b/src/protocol/nec/standard.rs
@@ -54,8 +54,8 @@ impl AddressCommand for NecCommand {
 
     fn create(addr: u32, cmd: u32) -> Option<Self> {
         Some(NecCommand {
-            addr: addr as u8,
-            cmd: cmd as u8,
+            addr: addr.try_into().ok()?,
+            cmd: cmd.try_into().ok()?,
             repeat: false,
         })
     }
diff --git a/src/protocol/rc5/mod.rs b/src/protocol/rc5/mod.rs
index 59ca5bb..1b99964 100644
--- a/src/protocol/rc5/mod.rs
+++ b/src/protocol/rc5/mod.rs
@@ -90,7 +90,12 @@ impl AddressCommand for Rc5Command {
 
     fn create(addr: u32, cmd: u32) -> Option<Rc5Command> {
         let addr: u8 = addr.try_into().ok()?;
-        let cmd = cmd.try_into().ok()?;
+        let cmd: u8 = cmd.try_into().ok()?;
+
+        // 5 bits of address, 6 bits of command
+        if addr > 0x1F || cmd > 0x3F {
+            return None;
+        }
 
         Some(Rc5Command::new(addr, cmd, false))
     }
-- 
2.43.0


From c17f7033088cb24bc6b648abdc53b676656970fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:18 +0000
Subject: [PATCH 12/15] fix: nec, rc5: encode the end of the last pulse

The encoded frames stopped at the rising edge that starts the final pulse (the
stop pulse for Nec, the second half of a last one bit for Rc5), without saying
how long it is.
---
 src/protocol/nec/encoder.rs | 5 ++++-
 src/protocol/rc5/encoder.rs | 6 ++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/protocol/nec/encoder.rs b/src/protocol/nec/encoder.rs
index 858e080..96f3bb5 100644
--- a/src/protocol/nec/encoder.rs
+++ b/src/protocol/nec/encoder.rs
@@ -49,6 +49,9 @@ where
             bi += 2;
         }
 
-        bi
+        // The pulse that ends the last bit
+        b[bi] = <Self as ProtocolEncoder<F>>::DATA[3];
+
+        bi + 1
     }
 }
diff --git a/src/protocol/rc5/encoder.rs b/src/protocol/rc5/encoder.rs
index 4019414..ecc1c48 100644
--- a/src/protocol/rc5/encoder.rs
+++ b/src/protocol/rc5/encoder.rs
@@ -42,6 +42,12 @@ impl<const FREQ: u32> ProtocolEncoder<FREQ> for Rc5 {
             prev = cur;
         }
 
+        // A last bit that is one ends high
+        if prev {
+            buf[index] = rc5len;
+            index += 1;
+        }
+
         index
     }
 }
-- 
2.43.0


From b5ca4795885ce965038ac9df419928f4fb260b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:19 +0000
Subject: [PATCH 13/15] fix: sender: stop at the end of the loaded command

tick() ran through the whole buffer, not just the loaded part of it: the output
toggled on every tick before the first command was loaded and after each
command, or replayed the tail of an earlier and longer command.
---
 src/sender/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sender/buffer.rs b/src/sender/buffer.rs
index f24a0b9..0a05e06 100644
--- a/src/sender/buffer.rs
+++ b/src/sender/buffer.rs
@@ -23,7 +23,7 @@ impl<const S: usize> PulsedataBuffer<S> {
     }
 
     pub fn get(&self, index: usize) -> Option<u32> {
-        self.buf.get(index).cloned()
+        self.buffer().get(index).cloned()
     }
 
     pub fn buffer(&self) -> &[u32] {
-- 
2.43.0


From cf03f7d44df1d28d84c684f66119b82ea31d5c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:19 +0000
Subject: [PATCH 14/15] fix: encoders: calculate the pulse lengths without
 overflow or truncation

Nec and Rc5 rounded the frequency down to whole kHz first, making all pulses up
to 10% short at 10.9 kHz, and failed to build above 477 MHz. Rc6 failed to build
above 9.6 MHz.
---
 src/protocol/nec/encoder.rs | 12 ++----------
 src/protocol/rc5/encoder.rs | 12 ++----------
 src/protocol/rc6/encoder.rs |  2 +-
 3 files changed, 5 insertions(+), 21 deletions(-)

diff --git a/src/protocol/nec/encoder.rs b/src/protocol/nec/encoder.rs
index 96f3bb5..7a16065 100644
--- a/src/protocol/nec/encoder.rs
+++ b/src/protocol/nec/encoder.rs
@@ -3,16 +3,8 @@ use crate::{
     sender::ProtocolEncoder,
 };
 
-const fn calc_ticks(l: u32, mut f: u32) -> u32 {
-    //TODO: Fix overflow
-    let mut div = 1_000_000;
-
-    if f > 1000 {
-        f /= 1000;
-        div /= 1000;
-    }
-
-    f * l / div
+const fn calc_ticks(l: u32, f: u32) -> u32 {
+    (l as u64 * f as u64 / 1_000_000) as u32
 }
 
 impl<Cmd, const F: u32> ProtocolEncoder<F> for Nec<Cmd>
diff --git a/src/protocol/rc5/encoder.rs b/src/protocol/rc5/encoder.rs
index ecc1c48..39c01b9 100644
--- a/src/protocol/rc5/encoder.rs
+++ b/src/protocol/rc5/encoder.rs
@@ -1,15 +1,7 @@
 use crate::{protocol::Rc5, sender::ProtocolEncoder};
 
-//TODO: Check Overflow
-const fn calc_freq(mut f: u32) -> u32 {
-    let mut div = 1_000_000;
-
-    if f > 1000 {
-        f /= 1000;
-        div /= 1000;
-    }
-
-    (889 * f) / div
+const fn calc_freq(f: u32) -> u32 {
+    (889 * f as u64 / 1_000_000) as u32
 }
 
 impl<const FREQ: u32> ProtocolEncoder<FREQ> for Rc5 {
diff --git a/src/protocol/rc6/encoder.rs b/src/protocol/rc6/encoder.rs
index 2b40348..108943f 100644
--- a/src/protocol/rc6/encoder.rs
+++ b/src/protocol/rc6/encoder.rs
@@ -2,7 +2,7 @@ use crate::{protocol::Rc6, sender::ProtocolEncoder};
 
 impl<const F: u32> ProtocolEncoder<F> for Rc6 {
     type EncoderData = [u32; 1];
-    const DATA: Self::EncoderData = [((444 * F) / 1_000_000)];
+    const DATA: Self::EncoderData = [(444 * F as u64 / 1_000_000) as u32];
 
     fn encode(cmd: &Self::Cmd, b: &mut [u32]) -> usize {
         use Level::*;
-- 
2.43.0


From 47ced6f0fe2e4bdeba82766484fce4c454dbd35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:20 +0000
Subject: [PATCH 15/15] fix: fugit: do not overflow when converting the pulse
 lengths to ticks

u32 durations are converted with 32 bit arithmetic: with a frequency that has no
large factor in common with 1 MHz (such as 14.318180 MHz) creating a receiver
panics, or it never decodes anything.
---
 src/receiver/time/fgt.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/receiver/time/fgt.rs b/src/receiver/time/fgt.rs
index e0c2518..984a6df 100644
--- a/src/receiver/time/fgt.rs
+++ b/src/receiver/time/fgt.rs
@@ -1,4 +1,4 @@
-use fugit::{Duration, ExtU32, ExtU64, Instant};
+use fugit::{Duration, ExtU64, Instant};
 
 use crate::receiver::time::{InfraMonotonic, Span};
 
@@ -17,7 +17,9 @@ impl<const NOM: u32, const DENOM: u32> InfraMonotonic for Instant<u32, NOM, DENO
     }
 
     fn create_span(_freq: u32, p: u32, t: u32) -> Span<Self::Duration> {
-        Span::<Self::Duration>::new(p.micros(), t)
+        // 64 bits, the intermediate product might not fit in 32
+        let base: Duration<u64, NOM, DENOM> = u64::from(p).micros();
+        Span::<Self::Duration>::new(Self::Duration::from_ticks(base.ticks() as u32), t)
     }
 }
 
-- 
2.43.0

