From 0ad91867a3508cc1c0f5693475fa41ba4bfe0a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 01/12] fix: CONNECT encoding keeps bytes queued in the buffer
 intact

The index of the connect flags was counted from the start of the output
buffer instead of the start of the packet, and the returned length left
out the fixed header.
---
 src/v4/connect.rs | 4 ++--
 src/v5/connect.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/v4/connect.rs b/src/v4/connect.rs
index e92d700..a82d6bf 100644
--- a/src/v4/connect.rs
+++ b/src/v4/connect.rs
@@ -111,7 +111,7 @@ impl Connect {
             Protocol::V5 => buffer.put_u8(0x05),
         }
 
-        let flags_index = 1 + count + 2 + 4 + 1;
+        let flags_index = buffer.len();
 
         let mut connect_flags = 0;
         if self.clean_session {
@@ -132,7 +132,7 @@ impl Connect {
 
         // update connect flags
         buffer[flags_index] = connect_flags;
-        Ok(len)
+        Ok(1 + count + len)
     }
 }
 
diff --git a/src/v5/connect.rs b/src/v5/connect.rs
index c0f4397..75e97ba 100644
--- a/src/v5/connect.rs
+++ b/src/v5/connect.rs
@@ -133,7 +133,7 @@ impl Connect {
             Protocol::V5 => buffer.put_u8(0x05),
         }
 
-        let flags_index = 1 + count + 2 + 4 + 1;
+        let flags_index = buffer.len();
 
         let mut connect_flags = 0;
         if self.clean_session {
@@ -162,7 +162,7 @@ impl Connect {
 
         // update connect flags
         buffer[flags_index] = connect_flags;
-        Ok(len)
+        Ok(1 + count + len)
     }
 }
 
-- 
2.43.0


From bc1b7242b73f4875fc2b9583bedda22f9782b1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 02/12] fix: count the subscription identifier's property id
 once

The id byte is already part of the cursor. Counting it again ended the
property section one byte early and read the rest of it as payload or
filters.
---
 src/v5/publish.rs   | 2 +-
 src/v5/subscribe.rs | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/v5/publish.rs b/src/v5/publish.rs
index 166eb32..4d916f6 100644
--- a/src/v5/publish.rs
+++ b/src/v5/publish.rs
@@ -233,7 +233,7 @@ impl PublishProperties {
                 }
                 PropertyType::SubscriptionIdentifier => {
                     let (id_len, id) = length(bytes.iter())?;
-                    cursor += 1 + id_len;
+                    cursor += id_len;
                     bytes.advance(id_len);
                     subscription_identifiers.push(id);
                 }
diff --git a/src/v5/subscribe.rs b/src/v5/subscribe.rs
index 83f0664..94bf7c8 100644
--- a/src/v5/subscribe.rs
+++ b/src/v5/subscribe.rs
@@ -191,8 +191,7 @@ impl SubscribeProperties {
             match property(prop)? {
                 PropertyType::SubscriptionIdentifier => {
                     let (id_len, sub_id) = length(bytes.iter())?;
-                    // TODO: Validate 1 +. Tests are working either way
-                    cursor += 1 + id_len;
+                    cursor += id_len;
                     bytes.advance(id_len);
                     id = Some(sub_id)
                 }
-- 
2.43.0


From dc253ce0bd684797084971fbea7b4a54eaee7f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 03/12] fix: a complete v5 frame with a cut off property length
 is malformed

It was reported as InsufficientBytes after the frame had been removed
from the stream, which makes readers wait for bytes that never come.
---
 src/v5/disconnect.rs | 2 +-
 src/v5/mod.rs        | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/v5/disconnect.rs b/src/v5/disconnect.rs
index 4e12360..ae84466 100644
--- a/src/v5/disconnect.rs
+++ b/src/v5/disconnect.rs
@@ -4,7 +4,7 @@ use bytes::{BufMut, BytesMut};
 
 use crate::*;
 
-use super::{property, PropertyType};
+use super::{length, property, PropertyType};
 
 #[derive(Debug, Clone, Copy, PartialEq)]
 #[repr(u8)]
diff --git a/src/v5/mod.rs b/src/v5/mod.rs
index 28dcfbb..2bc4e38 100644
--- a/src/v5/mod.rs
+++ b/src/v5/mod.rs
@@ -114,6 +114,15 @@ fn property(num: u8) -> Result<PropertyType, Error> {
     Ok(property)
 }
 
+/// Parses a variable byte integer inside a frame. The whole frame is in the stream
+/// at this point, so running out of its bytes is not a reason to ask for more
+fn length(stream: Iter<u8>) -> Result<(usize, usize), Error> {
+    match crate::length(stream) {
+        Err(Error::InsufficientBytes(_)) => Err(Error::MalformedPacket),
+        result => result,
+    }
+}
+
 /// Reads a stream of bytes and extracts next MQTT packet out of it
 pub fn read(stream: &mut BytesMut, max_size: usize) -> Result<Packet, Error> {
     let fixed_header = check(stream.iter(), max_size)?;
-- 
2.43.0


From 756c7f01ed9fc538a3043b742dbb4ec6057eef34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 04/12] fix: v5 CONNACK without properties carries a property
 length

The property length isn't optional in CONNACK. Other decoders, and this
one, refused the packet.
---
 src/v5/connack.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/v5/connack.rs b/src/v5/connack.rs
index 36391f4..327a76d 100644
--- a/src/v5/connack.rs
+++ b/src/v5/connack.rs
@@ -56,6 +56,9 @@ impl ConnAck {
             let properties_len = properties.len();
             let properties_len_len = len_len(properties_len);
             len += properties_len_len + properties_len;
+        } else {
+            // just 1 byte representing 0 len
+            len += 1;
         }
 
         len
@@ -89,6 +92,8 @@ impl ConnAck {
 
         if let Some(properties) = &self.properties {
             properties.write(buffer)?;
+        } else {
+            write_remaining_length(buffer, 0)?;
         }
 
         Ok(1 + count + len)
-- 
2.43.0


From af015d5faa7ba8c66e57ef469ac1be52ed087368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 05/12] fix: v5 DISCONNECT survives its short forms

A DISCONNECT with no payload, or with just a reason code, is allowed by
the standard and emitted by this encoder, but was refused. An empty
property set made the encoder take the packet for the no payload form and
drop the reason code.
---
 src/v5/disconnect.rs | 14 +++++++++++---
 src/v5/mod.rs        |  5 +++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/v5/disconnect.rs b/src/v5/disconnect.rs
index ae84466..998347c 100644
--- a/src/v5/disconnect.rs
+++ b/src/v5/disconnect.rs
@@ -263,7 +263,7 @@ impl Disconnect {
         if self.reason_code == DisconnectReasonCode::NormalDisconnection
             && self.properties.is_none()
         {
-            return 2; // Packet type + 0x00
+            return 0;
         }
 
         let mut length = 0;
@@ -305,6 +305,14 @@ impl Disconnect {
 
         let reason_code = read_u8(&mut bytes)?;
 
+        // No properties len or properties if remaining len < 2
+        if fixed_header.remaining_len < 2 {
+            return Ok(Self {
+                reason_code: reason_code.try_into()?,
+                properties: None,
+            });
+        }
+
         let disconnect = Self {
             reason_code: reason_code.try_into()?,
             properties: DisconnectProperties::extract(&mut bytes)?,
@@ -318,10 +326,10 @@ impl Disconnect {
 
         let length = self.len();
 
-        if length == 2 {
+        if length == 0 {
             buffer.put_u8(0x00);
 
-            return Ok(length);
+            return Ok(2); // Packet type + 0x00
         }
 
         let len_len = write_remaining_length(buffer, length)?;
diff --git a/src/v5/mod.rs b/src/v5/mod.rs
index 2bc4e38..32bbc79 100644
--- a/src/v5/mod.rs
+++ b/src/v5/mod.rs
@@ -136,6 +136,11 @@ pub fn read(stream: &mut BytesMut, max_size: usize) -> Result<Packet, Error> {
         return match packet_type {
             PacketType::PingReq => Ok(Packet::PingReq),
             PacketType::PingResp => Ok(Packet::PingResp),
+            // reason code 0x00 and no properties
+            PacketType::Disconnect => Ok(Packet::Disconnect(Disconnect::read(
+                fixed_header,
+                packet.freeze(),
+            )?)),
             _ => Err(Error::PayloadRequired),
         };
     }
-- 
2.43.0


From a1a29c37b06a17cf0c17381bbb886a170c48c618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 06/12] fix: match topics that begin with a multi byte
 character

Slicing off the first byte panics when it isn't a whole character.
---
 src/topic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/topic.rs b/src/topic.rs
index ea76373..e740f7f 100644
--- a/src/topic.rs
+++ b/src/topic.rs
@@ -53,7 +53,7 @@ pub fn valid_filter(filter: &str) -> bool {
 /// **NOTE**: make sure a topic is validated during a publish and filter is validated
 /// during a subscribe
 pub fn matches(topic: &str, filter: &str) -> bool {
-    if !topic.is_empty() && topic[..1].contains('$') {
+    if topic.starts_with('$') {
         return false;
     }
 
-- 
2.43.0


From 7d2ebd8ac7ae855b1b85c6ab84f89e1f095fdc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 07/12] fix: don't print the packet id of every v5 UNSUBSCRIBE

The leftover dbg! writes to stderr, and panics when that isn't possible.
---
 src/v5/unsubscribe.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/v5/unsubscribe.rs b/src/v5/unsubscribe.rs
index 201b79a..e2e5b2c 100644
--- a/src/v5/unsubscribe.rs
+++ b/src/v5/unsubscribe.rs
@@ -42,7 +42,6 @@ impl Unsubscribe {
         bytes.advance(variable_header_index);
 
         let pkid = read_u16(&mut bytes)?;
-        dbg!(pkid);
         let properties = UnsubscribeProperties::extract(&mut bytes)?;
 
         let mut filters = Vec::with_capacity(1);
-- 
2.43.0


From 2abb3bfa95b6313397f8a6a8635a0043f52bb672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 08/12] fix: keep v5 properties inside their section

The last property of a section could reach past the announced property
length, into the client id, payload, filters or reason codes.
---
 src/v5/connack.rs     |  1 +
 src/v5/connect.rs     |  2 ++
 src/v5/disconnect.rs  |  3 ++-
 src/v5/mod.rs         | 10 ++++++++++
 src/v5/puback.rs      |  1 +
 src/v5/pubcomp.rs     |  1 +
 src/v5/publish.rs     |  1 +
 src/v5/pubrec.rs      |  1 +
 src/v5/pubrel.rs      |  1 +
 src/v5/suback.rs      |  1 +
 src/v5/subscribe.rs   |  1 +
 src/v5/unsuback.rs    |  1 +
 src/v5/unsubscribe.rs |  1 +
 13 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/v5/connack.rs b/src/v5/connack.rs
index 327a76d..c167004 100644
--- a/src/v5/connack.rs
+++ b/src/v5/connack.rs
@@ -242,6 +242,7 @@ impl ConnAckProperties {
         if properties_len == 0 {
             return Ok(None);
         }
+        let mut bytes = &mut read_properties(bytes, properties_len)?;
 
         let mut cursor = 0;
         // read until cursor reaches property length. properties_len = 0 will skip this loop
diff --git a/src/v5/connect.rs b/src/v5/connect.rs
index 75e97ba..4dd84de 100644
--- a/src/v5/connect.rs
+++ b/src/v5/connect.rs
@@ -318,6 +318,7 @@ impl WillProperties {
         if properties_len == 0 {
             return Ok(None);
         }
+        let mut bytes = &mut read_properties(bytes, properties_len)?;
 
         let mut cursor = 0;
         // read until cursor reaches property length. properties_len = 0 will skip this loop
@@ -531,6 +532,7 @@ impl ConnectProperties {
         if properties_len == 0 {
             return Ok(None);
         }
+        let mut bytes = &mut read_properties(bytes, properties_len)?;
 
         let mut cursor = 0;
         // read until cursor reaches property length. properties_len = 0 will skip this loop
diff --git a/src/v5/disconnect.rs b/src/v5/disconnect.rs
index 998347c..37ea268 100644
--- a/src/v5/disconnect.rs
+++ b/src/v5/disconnect.rs
@@ -4,7 +4,7 @@ use bytes::{BufMut, BytesMut};
 
 use crate::*;
 
-use super::{length, property, PropertyType};
+use super::{length, property, read_properties, PropertyType};
 
 #[derive(Debug, Clone, Copy, PartialEq)]
 #[repr(u8)]
@@ -174,6 +174,7 @@ impl DisconnectProperties {
         if properties_len == 0 {
             return Ok(None);
         }
+        let mut bytes = &mut read_properties(bytes, properties_len)?;
 
         let mut session_expiry_interval = None;
         let mut reason_string = None;
diff --git a/src/v5/mod.rs b/src/v5/mod.rs
index 32bbc79..be71f32 100644
--- a/src/v5/mod.rs
+++ b/src/v5/mod.rs
@@ -123,6 +123,16 @@ fn length(stream: Iter<u8>) -> Result<(usize, usize), Error> {
     }
 }
 
+/// Splits a property section off a frame, so that its last property can't reach
+/// into the fields behind it
+fn read_properties(bytes: &mut Bytes, len: usize) -> Result<Bytes, Error> {
+    if len > bytes.len() {
+        return Err(Error::BoundaryCrossed(len));
+    }
+
+    Ok(bytes.split_to(len))
+}
+
 /// Reads a stream of bytes and extracts next MQTT packet out of it
 pub fn read(stream: &mut BytesMut, max_size: usize) -> Result<Packet, Error> {
     let fixed_header = check(stream.iter(), max_size)?;
diff --git a/src/v5/puback.rs b/src/v5/puback.rs
index 5113194..eb19832 100644
--- a/src/v5/puback.rs
+++ b/src/v5/puback.rs
@@ -137,6 +137,7 @@ impl PubAckProperties {
         if properties_len == 0 {
             return Ok(None);
         }
+        let mut bytes = &mut read_properties(bytes, properties_len)?;
 
         let mut cursor = 0;
         // read until cursor reaches property length. properties_len = 0 will skip this loop
diff --git a/src/v5/pubcomp.rs b/src/v5/pubcomp.rs
index 73c019a..1afe90e 100644
--- a/src/v5/pubcomp.rs
+++ b/src/v5/pubcomp.rs
@@ -125,6 +125,7 @@ impl PubCompProperties {
         if properties_len == 0 {
             return Ok(None);
         }
+        let mut bytes = &mut read_properties(bytes, properties_len)?;
 
         let mut cursor = 0;
         // read until cursor reaches property length. properties_len = 0 will skip this loop
diff --git a/src/v5/publish.rs b/src/v5/publish.rs
index 4d916f6..aab861b 100644
--- a/src/v5/publish.rs
+++ b/src/v5/publish.rs
@@ -195,6 +195,7 @@ impl PublishProperties {
         if properties_len == 0 {
             return Ok(None);
         }
+        let mut bytes = &mut read_properties(bytes, properties_len)?;
 
         let mut cursor = 0;
         // read until cursor reaches property length. properties_len = 0 will skip this loop
diff --git a/src/v5/pubrec.rs b/src/v5/pubrec.rs
index a9b0ba0..57a0aa2 100644
--- a/src/v5/pubrec.rs
+++ b/src/v5/pubrec.rs
@@ -133,6 +133,7 @@ impl PubRecProperties {
         if properties_len == 0 {
             return Ok(None);
         }
+        let mut bytes = &mut read_properties(bytes, properties_len)?;
 
         let mut cursor = 0;
         // read until cursor reaches property length. properties_len = 0 will skip this loop
diff --git a/src/v5/pubrel.rs b/src/v5/pubrel.rs
index e18b465..20056de 100644
--- a/src/v5/pubrel.rs
+++ b/src/v5/pubrel.rs
@@ -124,6 +124,7 @@ impl PubRelProperties {
         if properties_len == 0 {
             return Ok(None);
         }
+        let mut bytes = &mut read_properties(bytes, properties_len)?;
 
         let mut cursor = 0;
         // read until cursor reaches property length. properties_len = 0 will skip this loop
diff --git a/src/v5/suback.rs b/src/v5/suback.rs
index 1c8d541..71834a7 100644
--- a/src/v5/suback.rs
+++ b/src/v5/suback.rs
@@ -114,6 +114,7 @@ impl SubAckProperties {
         if properties_len == 0 {
             return Ok(None);
         }
+        let mut bytes = &mut read_properties(bytes, properties_len)?;
 
         let mut cursor = 0;
         // read until cursor reaches property length. properties_len = 0 will skip this loop
diff --git a/src/v5/subscribe.rs b/src/v5/subscribe.rs
index 94bf7c8..275fdc9 100644
--- a/src/v5/subscribe.rs
+++ b/src/v5/subscribe.rs
@@ -181,6 +181,7 @@ impl SubscribeProperties {
         if properties_len == 0 {
             return Ok(None);
         }
+        let mut bytes = &mut read_properties(bytes, properties_len)?;
 
         let mut cursor = 0;
         // read until cursor reaches property length. properties_len = 0 will skip this loop
diff --git a/src/v5/unsuback.rs b/src/v5/unsuback.rs
index 83e7f0d..1c841ef 100644
--- a/src/v5/unsuback.rs
+++ b/src/v5/unsuback.rs
@@ -125,6 +125,7 @@ impl UnsubAckProperties {
         if properties_len == 0 {
             return Ok(None);
         }
+        let mut bytes = &mut read_properties(bytes, properties_len)?;
 
         let mut cursor = 0;
         // read until cursor reaches property length. properties_len = 0 will skip this loop
diff --git a/src/v5/unsubscribe.rs b/src/v5/unsubscribe.rs
index e2e5b2c..d4d846d 100644
--- a/src/v5/unsubscribe.rs
+++ b/src/v5/unsubscribe.rs
@@ -109,6 +109,7 @@ impl UnsubscribeProperties {
         if properties_len == 0 {
             return Ok(None);
         }
+        let mut bytes = &mut read_properties(bytes, properties_len)?;
 
         let mut cursor = 0;
         // read until cursor reaches property length. properties_len = 0 will skip this loop
-- 
2.43.0


From afae5b4a5762a2923a4a3f02f8afa79b30cbe3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 09/12] fix: a v5::Connect for MQTT 3.1.1 has no properties on
 the wire

A level 4 CONNECT was encoded with v5 property lengths, and one with a
will was decoded as if the will had properties.
---
 src/v5/connect.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/v5/connect.rs b/src/v5/connect.rs
index 4dd84de..f179f81 100644
--- a/src/v5/connect.rs
+++ b/src/v5/connect.rs
@@ -52,6 +52,8 @@ impl Connect {
                               + 2; // keep alive
 
         match &self.properties {
+            // there are no properties before v5
+            _ if self.protocol == Protocol::V4 => {}
             Some(properties) => {
                 let properties_len = properties.len();
                 let properties_len_len = len_len(properties_len);
@@ -67,7 +69,7 @@ impl Connect {
 
         // last will len
         if let Some(last_will) = &self.last_will {
-            len += last_will.len();
+            len += last_will.len(self.protocol);
         }
 
         // username and password len
@@ -106,7 +108,7 @@ impl Connect {
         };
 
         let client_id = read_mqtt_string(&mut bytes)?;
-        let last_will = LastWill::read(connect_flags, &mut bytes)?;
+        let last_will = LastWill::read(protocol, connect_flags, &mut bytes)?;
         let login = Login::read(connect_flags, &mut bytes)?;
 
         let connect = Connect {
@@ -144,6 +146,7 @@ impl Connect {
         buffer.put_u16(self.keep_alive);
 
         match &self.properties {
+            _ if self.protocol == Protocol::V4 => {}
             Some(properties) => properties.write(buffer)?,
             None => {
                 write_remaining_length(buffer, 0)?;
@@ -153,7 +156,7 @@ impl Connect {
         write_mqtt_string(buffer, &self.client_id);
 
         if let Some(last_will) = &self.last_will {
-            connect_flags |= last_will.write(buffer)?;
+            connect_flags |= last_will.write(self.protocol, buffer)?;
         }
 
         if let Some(login) = &self.login {
@@ -192,10 +195,11 @@ impl LastWill {
         }
     }
 
-    fn len(&self) -> usize {
+    fn len(&self, protocol: Protocol) -> usize {
         let mut len = 0;
 
         match &self.properties {
+            _ if protocol == Protocol::V4 => {}
             Some(properties) => {
                 let properties_len = properties.len();
                 let properties_len_len = len_len(properties_len);
@@ -211,7 +215,11 @@ impl LastWill {
         len
     }
 
-    fn read(connect_flags: u8, mut bytes: &mut Bytes) -> Result<Option<LastWill>, Error> {
+    fn read(
+        protocol: Protocol,
+        connect_flags: u8,
+        mut bytes: &mut Bytes,
+    ) -> Result<Option<LastWill>, Error> {
         let last_will = match connect_flags & 0b100 {
             0 if (connect_flags & 0b0011_1000) != 0 => {
                 return Err(Error::IncorrectPacketFormat);
@@ -219,7 +227,10 @@ impl LastWill {
             0 => None,
             _ => {
                 // Properties in variable header
-                let properties = WillProperties::read(&mut bytes)?;
+                let properties = match protocol {
+                    Protocol::V5 => WillProperties::read(&mut bytes)?,
+                    Protocol::V4 => None,
+                };
 
                 let will_topic = read_mqtt_string(&mut bytes)?;
                 let will_message = read_mqtt_bytes(&mut bytes)?;
@@ -237,7 +248,7 @@ impl LastWill {
         Ok(last_will)
     }
 
-    fn write(&self, buffer: &mut BytesMut) -> Result<u8, Error> {
+    fn write(&self, protocol: Protocol, buffer: &mut BytesMut) -> Result<u8, Error> {
         let mut connect_flags = 0;
 
         connect_flags |= 0x04 | (self.qos as u8) << 3;
@@ -246,6 +257,7 @@ impl LastWill {
         }
 
         match &self.properties {
+            _ if protocol == Protocol::V4 => {}
             Some(properties) => properties.write(buffer)?,
             None => {
                 write_remaining_length(buffer, 0)?;
-- 
2.43.0


From d8d39ec7a3ecf7fc3626a2f90343eaae88fc9c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 10/12] fix: a packet that is refused leaves nothing in the
 output buffer

Publishes with packet id zero and packets with lengths or subscription
identifiers above 268435455 were refused after part of them had been
written. That part corrupted the stream for the packets behind it.
---
 src/lib.rs            | 10 ++++++++++
 src/v4/connect.rs     |  1 +
 src/v4/publish.rs     | 12 ++++++------
 src/v4/suback.rs      |  1 +
 src/v4/subscribe.rs   |  2 ++
 src/v4/unsubscribe.rs |  1 +
 src/v5/connack.rs     |  1 +
 src/v5/connect.rs     |  1 +
 src/v5/disconnect.rs  |  1 +
 src/v5/puback.rs      |  1 +
 src/v5/pubcomp.rs     |  1 +
 src/v5/publish.rs     | 18 ++++++++++++------
 src/v5/pubrec.rs      |  1 +
 src/v5/pubrel.rs      |  1 +
 src/v5/suback.rs      |  1 +
 src/v5/subscribe.rs   |  5 +++++
 src/v5/unsuback.rs    |  1 +
 src/v5/unsubscribe.rs |  1 +
 18 files changed, 48 insertions(+), 12 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2c046a3..887268e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -259,6 +259,16 @@ fn write_mqtt_string(stream: &mut BytesMut, string: &str) {
     write_mqtt_bytes(stream, string.as_bytes());
 }
 
+/// Refuses lengths (and subscription identifiers) that can't be encoded. Packets check
+/// before they write anything, so that a refused packet leaves no bytes behind
+fn check_length(len: usize) -> Result<(), Error> {
+    if len > 268_435_455 {
+        return Err(Error::PayloadTooLong);
+    }
+
+    Ok(())
+}
+
 /// Writes remaining length to stream and returns number of bytes for remaining length
 fn write_remaining_length(stream: &mut BytesMut, len: usize) -> Result<usize, Error> {
     if len > 268_435_455 {
diff --git a/src/v4/connect.rs b/src/v4/connect.rs
index a82d6bf..f001dc3 100644
--- a/src/v4/connect.rs
+++ b/src/v4/connect.rs
@@ -102,6 +102,7 @@ impl Connect {
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
+        check_length(len)?;
         buffer.put_u8(0b0001_0000);
         let count = write_remaining_length(buffer, len)?;
         write_mqtt_string(buffer, "MQTT");
diff --git a/src/v4/publish.rs b/src/v4/publish.rs
index 0f49531..954c496 100644
--- a/src/v4/publish.rs
+++ b/src/v4/publish.rs
@@ -80,7 +80,12 @@ impl Publish {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        if self.qos != QoS::AtMostOnce && self.pkid == 0 {
+            return Err(Error::PacketIdZero);
+        }
+
         let len = self.len();
+        check_length(len)?;
 
         let dup = self.dup as u8;
         let qos = self.qos as u8;
@@ -91,12 +96,7 @@ impl Publish {
         write_mqtt_string(buffer, self.topic.as_str());
 
         if self.qos != QoS::AtMostOnce {
-            let pkid = self.pkid;
-            if pkid == 0 {
-                return Err(Error::PacketIdZero);
-            }
-
-            buffer.put_u16(pkid);
+            buffer.put_u16(self.pkid);
         }
 
         buffer.extend_from_slice(&self.payload);
diff --git a/src/v4/suback.rs b/src/v4/suback.rs
index 198d6a9..eb5d5a3 100644
--- a/src/v4/suback.rs
+++ b/src/v4/suback.rs
@@ -40,6 +40,7 @@ impl SubAck {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        check_length(self.len())?;
         buffer.put_u8(0x90);
         let remaining_len = self.len();
         let remaining_len_bytes = write_remaining_length(buffer, remaining_len)?;
diff --git a/src/v4/subscribe.rs b/src/v4/subscribe.rs
index 3bb386d..1e89666 100644
--- a/src/v4/subscribe.rs
+++ b/src/v4/subscribe.rs
@@ -75,6 +75,8 @@ impl Subscribe {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        check_length(self.len())?;
+
         // write packet type
         buffer.put_u8(0x82);
 
diff --git a/src/v4/unsubscribe.rs b/src/v4/unsubscribe.rs
index 9c32cc5..268c40f 100644
--- a/src/v4/unsubscribe.rs
+++ b/src/v4/unsubscribe.rs
@@ -42,6 +42,7 @@ impl Unsubscribe {
             .iter()
             .fold(0, |s, ref topic| s + topic.len() + 2);
 
+        check_length(remaining_len)?;
         payload.put_u8(0xA2);
         let remaining_len_bytes = write_remaining_length(payload, remaining_len)?;
         payload.put_u16(self.pkid);
diff --git a/src/v5/connack.rs b/src/v5/connack.rs
index c167004..5803940 100644
--- a/src/v5/connack.rs
+++ b/src/v5/connack.rs
@@ -84,6 +84,7 @@ impl ConnAck {
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
+        check_length(len)?;
         buffer.put_u8(0x20);
 
         let count = write_remaining_length(buffer, len)?;
diff --git a/src/v5/connect.rs b/src/v5/connect.rs
index f179f81..d72566c 100644
--- a/src/v5/connect.rs
+++ b/src/v5/connect.rs
@@ -126,6 +126,7 @@ impl Connect {
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
+        check_length(len)?;
         buffer.put_u8(0b0001_0000);
         let count = write_remaining_length(buffer, len)?;
         write_mqtt_string(buffer, "MQTT");
diff --git a/src/v5/disconnect.rs b/src/v5/disconnect.rs
index 37ea268..4937ee0 100644
--- a/src/v5/disconnect.rs
+++ b/src/v5/disconnect.rs
@@ -323,6 +323,7 @@ impl Disconnect {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        check_length(self.len())?;
         buffer.put_u8(0xE0);
 
         let length = self.len();
diff --git a/src/v5/puback.rs b/src/v5/puback.rs
index eb19832..4d2c91b 100644
--- a/src/v5/puback.rs
+++ b/src/v5/puback.rs
@@ -88,6 +88,7 @@ impl PubAck {
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
+        check_length(len)?;
         buffer.put_u8(0x40);
 
         let count = write_remaining_length(buffer, len)?;
diff --git a/src/v5/pubcomp.rs b/src/v5/pubcomp.rs
index 1afe90e..d5e95e2 100644
--- a/src/v5/pubcomp.rs
+++ b/src/v5/pubcomp.rs
@@ -76,6 +76,7 @@ impl PubComp {
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
+        check_length(len)?;
         buffer.put_u8(0x70);
         let count = write_remaining_length(buffer, len)?;
         buffer.put_u16(self.pkid);
diff --git a/src/v5/publish.rs b/src/v5/publish.rs
index aab861b..575a416 100644
--- a/src/v5/publish.rs
+++ b/src/v5/publish.rs
@@ -96,7 +96,18 @@ impl Publish {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        if self.qos != QoS::AtMostOnce && self.pkid == 0 {
+            return Err(Error::PacketIdZero);
+        }
+
+        if let Some(properties) = &self.properties {
+            for id in properties.subscription_identifiers.iter() {
+                check_length(*id)?;
+            }
+        }
+
         let len = self.len();
+        check_length(len)?;
 
         let dup = self.dup as u8;
         let qos = self.qos as u8;
@@ -107,12 +118,7 @@ impl Publish {
         write_mqtt_string(buffer, self.topic.as_str());
 
         if self.qos != QoS::AtMostOnce {
-            let pkid = self.pkid;
-            if pkid == 0 {
-                return Err(Error::PacketIdZero);
-            }
-
-            buffer.put_u16(pkid);
+            buffer.put_u16(self.pkid);
         }
 
         match &self.properties {
diff --git a/src/v5/pubrec.rs b/src/v5/pubrec.rs
index 57a0aa2..2dc9b61 100644
--- a/src/v5/pubrec.rs
+++ b/src/v5/pubrec.rs
@@ -84,6 +84,7 @@ impl PubRec {
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
+        check_length(len)?;
         buffer.put_u8(0x50);
         let count = write_remaining_length(buffer, len)?;
         buffer.put_u16(self.pkid);
diff --git a/src/v5/pubrel.rs b/src/v5/pubrel.rs
index 20056de..7f01024 100644
--- a/src/v5/pubrel.rs
+++ b/src/v5/pubrel.rs
@@ -75,6 +75,7 @@ impl PubRel {
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
+        check_length(len)?;
         buffer.put_u8(0x62);
         let count = write_remaining_length(buffer, len)?;
         buffer.put_u16(self.pkid);
diff --git a/src/v5/suback.rs b/src/v5/suback.rs
index 71834a7..77500bf 100644
--- a/src/v5/suback.rs
+++ b/src/v5/suback.rs
@@ -65,6 +65,7 @@ impl SubAck {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        check_length(self.len())?;
         buffer.put_u8(0x90);
         let remaining_len = self.len();
         let remaining_len_bytes = write_remaining_length(buffer, remaining_len)?;
diff --git a/src/v5/subscribe.rs b/src/v5/subscribe.rs
index 275fdc9..e861f6f 100644
--- a/src/v5/subscribe.rs
+++ b/src/v5/subscribe.rs
@@ -124,6 +124,11 @@ impl Subscribe {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        check_length(self.len())?;
+        if let Some(SubscribeProperties { id: Some(id), .. }) = &self.properties {
+            check_length(*id)?;
+        }
+
         // write packet type
         buffer.put_u8(0x82);
 
diff --git a/src/v5/unsuback.rs b/src/v5/unsuback.rs
index 1c841ef..d47b342 100644
--- a/src/v5/unsuback.rs
+++ b/src/v5/unsuback.rs
@@ -76,6 +76,7 @@ impl UnsubAck {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        check_length(self.len())?;
         buffer.put_u8(0xB0);
         let remaining_len = self.len();
         let remaining_len_bytes = write_remaining_length(buffer, remaining_len)?;
diff --git a/src/v5/unsubscribe.rs b/src/v5/unsubscribe.rs
index d4d846d..f463a1c 100644
--- a/src/v5/unsubscribe.rs
+++ b/src/v5/unsubscribe.rs
@@ -59,6 +59,7 @@ impl Unsubscribe {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        check_length(self.len())?;
         buffer.put_u8(0xA2);
 
         // write remaining length
-- 
2.43.0


From 233a924ef0c19d743a6dfe36f69672283e495d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 11/12] fix: '+' is only valid as a whole level of a filter

---
 src/topic.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/topic.rs b/src/topic.rs
index e740f7f..52e0390 100644
--- a/src/topic.rs
+++ b/src/topic.rs
@@ -27,6 +27,14 @@ pub fn valid_filter(filter: &str) -> bool {
     }
 
     let hirerarchy = filter.split('/').collect::<Vec<&str>>();
+    // + must occupy an entire level
+    // invalid: sport+
+    for entry in hirerarchy.iter() {
+        if entry.len() != 1 && entry.contains('+') {
+            return false;
+        }
+    }
+
     if let Some((last, remaining)) = hirerarchy.split_last() {
         // # is not allowed in filer except as a last entry
         // invalid: sport/tennis#/player
-- 
2.43.0


From 8fbfd7e80ee9acfc336ed3c177ba8131542a6abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:15 +0000
Subject: [PATCH 12/12] fix: refuse SUBSCRIBE and UNSUBSCRIBE packets without a
 filter

MQTT-3.8.3-3 and MQTT-3.10.3-2 require at least one; the 3.1.1 SUBSCRIBE reader
already refused them.
---
 src/v4/unsubscribe.rs |  6 ++++--
 src/v5/subscribe.rs   | 15 ++++++++-------
 src/v5/unsubscribe.rs | 14 ++++++++------
 3 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/v4/unsubscribe.rs b/src/v4/unsubscribe.rs
index 268c40f..04c5957 100644
--- a/src/v4/unsubscribe.rs
+++ b/src/v4/unsubscribe.rs
@@ -32,8 +32,10 @@ impl Unsubscribe {
             topics.push(topic_filter);
         }
 
-        let unsubscribe = Unsubscribe { pkid, topics };
-        Ok(unsubscribe)
+        match topics.len() {
+            0 => Err(Error::EmptySubscription),
+            _ => Ok(Unsubscribe { pkid, topics }),
+        }
     }
 
     pub fn write(&self, payload: &mut BytesMut) -> Result<usize, Error> {
diff --git a/src/v5/subscribe.rs b/src/v5/subscribe.rs
index e861f6f..deb7b3d 100644
--- a/src/v5/subscribe.rs
+++ b/src/v5/subscribe.rs
@@ -114,13 +114,14 @@ impl Subscribe {
             });
         }
 
-        let subscribe = Subscribe {
-            pkid,
-            filters,
-            properties,
-        };
-
-        Ok(subscribe)
+        match filters.len() {
+            0 => Err(Error::EmptySubscription),
+            _ => Ok(Subscribe {
+                pkid,
+                filters,
+                properties,
+            }),
+        }
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
diff --git a/src/v5/unsubscribe.rs b/src/v5/unsubscribe.rs
index f463a1c..fe6d29e 100644
--- a/src/v5/unsubscribe.rs
+++ b/src/v5/unsubscribe.rs
@@ -50,12 +50,14 @@ impl Unsubscribe {
             filters.push(filter);
         }
 
-        let unsubscribe = Unsubscribe {
-            pkid,
-            filters,
-            properties,
-        };
-        Ok(unsubscribe)
+        match filters.len() {
+            0 => Err(Error::EmptySubscription),
+            _ => Ok(Unsubscribe {
+                pkid,
+                filters,
+                properties,
+            }),
+        }
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
-- 
2.43.0

