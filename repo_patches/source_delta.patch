From 6f55b67c5532f6ae4c6151bbb429d5f1b5f18c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 1/9] fix: write the CONNECT flags into the packet, not at a
 fixed index of the buffer

---
 src/connect.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connect.rs b/src/connect.rs
index 0cfe773..aaaea01 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -97,12 +97,13 @@ impl Connect {
     ) -> Result<usize, Error> {
         let len = self.len(will, l);
 
+        let start = buffer.len();
         buffer.put_u8(0b0001_0000);
         let count = write_remaining_length(buffer, len)?;
         write_mqtt_string(buffer, &mqtt_string_new("MQTT"))?;
 
         buffer.put_u8(0x05);
-        let flags_index = 1 + count + 2 + 4 + 1;
+        let flags_index = start + 1 + count + 2 + 4 + 1;
 
         let mut connect_flags = 0;
         if self.clean_start {
-- 
2.43.0


From eab8b16462fb93bb6bb7939a2ce8b0a200fd602c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 2/9] fix: count a subscription identifier property with its
 own size

---
 src/publish.rs   | 2 +-
 src/subscribe.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/publish.rs b/src/publish.rs
index 1536467..2576c96 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -231,7 +231,7 @@ impl PublishProperties {
                 }
                 PropertyType::SubscriptionIdentifier => {
                     let (id_len, id) = length(bytes.iter())?;
-                    cursor += 1 + id_len;
+                    cursor += id_len;
                     bytes.advance(id_len);
                     subscription_identifiers.push(id);
                 }
diff --git a/src/subscribe.rs b/src/subscribe.rs
index 7c25bb5..ec8f7cf 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -242,7 +242,7 @@ impl SubscribeProperties {
                 PropertyType::SubscriptionIdentifier => {
                     let (id_len, sub_id) = length(bytes.iter())?;
                     // TODO: Validate 1 +. Tests are working either way
-                    cursor += 1 + id_len;
+                    cursor += id_len;
                     bytes.advance(id_len);
                     id = Some(sub_id);
                 }
-- 
2.43.0


From b53427f289de13de25b447d8d08caf0b3d594289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 3/9] fix: return an error instead of panicking on a CONNACK
 code that MQTT 5 does not have

---
 src/connack.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/connack.rs b/src/connack.rs
index f9ace21..4d1e9f5 100644
--- a/src/connack.rs
+++ b/src/connack.rs
@@ -94,7 +94,7 @@ impl ConnAck {
 
         let count = write_remaining_length(buffer, len)?;
         buffer.put_u8(u8::from(self.session_present));
-        buffer.put_u8(connect_code(self.code));
+        buffer.put_u8(connect_code(self.code)?);
 
         if let Some(p) = &self.properties {
             p.write(buffer)?;
@@ -466,8 +466,8 @@ fn connect_return(num: u8) -> Result<ConnectReturnCode, Error> {
     Ok(code)
 }
 
-fn connect_code(return_code: ConnectReturnCode) -> u8 {
-    match return_code {
+fn connect_code(return_code: ConnectReturnCode) -> Result<u8, Error> {
+    let code = match return_code {
         ConnectReturnCode::Success => 0,
         ConnectReturnCode::UnspecifiedError => 128,
         ConnectReturnCode::MalformedPacket => 129,
@@ -490,8 +490,15 @@ fn connect_code(return_code: ConnectReturnCode) -> u8 {
         ConnectReturnCode::UseAnotherServer => 156,
         ConnectReturnCode::ServerMoved => 157,
         ConnectReturnCode::ConnectionRateExceeded => 159,
-        _ => unreachable!(),
-    }
+        // MQTT 3.1.1 return codes, which do not exist in MQTT 5
+        ConnectReturnCode::RefusedProtocolVersion => {
+            return Err(Error::InvalidConnectReturnCode(1))
+        }
+        ConnectReturnCode::BadClientId => return Err(Error::InvalidConnectReturnCode(2)),
+        ConnectReturnCode::ServiceUnavailable => return Err(Error::InvalidConnectReturnCode(3)),
+    };
+
+    Ok(code)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 91368faadd36f0be0718978879319e2dcc6719e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 4/9] fix: do not ask for more bytes when a complete frame
 lacks its property length

---
 src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7c80fe6..9973d5c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -428,15 +428,25 @@ pub(crate) fn parse_fixed_header(mut stream: Iter<u8>) -> Result<FixedHeader, Er
     }
 
     let byte1 = stream.next().unwrap();
-    let (len_len, len) = length(stream)?;
+    let (len_len, len) = variable_byte_integer(stream)?;
 
     Ok(FixedHeader::new(*byte1, len_len, len))
 }
 
+/// Parses variable byte integer inside of a complete frame. Used for calculating
+/// property lengths. More bytes in the stream can't complete it if the frame ends
+/// inside of it
+fn length(stream: Iter<u8>) -> Result<(usize, usize), Error> {
+    variable_byte_integer(stream).map_err(|e| match e {
+        Error::InsufficientBytes(_) => Error::MalformedPacket,
+        e => e,
+    })
+}
+
 /// Parses variable byte integer in the stream and returns the length
 /// and number of bytes that make it. Used for remaining length calculation
 /// as well as for calculating property lengths
-fn length(stream: Iter<u8>) -> Result<(usize, usize), Error> {
+fn variable_byte_integer(stream: Iter<u8>) -> Result<(usize, usize), Error> {
     let mut len: usize = 0;
     let mut len_len = 0;
     let mut done = false;
-- 
2.43.0


From 0289445d70bfc286069685ea5ea99c9460717e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 5/9] fix: reject a property that runs past the end of its
 property section

---
 src/connack.rs     | 4 ++++
 src/connect.rs     | 8 ++++++++
 src/disconnect.rs  | 4 ++++
 src/puback.rs      | 4 ++++
 src/pubcomp.rs     | 4 ++++
 src/publish.rs     | 4 ++++
 src/pubrec.rs      | 4 ++++
 src/pubrel.rs      | 4 ++++
 src/suback.rs      | 4 ++++
 src/subscribe.rs   | 4 ++++
 src/unsuback.rs    | 4 ++++
 src/unsubscribe.rs | 4 ++++
 12 files changed, 52 insertions(+)

diff --git a/src/connack.rs b/src/connack.rs
index 4d1e9f5..0b9bff1 100644
--- a/src/connack.rs
+++ b/src/connack.rs
@@ -320,6 +320,10 @@ impl ConnAckProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(ConnAckProperties {
             session_expiry_interval,
             receive_max,
diff --git a/src/connect.rs b/src/connect.rs
index aaaea01..14b065f 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -239,6 +239,10 @@ impl ConnectProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(ConnectProperties {
             session_expiry_interval,
             receive_maximum,
@@ -533,6 +537,10 @@ impl LastWillProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(LastWillProperties {
             delay_interval,
             payload_format_indicator,
diff --git a/src/disconnect.rs b/src/disconnect.rs
index 7931da4..e0c1855 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -208,6 +208,10 @@ impl DisconnectProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         let properties = Self {
             session_expiry_interval,
             reason_string,
diff --git a/src/puback.rs b/src/puback.rs
index bb7902f..e9ecfc4 100644
--- a/src/puback.rs
+++ b/src/puback.rs
@@ -179,6 +179,10 @@ impl PubAckProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/pubcomp.rs b/src/pubcomp.rs
index d3cc6f1..b51ab8a 100644
--- a/src/pubcomp.rs
+++ b/src/pubcomp.rs
@@ -172,6 +172,10 @@ impl PubCompProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubCompProperties {
             reason_string,
             user_properties,
diff --git a/src/publish.rs b/src/publish.rs
index 2576c96..442e652 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -244,6 +244,10 @@ impl PublishProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PublishProperties {
             payload_format_indicator,
             message_expiry_interval,
diff --git a/src/pubrec.rs b/src/pubrec.rs
index 888a5af..7067cf1 100644
--- a/src/pubrec.rs
+++ b/src/pubrec.rs
@@ -174,6 +174,10 @@ impl PubRecProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubRecProperties {
             reason_string,
             user_properties,
diff --git a/src/pubrel.rs b/src/pubrel.rs
index 70c4065..4d37300 100644
--- a/src/pubrel.rs
+++ b/src/pubrel.rs
@@ -173,6 +173,10 @@ impl PubRelProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubRelProperties {
             reason_string,
             user_properties,
diff --git a/src/suback.rs b/src/suback.rs
index 8319041..f754c66 100644
--- a/src/suback.rs
+++ b/src/suback.rs
@@ -151,6 +151,10 @@ impl SubAckProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(SubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/subscribe.rs b/src/subscribe.rs
index ec8f7cf..1f9c41c 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -256,6 +256,10 @@ impl SubscribeProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(SubscribeProperties {
             id,
             user_properties,
diff --git a/src/unsuback.rs b/src/unsuback.rs
index 76a7bbc..6fa375f 100644
--- a/src/unsuback.rs
+++ b/src/unsuback.rs
@@ -148,6 +148,10 @@ impl UnsubAckProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(UnsubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index cef2250..5027fce 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -137,6 +137,10 @@ impl UnsubscribeProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(UnsubscribeProperties { user_properties }))
     }
 
-- 
2.43.0


From 85aaa53245a23cfacdff7fbaf9bd44ddbdf37b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 6/9] fix: leave the buffer as it was when a packet can not be
 encoded

---
 src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9973d5c..4ef10bb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -216,7 +216,8 @@ impl Packet {
     }
 
     pub fn write(&self, write: &mut BytesMut) -> Result<usize, Error> {
-        match self {
+        let start = write.len();
+        let result = match self {
             Self::Publish(publish) => publish.write(write),
             Self::Subscribe(subscription) => subscription.write(write),
             Self::Unsubscribe(unsubscribe) => unsubscribe.write(write),
@@ -231,7 +232,14 @@ impl Packet {
             Self::PingReq(_) => PingReq::write(write),
             Self::PingResp(_) => PingResp::write(write),
             Self::Disconnect(disconnect) => disconnect.write(write),
+        };
+
+        // Don't leave an incomplete packet behind
+        if result.is_err() {
+            write.truncate(start);
         }
+
+        result
     }
 }
 
-- 
2.43.0


From ec5412d3c651af0c9a7f0345f607b7783a61d7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 7/9] fix: reject an UNSUBSCRIBE without topic filters

---
 src/unsubscribe.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index 5027fce..87da181 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -61,6 +61,10 @@ impl Unsubscribe {
             filters.push(filter);
         }
 
+        if filters.is_empty() {
+            return Err(Error::EmptySubscription);
+        }
+
         let unsubscribe = Unsubscribe {
             pkid,
             filters,
-- 
2.43.0


From 65e95a6f73d933f51ef3a46d4121a20412864716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 8/9] fix: write and read a DISCONNECT with a reason code and
 no properties

---
 src/disconnect.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/disconnect.rs b/src/disconnect.rs
index e0c1855..3e02fe5 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -264,18 +264,17 @@ impl Disconnect {
         if self.reason_code == DisconnectReasonCode::NormalDisconnection
             && self.properties.is_none()
         {
-            return 2; // Packet type + 0x00
+            return 0; // Reason code and properties are omitted
         }
 
-        let mut length = 0;
+        let mut length = 1; // Disconnect Reason Code
 
         if let Some(properties) = &self.properties {
-            length += 1; // Disconnect Reason Code
-
             let properties_len = properties.len();
             let properties_len_len = len_len(properties_len);
             length += properties_len_len + properties_len;
         } else {
+            // just 1 byte representing 0 len properties
             length += 1;
         }
 
@@ -285,10 +284,6 @@ impl Disconnect {
     #[must_use]
     pub fn size(&self) -> usize {
         let len = self.len();
-        if len == 2 {
-            return len;
-        }
-
         let remaining_len_size = len_len(len);
 
         1 + remaining_len_size + len
@@ -312,10 +307,15 @@ impl Disconnect {
             return Ok(Self::new(DisconnectReasonCode::NormalDisconnection));
         }
 
-        let reason_code = read_u8(&mut bytes)?;
+        let reason_code = read_u8(&mut bytes)?.try_into()?;
+
+        // No properties len or properties if remaining len < 2
+        if fixed_header.remaining_len < 2 {
+            return Ok(Self::new(reason_code));
+        }
 
         let disconnect = Self {
-            reason_code: reason_code.try_into()?,
+            reason_code,
             properties: DisconnectProperties::extract(&mut bytes)?,
         };
 
@@ -327,9 +327,9 @@ impl Disconnect {
 
         let length = self.len();
 
-        if length == 2 {
+        if length == 0 {
             buffer.put_u8(0x00);
-            return Ok(length);
+            return Ok(2);
         }
 
         let len_len = write_remaining_length(buffer, length)?;
-- 
2.43.0


From b5dfddc7712f6a780d8c25839e558b874c801e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:54 +0000
Subject: [PATCH 9/9] fix: name the level in the message of
 InvalidProtocolLevel

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4ef10bb..e55319b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -669,7 +669,7 @@ pub enum Error {
     InvalidRemainingLength(usize),
     #[error("Invalid protocol used")]
     InvalidProtocol,
-    #[error("Invalid protocol level")]
+    #[error("Invalid protocol level = {0}")]
     InvalidProtocolLevel(u8),
     #[error("Invalid packet format")]
     IncorrectPacketFormat,
-- 
2.43.0

