From 89a62806cb8914e17525743d688715abecd1dafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:33 +0000
Subject: [PATCH 01/26] fix: reject variable byte integers that are not
 minimally encoded

An overlong remaining length was accepted, but frame_len() of the parsed
packet is computed from the minimal encoding, so the TCP reader advanced by
less than the frame and took the rest of it for the next packet.
---
 packet/src/data.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packet/src/data.rs b/packet/src/data.rs
index d6ecbcc..afe01ed 100644
--- a/packet/src/data.rs
+++ b/packet/src/data.rs
@@ -248,6 +248,10 @@ impl MqttDeserialize for MqttVariableBytesInt {
             if multiplier > 21 {
                 return Err(DataParseError::BadMqttVariableBytesInt);
             }
+            if encoded_byte == 0 && multiplier != 0 {
+                // 1.5.5: the encoded value must use the minimum number of bytes
+                return Err(DataParseError::BadMqttVariableBytesInt);
+            }
             multiplier += 7;
             if encoded_byte & 0x80 == 0 {
                 break;
-- 
2.43.0


From f11a2fadde13aa340c4d000621b6186eef977f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:47 +0000
Subject: [PATCH 02/26] fix: confine packet parsing to the frame announced by
 the remaining length

Bytes left over inside a PUBACK, PUBREC, PUBREL, PUBCOMP, DISCONNECT or AUTH
frame were silently dropped, although frame_len() does not account for them,
so the reader lost track of the frame boundaries. A field that runs past the
end of a complete frame was reported as InsufficientBuffer, so a receiver
waited forever for bytes that cannot help.
---
 packet/src/packet.rs | 51 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 5 deletions(-)

diff --git a/packet/src/packet.rs b/packet/src/packet.rs
index f17cb04..cc2aea3 100644
--- a/packet/src/packet.rs
+++ b/packet/src/packet.rs
@@ -1,10 +1,25 @@
 use super::{
-    auth::Auth, connack::ConnAck, connect::Connect, data::MqttOneBytesInt, disconnect::Disconnect,
-    error::DataParseError, helpers::bits_u8, packet_type::PacketType, parsable::*, ping::Ping,
-    puback::PubAck, pubcomp::PubComp, publish::Publish, pubrec::PubRec, pubrel::PubRel,
-    suback::SubAck, subscribe::Subscribe, unsuback::UnsubAck, unsubscribe::Unsubscribe,
+    auth::Auth,
+    connack::ConnAck,
+    connect::Connect,
+    data::{MqttOneBytesInt, MqttVariableBytesInt},
+    disconnect::Disconnect,
+    error::DataParseError,
+    helpers::bits_u8,
+    packet_type::PacketType,
+    parsable::*,
+    ping::Ping,
+    puback::PubAck,
+    pubcomp::PubComp,
+    publish::Publish,
+    pubrec::PubRec,
+    pubrel::PubRel,
+    suback::SubAck,
+    subscribe::Subscribe,
+    unsuback::UnsubAck,
+    unsubscribe::Unsubscribe,
 };
-use bytes::{Buf, BufMut};
+use bytes::{Buf, BufMut, BytesMut};
 
 #[derive(Clone)]
 pub enum Packet {
@@ -170,6 +185,32 @@ impl MqttDeserialize for Packet {
         }
         let byte1 = buf.get_u8();
         let packet_type = PacketType::parse(byte1)?;
+        let length = MqttVariableBytesInt::deserialize(buf)?;
+        let needed = length.inner() as usize;
+        if buf.remaining() < needed {
+            return Err(DataParseError::InsufficientBuffer {
+                needed,
+                available: buf.remaining(),
+            });
+        }
+        // from here on the whole frame is available, and nothing beyond it may be touched
+        let mut header = BytesMut::with_capacity(length.size());
+        length.serialize(&mut header);
+        let mut frame = header.chain(buf.take(needed));
+        match Packet::deserialize_frame(packet_type, byte1, &mut frame) {
+            Ok(_) if frame.has_remaining() => Err(DataParseError::BadPacketType),
+            Err(DataParseError::InsufficientBuffer { .. }) => Err(DataParseError::BadPacketType),
+            res => res,
+        }
+    }
+}
+impl Packet {
+    /// Deserialize the complete frame in `buf`, which starts with the remaining length
+    fn deserialize_frame<T: Buf>(
+        packet_type: PacketType,
+        byte1: u8,
+        buf: &mut T,
+    ) -> Result<Self, DataParseError> {
         match packet_type {
             PacketType::Reserved => Err(DataParseError::BadPacketType),
             PacketType::Connect => Ok(Packet::Connect(Connect::deserialize(buf)?)),
-- 
2.43.0


From ac6016b3f130be40db694013be1dabc124188e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:07 +0000
Subject: [PATCH 03/26] fix: decode strings that span several chunks of the
 input buffer

Only the first chunk was looked at, so a string in a non-contiguous Buf was
truncated silently.
---
 packet/src/data.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/packet/src/data.rs b/packet/src/data.rs
index afe01ed..b028e8e 100644
--- a/packet/src/data.rs
+++ b/packet/src/data.rs
@@ -165,12 +165,10 @@ impl MqttDeserialize for MqttUtf8String {
                 available: buf.remaining(),
             });
         }
-        let b = buf.take(len);
-        let bytes = b.chunk();
-        let s = std::str::from_utf8(bytes).map_err(|_| DataParseError::BadMqttUtf8String)?;
-        let ret = MqttUtf8String::new(Arc::from(s));
-        buf.advance(len);
-        ret
+        // the string may span several chunks of `buf`
+        let bytes = buf.copy_to_bytes(len);
+        let s = std::str::from_utf8(&bytes).map_err(|_| DataParseError::BadMqttUtf8String)?;
+        MqttUtf8String::new(Arc::from(s))
     }
 }
 
-- 
2.43.0


From 07c342dff95a8e1db24ef0d82ef32949fe05c201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:10 +0000
Subject: [PATCH 04/26] fix: drop the packet identifier when a publish goes
 back to QoS 0

The identifier was still serialized, where a QoS 0 reader takes it for the
property length.
---
 packet/src/publish.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packet/src/publish.rs b/packet/src/publish.rs
index 81516e6..9423f96 100644
--- a/packet/src/publish.rs
+++ b/packet/src/publish.rs
@@ -124,6 +124,10 @@ impl Publish {
     pub fn set_qos(&mut self, qos: QoS) {
         self.flags -= PublishFlags::QOS1 | PublishFlags::QOS2;
         self.flags |= qos.into();
+        if qos == QoS::QoS0 {
+            // 2.2.1: a PUBLISH packet MUST NOT contain a Packet Identifier if its QoS is 0
+            self.packet_identifier = None;
+        }
     }
     pub fn qos(&self) -> QoS {
         // why unwrap is justified here,
-- 
2.43.0


From 064a56c9d0d81fe579e20f0bdcf083bd3ea61e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:13 +0000
Subject: [PATCH 05/26] fix: leave the connect flags alone when a username or
 password is refused

The flag was set before the value was validated, so a refused call left a
packet that announces a field it does not carry.
---
 packet/src/connect.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packet/src/connect.rs b/packet/src/connect.rs
index ee5ce91..6da27e0 100644
--- a/packet/src/connect.rs
+++ b/packet/src/connect.rs
@@ -212,16 +212,16 @@ impl Connect {
         self.username.as_ref().map(|s| s.inner())
     }
     pub fn set_username(&mut self, username: Arc<str>) -> Result<(), DataParseError> {
-        self.flags |= ConnectFlags::USERNAME;
         self.username = Some(MqttUtf8String::new(username)?);
+        self.flags |= ConnectFlags::USERNAME;
         Ok(())
     }
     pub fn password(&self) -> Option<&Bytes> {
         self.password.as_ref().map(|p| p.inner())
     }
     pub fn set_password<T: Buf>(&mut self, password: T) -> Result<(), DataParseError> {
-        self.flags |= ConnectFlags::PASSWORD;
         self.password = Some(MqttBinaryData::new(password)?);
+        self.flags |= ConnectFlags::PASSWORD;
         Ok(())
     }
     pub fn keep_alive(&self) -> u16 {
-- 
2.43.0


From 4f30f47b040c4ff1880c0a828ee84f43f203f425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 06/26] fix: accept boolean and user properties in CONNECT

into_bool() matched the byte variant, so it returned None for every boolean
property, and user properties are stored as strings, not as string pairs: a
CONNECT carrying either of them panicked the connecting task.
---
 packet/src/props.rs                    | 2 +-
 server-lib/src/clients/clientworker.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packet/src/props.rs b/packet/src/props.rs
index 0c5ba87..2e422de 100644
--- a/packet/src/props.rs
+++ b/packet/src/props.rs
@@ -400,7 +400,7 @@ enum MqttPropValueInner {
 pub struct MqttPropValue(MqttPropValueInner);
 impl MqttPropValue {
     pub fn into_bool(&self) -> Option<bool> {
-        if let MqttPropValueInner::Byte(i) = &self.0 {
+        if let MqttPropValueInner::Bool(i) = &self.0 {
             Some(i.inner() == 1)
         } else {
             None
diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index b517346..8630911 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -158,7 +158,7 @@ impl ClientWorker {
                 }
                 Property::UserProperty => warn!(
                     "Client is using strange property in connect packet {:?}",
-                    v.into_str_pair().unwrap()
+                    v.into_str().unwrap()
                 ),
                 Property::AuthenticationMethod => {
                     error!("Client attempted Authentication which is not supported");
-- 
2.43.0


From 53ff5ed5a30b6dfc16ee738c91c1169a13267da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:36 +0000
Subject: [PATCH 07/26] fix: do not panic the dispatcher when a client leaves
 before its packet is refused

---
 server-lib/src/dispatcher.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index b067667..1922a82 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -41,9 +41,11 @@ impl Dispatcher {
     async fn unimplemented(&mut self, client: &str) -> Result<(), ServerError> {
         let disconnect = Disconnect::new(DisconnectReasonCode::ImplementationSpecificError).build();
         let clients = self.clients.read().await;
-        let c = clients.get(client).unwrap();
-        if c.send(disconnect).is_err() {
-            error!(clientid = client, "Internal Error: tx closed");
+        // the client may be gone by the time its packet is processed
+        if let Some(c) = clients.get(client) {
+            if c.send(disconnect).is_err() {
+                error!(clientid = client, "Internal Error: tx closed");
+            }
         }
         Err(ServerError::Misc("Unimplemented".to_owned()))
     }
-- 
2.43.0


From 5d94c0e10eeda11680d2998c2b6c44946cc11482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:39 +0000
Subject: [PATCH 08/26] fix: do not panic the dispatcher on a
 retain-as-published subscription

The subscription is granted, and the next matching message then killed the
dispatcher, and with it the whole broker.
---
 server-lib/src/dispatcher.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index 1922a82..9666a82 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -113,9 +113,7 @@ impl Dispatcher {
             if target.as_ref() == client && info.flags.contains(SubscriptionFlags::NO_LOCAL) {
                 continue;
             }
-            if info.flags.contains(SubscriptionFlags::RETAIN_AS_PUBLISHED) {
-                unimplemented!();
-            }
+            // RETAIN_AS_PUBLISHED makes no difference here, retained messages are refused above
             if let Some(c) = clients.get(&target) {
                 #[cfg(feature = "noise")]
                 if strict_encryption && !c.encrypted() {
-- 
2.43.0


From e86636fa20f7cb9776e7c483c40694089b73be8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:42 +0000
Subject: [PATCH 09/26] fix: end the connection when the peer closes its side

read_buf() returns 0 at end of stream: the reader looped forever, burning a
core, and the client was never retired.
---
 server-lib/src/clients/mqttclient.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server-lib/src/clients/mqttclient.rs b/server-lib/src/clients/mqttclient.rs
index 0795860..caab21c 100644
--- a/server-lib/src/clients/mqttclient.rs
+++ b/server-lib/src/clients/mqttclient.rs
@@ -61,7 +61,9 @@ impl MqttClient {
                     }
                     self.tcp_reader
                         .set_limit(self.max_packet_size as u64 - self.bytes.remaining() as u64);
-                    self.tcp_reader.read_buf(&mut self.bytes).await?;
+                    if self.tcp_reader.read_buf(&mut self.bytes).await? == 0 {
+                        return Err(ServerError::Misc("Client disconnected".to_owned()));
+                    }
                 }
                 Err(e) => return Err(e.into()),
             }
-- 
2.43.0


From 742babc4ba21f2efeaa1dfbfe87e37abd4869a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:19 +0000
Subject: [PATCH 10/26] fix: close the old connection when its client
 identifier is taken over

The old connection stayed open but received nothing any more, and when it
ended, it removed the new connection from the table of clients.
---
 server-lib/src/clients/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/server-lib/src/clients/mod.rs b/server-lib/src/clients/mod.rs
index cdb5e84..85ef509 100644
--- a/server-lib/src/clients/mod.rs
+++ b/server-lib/src/clients/mod.rs
@@ -95,10 +95,15 @@ impl ClientManager {
             }
         };
         let client = worker.internals();
-        self.clients
+        let old = self
+            .clients
             .write()
             .await
             .insert(client.clientid.clone(), client.clone());
+        if let Some(old) = old {
+            // 3.1.4: the new connection takes over the client identifier
+            old.killme();
+        }
         self.workers
             .push(tokio::spawn(async move { worker.run().await }));
         true
@@ -111,7 +116,11 @@ impl ClientManager {
                 e
             ),
             Some(Ok(id)) => {
-                self.clients.write().await.remove(&id);
+                let mut clients = self.clients.write().await;
+                // the identifier may belong to another connection by now
+                if matches!(clients.get(&id), Some(c) if Arc::ptr_eq(&c.clientid, &id)) {
+                    clients.remove(&id);
+                }
             }
             None => (),
         };
-- 
2.43.0


From 6da5a92ea3f0083e26d094be0a30e037846e43cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:58 +0000
Subject: [PATCH 11/26] fix: end a client's subscriptions with its session

Subscriptions were never removed, so they piled up in the topics table, and a
client that connected with a clean start inherited those of the previous
holder of its identifier. Packets that the dispatcher takes from the queue
after their connection was retired or taken over no longer act on behalf of
the new holder.
---
 server-lib/src/clients/client.rs |  4 ++++
 server-lib/src/clients/mod.rs    | 24 +++++++++++--------
 server-lib/src/dispatcher.rs     | 41 ++++++++++++++++++++++----------
 server-lib/src/lib.rs            | 11 ++++++---
 4 files changed, 54 insertions(+), 26 deletions(-)

diff --git a/server-lib/src/clients/client.rs b/server-lib/src/clients/client.rs
index d4fcf3c..ce64747 100644
--- a/server-lib/src/clients/client.rs
+++ b/server-lib/src/clients/client.rs
@@ -44,6 +44,10 @@ impl Client {
     pub fn encrypted(&self) -> bool {
         self.encrypted
     }
+    /// The identifier, in the allocation that all packets of this connection carry
+    pub fn clientid(&self) -> &Arc<str> {
+        &self.clientid
+    }
     pub fn shutdown(self) {
         self.shutdown.notify_one();
     }
diff --git a/server-lib/src/clients/mod.rs b/server-lib/src/clients/mod.rs
index 85ef509..6ae364e 100644
--- a/server-lib/src/clients/mod.rs
+++ b/server-lib/src/clients/mod.rs
@@ -4,7 +4,9 @@ mod mqttclient;
 #[cfg(feature = "noise")]
 mod noiseclient;
 
-use crate::{config::MqttServerConfig, error::ServerError, packetinfo::PacketInfo};
+use crate::{
+    config::MqttServerConfig, error::ServerError, packetinfo::PacketInfo, topics::TopicsTable,
+};
 pub use client::Client;
 use clientworker::ClientWorker;
 use futures::{stream::FuturesUnordered, StreamExt};
@@ -26,6 +28,7 @@ use tracing::{error, info, instrument, warn};
 pub struct ClientManager {
     rx: UnboundedReceiver<ClientWorker>,
     clients: Arc<RwLock<HashMap<Arc<str>, Client>>>,
+    topics: Arc<TopicsTable>,
     cfg: Arc<MqttServerConfig>,
     shutdown: Arc<Notify>,
     workers: FuturesUnordered<JoinHandle<Arc<str>>>,
@@ -35,12 +38,14 @@ impl ClientManager {
     fn new(
         cfg: Arc<MqttServerConfig>,
         clients: Arc<RwLock<HashMap<Arc<str>, Client>>>,
+        topics: Arc<TopicsTable>,
         shutdown: Arc<Notify>,
         rx: UnboundedReceiver<ClientWorker>,
     ) -> Self {
         ClientManager {
             rx,
             clients,
+            topics,
             cfg,
             shutdown,
             workers: FuturesUnordered::new(),
@@ -50,6 +55,7 @@ impl ClientManager {
     pub async fn start(
         cfg: Arc<MqttServerConfig>,
         clients: Arc<RwLock<HashMap<Arc<str>, Client>>>,
+        topics: Arc<TopicsTable>,
         shutdown: Arc<Notify>,
         incoming: Sender<PacketInfo>,
     ) -> Result<Vec<JoinHandle<()>>, ServerError> {
@@ -81,7 +87,7 @@ impl ClientManager {
             workers.push(handle)
         }
 
-        let man = ClientManager::new(cfg, clients, shutdown, rx);
+        let man = ClientManager::new(cfg, clients, topics, shutdown, rx);
         workers.push(man.start_processing().await);
         Ok(workers)
     }
@@ -95,21 +101,18 @@ impl ClientManager {
             }
         };
         let client = worker.internals();
-        let old = self
-            .clients
-            .write()
-            .await
-            .insert(client.clientid.clone(), client.clone());
-        if let Some(old) = old {
-            // 3.1.4: the new connection takes over the client identifier
+        let mut clients = self.clients.write().await;
+        if let Some(old) = clients.insert(client.clientid.clone(), client.clone()) {
+            // 3.1.4: the new connection takes over the client identifier, with a clean session
+            self.topics.unsubscribe_all(client.clientid.clone()).await;
             old.killme();
         }
+        drop(clients);
         self.workers
             .push(tokio::spawn(async move { worker.run().await }));
         true
     }
     async fn process_retiring_worker(&mut self, maybe_id: Option<Result<Arc<str>, JoinError>>) {
-        //TODO we don't remove the worker information from the topic file system yet
         match maybe_id {
             Some(Err(e)) => error!(
                 "Failed joining one of the threads, possible orphan threads running, {:?}",
@@ -120,6 +123,7 @@ impl ClientManager {
                 // the identifier may belong to another connection by now
                 if matches!(clients.get(&id), Some(c) if Arc::ptr_eq(&c.clientid, &id)) {
                     clients.remove(&id);
+                    self.topics.unsubscribe_all(id).await;
                 }
             }
             None => (),
diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index 9666a82..77249d5 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -38,29 +38,39 @@ impl Dispatcher {
             incoming,
         }
     }
-    async fn unimplemented(&mut self, client: &str) -> Result<(), ServerError> {
+    /// The connection that a packet came from. It may be gone by the time the packet is
+    /// processed, and its client identifier may belong to another connection
+    fn sender<'a>(clients: &'a HashMap<Arc<str>, Client>, client: &Arc<str>) -> Option<&'a Client> {
+        clients
+            .get(client)
+            .filter(|c| Arc::ptr_eq(c.clientid(), client))
+    }
+    async fn unimplemented(&mut self, client: &Arc<str>) -> Result<(), ServerError> {
         let disconnect = Disconnect::new(DisconnectReasonCode::ImplementationSpecificError).build();
         let clients = self.clients.read().await;
-        // the client may be gone by the time its packet is processed
-        if let Some(c) = clients.get(client) {
+        if let Some(c) = Dispatcher::sender(&clients, client) {
             if c.send(disconnect).is_err() {
-                error!(clientid = client, "Internal Error: tx closed");
+                error!(clientid = client.as_ref(), "Internal Error: tx closed");
             }
         }
         Err(ServerError::Misc("Unimplemented".to_owned()))
     }
 
     #[instrument(skip_all)]
-    async fn process_publish(&mut self, client: &str, publish: Publish) -> Result<(), ServerError> {
+    async fn process_publish(
+        &mut self,
+        client: &Arc<str>,
+        publish: Publish,
+    ) -> Result<(), ServerError> {
         trace!("Processing a publish packet");
         #[cfg(feature = "noise")]
         let strict_encryption = {
             let clients = self.clients.read().await;
-            match clients.get(client) {
+            match Dispatcher::sender(&clients, client) {
                 Some(c) => c.encrypted() && self.cfg.channel_permeability == Permeability::Strict,
                 None => {
                     warn!(
-                        clientid = client,
+                        clientid = client.as_ref(),
                         "Client Prematurely shutdown before its publish request could be processed"
                     );
                     return Ok(());
@@ -110,7 +120,9 @@ impl Dispatcher {
         let clients = self.clients.read().await;
 
         for (target, info) in self.topics.get_all_subscribed(topic).await {
-            if target.as_ref() == client && info.flags.contains(SubscriptionFlags::NO_LOCAL) {
+            if target.as_ref() == client.as_ref()
+                && info.flags.contains(SubscriptionFlags::NO_LOCAL)
+            {
                 continue;
             }
             // RETAIN_AS_PUBLISHED makes no difference here, retained messages are refused above
@@ -152,6 +164,12 @@ impl Dispatcher {
                 ),
             }
         }
+        // held until the end, so that the client cannot be retired half way
+        let clients = self.clients.read().await;
+        let sender = match Dispatcher::sender(&clients, client) {
+            Some(c) => c,
+            None => return Ok(()),
+        };
         let mut suback = SubAck::new(ident);
         for (topic, options) in sub.topics_iter() {
             let qos: QoS = (*options).try_into()?;
@@ -186,11 +204,8 @@ impl Dispatcher {
             }
         }
 
-        let clients = self.clients.read().await;
-        if let Some(c) = clients.get(client) {
-            if c.send(suback.build()).is_err() {
-                error!(clientid = client.as_ref(), "Internal Error: tx closed");
-            }
+        if sender.send(suback.build()).is_err() {
+            error!(clientid = client.as_ref(), "Internal Error: tx closed");
         }
         Ok(())
     }
diff --git a/server-lib/src/lib.rs b/server-lib/src/lib.rs
index ec2711a..665efbd 100644
--- a/server-lib/src/lib.rs
+++ b/server-lib/src/lib.rs
@@ -37,10 +37,15 @@ impl MqttServer {
         let shutdown = Arc::new(Notify::new());
         let cfg = Arc::new(cfg);
         let clients = Arc::new(RwLock::new(HashMap::new()));
-        let mut workers =
-            ClientManager::start(cfg.clone(), clients.clone(), shutdown.clone(), incoming_tx)
-                .await?;
         let topics = Arc::new(TopicsTable::new());
+        let mut workers = ClientManager::start(
+            cfg.clone(),
+            clients.clone(),
+            topics.clone(),
+            shutdown.clone(),
+            incoming_tx,
+        )
+        .await?;
         let dispatcher = Dispatcher::new(
             topics.clone(),
             cfg.clone(),
-- 
2.43.0


From 5b9d33e9b78b858ecd81e3755214bc480bdcefc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:01 +0000
Subject: [PATCH 12/26] fix: do not send packets larger than the maximum packet
 size

The size that the client announced, and the one in the configuration, were
recorded, but not looked at.
---
 server-lib/src/clients/client.rs       | 4 ++++
 server-lib/src/clients/clientworker.rs | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/server-lib/src/clients/client.rs b/server-lib/src/clients/client.rs
index ce64747..99eb510 100644
--- a/server-lib/src/clients/client.rs
+++ b/server-lib/src/clients/client.rs
@@ -57,6 +57,10 @@ impl Client {
     }
 
     pub fn send(&self, packet: Packet) -> Result<(), ServerError> {
+        if packet.frame_len() > self.max_packet_size as usize {
+            // 3.1.2.11.4: discard it, and behave as if it had been sent
+            return Ok(());
+        }
         self.outgoing
             .send(packet)
             .map_err(|_| ServerError::Misc("outgoing channel is closed".to_owned()))
diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index 8630911..f632e5f 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -241,7 +241,11 @@ impl ClientWorker {
                 MqttPropValue::new_u16(self.cfg.keep_alive),
             )
             .unwrap();
-        self.conn.send(&connack.build()).await
+        let connack = connack.build();
+        if connack.frame_len() > self.internals.max_packet_size as usize {
+            return Err(ServerError::MaxPacketSizeExceeded);
+        }
+        self.conn.send(&connack).await
     }
     pub async fn connect(&mut self) -> Result<(), ServerError> {
         match self.conn.recv().await? {
-- 
2.43.0


From 9ab1be3902b545dd86e6473ed4b7d186fc276881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:04 +0000
Subject: [PATCH 13/26] fix: parse exactly the decrypted bytes of a Noise
 message

The buffer is larger than the message by the size of the authentication tag,
so a truncated packet was completed with zeros, and bytes after the packet
were silently dropped.
---
 server-lib/src/clients/noiseclient.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index 5c74520..af2a319 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -52,10 +52,13 @@ impl NoiseClient {
             .ok_or_else(|| ServerError::Misc("Client disconnected".to_owned()))??;
         //TODO when you implement noise protocol by hand... make sure to make this happen in place
         let mut message = vec![0; frame.remaining()];
-        self.crypto.read_message(&frame[..], &mut message)?;
+        let size = self.crypto.read_message(&frame[..], &mut message)?;
+        message.truncate(size);
 
         let mut buf: &[u8] = message.as_ref();
         match Packet::from_bytes(&mut buf) {
+            // exactly one packet per message
+            Ok(_) if buf.has_remaining() => Err(DataParseError::BadPacketType.into()),
             Ok(packet) => Ok(packet),
             Err(DataParseError::InsufficientBuffer {
                 needed: _,
-- 
2.43.0


From cbb26fe371de2c21fdcd71b45f337eabc51474fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:07 +0000
Subject: [PATCH 14/26] fix: enforce the maximum packet size on Noise
 connections too

---
 server-lib/src/clients/noiseclient.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index af2a319..45f1957 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -23,6 +23,7 @@ pub struct NoiseClient {
     stream: Framed<TcpStream, LengthDelimitedCodec>,
     saddr: SocketAddr,
     crypto: TransportState,
+    max_packet_size: u32,
 }
 
 impl fmt::Debug for NoiseClient {
@@ -36,11 +37,13 @@ impl NoiseClient {
         stream: Framed<TcpStream, LengthDelimitedCodec>,
         saddr: SocketAddr,
         crypto: TransportState,
+        max_packet_size: u32,
     ) -> Self {
         NoiseClient {
             stream,
             saddr,
             crypto,
+            max_packet_size,
         }
     }
     pub async fn recv(&mut self) -> Result<Packet, ServerError> {
@@ -53,6 +56,9 @@ impl NoiseClient {
         //TODO when you implement noise protocol by hand... make sure to make this happen in place
         let mut message = vec![0; frame.remaining()];
         let size = self.crypto.read_message(&frame[..], &mut message)?;
+        if size > self.max_packet_size as usize {
+            return Err(ServerError::MaxPacketSizeExceeded);
+        }
         message.truncate(size);
 
         let mut buf: &[u8] = message.as_ref();
@@ -197,7 +203,7 @@ async fn _connect_client(
     }
     let transport = responder.into_transport_mode().unwrap();
 
-    let nc = NoiseClient::new(stream, saddr, transport);
+    let nc = NoiseClient::new(stream, saddr, transport, cfg.max_packet_size);
     let mut client = ClientWorker::new(
         Connection::Noise(Box::new(nc)),
         cfg,
-- 
2.43.0


From 0dc6aec6c0ce76a73eaa033cf75dbf4bfc8ab52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:10 +0000
Subject: [PATCH 15/26] fix: close the connection after sending DISCONNECT

---
 server-lib/src/clients/clientworker.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index f632e5f..f38f3c2 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -64,6 +64,10 @@ impl ClientWorker {
             p = self.outgoing.recv() => {
                 let packet = p.map(Ok).unwrap_or_else(|| Err(ServerError::Misc("outgoing queue lost all its senders".to_owned())))?;
                 self.conn.send(&packet).await?;
+                if let Packet::Disconnect(_) = packet {
+                    // 3.14.4: after sending a DISCONNECT, close the connection
+                    return Err(ServerError::Misc("Disconnected by the server".to_owned()));
+                }
             }
         }
         Ok(())
-- 
2.43.0


From d0bf30344c417ac0970d0238e2f3394145dae884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:27 +0000
Subject: [PATCH 16/26] fix: make shutdown reach every task

A single notification woke only one of the listeners, the manager, the
dispatcher and the clients, and shutdown() waited for the others forever. A
connection that was still in its handshake went on as if it had succeeded.
---
 server-lib/src/clients/mqttclient.rs  |  5 ++++-
 server-lib/src/clients/noiseclient.rs | 10 ++++++++--
 server-lib/src/lib.rs                 | 14 +++++++++++---
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/server-lib/src/clients/mqttclient.rs b/server-lib/src/clients/mqttclient.rs
index caab21c..dab3c89 100644
--- a/server-lib/src/clients/mqttclient.rs
+++ b/server-lib/src/clients/mqttclient.rs
@@ -172,7 +172,10 @@ async fn _connect_client(
     let saddr = format!("{}", saddr);
     match state {
         ConnectState::Success => info!(SocketAddr = &*saddr, "MQTT Connection established"),
-        ConnectState::ShuttingDown => info!(SocketAddr = &*saddr, "Shutting down"),
+        ConnectState::ShuttingDown => {
+            info!(SocketAddr = &*saddr, "Shutting down");
+            return;
+        }
         ConnectState::Err(e) => {
             warn!(
                 SocketAddr = &*saddr,
diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index 45f1957..a95a00c 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -192,7 +192,10 @@ async fn _connect_client(
     let saddr_str = format!("{}", saddr);
     match state {
         ConnectState::Success => info!(SocketAddr = &*saddr_str, "MQTT Connection established"),
-        ConnectState::ShuttingDown => info!(SocketAddr = &*saddr_str, "Shutting down"),
+        ConnectState::ShuttingDown => {
+            info!(SocketAddr = &*saddr_str, "Shutting down");
+            return;
+        }
         ConnectState::Err(e) => {
             warn!(
                 SocketAddr = &*saddr_str,
@@ -217,7 +220,10 @@ async fn _connect_client(
     };
     match state {
         ConnectState::Success => info!(SocketAddr = &*saddr_str, "MQTT Connection established"),
-        ConnectState::ShuttingDown => info!(SocketAddr = &*saddr_str, "Shutting down"),
+        ConnectState::ShuttingDown => {
+            info!(SocketAddr = &*saddr_str, "Shutting down");
+            return;
+        }
         ConnectState::Err(e) => {
             warn!(
                 SocketAddr = &*saddr_str,
diff --git a/server-lib/src/lib.rs b/server-lib/src/lib.rs
index 665efbd..fbf26a4 100644
--- a/server-lib/src/lib.rs
+++ b/server-lib/src/lib.rs
@@ -18,6 +18,7 @@ use std::{collections::HashMap, sync::Arc};
 use tokio::{
     sync::{mpsc::channel, Notify, RwLock},
     task::JoinHandle,
+    time::{timeout, Duration},
 };
 use topics::TopicsTable;
 use tracing::{error, info, instrument};
@@ -66,9 +67,16 @@ impl MqttServer {
     #[instrument(name = "MqttServer::shutdown", skip(self))]
     pub async fn shutdown(self) {
         // TODO keep track of https://github.com/tokio-rs/tokio/issues/3903
-        self.shutdown.notify_one();
-        for worker in self.workers {
-            if let Err(e) = worker.await {
+        for mut worker in self.workers {
+            // `notify_waiters` only reaches the tasks that wait at this moment, so repeat it
+            // until the worker, and everyone it waits for, has heard it
+            let res = loop {
+                self.shutdown.notify_waiters();
+                if let Ok(res) = timeout(Duration::from_millis(5), &mut worker).await {
+                    break res;
+                }
+            };
+            if let Err(e) = res {
                 error!("Failed killing one of the workers, {:?}", e);
             };
         }
-- 
2.43.0


From fda8e7810e618a474ac8acf59662f9aec8e10223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:01 +0000
Subject: [PATCH 17/26] fix: keep topics that start with $ from filters that
 start with a wildcard

---
 server-lib/src/topics.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/server-lib/src/topics.rs b/server-lib/src/topics.rs
index 3c0f25c..8674131 100644
--- a/server-lib/src/topics.rs
+++ b/server-lib/src/topics.rs
@@ -352,7 +352,17 @@ impl TopicsTable {
             "collected_sections {:?}",
             sections.clone().collect::<Vec<_>>()
         );
-        self.root_block.collect_subs(&mut subs, sections).await;
+        if topic.starts_with('$') {
+            // 4.7.2: filters that start with a wildcard do not match these topics
+            let mut sections = sections;
+            let raii = self.root_block.read().await;
+            let section = sections.next().and_then(|s| raii.sub_blocks.get(s));
+            if let Some(sub_block) = section {
+                sub_block.collect_subs(&mut subs, sections).await;
+            }
+        } else {
+            self.root_block.collect_subs(&mut subs, sections).await;
+        }
         subs
     }
 }
-- 
2.43.0


From f704fd7bd45edc4aff74a831dcbab2e74a5c2a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:04 +0000
Subject: [PATCH 18/26] fix: do not lose subscriptions made concurrently below
 a new topic level

Two tasks that both found the level missing both inserted it, and the second
replaced the block that already held the subscription of the first.
---
 server-lib/src/topics.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server-lib/src/topics.rs b/server-lib/src/topics.rs
index 8674131..065a131 100644
--- a/server-lib/src/topics.rs
+++ b/server-lib/src/topics.rs
@@ -194,11 +194,12 @@ impl Block {
     }
     async fn create_if_not_existing(&self, subtopic: &str) {
         if !self.contains_subtopic(subtopic).await {
-            let block = Block::new();
+            // someone else may have created it before we get the lock
             self.write()
                 .await
                 .sub_blocks
-                .insert(Arc::from(subtopic), block);
+                .entry(Arc::from(subtopic))
+                .or_insert_with(Block::new);
         }
     }
 }
-- 
2.43.0


From d1cf3b5fa32be392875a41efdc754163945e2587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 19/26] fix: honour every one of a client's overlapping
 subscriptions

Whichever subscription was found first decided about no-local, so a client
could miss its own messages although one of its subscriptions asks for them.
---
 server-lib/src/topics.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/server-lib/src/topics.rs b/server-lib/src/topics.rs
index 065a131..29fc420 100644
--- a/server-lib/src/topics.rs
+++ b/server-lib/src/topics.rs
@@ -26,6 +26,14 @@ impl SubscriptionInfo {
     fn new(qos: QoS, flags: SubscriptionFlags) -> Self {
         SubscriptionInfo { qos, flags }
     }
+    /// Combine two subscriptions of one client that match the same topic: the highest QoS
+    /// counts, and a restriction only counts if both have it
+    fn merge(&mut self, other: &SubscriptionInfo) {
+        if self.qos < other.qos {
+            self.qos = other.qos;
+        }
+        self.flags &= other.flags;
+    }
 }
 
 /// This Block structure is designed to have minimal concurrency overhead,
@@ -89,9 +97,7 @@ impl BlockInner {
                     e.insert(info.clone());
                 }
                 Entry::Occupied(mut e) => {
-                    if e.get().qos < info.qos {
-                        e.insert(info.clone());
-                    }
+                    e.get_mut().merge(info);
                 }
             }
         }
@@ -108,9 +114,7 @@ impl BlockInner {
                     e.insert(info.clone());
                 }
                 Entry::Occupied(mut e) => {
-                    if e.get().qos < info.qos {
-                        e.insert(info.clone());
-                    }
+                    e.get_mut().merge(info);
                 }
             }
         }
-- 
2.43.0


From aaa2772e1dfd5faa8d890ded839e6b265e207903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:09 +0000
Subject: [PATCH 20/26] fix: give the dispatcher queue at least one element, as
 documented

A smaller dispatcher_queue_size panicked in MqttServer::new().
---
 server-lib/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server-lib/src/lib.rs b/server-lib/src/lib.rs
index fbf26a4..220e8ec 100644
--- a/server-lib/src/lib.rs
+++ b/server-lib/src/lib.rs
@@ -33,7 +33,7 @@ pub struct MqttServer {
 impl MqttServer {
     #[instrument(name = "MqttServer::new", skip(cfg))]
     pub async fn new(cfg: MqttServerConfig) -> Result<Self, ServerError> {
-        let queue_len = cfg.dispatcher_queue_size / size_of::<PacketInfo>();
+        let queue_len = (cfg.dispatcher_queue_size / size_of::<PacketInfo>()).max(1);
         let (incoming_tx, incoming_rx) = channel(queue_len);
         let shutdown = Arc::new(Notify::new());
         let cfg = Arc::new(cfg);
-- 
2.43.0


From 9331c9d11aa6e128e2a4204a16ccd9e9177563af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:12 +0000
Subject: [PATCH 21/26] fix: do not disconnect Noise clients over packets that
 Noise cannot carry

A message of more than 65519 bytes made the encryption of each encrypted
subscriber fail, which ended its connection.
---
 server-lib/src/clients/clientworker.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index f38f3c2..b44c75d 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -32,6 +32,15 @@ impl Connection {
             Connection::Noise(n) => n.send(p).await,
         }
     }
+    /// The largest packet that this kind of connection can carry
+    pub fn max_payload(&self) -> u32 {
+        match self {
+            Connection::Mqtt(_) => u32::MAX,
+            // a Noise message has at most 65535 bytes, 16 of them for the authentication tag
+            #[cfg(feature = "noise")]
+            Connection::Noise(_) => u16::MAX as u32 - 16,
+        }
+    }
     pub fn is_encrypted(&self) -> bool {
         match self {
             Connection::Mqtt(_) => false,
@@ -108,8 +117,9 @@ impl ClientWorker {
         incoming: Sender<PacketInfo>,
     ) -> Self {
         let (outgoing_tx, outgoing_rx) = unbounded_channel();
+        let max_packet_size = cfg.max_packet_size.min(c.max_payload());
         ClientWorker {
-            internals: Client::new(shutdown, outgoing_tx, c.is_encrypted(), cfg.max_packet_size),
+            internals: Client::new(shutdown, outgoing_tx, c.is_encrypted(), max_packet_size),
             incoming,
             outgoing: outgoing_rx,
             conn: c,
-- 
2.43.0


From 0fe0def61d40c665eda3d00c384e8a0735d6a9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:54 +0000
Subject: [PATCH 22/26] verif hook: let the conformance checks drive the topics
 table on its own

Guarded by --cfg apiformes_verif; with the flag off nothing changes.
---
 server-lib/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server-lib/src/lib.rs b/server-lib/src/lib.rs
index 220e8ec..df2ad1a 100644
--- a/server-lib/src/lib.rs
+++ b/server-lib/src/lib.rs
@@ -1,3 +1,4 @@
+#![allow(unexpected_cfgs)]
 mod cfg;
 pub mod clients;
 mod config;
@@ -21,6 +22,11 @@ use tokio::{
     time::{timeout, Duration},
 };
 use topics::TopicsTable;
+/// Lets the conformance checks drive the topics table on its own
+#[cfg(apiformes_verif)]
+pub mod verif {
+    pub use super::topics::{SubscriptionFlags, SubscriptionInfo, TopicsTable};
+}
 use tracing::{error, info, instrument};
 pub struct MqttServer {
     clients: Arc<RwLock<HashMap<Arc<str>, Client>>>,
-- 
2.43.0


From dba16a06249a5737206a649437635db9fe6eb5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 23/26] fix: walk the topics tree without recursion

A subscribe filter with a thousand levels (about 1 KB) overflowed the stack of
the dispatcher, which aborts the whole process.
---
 server-lib/src/topics.rs | 92 +++++++++++++++++++++++-----------------
 1 file changed, 54 insertions(+), 38 deletions(-)

diff --git a/server-lib/src/topics.rs b/server-lib/src/topics.rs
index 29fc420..2250eb3 100644
--- a/server-lib/src/topics.rs
+++ b/server-lib/src/topics.rs
@@ -1,5 +1,4 @@
 use apiformes_packet::prelude::*;
-use async_recursion::async_recursion;
 use bitflags::bitflags;
 use futures::future::BoxFuture;
 use std::collections::{hash_map::Entry, HashMap, HashSet};
@@ -57,7 +56,7 @@ struct BlockInner {
     subscribers: RwLock<HashMap<ClientId, SubscriptionInfo>>,
     // the `+` wild card is stored in here
     // TODO lazy static the `+` subtopic
-    sub_blocks: HashMap<SubTopic, Block>,
+    sub_blocks: HashMap<SubTopic, Arc<Block>>,
 }
 
 impl Default for BlockInner {
@@ -125,6 +124,20 @@ struct Block {
     inner: RwLock<BlockInner>,
 }
 
+impl Drop for Block {
+    fn drop(&mut self) {
+        // one block after the other instead of the recursion that would happen otherwise
+        let mut pending = vec![std::mem::take(self.inner.get_mut())];
+        while let Some(mut inner) = pending.pop() {
+            for (_, sub_block) in inner.sub_blocks.drain() {
+                if let Ok(mut sub_block) = Arc::try_unwrap(sub_block) {
+                    pending.push(std::mem::take(sub_block.inner.get_mut()));
+                }
+            }
+        }
+    }
+}
+
 impl Block {
     fn new() -> Self {
         Block {
@@ -142,54 +155,57 @@ impl Block {
         self.inner.write().await
     }
 
-    #[async_recursion]
+    // A topic may have as many sections as fit into a packet, so neither this nor anything
+    // else that walks the blocks may use recursion
     async fn visit<'a, S>(
-        &self,
-        mut sections: S,
+        self: &Arc<Self>,
+        sections: S,
         create: bool,
-        run: impl FnOnce(&Block, bool) -> BoxFuture<()> + Send + 'async_recursion,
+        run: impl FnOnce(&Block, bool) -> BoxFuture<()> + Send,
     ) where
         S: Iterator<Item = &'a str> + Send,
     {
-        let x = sections.next();
-        trace!("Visiting {:?}", x);
-        match x {
-            Some("#") => run(self, true).await,
-            None => run(self, false).await,
-            Some(section) => {
-                if create {
-                    self.create_if_not_existing(section).await;
-                }
-                let raii = self.read().await;
-                if let Some(sub_block) = raii.sub_blocks.get(section) {
-                    sub_block.visit(sections, create, run).await;
-                }
+        let mut block = self.clone();
+        for section in sections {
+            trace!("Visiting {:?}", section);
+            if section == "#" {
+                return run(&block, true).await;
+            }
+            if create {
+                block.create_if_not_existing(section).await;
+            }
+            let sub_block = block.read().await.sub_blocks.get(section).cloned();
+            match sub_block {
+                Some(sub_block) => block = sub_block,
+                None => return,
             }
         }
+        run(&block, false).await
     }
 
-    #[async_recursion]
     async fn collect_subs<'a, S>(
-        &self,
+        self: &Arc<Self>,
         subs: &mut HashMap<ClientId, SubscriptionInfo>,
-        mut sections: S,
+        sections: S,
     ) where
         S: Iterator<Item = &'a str> + Send + Sync + Clone,
     {
-        let raii = self.read().await;
-        raii.collect_hash_wildcard(subs).await;
-        if let Some(section) = sections.next() {
-            // somewhere in the middle
-            trace!("in collect_subs, section = `{}`", section);
-            if let Some(sub_block) = raii.sub_blocks.get("+") {
-                sub_block.collect_subs(subs, sections.clone()).await;
-            }
-            if let Some(sub_block) = raii.sub_blocks.get(section) {
-                sub_block.collect_subs(subs, sections).await;
+        let mut pending = vec![(self.clone(), sections)];
+        while let Some((block, mut sections)) = pending.pop() {
+            let raii = block.read().await;
+            raii.collect_hash_wildcard(subs).await;
+            if let Some(section) = sections.next() {
+                // somewhere in the middle
+                trace!("in collect_subs, section = `{}`", section);
+                for section in ["+", section] {
+                    if let Some(sub_block) = raii.sub_blocks.get(section) {
+                        pending.push((sub_block.clone(), sections.clone()));
+                    }
+                }
+            } else {
+                // reached the end
+                raii.collect_subscribers(subs).await;
             }
-        } else {
-            // reached the end
-            raii.collect_subscribers(subs).await;
         }
     }
 
@@ -203,7 +219,7 @@ impl Block {
                 .await
                 .sub_blocks
                 .entry(Arc::from(subtopic))
-                .or_insert_with(Block::new);
+                .or_insert_with(|| Arc::new(Block::new()));
         }
     }
 }
@@ -214,7 +230,7 @@ impl Block {
 /// there must always be equivalent entry in `topics`. As such, when we insert
 /// we insert into `topics` first but removal is done in reverse order
 pub struct TopicsTable {
-    root_block: Block,
+    root_block: Arc<Block>,
     reverse_index: RwLock<HashMap<ClientId, HashSet<SubTopic>>>,
     //TODO we can have slab allocator for Block here
     // and another slab allocator for subscription info
@@ -234,7 +250,7 @@ impl Default for TopicsTable {
 impl TopicsTable {
     pub fn new() -> Self {
         TopicsTable {
-            root_block: Block::new(),
+            root_block: Arc::new(Block::new()),
             reverse_index: RwLock::new(HashMap::new()),
         }
     }
-- 
2.43.0


From b5e677afd4f243a5ab574b44b09c7b1f78c171c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 24/26] verif hook: points at which the conformance checks can
 delay tasks

Guarded by --cfg apiformes_verif; with the flag off nothing changes.
---
 server-lib/src/clients/clientworker.rs |  3 ++
 server-lib/src/clients/mod.rs          |  3 ++
 server-lib/src/clients/mqttclient.rs   |  1 +
 server-lib/src/clients/noiseclient.rs  |  1 +
 server-lib/src/dispatcher.rs           |  5 +++
 server-lib/src/lib.rs                  |  7 +---
 server-lib/src/topics.rs               |  2 +
 server-lib/src/verif.rs                | 56 ++++++++++++++++++++++++++
 8 files changed, 73 insertions(+), 5 deletions(-)
 create mode 100644 server-lib/src/verif.rs

diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index b44c75d..7dccc7c 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -63,6 +63,7 @@ impl ClientWorker {
         tokio::select! {
             p = self.conn.recv() => {
                 let packet = p?;
+                verif_point!();
                 let p = PacketInfo {
                     senderid: self.internals.clientid.clone(),
                     packet,
@@ -72,6 +73,7 @@ impl ClientWorker {
             }
             p = self.outgoing.recv() => {
                 let packet = p.map(Ok).unwrap_or_else(|| Err(ServerError::Misc("outgoing queue lost all its senders".to_owned())))?;
+                verif_point!();
                 self.conn.send(&packet).await?;
                 if let Packet::Disconnect(_) = packet {
                     // 3.14.4: after sending a DISCONNECT, close the connection
@@ -94,6 +96,7 @@ impl ClientWorker {
     }
     #[instrument(name = "ClientWorker::run", skip_all)]
     pub(super) async fn run(mut self) -> Arc<str> {
+        verif_point!();
         let shutdown = self.internals.shutdown.clone();
         let killme = self.internals.killme.clone();
         tokio::select! {
diff --git a/server-lib/src/clients/mod.rs b/server-lib/src/clients/mod.rs
index 6ae364e..e0f05c4 100644
--- a/server-lib/src/clients/mod.rs
+++ b/server-lib/src/clients/mod.rs
@@ -101,10 +101,12 @@ impl ClientManager {
             }
         };
         let client = worker.internals();
+        verif_point!();
         let mut clients = self.clients.write().await;
         if let Some(old) = clients.insert(client.clientid.clone(), client.clone()) {
             // 3.1.4: the new connection takes over the client identifier, with a clean session
             self.topics.unsubscribe_all(client.clientid.clone()).await;
+            verif_point!();
             old.killme();
         }
         drop(clients);
@@ -119,6 +121,7 @@ impl ClientManager {
                 e
             ),
             Some(Ok(id)) => {
+                verif_point!();
                 let mut clients = self.clients.write().await;
                 // the identifier may belong to another connection by now
                 if matches!(clients.get(&id), Some(c) if Arc::ptr_eq(&c.clientid, &id)) {
diff --git a/server-lib/src/clients/mqttclient.rs b/server-lib/src/clients/mqttclient.rs
index dab3c89..50b1edd 100644
--- a/server-lib/src/clients/mqttclient.rs
+++ b/server-lib/src/clients/mqttclient.rs
@@ -184,6 +184,7 @@ async fn _connect_client(
             return;
         }
     }
+    verif_point!();
     if queue.send(client).is_err() {
         error!("MPSC channel for new connections is broken");
     }
diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index a95a00c..e118d69 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -232,6 +232,7 @@ async fn _connect_client(
             return;
         }
     }
+    verif_point!();
     if queue.send(client).is_err() {
         error!("MPSC channel for new connections is broken");
     }
diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index 77249d5..04dc523 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -117,6 +117,7 @@ impl Dispatcher {
             }
         }
         let resp = response.build();
+        verif_point!();
         let clients = self.clients.read().await;
 
         for (target, info) in self.topics.get_all_subscribed(topic).await {
@@ -126,6 +127,7 @@ impl Dispatcher {
                 continue;
             }
             // RETAIN_AS_PUBLISHED makes no difference here, retained messages are refused above
+            verif_point!();
             if let Some(c) = clients.get(&target) {
                 #[cfg(feature = "noise")]
                 if strict_encryption && !c.encrypted() {
@@ -164,6 +166,7 @@ impl Dispatcher {
                 ),
             }
         }
+        verif_point!();
         // held until the end, so that the client cannot be retired half way
         let clients = self.clients.read().await;
         let sender = match Dispatcher::sender(&clients, client) {
@@ -197,6 +200,7 @@ impl Dispatcher {
             self.topics
                 .subscribe(client.clone(), topic.clone(), qos, flags)
                 .await;
+            verif_point!();
             match qos {
                 QoS::QoS0 => suback.add_reason_code(SubAckReasonCode::GrantedQoS0),
                 QoS::QoS1 => suback.add_reason_code(SubAckReasonCode::GrantedQoS1),
@@ -229,6 +233,7 @@ impl Dispatcher {
                     break;
                 }
             };
+            verif_point!();
             if let Err(e) = self
                 .process_packet(packetinfo.senderid.clone(), packetinfo.packet)
                 .await
diff --git a/server-lib/src/lib.rs b/server-lib/src/lib.rs
index df2ad1a..40b1aad 100644
--- a/server-lib/src/lib.rs
+++ b/server-lib/src/lib.rs
@@ -1,4 +1,6 @@
 #![allow(unexpected_cfgs)]
+#[macro_use]
+pub mod verif;
 mod cfg;
 pub mod clients;
 mod config;
@@ -22,11 +24,6 @@ use tokio::{
     time::{timeout, Duration},
 };
 use topics::TopicsTable;
-/// Lets the conformance checks drive the topics table on its own
-#[cfg(apiformes_verif)]
-pub mod verif {
-    pub use super::topics::{SubscriptionFlags, SubscriptionInfo, TopicsTable};
-}
 use tracing::{error, info, instrument};
 pub struct MqttServer {
     clients: Arc<RwLock<HashMap<Arc<str>, Client>>>,
diff --git a/server-lib/src/topics.rs b/server-lib/src/topics.rs
index 2250eb3..5821dcb 100644
--- a/server-lib/src/topics.rs
+++ b/server-lib/src/topics.rs
@@ -326,6 +326,7 @@ impl TopicsTable {
         flags: SubscriptionFlags,
     ) {
         self.topics_add(clientid.clone(), &topic, qos, flags).await;
+        verif_point!();
         self.reverse_index_add(clientid, topic).await;
     }
     async fn reverse_index_remove(&self, clientid: &str, topic: &str) {
@@ -361,6 +362,7 @@ impl TopicsTable {
     }
     pub async fn unsubscribe_all(&self, clientid: Arc<str>) {
         if let Some(topics) = self.reverse_index_remove_all(&clientid).await {
+            verif_point!();
             for topic in topics {
                 self.topic_remove(clientid.clone(), &topic).await
             }
diff --git a/server-lib/src/verif.rs b/server-lib/src/verif.rs
new file mode 100644
index 0000000..aa8959e
--- /dev/null
+++ b/server-lib/src/verif.rs
@@ -0,0 +1,56 @@
+//! What the conformance checks need; empty without `--cfg apiformes_verif`
+
+/// A point at which the checks may delay the task that reaches it
+#[cfg(apiformes_verif)]
+macro_rules! verif_point {
+    () => {
+        crate::verif::point().await
+    };
+}
+#[cfg(not(apiformes_verif))]
+macro_rules! verif_point {
+    () => {};
+}
+
+#[cfg(apiformes_verif)]
+pub use hooks::*;
+#[cfg(apiformes_verif)]
+mod hooks {
+    // Lets the checks drive the topics table on its own
+    pub use crate::topics::{SubscriptionFlags, SubscriptionInfo, TopicsTable};
+    use std::sync::atomic::{AtomicU64, Ordering};
+    use tokio::time::{sleep, Duration};
+
+    static PER_MILLE: AtomicU64 = AtomicU64::new(0);
+    static STATE: AtomicU64 = AtomicU64::new(0);
+
+    /// How often a task is delayed when it reaches a point
+    pub fn set_delays(per_mille: u64, seed: u64) {
+        STATE.store(seed, Ordering::SeqCst);
+        PER_MILLE.store(per_mille, Ordering::SeqCst);
+    }
+
+    pub async fn point() {
+        let per_mille = PER_MILLE.load(Ordering::Relaxed);
+        if per_mille == 0 {
+            return;
+        }
+        // splitmix64
+        let mut z = STATE.fetch_add(0x9e3779b97f4a7c15, Ordering::Relaxed);
+        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
+        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
+        z ^= z >> 31;
+        if z % 1000 >= per_mille {
+            return;
+        }
+        match (z >> 20) % 20 {
+            k @ 0..=9 => {
+                for _ in 0..=k / 2 {
+                    tokio::task::yield_now().await
+                }
+            }
+            k @ 10..=16 => sleep(Duration::from_millis(k - 9)).await,
+            _ => sleep(Duration::from_millis(10 + (z >> 40) % 15)).await,
+        }
+    }
+}
-- 
2.43.0


From 50052a10ca831f789cd1fc95226c882fa9f1979d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:13 +0000
Subject: [PATCH 25/26] fix: leave no listener behind when the server cannot
 start

---
 server-lib/src/clients/mod.rs | 59 +++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 27 deletions(-)

diff --git a/server-lib/src/clients/mod.rs b/server-lib/src/clients/mod.rs
index e0f05c4..c071594 100644
--- a/server-lib/src/clients/mod.rs
+++ b/server-lib/src/clients/mod.rs
@@ -14,7 +14,7 @@ pub use mqttclient::MqttListener;
 #[cfg(feature = "noise")]
 pub use noiseclient::NoiseListener;
 use std::collections::HashMap;
-use std::{net::SocketAddr, sync::Arc};
+use std::sync::Arc;
 use tokio::{
     net::TcpListener,
     sync::{
@@ -61,30 +61,37 @@ impl ClientManager {
     ) -> Result<Vec<JoinHandle<()>>, ServerError> {
         let (tx, rx) = unbounded_channel();
 
+        // bind all of them before any of them is served, so that nothing is left behind if one fails
+        let mqtt_listener = match cfg.mqtt_socketaddr {
+            Some(saddr) => Some(TcpListener::bind(saddr).await?),
+            None => None,
+        };
+        #[cfg(feature = "noise")]
+        let noise_listener = match cfg.noise_socketaddr {
+            Some(saddr) => Some(TcpListener::bind(saddr).await?),
+            None => None,
+        };
+
         let mut workers = Vec::new();
-        if let Some(saddr) = cfg.mqtt_socketaddr {
-            let handle = ClientManager::incomming_mqtt_listener(
-                &saddr,
+        if let Some(listener) = mqtt_listener {
+            workers.push(ClientManager::incomming_mqtt_listener(
+                listener,
                 tx.clone(),
                 shutdown.clone(),
                 cfg.clone(),
                 incoming.clone(),
-            )
-            .await?;
-            workers.push(handle)
+            ))
         }
 
         #[cfg(feature = "noise")]
-        if let Some(saddr) = cfg.noise_socketaddr {
-            let handle = ClientManager::incomming_noise_listener(
-                &saddr,
+        if let Some(listener) = noise_listener {
+            workers.push(ClientManager::incomming_noise_listener(
+                listener,
                 tx.clone(),
                 shutdown.clone(),
                 cfg.clone(),
                 incoming,
-            )
-            .await?;
-            workers.push(handle)
+            ))
         }
 
         let man = ClientManager::new(cfg, clients, topics, shutdown, rx);
@@ -166,44 +173,42 @@ impl ClientManager {
         info!("Starting clients manager");
         tokio::spawn(async move { self.run().await })
     }
-    async fn incomming_mqtt_listener(
-        saddr: &SocketAddr,
+    fn incomming_mqtt_listener(
+        listener: TcpListener,
         tx: UnboundedSender<ClientWorker>,
         shutdown: Arc<Notify>,
         cfg: Arc<MqttServerConfig>,
         incoming: Sender<PacketInfo>,
-    ) -> Result<JoinHandle<()>, ServerError> {
-        let listener = TcpListener::bind(saddr).await?;
+    ) -> JoinHandle<()> {
         info!(
-            SocketAddr = &*format!("{}", saddr),
+            SocketAddr = ?listener.local_addr(),
             "Starting listener for incoming unencrypted connections"
         );
 
-        Ok(tokio::spawn(async move {
+        tokio::spawn(async move {
             MqttListener::new(listener, tx, shutdown, cfg, incoming)
                 .run()
                 .await
-        }))
+        })
     }
 
     #[cfg(feature = "noise")]
-    async fn incomming_noise_listener(
-        saddr: &SocketAddr,
+    fn incomming_noise_listener(
+        listener: TcpListener,
         tx: UnboundedSender<ClientWorker>,
         shutdown: Arc<Notify>,
         cfg: Arc<MqttServerConfig>,
         incoming: Sender<PacketInfo>,
-    ) -> Result<JoinHandle<()>, ServerError> {
-        let listener = TcpListener::bind(saddr).await?;
+    ) -> JoinHandle<()> {
         info!(
-            SocketAddr = &*format!("{}", saddr),
+            SocketAddr = ?listener.local_addr(),
             "Starting listener for incoming encrypted connections"
         );
 
-        Ok(tokio::spawn(async move {
+        tokio::spawn(async move {
             NoiseListener::new(listener, tx, shutdown, cfg, incoming)
                 .run()
                 .await
-        }))
+        })
     }
 }
-- 
2.43.0


From db0a5264363d36118f81ae2d99277d1a1f851873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:53 +0000
Subject: [PATCH 26/26] verif hook: the tasks of the broker yield at any of
 their operations

---
 server-lib/src/clients/mod.rs         |  8 ++--
 server-lib/src/clients/mqttclient.rs  |  2 +-
 server-lib/src/clients/noiseclient.rs |  2 +-
 server-lib/src/dispatcher.rs          |  2 +-
 server-lib/src/verif.rs               | 68 ++++++++++++++++++++++++---
 5 files changed, 69 insertions(+), 13 deletions(-)

diff --git a/server-lib/src/clients/mod.rs b/server-lib/src/clients/mod.rs
index c071594..1355bf4 100644
--- a/server-lib/src/clients/mod.rs
+++ b/server-lib/src/clients/mod.rs
@@ -118,7 +118,7 @@ impl ClientManager {
         }
         drop(clients);
         self.workers
-            .push(tokio::spawn(async move { worker.run().await }));
+            .push(crate::verif::spawn(async move { worker.run().await }));
         true
     }
     async fn process_retiring_worker(&mut self, maybe_id: Option<Result<Arc<str>, JoinError>>) {
@@ -171,7 +171,7 @@ impl ClientManager {
     }
     async fn start_processing(self) -> JoinHandle<()> {
         info!("Starting clients manager");
-        tokio::spawn(async move { self.run().await })
+        crate::verif::spawn(async move { self.run().await })
     }
     fn incomming_mqtt_listener(
         listener: TcpListener,
@@ -185,7 +185,7 @@ impl ClientManager {
             "Starting listener for incoming unencrypted connections"
         );
 
-        tokio::spawn(async move {
+        crate::verif::spawn(async move {
             MqttListener::new(listener, tx, shutdown, cfg, incoming)
                 .run()
                 .await
@@ -205,7 +205,7 @@ impl ClientManager {
             "Starting listener for incoming encrypted connections"
         );
 
-        tokio::spawn(async move {
+        crate::verif::spawn(async move {
             NoiseListener::new(listener, tx, shutdown, cfg, incoming)
                 .run()
                 .await
diff --git a/server-lib/src/clients/mqttclient.rs b/server-lib/src/clients/mqttclient.rs
index 50b1edd..5304a13 100644
--- a/server-lib/src/clients/mqttclient.rs
+++ b/server-lib/src/clients/mqttclient.rs
@@ -138,7 +138,7 @@ fn connect_client(
     queue: UnboundedSender<ClientWorker>,
     shutdown: Arc<Notify>,
 ) {
-    tokio::spawn(async move { _connect_client(client, saddr, queue, shutdown).await });
+    crate::verif::spawn(async move { _connect_client(client, saddr, queue, shutdown).await });
 }
 
 enum ConnectState {
diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index e118d69..7a767f1 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -148,7 +148,7 @@ fn connect_client(
     cfg: Arc<MqttServerConfig>,
     incoming: Sender<PacketInfo>,
 ) {
-    tokio::spawn(
+    crate::verif::spawn(
         async move { _connect_client(stream, saddr, queue, shutdown, cfg, incoming).await },
     );
 }
diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index 04dc523..bdf0f79 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -251,7 +251,7 @@ impl Dispatcher {
         }
     }
     pub async fn spawn(self) -> JoinHandle<()> {
-        tokio::spawn(async move {
+        crate::verif::spawn(async move {
             self.run().await;
         })
     }
diff --git a/server-lib/src/verif.rs b/server-lib/src/verif.rs
index aa8959e..8a9ae4a 100644
--- a/server-lib/src/verif.rs
+++ b/server-lib/src/verif.rs
@@ -14,12 +14,19 @@ macro_rules! verif_point {
 
 #[cfg(apiformes_verif)]
 pub use hooks::*;
+#[cfg(not(apiformes_verif))]
+pub(crate) use tokio::spawn;
 #[cfg(apiformes_verif)]
 mod hooks {
     // Lets the checks drive the topics table on its own
     pub use crate::topics::{SubscriptionFlags, SubscriptionInfo, TopicsTable};
+    use std::future::Future;
+    use std::pin::Pin;
     use std::sync::atomic::{AtomicU64, Ordering};
-    use tokio::time::{sleep, Duration};
+    use std::task::{Context, Poll};
+    use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver};
+    use tokio::task::JoinHandle;
+    use tokio::time::{sleep, Duration, Sleep};
 
     static PER_MILLE: AtomicU64 = AtomicU64::new(0);
     static STATE: AtomicU64 = AtomicU64::new(0);
@@ -30,16 +37,20 @@ mod hooks {
         PER_MILLE.store(per_mille, Ordering::SeqCst);
     }
 
+    fn dice() -> u64 {
+        // splitmix64
+        let mut z = STATE.fetch_add(0x9e3779b97f4a7c15, Ordering::Relaxed);
+        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
+        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
+        z ^ (z >> 31)
+    }
+
     pub async fn point() {
         let per_mille = PER_MILLE.load(Ordering::Relaxed);
         if per_mille == 0 {
             return;
         }
-        // splitmix64
-        let mut z = STATE.fetch_add(0x9e3779b97f4a7c15, Ordering::Relaxed);
-        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
-        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
-        z ^= z >> 31;
+        let z = dice();
         if z % 1000 >= per_mille {
             return;
         }
@@ -53,4 +64,49 @@ mod hooks {
             _ => sleep(Duration::from_millis(10 + (z >> 40) % 15)).await,
         }
     }
+
+    /// Spawns a task that may have to yield at any of its operations (as tokio has it do after
+    /// 128 of them), and to wait
+    pub(crate) fn spawn<F>(f: F) -> JoinHandle<F::Output>
+    where
+        F: Future + Send + 'static,
+        F::Output: Send + 'static,
+    {
+        tokio::spawn(Hampered {
+            f: Box::pin(f),
+            wait: None,
+            closed: unbounded_channel().1,
+        })
+    }
+    struct Hampered<F> {
+        f: Pin<Box<F>>,
+        wait: Option<Pin<Box<Sleep>>>,
+        closed: UnboundedReceiver<()>,
+    }
+    impl<F: Future> Future for Hampered<F> {
+        type Output = F::Output;
+        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
+            let per_mille = PER_MILLE.load(Ordering::Relaxed);
+            if per_mille > 0 {
+                let z = dice();
+                if self.wait.is_none() && 2 * (z % 1000) < per_mille {
+                    let ms = if z >> 60 == 0 { 10 } else { (z >> 40) % 3 };
+                    self.wait = Some(Box::pin(sleep(Duration::from_millis(ms))));
+                }
+                if let Some(w) = self.wait.as_mut() {
+                    match w.as_mut().poll(cx) {
+                        Poll::Pending => return Poll::Pending,
+                        Poll::Ready(()) => self.wait = None,
+                    }
+                }
+                if (z >> 20) % 2 == 0 {
+                    // leaves it a few of its 128 operations
+                    for _ in 0..127 - (z >> 30) % 4 {
+                        let _ = self.closed.poll_recv(cx);
+                    }
+                }
+            }
+            self.f.as_mut().poll(cx)
+        }
+    }
 }
-- 
2.43.0

