From 02dbb010115cbce52d11fdc5bbdc70d5c2e0a551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:51 +0000
Subject: [PATCH 01/29] fix: netcode: reject packets with an unknown or
 disallowed type or an invalid sequence length

A datagram whose prefix byte carried a sequence length above 8, or a request
type with sequence bytes, made the receiver panic (slice out of range, shift
overflow, unreachable!) before any authentication.
---
 crates/connection/netcode/src/packet.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/connection/netcode/src/packet.rs b/crates/connection/netcode/src/packet.rs
index 787d03b..f66cbcf 100644
--- a/crates/connection/netcode/src/packet.rs
+++ b/crates/connection/netcode/src/packet.rs
@@ -560,8 +560,9 @@ impl Packet {
         let mut cursor = io::Cursor::new(buf);
         let prefix_byte = cursor.read_u8()?;
         let (sequence_len, pkt_kind) = Packet::get_prefix(prefix_byte);
-        if allowed_packets & (1 << pkt_kind) == 0 {
+        if pkt_kind > Packet::DISCONNECT || allowed_packets & (1 << pkt_kind) == 0 {
             debug!("ignoring packet of type {}, not allowed", pkt_kind);
+            return Err(Error::InvalidType(pkt_kind).into());
         }
         if prefix_byte == Packet::REQUEST {
             // connection request packet: first byte should be 0x00
@@ -570,6 +571,13 @@ impl Packet {
             packet.decrypt_token_data(key)?;
             return Ok(Packet::Request(packet));
         }
+        if pkt_kind == Packet::REQUEST {
+            // a connection request is never encrypted with a session key
+            return Err(Error::InvalidType(pkt_kind).into());
+        }
+        if !(1..=size_of::<u64>()).contains(&sequence_len) {
+            return Err(Error::InvalidSequenceBytes(sequence_len as u8).into());
+        }
         if buf_len < size_of::<u8>() + sequence_len + MAC_BYTES {
             // should at least have prefix byte, sequence and mac
             return Err(Error::TooSmall.into());
@@ -608,7 +616,6 @@ impl Packet {
         }
 
         let packet = match pkt_kind {
-            Packet::REQUEST => Packet::Request(RequestPacket::read_from(&mut cursor)?),
             Packet::DENIED => Packet::Denied(DeniedPacket::read_from(&mut cursor)?),
             Packet::CHALLENGE => Packet::Challenge(ChallengePacket::read_from(&mut cursor)?),
             Packet::RESPONSE => Packet::Response(ResponsePacket::read_from(&mut cursor)?),
-- 
2.43.0


From 152173a77f79752a9d6774e769bfc364721a55c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:51 +0000
Subject: [PATCH 02/29] fix: netcode: replay protection must not overflow on
 sequence numbers near u64::MAX

---
 crates/connection/netcode/src/replay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/connection/netcode/src/replay.rs b/crates/connection/netcode/src/replay.rs
index 44bcd4c..b06070b 100644
--- a/crates/connection/netcode/src/replay.rs
+++ b/crates/connection/netcode/src/replay.rs
@@ -24,7 +24,7 @@ impl ReplayProtection {
     }
 
     pub fn is_already_received(&self, sequence: u64) -> bool {
-        if sequence + self.received_packet.len() as u64 <= self.most_recent_sequence {
+        if self.most_recent_sequence.saturating_sub(sequence) >= self.received_packet.len() as u64 {
             return true;
         }
 
-- 
2.43.0


From fea31fca7f20d182899442b5c525ed3d4512a9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:51 +0000
Subject: [PATCH 03/29] fix: netcode server: a new connection request must not
 corrupt another pending connection

A second request on an entity with a pending connection kept the old map key
under another client id, and a second request for the same id from another
entity left the first entity pointing at it: the new client could never connect.
---
 crates/connection/netcode/src/server.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/crates/connection/netcode/src/server.rs b/crates/connection/netcode/src/server.rs
index ae5b8b8..fb750e9 100644
--- a/crates/connection/netcode/src/server.rs
+++ b/crates/connection/netcode/src/server.rs
@@ -148,8 +148,30 @@ impl ConnectionCache {
         user_data: [u8; USER_DATA_BYTES],
     ) {
         let time = self.time;
+        // this entity is now used by `client_id`: forget a pending connection for another id
+        if let Some(&previous_id) = self.client_id_map.get(&entity)
+            && previous_id != client_id
+        {
+            if self
+                .clients
+                .get(&previous_id)
+                .is_some_and(|previous| previous.entity == entity)
+            {
+                self.clients.remove(&previous_id);
+                self.replay_protection.remove(&previous_id);
+            }
+            self.client_id_map.remove(&entity);
+        }
+        // `client_id` now connects through this entity: forget the entity it was pending on
+        if let Some(previous_entity) = self
+            .clients
+            .get(&client_id)
+            .map(|previous| previous.entity)
+            .filter(|previous_entity| *previous_entity != entity)
+        {
+            self.client_id_map.remove(&previous_entity);
+        }
         if let Some(existing) = self.mut_by_entity(&entity) {
-            existing.client_id = client_id;
             existing.timeout = timeout;
             existing.send_key = send_key;
             existing.receive_key = receive_key;
-- 
2.43.0


From 6718f2a76e73003efa03e29346680dd0ac60fc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:51 +0000
Subject: [PATCH 04/29] fix: netcode server: hand payloads up only for
 established sessions

---
 crates/connection/netcode/src/server.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/connection/netcode/src/server.rs b/crates/connection/netcode/src/server.rs
index fb750e9..c6e3226 100644
--- a/crates/connection/netcode/src/server.rs
+++ b/crates/connection/netcode/src/server.rs
@@ -593,8 +593,12 @@ impl<Ctx> Server<Ctx> {
                 Ok(None)
             }
             Packet::Payload(packet) => {
-                if let Some(client_id) =
-                    self.conn_cache.find_by_entity(&entity).map(|c| c.client_id)
+                // a payload is only meaningful in an established session
+                if let Some(client_id) = self
+                    .conn_cache
+                    .find_by_entity(&entity)
+                    .filter(|c| c.is_connected())
+                    .map(|c| c.client_id)
                 {
                     self.touch_client(client_id);
                     Ok(Some(packet.into_recv()))
-- 
2.43.0


From de95d7ca8fa466dc21a2278806e8cb2f99b14c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:51 +0000
Subject: [PATCH 05/29] fix: netcode client: leave Connected when the session
 ended and the next server is tried

---
 .../connection/netcode/src/client_plugin.rs   | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/crates/connection/netcode/src/client_plugin.rs b/crates/connection/netcode/src/client_plugin.rs
index 66f75ac..8933729 100644
--- a/crates/connection/netcode/src/client_plugin.rs
+++ b/crates/connection/netcode/src/client_plugin.rs
@@ -171,6 +171,25 @@ impl NetcodeClientPlugin {
                             ));
                         });
                     }
+                    if !connecting
+                        && !disconnected
+                        && matches!(
+                            state,
+                            ClientState::SendingConnectionRequest
+                                | ClientState::SendingChallengeResponse
+                        )
+                    {
+                        // the session ended and the client moved on to the next server of its token
+                        info!("Client {} disconnected, trying next server", client.id());
+                        parallel_commands.command_scope(|mut commands| {
+                            commands
+                                .entity(entity)
+                                .insert(Disconnected {
+                                    reason: DisconnectedReason::ByPeer(None),
+                                })
+                                .insert(Connecting);
+                        });
+                    }
                     if !disconnected
                         && !matches!(
                             state,
-- 
2.43.0


From ea5b2ad4985151ed5dc649b25599471f66b7fe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:35 +0000
Subject: [PATCH 06/29] fix: bound collection preallocation by the bytes left
 when decoding

---
 crates/transport/serde/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/transport/serde/src/lib.rs b/crates/transport/serde/src/lib.rs
index 13dc1d1..9edf9c1 100644
--- a/crates/transport/serde/src/lib.rs
+++ b/crates/transport/serde/src/lib.rs
@@ -218,8 +218,9 @@ impl<M: ToBytes> ToBytes for Vec<M> {
         Self: Sized,
     {
         let len = buffer.read_varint()? as usize;
+        // `len` comes from the remote: never preallocate for more items than there are bytes left
         // TODO: if we know the MIN_LEN we can preallocate
-        let mut vec = Vec::with_capacity(len);
+        let mut vec = Vec::with_capacity(len.min(buffer.remaining()));
         for _ in 0..len {
             vec.push(M::from_bytes(buffer)?);
         }
@@ -249,7 +250,7 @@ where
         Self: Sized,
     {
         let len = buffer.read_varint()? as usize;
-        let mut values = SmallVec::with_capacity(len);
+        let mut values = SmallVec::with_capacity(len.min(buffer.remaining()));
         for _ in 0..len {
             values.push(A::Item::from_bytes(buffer)?);
         }
@@ -282,7 +283,7 @@ impl<K: ToBytes + Eq + Hash, V: ToBytes, S: Default + BuildHasher> ToBytes for H
     {
         let len = buffer.read_varint()? as usize;
         // TODO: if we know the MIN_LEN we can preallocate
-        let mut res = HashMap::with_capacity_and_hasher(len, S::default());
+        let mut res = HashMap::with_capacity_and_hasher(len.min(buffer.remaining()), S::default());
         for _ in 0..len {
             let key = K::from_bytes(buffer)?;
             let value = V::from_bytes(buffer)?;
-- 
2.43.0


From 5f1ecf705c72060b0650aa7e23d25bc1cca1d009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:35 +0000
Subject: [PATCH 07/29] fix: a disconnecting connection no longer drops the
 peer_map entry of the entity that replaced it

---
 crates/connection/connection/src/client.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/connection/connection/src/client.rs b/crates/connection/connection/src/client.rs
index 7283f61..c7a84e2 100644
--- a/crates/connection/connection/src/client.rs
+++ b/crates/connection/connection/src/client.rs
@@ -121,12 +121,7 @@ pub struct Disconnected {
 
 impl Disconnected {
     fn on_add(mut world: DeferredWorld, context: HookContext) {
-        if let Some(peer_id) = world.get::<RemoteId>(context.entity).map(|c| c.0) {
-            world
-                .resource_mut::<NetworkingMetadata>()
-                .peer_map
-                .remove(&peer_id);
-        }
+        clear_peer_mapping(&mut world, context.entity);
         world
             .commands()
             .entity(context.entity)
@@ -134,6 +129,19 @@ impl Disconnected {
     }
 }
 
+/// Remove the [`NetworkingMetadata::peer_map`] entry of a peer, unless the peer is now connected
+/// through another entity.
+fn clear_peer_mapping(world: &mut DeferredWorld, entity: Entity) {
+    let Some(peer_id) = world.get::<RemoteId>(entity).map(|c| c.0) else {
+        return;
+    };
+    if let Some(mut metadata) = world.get_resource_mut::<NetworkingMetadata>()
+        && metadata.peer_map.get(&peer_id) == Some(&entity)
+    {
+        metadata.peer_map.remove(&peer_id);
+    }
+}
+
 #[derive(Component, Default, Debug, Reflect)]
 #[component(on_add = Disconnecting::on_add)]
 pub struct Disconnecting;
-- 
2.43.0


From d8b2ef4fe1e5c3147ab7f119b3c393c5261fc934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:35 +0000
Subject: [PATCH 08/29] fix: despawning a connected entity removes its peer_map
 entry

---
 crates/connection/connection/src/client.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/connection/connection/src/client.rs b/crates/connection/connection/src/client.rs
index c7a84e2..5e17a28 100644
--- a/crates/connection/connection/src/client.rs
+++ b/crates/connection/connection/src/client.rs
@@ -44,7 +44,7 @@ pub struct Disconnect {
 //  We should decide on a rule.
 
 #[derive(Component, Debug, Reflect)]
-#[component(on_add = Connected::on_add)]
+#[component(on_add = Connected::on_add, on_despawn = clear_peer_mapping_on_despawn)]
 pub struct Connected;
 
 impl Connected {
@@ -70,7 +70,7 @@ impl Connected {
 
 // TODO: add automatic disconnection for entities that are Connecting for too long
 #[derive(Component, Default, Debug, Reflect)]
-#[component(on_add = Connecting::on_add)]
+#[component(on_add = Connecting::on_add, on_despawn = clear_peer_mapping_on_despawn)]
 pub struct Connecting;
 
 impl Connecting {
@@ -142,8 +142,12 @@ fn clear_peer_mapping(world: &mut DeferredWorld, entity: Entity) {
     }
 }
 
+fn clear_peer_mapping_on_despawn(mut world: DeferredWorld, context: HookContext) {
+    clear_peer_mapping(&mut world, context.entity);
+}
+
 #[derive(Component, Default, Debug, Reflect)]
-#[component(on_add = Disconnecting::on_add)]
+#[component(on_add = Disconnecting::on_add, on_despawn = clear_peer_mapping_on_despawn)]
 pub struct Disconnecting;
 
 impl Disconnecting {
-- 
2.43.0


From 3cd0863a0b9ae1c782aa32441d6f008f0facc2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:35 +0000
Subject: [PATCH 09/29] fix: Linking inserted on a linked link is dropped
 instead of staying next to Linked

---
 crates/io/link/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/io/link/src/lib.rs b/crates/io/link/src/lib.rs
index a36dcc6..3bb3b95 100644
--- a/crates/io/link/src/lib.rs
+++ b/crates/io/link/src/lib.rs
@@ -409,6 +409,7 @@ impl Linking {
         // If `Linked` got inserted at the same frame right after `Linking`, we don't want to
         // change the state or remove the `Linked` component.
         if world.get::<Linked>(context.entity).is_some() {
+            world.commands().entity(context.entity).remove::<Linking>();
             return;
         }
         if let Some(mut link) = world.get_mut::<Link>(context.entity) {
-- 
2.43.0


From 8ef00005250343e7c1757e8dbfcef0e0b7f64523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:21 +0000
Subject: [PATCH 10/29] fix: stopping a raw server no longer panics on a host
 client that disconnected before

---
 crates/connection/raw_connection/src/server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/connection/raw_connection/src/server.rs b/crates/connection/raw_connection/src/server.rs
index 2d5dab8..c993c6f 100644
--- a/crates/connection/raw_connection/src/server.rs
+++ b/crates/connection/raw_connection/src/server.rs
@@ -64,7 +64,10 @@ impl RawConnectionPlugin {
         trigger: On<Stop>,
         mut commands: Commands,
         mut query: Query<&Server, (Without<Stopped>, With<RawServer>)>,
-        link_query: Query<(Entity, &RemoteId), (With<ClientOf>, Without<HostClient>)>,
+        link_query: Query<
+            (Entity, &RemoteId),
+            (With<ClientOf>, Without<HostClient>, Without<Client>),
+        >,
     ) -> Result {
         if let Ok(server) = query.get_mut(trigger.entity) {
             trace!("RawClient Stop! Disconnecting all LinkOfs and triggering Unlink");
-- 
2.43.0


From 019d2b9df594e8c059aa3e9d97230753964b8197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:22 +0000
Subject: [PATCH 11/29] fix: a stopped raw server ends up Stopped instead of
 Stopping forever

---
 crates/connection/raw_connection/src/server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/connection/raw_connection/src/server.rs b/crates/connection/raw_connection/src/server.rs
index c993c6f..15e7788 100644
--- a/crates/connection/raw_connection/src/server.rs
+++ b/crates/connection/raw_connection/src/server.rs
@@ -71,11 +71,11 @@ impl RawConnectionPlugin {
     ) -> Result {
         if let Ok(server) = query.get_mut(trigger.entity) {
             trace!("RawClient Stop! Disconnecting all LinkOfs and triggering Unlink");
+            commands.entity(trigger.entity).insert(Stopping);
             commands.trigger(Unlink {
                 entity: trigger.entity,
                 reason: UnlinkReason::ServerStopped,
             });
-            commands.entity(trigger.entity).insert(Stopping);
             // SAFETY: we know that the list of client entities are unique because it is a Relationship
             let unique_slice =
                 unsafe { UniqueEntitySlice::from_slice_unchecked(server.collection()) };
@@ -93,6 +93,8 @@ impl RawConnectionPlugin {
                     Ok(())
                 },
             )?;
+            // the link is closed: unlike netcode, there is nothing to wait for
+            commands.entity(trigger.entity).insert(Stopped);
         }
         Ok(())
     }
-- 
2.43.0


From 4e4455973b36c4b690a2332df812eae9538e9bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:22 +0000
Subject: [PATCH 12/29] Conformance hook: target algebra behind --cfg
 lightyear_verif

---
 .../connection/src/network_target.rs          | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/crates/connection/connection/src/network_target.rs b/crates/connection/connection/src/network_target.rs
index 68f8bbe..be360f9 100644
--- a/crates/connection/connection/src/network_target.rs
+++ b/crates/connection/connection/src/network_target.rs
@@ -822,6 +822,29 @@ impl<T: Eq + Hash + Copy> Target<T> {
     }
 }
 
+/// Access to the target algebra for out-of-tree conformance checks (only with `--cfg lightyear_verif`).
+#[allow(unexpected_cfgs)]
+mod verif {
+    #[cfg(lightyear_verif)]
+    impl<T: Eq + core::hash::Hash + Copy> super::Target<T> {
+        pub fn verif_intersection(&mut self, target: &Self) {
+            self.intersection(target)
+        }
+
+        pub fn verif_union(&mut self, target: &Self) {
+            self.union(target)
+        }
+
+        pub fn verif_inverse(&mut self) {
+            self.inverse()
+        }
+
+        pub fn verif_exclude(&mut self, target: &Self) {
+            self.exclude(target)
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 93867489f4975b9c73080c100353217a8f9e2a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:36 +0000
Subject: [PATCH 13/29] hook: expose P2P control messages and session roster
 hash behind --cfg lightyear_verif

---
 crates/connection/p2p/src/session.rs | 84 ++++++++++++++++++++++++++++
 1 file changed, 84 insertions(+)

diff --git a/crates/connection/p2p/src/session.rs b/crates/connection/p2p/src/session.rs
index 63c3ac4..cd9f2ab 100644
--- a/crates/connection/p2p/src/session.rs
+++ b/crates/connection/p2p/src/session.rs
@@ -821,6 +821,90 @@ fn drive_session(
     }
 }
 
+/// Conformance-checking access to the private control messages (`--cfg lightyear_verif` only).
+#[cfg(lightyear_verif)]
+pub mod verif {
+    use super::*;
+
+    /// A control message in the clear.
+    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
+    pub struct ControlMessage {
+        pub acknowledgement: bool,
+        pub generation: u32,
+        pub roster_hash: u64,
+        pub tick: Tick,
+    }
+
+    /// The control messages that wait to be read on a link; they stay there.
+    pub fn received(world: &mut World, link: Entity) -> Vec<ControlMessage> {
+        let mut waiting = Vec::new();
+        if let Some(mut receiver) = world.get_mut::<MessageReceiver<P2PSessionMessage>>(link) {
+            receiver.retain_messages(|message| {
+                waiting.push(match *message {
+                    P2PSessionMessage::Ready {
+                        generation,
+                        roster_hash,
+                        earliest_start_tick,
+                    } => ControlMessage {
+                        acknowledgement: false,
+                        generation,
+                        roster_hash,
+                        tick: earliest_start_tick,
+                    },
+                    P2PSessionMessage::StartAcknowledgement {
+                        generation,
+                        roster_hash,
+                        start_tick,
+                    } => ControlMessage {
+                        acknowledgement: true,
+                        generation,
+                        roster_hash,
+                        tick: start_tick,
+                    },
+                });
+                true
+            });
+        }
+        waiting
+    }
+
+    /// Queues a control message on a link.
+    pub fn send(world: &mut World, link: Entity, message: ControlMessage) {
+        let ControlMessage {
+            acknowledgement,
+            generation,
+            roster_hash,
+            tick,
+        } = message;
+        let message = if acknowledgement {
+            P2PSessionMessage::StartAcknowledgement {
+                generation,
+                roster_hash,
+                start_tick: tick,
+            }
+        } else {
+            P2PSessionMessage::Ready {
+                generation,
+                roster_hash,
+                earliest_start_tick: tick,
+            }
+        };
+        if let Some(mut sender) = world.get_mut::<MessageSender<P2PSessionMessage>>(link) {
+            sender.send::<P2PSessionChannel>(message);
+        }
+    }
+
+    /// Hash of the roster of the current start attempt.
+    pub fn roster_hash(session: &P2PSession) -> Option<u64> {
+        session.roster_hash
+    }
+
+    /// Number of the latest start attempt.
+    pub fn generation(session: &P2PSession) -> u32 {
+        session.generation
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 51b427d69f9ed8d1d67f8511146023906c43e258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:38 +0000
Subject: [PATCH 14/29] fix: messages not yet sent when the connection ends are
 not sent in the next one

---
 crates/transport/messages/src/plugin.rs       | 26 ++++++++++++++++---
 crates/transport/messages/src/registry.rs     |  5 +++-
 crates/transport/messages/src/send.rs         | 12 +++++++++
 crates/transport/messages/src/send_trigger.rs |  9 +++++++
 crates/transport/messages/src/trigger.rs      |  1 +
 5 files changed, 48 insertions(+), 5 deletions(-)

diff --git a/crates/transport/messages/src/plugin.rs b/crates/transport/messages/src/plugin.rs
index 39e06e1..dbe4586 100644
--- a/crates/transport/messages/src/plugin.rs
+++ b/crates/transport/messages/src/plugin.rs
@@ -65,13 +65,14 @@ pub const MAX_PENDING_TIMELINE_PAYLOADS: usize = 4096;
 pub const MAX_TIMELINE_LAG_TICKS: u32 = 100;
 
 impl MessagePlugin {
-    /// Resets receive state when a connection ends.
+    /// Resets message state when a connection ends.
     ///
     /// Typed message receivers and private timeline-event queues are recreated
     /// lazily, so removing them is enough to discard both ready and pending
-    /// payloads from the previous connection epoch.
+    /// payloads from the previous connection epoch. Senders stay on the entity,
+    /// so the messages that they have not sent yet are discarded instead.
     fn handle_disconnection(trigger: On<Add, Disconnected>, mut world: DeferredWorld) {
-        let receiver_components = {
+        let (receiver_components, senders) = {
             let Some(registry) = world.get_resource::<MessageRegistry>() else {
                 return;
             };
@@ -86,7 +87,18 @@ impl MessagePlugin {
                     .values()
                     .map(|metadata| metadata.component_id),
             );
-            receiver_components
+            let senders = registry
+                .send_metadata
+                .values()
+                .map(|metadata| (metadata.component_id, metadata.clear_fn))
+                .chain(
+                    registry
+                        .send_trigger_metadata
+                        .values()
+                        .map(|metadata| (metadata.component_id, metadata.clear_fn)),
+                )
+                .collect::<alloc::vec::Vec<_>>();
+            (receiver_components, senders)
         };
 
         let entity = trigger.entity;
@@ -101,6 +113,12 @@ impl MessagePlugin {
             for component_id in receiver_components {
                 entity_mut.remove_by_id(component_id);
             }
+            for (component_id, clear_fn) in senders {
+                if let Ok(sender) = entity_mut.get_mut_by_id(component_id) {
+                    // SAFETY: the callback is registered together with this component id.
+                    unsafe { clear_fn(sender) };
+                }
+            }
         });
     }
 
diff --git a/crates/transport/messages/src/registry.rs b/crates/transport/messages/src/registry.rs
index c0a928a..c8a6ee7 100644
--- a/crates/transport/messages/src/registry.rs
+++ b/crates/transport/messages/src/registry.rs
@@ -3,7 +3,7 @@ use crate::receive::{
     ReleaseTimelineMessageFn,
 };
 use crate::receive_event::{ReceiveLocalTriggerFn, ReceiveTriggerFn, ReleaseTimelineTriggerFn};
-use crate::send::{MessageSender, SendLocalMessageFn, SendMessageFn};
+use crate::send::{ClearSenderFn, MessageSender, SendLocalMessageFn, SendMessageFn};
 use crate::send_trigger::{SendLocalTriggerFn, SendTriggerFn};
 use crate::{Message, MessageNetId};
 use bevy_app::App;
@@ -130,6 +130,7 @@ pub(crate) struct SendMessageMetadata {
     pub(crate) component_id: ComponentId,
     pub(crate) send_message_fn: SendMessageFn,
     pub(crate) send_local_message_fn: SendLocalMessageFn,
+    pub(crate) clear_fn: ClearSenderFn,
 }
 
 #[derive(Debug, Clone, TypePath)]
@@ -138,6 +139,7 @@ pub(crate) struct SendTriggerMetadata {
     pub(crate) component_id: ComponentId,
     pub(crate) send_trigger_fn: SendTriggerFn,
     pub(crate) send_local_trigger_fn: SendLocalTriggerFn,
+    pub(crate) clear_fn: ClearSenderFn,
 }
 
 #[derive(Debug, Clone, Copy, TypePath)]
@@ -275,6 +277,7 @@ impl MessageRegistry {
                 component_id,
                 send_message_fn: MessageSender::<M>::send_message_typed,
                 send_local_message_fn: MessageSender::<M>::send_local_message_typed,
+                clear_fn: MessageSender::<M>::clear_typed,
             },
         );
     }
diff --git a/crates/transport/messages/src/send.rs b/crates/transport/messages/src/send.rs
index 83a5488..152f51f 100644
--- a/crates/transport/messages/src/send.rs
+++ b/crates/transport/messages/src/send.rs
@@ -93,7 +93,19 @@ pub(crate) type SendLocalMessageFn = unsafe fn(
     timeline_registry: &TimelineRegistry,
 ) -> Result<(), MessageError>;
 
+// SAFETY: the sender must correspond to the correct `MessageSender<M>` or `EventSender<M>` type
+pub(crate) type ClearSenderFn = unsafe fn(sender: MutUntyped);
+
 impl<M: Message> MessageSender<M> {
+    /// Discards the buffered messages.
+    ///
+    /// SAFETY: the `message_sender` must be of type [`MessageSender<M>`]
+    pub(crate) unsafe fn clear_typed(message_sender: MutUntyped) {
+        // SAFETY:  the `message_sender` must be of type `MessageSender<M>`
+        let mut sender = unsafe { message_sender.with_type::<Self>() };
+        sender.send.clear();
+    }
+
     /// Buffers a message to be sent over the channel
     pub fn send_with_priority<C: Channel>(&mut self, message: M, priority: Priority) {
         // // TODO: how to include the sender in the metric?
diff --git a/crates/transport/messages/src/send_trigger.rs b/crates/transport/messages/src/send_trigger.rs
index d645073..f66c4a2 100644
--- a/crates/transport/messages/src/send_trigger.rs
+++ b/crates/transport/messages/src/send_trigger.rs
@@ -43,6 +43,15 @@ impl<M: Event> Default for EventSender<M> {
 }
 
 impl<M: Event> EventSender<M> {
+    /// Discards the buffered events.
+    ///
+    /// SAFETY: the `trigger_sender` must be of type [`EventSender<M>`]
+    pub(crate) unsafe fn clear_typed(trigger_sender: MutUntyped) {
+        // SAFETY:  the `trigger_sender` must be of type `TriggerSender<M>`
+        let mut sender = unsafe { trigger_sender.with_type::<Self>() };
+        sender.send.clear();
+    }
+
     /// Take all messages from the [`EventSender<M>`], serialize them, and buffer them
     /// on the appropriate channel of the [`Transport`].
     ///
diff --git a/crates/transport/messages/src/trigger.rs b/crates/transport/messages/src/trigger.rs
index cd961a9..f03620b 100644
--- a/crates/transport/messages/src/trigger.rs
+++ b/crates/transport/messages/src/trigger.rs
@@ -104,6 +104,7 @@ impl AppTriggerExt for App {
                 component_id: sender_id,
                 send_trigger_fn: EventSender::<M>::send_event_typed,
                 send_local_trigger_fn: EventSender::<M>::send_local_trigger_typed,
+                clear_fn: EventSender::<M>::clear_typed,
             },
         );
         registry.receive_trigger.insert(
-- 
2.43.0


From 8507e92900d21a33657a16d71de32ec0b7d3256e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:13 +0000
Subject: [PATCH 15/29] fix: a message that cannot be sent does not affect the
 other messages

One message that could not be serialized (or had no channel) dropped everything that was
queued behind it, of its own and of the following message types, and the bytes that had
already been written for it ended up at the start of the next message of that type.
---
 crates/transport/messages/src/multi.rs        | 12 ++++++----
 crates/transport/messages/src/send.rs         | 24 ++++++++++++-------
 crates/transport/messages/src/send_trigger.rs | 12 ++++++----
 3 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/crates/transport/messages/src/multi.rs b/crates/transport/messages/src/multi.rs
index b235c0f..27a9063 100644
--- a/crates/transport/messages/src/multi.rs
+++ b/crates/transport/messages/src/multi.rs
@@ -41,12 +41,14 @@ impl<'w, 's, F: QueryFilter> MultiMessageSender<'w, 's, F> {
         if !self.registry.is_map_entities::<M>()? {
             // TODO: serialize once for all senders. Figure out how to get a shared writer. Maybe on Server? Or as a global resource?
             //   or as Local?
-            self.registry.serialize::<M>(
+            let serialized = self.registry.serialize::<M>(
                 message,
                 &mut self.writer,
                 &mut SendEntityMap::default(),
-            )?;
+            );
+            // on error, the bytes that were written must not end up in the next message
             let bytes = self.writer.take_written();
+            serialized?;
             let bytes_len = bytes.len();
             self.query
                 .iter_many_unique_mut(senders)
@@ -59,13 +61,15 @@ impl<'w, 's, F: QueryFilter> MultiMessageSender<'w, 's, F> {
             self.query
                 .iter_many_unique_mut(senders)
                 .try_for_each(|(mut manager, transport)| {
-                    self.registry.serialize::<M>(
+                    let serialized = self.registry.serialize::<M>(
                         message,
                         &mut self.writer,
                         // TODO: ideally we could do entity mapping without Mut!!!
                         &mut manager.entity_mapper.local_to_remote,
-                    )?;
+                    );
+                    // on error, the bytes that were written must not end up in the next message
                     let bytes = self.writer.take_written();
+                    serialized?;
                     #[cfg(feature = "metrics")]
                     metric_handles.record_send::<M>(bytes.len());
                     transport.send_with_priority::<C>(bytes, priority)?;
diff --git a/crates/transport/messages/src/send.rs b/crates/transport/messages/src/send.rs
index 152f51f..e8e63ed 100644
--- a/crates/transport/messages/src/send.rs
+++ b/crates/transport/messages/src/send.rs
@@ -145,18 +145,20 @@ impl<M: Message> MessageSender<M> {
         sender
             .send
             .drain(..)
-            .try_for_each(|(message, channel_kind, channel_name, priority)| {
+            .map(|(message, channel_kind, channel_name, priority)| {
                 // we write the message NetId, and then serialize the message
                 net_id.to_bytes(&mut sender.writer)?;
                 // SAFETY: the message has been checked to be of type `M`.
-                unsafe {
+                let serialized = unsafe {
                     serialize_metadata.serialize::<SendEntityMap, M, M>(
                         &message,
                         &mut sender.writer,
                         entity_map,
-                    )?
+                    )
                 };
+                // on error, the bytes that were written must not end up in the next message
                 let bytes = sender.writer.take_written();
+                serialized?;
                 #[cfg(feature = "metrics")]
                 metric_handles.record_send::<M>(bytes.len());
                 trace!(
@@ -180,6 +182,7 @@ impl<M: Message> MessageSender<M> {
                 transport.send_erased(channel_kind, bytes, priority)?;
                 Ok(())
             })
+            .fold(Ok(()), Result::and)
     }
 
     /// Take all messages from the [`MessageSender<M>`], and add them to
@@ -205,7 +208,7 @@ impl<M: Message> MessageSender<M> {
         sender
             .send
             .drain(..)
-            .try_for_each(|(message, channel_kind, channel_name, _priority)| {
+            .map(|(message, channel_kind, channel_name, _priority)| {
                 trace!(
                     "Send local message of type {:?} on channel {:?}",
                     DebugName::type_name::<M>(),
@@ -264,6 +267,7 @@ impl<M: Message> MessageSender<M> {
                     )
                 }
             })
+            .fold(Ok(()), Result::and)
     }
 
     pub fn on_add_hook(mut world: DeferredWorld, context: HookContext) {
@@ -309,7 +313,7 @@ impl MessagePlugin {
                 message_manager
                     .send_messages
                     .iter()
-                    .try_for_each(|(message_kind, sender_id)| {
+                    .map(|(message_kind, sender_id)| {
                         let mut entity_mut = message_sender_query.get_mut(entity).unwrap();
                         let message_sender = entity_mut
                             .get_mut_by_id(*sender_id)
@@ -342,6 +346,7 @@ impl MessagePlugin {
                         }
                         Ok::<_, MessageError>(())
                     })
+                    .fold(Ok(()), Result::and)
                     .inspect_err(|e| error!("error sending message: {e:?}"))
                     .ok();
 
@@ -351,7 +356,7 @@ impl MessagePlugin {
                 message_manager
                     .send_triggers
                     .iter()
-                    .try_for_each(|(message_kind, sender_id)| {
+                    .map(|(message_kind, sender_id)| {
                         let mut entity_mut = message_sender_query.get_mut(entity).unwrap();
                         let message_sender = entity_mut
                             .get_mut_by_id(*sender_id)
@@ -380,6 +385,7 @@ impl MessagePlugin {
                         }
                         Ok::<_, MessageError>(())
                     })
+                    .fold(Ok(()), Result::and)
                     .inspect_err(|e| error!("error sending trigger: {e:?}"))
                     .ok();
             },
@@ -418,7 +424,7 @@ impl MessagePlugin {
             message_manager
                 .send_messages
                 .iter()
-                .try_for_each(|(message_kind, sender_id)| {
+                .map(|(message_kind, sender_id)| {
                     let mut entity_mut = message_sender_query.get_mut(entity).unwrap();
                     let message_sender = entity_mut
                         .get_mut_by_id(*sender_id)
@@ -442,6 +448,7 @@ impl MessagePlugin {
                     }
                     Ok::<_, MessageError>(())
                 })
+                .fold(Ok(()), Result::and)
                 .inspect_err(|e| error!("error sending message on host-client: {e:?}"))
                 .ok();
 
@@ -450,7 +457,7 @@ impl MessagePlugin {
             message_manager
                 .send_triggers
                 .iter()
-                .try_for_each(|(message_kind, sender_id)| {
+                .map(|(message_kind, sender_id)| {
                     let mut entity_mut = message_sender_query.get_mut(entity).unwrap();
                     let message_sender = entity_mut
                         .get_mut_by_id(*sender_id)
@@ -474,6 +481,7 @@ impl MessagePlugin {
                     }
                     Ok::<_, MessageError>(())
                 })
+                .fold(Ok(()), Result::and)
                 .inspect_err(|e| error!("error sending trigger on host-client: {e:?}"))
                 .ok();
         })
diff --git a/crates/transport/messages/src/send_trigger.rs b/crates/transport/messages/src/send_trigger.rs
index f66c4a2..c979007 100644
--- a/crates/transport/messages/src/send_trigger.rs
+++ b/crates/transport/messages/src/send_trigger.rs
@@ -67,7 +67,7 @@ impl<M: Event> EventSender<M> {
         let mut sender = unsafe { trigger_sender.with_type::<Self>() };
         // enable split borrows
         let sender = &mut *sender;
-        sender.send.drain(..).try_for_each(|pending| {
+        sender.send.drain(..).map(|pending| {
             let PendingEvent {
                 event,
                 channel_kind,
@@ -76,14 +76,16 @@ impl<M: Event> EventSender<M> {
             // we write the message NetId, and then serialize the message
             net_id.to_bytes(&mut sender.writer)?;
             // SAFETY: the message has been checked to be of type `M`.
-            unsafe {
+            let serialized = unsafe {
                 serialize_metadata.serialize::<SendEntityMap, M, M>(
                     &event,
                     &mut sender.writer,
                     entity_map,
-                )?
+                )
             };
+            // on error, the bytes that were written must not end up in the next message
             let bytes = sender.writer.take_written();
+            serialized?;
             trace!(
                 "Sending message of type {:?} with net_id {net_id:?} on channel {:?}",
                 DebugName::type_name::<M>(),
@@ -92,6 +94,7 @@ impl<M: Event> EventSender<M> {
             transport.send_erased(channel_kind, bytes, priority)?;
             Ok(())
         })
+        .fold(Ok(()), Result::and)
     }
 
     // TODO: maybe we don't need this, it's identical to sending a message
@@ -112,7 +115,7 @@ impl<M: Event> EventSender<M> {
     ) -> Result<(), MessageError> {
         // SAFETY:  the `trigger_sender` must be of type `EventSender<M>`
         let mut sender = unsafe { trigger_sender.with_type::<Self>() };
-        sender.send.drain(..).try_for_each(|pending| {
+        sender.send.drain(..).map(|pending| {
             let target_timeline = channel_registry
                 .settings(pending.channel_kind)
                 .and_then(|settings| settings.timeline);
@@ -162,6 +165,7 @@ impl<M: Event> EventSender<M> {
                 )
             }
         })
+        .fold(Ok(()), Result::and)
     }
 
     pub fn on_add_hook(mut world: DeferredWorld, context: HookContext) {
-- 
2.43.0


From d0e7dd75a968cac9dfdc04d6c124e2ae969e565c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:32 +0000
Subject: [PATCH 16/29] fix: a received message that is rejected does not hold
 back the messages behind it

A message that could not be read, or that its timeline does not accept, ended the whole receive
pass of its connection: messages and events of the other types and channels that had arrived as
well only became visible a frame later (one frame later per rejected message).
---
 crates/transport/messages/src/receive.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/crates/transport/messages/src/receive.rs b/crates/transport/messages/src/receive.rs
index eef7728..2da4aee 100644
--- a/crates/transport/messages/src/receive.rs
+++ b/crates/transport/messages/src/receive.rs
@@ -624,8 +624,7 @@ impl MessagePlugin {
                     // Host-client messages already carry their channel kind, so they do not need
                     // to pass through a transport send channel.
                     let buffered = core::mem::take(&mut host_client.buffer);
-                    let mut buffered = buffered.into_iter();
-                    while let Some((bytes, channel_type_id, tick)) = buffered.next() {
+                    for (bytes, channel_type_id, tick) in buffered {
                         let channel_kind = ChannelKind(channel_type_id);
                         trace!("Received local message bytes from server on host-client {entity:?} on channel {channel_kind:?}");
                         let target_timeline = channel_registry
@@ -647,13 +646,12 @@ impl MessagePlugin {
                             &commands,
                             remote_peer_id.0,
                         ) {
-                            host_client.buffer.extend(buffered);
+                            // the other messages are not affected
                             error!("Error receiving messages: {error:?}");
-                            break;
                         }
                     }
                 } else {
-                    transport.channel_receives_mut().try_for_each(|channel_receive| {
+                    transport.channel_receives_mut().for_each(|channel_receive| {
                             let channel_kind = channel_receive.channel_kind();
                             let channel_name = channel_registry.get_name_from_kind(&channel_kind);
                             while let Some((tick, bytes, message_id)) =
@@ -662,7 +660,7 @@ impl MessagePlugin {
                                 let target_timeline = channel_registry
                                     .settings(channel_kind)
                                     .and_then(|settings| settings.timeline);
-                                Self::receive_message_bytes(
+                                if let Err(error) = Self::receive_message_bytes(
                                     bytes,
                                     &registry,
                                     &timeline_registry,
@@ -676,12 +674,12 @@ impl MessagePlugin {
                                     &mut message_manager,
                                     &commands,
                                     remote_peer_id.0,
-                                )?;
+                                ) {
+                                    // the other messages are not affected
+                                    error!("Error receiving messages: {error:?}");
+                                }
                             }
-                            Ok::<_, MessageError>(())
-                        })
-                        .inspect_err(|e| error!("Error receiving messages: {e:?}"))
-                        .ok();
+                        });
                 }
             },
         )
-- 
2.43.0


From a8d3d81471ee1e3192dbde49b93ff557476a4c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:37 +0000
Subject: [PATCH 17/29] fix: entities in messages sent to the host client by a
 multi sender are not mapped

---
 crates/transport/messages/src/receive.rs | 12 +++++++-----
 crates/transport/serde/src/entity_map.rs | 23 ++++++++++++++++++++---
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/crates/transport/messages/src/receive.rs b/crates/transport/messages/src/receive.rs
index 2da4aee..d86e18c 100644
--- a/crates/transport/messages/src/receive.rs
+++ b/crates/transport/messages/src/receive.rs
@@ -478,7 +478,7 @@ impl MessagePlugin {
         tick: Tick,
         message_id: Option<MessageId>,
         target_timeline: Option<TimelineKind>,
-        message_manager: &mut MessageManager,
+        entity_map: &mut ReceiveEntityMap,
         commands: &ParallelCommands,
         remote_peer_id: PeerId,
     ) -> Result<(), MessageError> {
@@ -549,7 +549,7 @@ impl MessagePlugin {
                     message_id,
                     target_timeline,
                     serialize_fns,
-                    &mut message_manager.entity_mapper.remote_to_local,
+                    entity_map,
                 )
             }
         } else if let Some(metadata) = registry.receive_trigger.get(message_kind) {
@@ -568,7 +568,7 @@ impl MessagePlugin {
                     message_id,
                     target_timeline,
                     serialize_fns,
-                    &mut message_manager.entity_mapper.remote_to_local,
+                    entity_map,
                     remote_peer_id,
                 )
             }
@@ -624,6 +624,8 @@ impl MessagePlugin {
                     // Host-client messages already carry their channel kind, so they do not need
                     // to pass through a transport send channel.
                     let buffered = core::mem::take(&mut host_client.buffer);
+                    // the server that sent these messages lives in the same World
+                    let mut entity_map = ReceiveEntityMap::same_world();
                     for (bytes, channel_type_id, tick) in buffered {
                         let channel_kind = ChannelKind(channel_type_id);
                         trace!("Received local message bytes from server on host-client {entity:?} on channel {channel_kind:?}");
@@ -642,7 +644,7 @@ impl MessagePlugin {
                             tick,
                             None,
                             target_timeline,
-                            &mut message_manager,
+                            &mut entity_map,
                             &commands,
                             remote_peer_id.0,
                         ) {
@@ -671,7 +673,7 @@ impl MessagePlugin {
                                     tick,
                                     message_id,
                                     target_timeline,
-                                    &mut message_manager,
+                                    &mut message_manager.entity_mapper.remote_to_local,
                                     &commands,
                                     remote_peer_id.0,
                                 ) {
diff --git a/crates/transport/serde/src/entity_map.rs b/crates/transport/serde/src/entity_map.rs
index 433bcc8..b94a350 100644
--- a/crates/transport/serde/src/entity_map.rs
+++ b/crates/transport/serde/src/entity_map.rs
@@ -82,7 +82,22 @@ impl EntityMapper for SendEntityMap {
 }
 
 #[derive(Default, Debug, Reflect, Deref, DerefMut)]
-pub struct ReceiveEntityMap(pub(crate) EntityHashMap<Entity>);
+pub struct ReceiveEntityMap {
+    #[deref]
+    pub(crate) map: EntityHashMap<Entity>,
+    /// If true, the sender and the receiver share the same [`World`], so entities are not mapped.
+    same_world: bool,
+}
+
+impl ReceiveEntityMap {
+    /// Mapping for messages which were sent from the same [`World`] that receives them.
+    pub fn same_world() -> Self {
+        Self {
+            map: EntityHashMap::default(),
+            same_world: true,
+        }
+    }
+}
 
 impl EntityMapper for ReceiveEntityMap {
     /// Map an entity from the remote World to the local World
@@ -100,9 +115,11 @@ impl EntityMapper for ReceiveEntityMap {
                 "entity was already mapped before receive-side deserialization"
             );
             mapped
+        } else if self.same_world {
+            entity
         } else {
             // if we don't find the entity, return Entity::PLACEHOLDER as an error
-            match self.0.get(&entity).copied() {
+            match self.map.get(&entity).copied() {
                 Some(mapped) => {
                     trace!(
                         target: "lightyear_debug::entity",
@@ -138,7 +155,7 @@ impl EntityMapper for ReceiveEntityMap {
             entity = ?target,
             "inserted receive entity mapping"
         );
-        self.0.insert(source, target);
+        self.map.insert(source, target);
     }
 }
 
-- 
2.43.0


From 1c26e0c08fbc5e985ce747dd6b515aaedd8683ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:13 +0000
Subject: [PATCH 18/29] fix: a link conditioner with a jitter below one
 millisecond does not panic

---
 crates/io/link/src/conditioner.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/io/link/src/conditioner.rs b/crates/io/link/src/conditioner.rs
index 2ae8c00..d533d4d 100644
--- a/crates/io/link/src/conditioner.rs
+++ b/crates/io/link/src/conditioner.rs
@@ -174,7 +174,10 @@ impl<P: Eq> LinkConditioner<P> {
         let mut packet_timestamp = instant;
         if self.config.incoming_jitter > Duration::default() {
             let jitter: i32 = self.config.incoming_jitter.as_millis() as i32;
-            latency += rng.random_range(-jitter..jitter);
+            // a jitter of less than a millisecond has no effect
+            if jitter > 0 {
+                latency += rng.random_range(-jitter..jitter);
+            }
         }
         if latency > 0 {
             packet_timestamp += Duration::from_millis(latency as u64);
-- 
2.43.0


From d7b916bb7433433793c7f41ca22df67caad1628c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:13 +0000
Subject: [PATCH 19/29] fix: an RTT estimate of zero follows later samples

---
 crates/core/sync/src/ping/estimator.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/core/sync/src/ping/estimator.rs b/crates/core/sync/src/ping/estimator.rs
index ca2a90b..a913495 100644
--- a/crates/core/sync/src/ping/estimator.rs
+++ b/crates/core/sync/src/ping/estimator.rs
@@ -20,6 +20,10 @@ const MAX_RTT_RELATIVE_INCREASE_FACTOR: f64 = 3.0; // e.g., sample clamped if >
 // This provides a safety net if SRTT is very low.
 const MAX_RTT_ABSOLUTE_INCREASE_SECS: f64 = 0.5; // e.g., 500ms absolute increase allowed over SRTT
 
+// A sample that is larger than the smoothed RTT by less than this is never clamped. Without it an
+// estimate of (almost) zero could never grow, since all the bounds above are relative to it.
+const MIN_RTT_ABSOLUTE_INCREASE_SECS: f64 = 0.001;
+
 /// Holds the final computed RTT and Jitter.
 #[derive(Debug, Clone, Default, PartialEq)]
 pub struct FinalStats {
@@ -100,7 +104,9 @@ impl RttEstimatorEwma {
 
             // Ensure the clamp bound is not overly restrictive, e.g., must allow some increase.
             // This also handles cases where prev_rtt_abs_dev_secs might be zero.
-            clamp_upper_bound = clamp_upper_bound.max(prev_srtt_secs * 1.2); // Must allow at least 20% increase
+            clamp_upper_bound = clamp_upper_bound
+                .max(prev_srtt_secs * 1.2) // Must allow at least 20% increase
+                .max(prev_srtt_secs + MIN_RTT_ABSOLUTE_INCREASE_SECS);
 
             if rtt_sample_secs > clamp_upper_bound {
                 trace!(
-- 
2.43.0


From 096de1446ac94fefe6a7d593b7981854392a737c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:13 +0000
Subject: [PATCH 20/29] fix: the input delay does not overflow with an
 unbounded prediction window

---
 crates/core/sync/src/timeline/input.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/core/sync/src/timeline/input.rs b/crates/core/sync/src/timeline/input.rs
index 653fd76..33295c8 100644
--- a/crates/core/sync/src/timeline/input.rs
+++ b/crates/core/sync/src/timeline/input.rs
@@ -393,7 +393,7 @@ impl InputDelayConfig {
         // if we're in lockstep mode, we will take extra margin
         if self.is_lockstep() {
             // TODO: make this configurable!
-            rtt_ticks += 2;
+            rtt_ticks = rtt_ticks.saturating_add(2);
         }
         // if the rtt is lower than the minimum input delay, we will apply the minimum input delay
         if rtt_ticks <= self.minimum_input_delay_ticks {
@@ -405,7 +405,10 @@ impl InputDelayConfig {
         }
         // else, apply input delay up to the maximum input delay, and cover the rest with prediction
         // if not possible, add even more input delay
-        if rtt_ticks <= (self.maximum_predicted_ticks + self.maximum_input_delay_before_prediction)
+        if rtt_ticks
+            <= self
+                .maximum_predicted_ticks
+                .saturating_add(self.maximum_input_delay_before_prediction)
         {
             self.maximum_input_delay_before_prediction
         } else {
-- 
2.43.0


From 37f49a145145296475bbb1ffca94048cacda2b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:13 +0000
Subject: [PATCH 21/29] fix: errors in opposite directions are not counted as
 one persistent error

---
 crates/core/sync/src/timeline/sync.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/core/sync/src/timeline/sync.rs b/crates/core/sync/src/timeline/sync.rs
index a3260cf..6581916 100644
--- a/crates/core/sync/src/timeline/sync.rs
+++ b/crates/core/sync/src/timeline/sync.rs
@@ -259,7 +259,12 @@ impl SyncContext {
             self.consecutive_errors = 0;
             SyncAdjustment::Resync
         } else if offset.abs() > config.error_margin {
-            self.consecutive_errors = self.consecutive_errors.saturating_add(1);
+            // an error in the other direction starts a new run of errors
+            self.consecutive_errors = if current_error_sign ^ previous_error_sign {
+                1
+            } else {
+                self.consecutive_errors.saturating_add(1)
+            };
             // skip if we haven't seen enough consecutive errors in the same direction
             if (current_error_sign ^ previous_error_sign)
                 || self.consecutive_errors < config.consecutive_errors_threshold
-- 
2.43.0


From 971e3cfa5d21ae9ed594078ff5cc850d08b6af6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:44 +0000
Subject: [PATCH 22/29] fix: a pong only answers the ping that has its id

---
 crates/core/sync/src/ping/store.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/core/sync/src/ping/store.rs b/crates/core/sync/src/ping/store.rs
index b6e0571..1db6437 100644
--- a/crates/core/sync/src/ping/store.rs
+++ b/crates/core/sync/src/ping/store.rs
@@ -15,7 +15,8 @@ pub struct PingStore {
     latest_ping_id: PingId,
     /// Buffer storing the latest pings sent along with their associated time
     /// Older pings will get overwritten by newer pings
-    buffer: SequenceBuffer<PingId, Instant, PING_BUFFER_SIZE>,
+    /// Every ping is stored with its id, since pings that are far apart share a place in the buffer
+    buffer: SequenceBuffer<PingId, (PingId, Instant), PING_BUFFER_SIZE>,
 }
 
 impl Default for PingStore {
@@ -37,13 +38,17 @@ impl PingStore {
         // save current ping index and add a new ping instant associated with it
         let ping_id = self.latest_ping_id;
         self.latest_ping_id += 1;
-        self.buffer.push(&ping_id, now);
+        self.buffer.push(&ping_id, (ping_id, now));
         ping_id
     }
 
     /// Remove a ping from the store and returns the corresponding time if it exists
     pub fn remove(&mut self, ping_id: PingId) -> Option<Instant> {
-        self.buffer.remove(&ping_id)
+        let (stored_id, _) = self.buffer.get(&ping_id)?;
+        if *stored_id != ping_id {
+            return None;
+        }
+        self.buffer.remove(&ping_id).map(|(_, sent_time)| sent_time)
     }
 
     pub fn reset(&mut self) {
-- 
2.43.0


From 4f979567b93d69f2dce13656db4e2c24657ba9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:50 +0000
Subject: [PATCH 23/29] fix: smooth the remote clock's offset without losing
 precision on large ticks

---
 crates/core/sync/src/timeline/remote.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/sync/src/timeline/remote.rs b/crates/core/sync/src/timeline/remote.rs
index 3eb55cc..8c26f15 100644
--- a/crates/core/sync/src/timeline/remote.rs
+++ b/crates/core/sync/src/timeline/remote.rs
@@ -150,7 +150,8 @@ impl RemoteTimeline {
                 // the smoothing depends on the amount of jitter
                 let jitter_ms = ping_manager.jitter().as_millis() as f32;
                 let alpha = self.ema_alpha(jitter_ms);
-                let smoothed_offset = self.offset * (1.0 - alpha) + raw_offset * alpha;
+                // scale only the difference: the offset itself can be too large for a f32
+                let smoothed_offset = self.offset + (raw_offset - self.offset) * alpha;
                 trace!(?new_estimate, ?ideal_estimate, old_offset = ?self.offset, new_offset = ?smoothed_offset, ?jitter_ms, ?alpha, "Update RemoteTimeline offset");
                 self.offset = smoothed_offset;
             }
-- 
2.43.0


From 840ccf3561e30a37f399976003ab6e61bd4d5a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:39 +0000
Subject: [PATCH 24/29] fix: keep outstanding reliable messages within half of
 the message id space

---
 .../transport/src/channel/send_reliable.rs    | 48 +++++++++++++++----
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/crates/transport/transport/src/channel/send_reliable.rs b/crates/transport/transport/src/channel/send_reliable.rs
index 60f0dde..30f03c6 100644
--- a/crates/transport/transport/src/channel/send_reliable.rs
+++ b/crates/transport/transport/src/channel/send_reliable.rs
@@ -1,4 +1,4 @@
-use alloc::vec::Vec;
+use alloc::{collections::VecDeque, vec::Vec};
 use bevy_time::{Real, Time, Timer};
 use bytes::Bytes;
 use core::time::Duration;
@@ -39,12 +39,22 @@ struct PendingReliableMessage {
     send_order: u64,
 }
 
+/// Maximum span of message ids that are pending at the same time.
+///
+/// The receiver compares wrapping ids, so it can only tell a new message from an old one if they
+/// are less than half of the id space apart.
+const MAX_PENDING_ID_SPAN: i16 = i16::MAX;
+
 /// State which differs specifically for reliable channel sends.
 #[derive(Debug)]
 pub(super) struct ReliableSendState {
     settings: ReliableSettings,
     /// Pending messages keyed by exact wrapping ID. Chronology lives in `send_order`.
     pending: HashMap<MessageId, PendingReliableMessage>,
+    /// All messages before this id are acknowledged.
+    oldest_pending_id: MessageId,
+    /// The latest messages, in send order, which must wait until older messages are acknowledged.
+    waiting: VecDeque<PendingReliableMessage>,
     next_message_id: MessageId,
     next_send_order: u64,
     current_rtt: Duration,
@@ -57,6 +67,8 @@ impl ReliableSendState {
         Self {
             settings,
             pending: HashMap::default(),
+            oldest_pending_id: MessageId::default(),
+            waiting: VecDeque::new(),
             next_message_id: MessageId::default(),
             next_send_order: 0,
             current_rtt: Duration::default(),
@@ -116,16 +128,14 @@ impl ReliableSendState {
                 last_sent: None,
             }
         };
-        self.pending.insert(
-            message_id,
-            PendingReliableMessage {
-                message,
-                base_priority: priority,
-                accumulated_priority: 0.0,
-                send_order: self.next_send_order,
-            },
-        );
+        self.waiting.push_back(PendingReliableMessage {
+            message,
+            base_priority: priority,
+            accumulated_priority: 0.0,
+            send_order: self.next_send_order,
+        });
         self.next_message_id += 1;
+        self.admit_waiting();
         self.next_send_order = self
             .next_send_order
             .checked_add(1)
@@ -133,6 +143,22 @@ impl ReliableSendState {
         message_id
     }
 
+    /// Makes waiting messages eligible for sending, as far as their ids are unambiguous.
+    fn admit_waiting(&mut self) {
+        let mut next_id = self.next_message_id - self.waiting.len() as u16;
+        while self.oldest_pending_id != next_id
+            && !self.pending.contains_key(&self.oldest_pending_id)
+        {
+            self.oldest_pending_id += 1;
+        }
+        while next_id - self.oldest_pending_id < MAX_PENDING_ID_SPAN
+            && let Some(message) = self.waiting.pop_front()
+        {
+            self.pending.insert(next_id, message);
+            next_id += 1;
+        }
+    }
+
     pub(super) fn collect_candidates(
         &mut self,
         channel_kind: ChannelKind,
@@ -235,6 +261,7 @@ impl ReliableSendState {
                     "received a fragment ack for a single reliable message"
                 );
                 self.pending.remove(&ack.message_id);
+                self.admit_waiting();
                 true
             }
             UnackedMessage::Fragmented(fragments) => {
@@ -249,6 +276,7 @@ impl ReliableSendState {
                 let completed = fragments.iter().all(|fragment| fragment.acked);
                 if completed {
                     self.pending.remove(&ack.message_id);
+                    self.admit_waiting();
                 }
                 completed
             }
-- 
2.43.0


From 651d2ded9ab44688d167648149d4511c5f7766ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:39 +0000
Subject: [PATCH 25/29] fix: drop the fragments of superseded messages on
 sequenced channels

---
 .../transport/src/channel/fragments/receive.rs     |  5 +++++
 crates/transport/transport/src/channel/receive.rs  | 14 ++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/crates/transport/transport/src/channel/fragments/receive.rs b/crates/transport/transport/src/channel/fragments/receive.rs
index 329e221..b3cdad8 100644
--- a/crates/transport/transport/src/channel/fragments/receive.rs
+++ b/crates/transport/transport/src/channel/fragments/receive.rs
@@ -49,6 +49,11 @@ impl FragmentReceiver {
         })
     }
 
+    /// Discard the fragments of all messages other than `message_id`.
+    pub(crate) fn discard_others(&mut self, message_id: MessageId) {
+        self.fragment_messages.retain(|id, _| *id == message_id);
+    }
+
     /// Receive a fragment of a FragmentData message.
     ///
     /// When we complete the final message by aggregating all fragments, we will return the
diff --git a/crates/transport/transport/src/channel/receive.rs b/crates/transport/transport/src/channel/receive.rs
index 32ce170..156290c 100644
--- a/crates/transport/transport/src/channel/receive.rs
+++ b/crates/transport/transport/src/channel/receive.rs
@@ -153,6 +153,13 @@ impl ChannelReceive {
         if !self.state.prepare_receive(message_id)? {
             return Ok(());
         }
+        if self.state.is_sequenced()
+            && let Some(message_id) = message_id
+        {
+            // Older messages can't be delivered anymore, and their fragments must not be mixed
+            // with those of a later message that reuses the same wrapping id.
+            self.fragments.discard_others(message_id);
+        }
 
         let completed = match message.data {
             MessageData::Single(single) => Some((message.remote_sent_tick, single.bytes)),
@@ -183,6 +190,13 @@ impl RecvState {
         )
     }
 
+    fn is_sequenced(&self) -> bool {
+        matches!(
+            self,
+            Self::UnreliableSequenced { .. } | Self::ReliableSequenced { .. }
+        )
+    }
+
     fn prepare_receive(&mut self, message_id: Option<MessageId>) -> Result<bool> {
         match self {
             Self::UnreliableUnordered { .. } => Ok(true),
-- 
2.43.0


From 7e31ff10c3c5ae7997e23b69d7152245370ab0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:25 +0000
Subject: [PATCH 26/29] fix: a native input message for ticks before the first
 buffered input is not built

---
 crates/inputs/inputs_native/src/input_message.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/inputs/inputs_native/src/input_message.rs b/crates/inputs/inputs_native/src/input_message.rs
index b796dfb..16df2c7 100644
--- a/crates/inputs/inputs_native/src/input_message.rs
+++ b/crates/inputs/inputs_native/src/input_message.rs
@@ -82,6 +82,10 @@ impl<
         let buffer_start_tick = input_buffer.start_tick?;
         // find the first tick for which we have an `ActionState` buffered
         let start_tick = max(end_tick - num_ticks + 1, buffer_start_tick);
+        // nothing is buffered up to the end tick yet
+        if start_tick > end_tick {
+            return None;
+        }
 
         // find the initial state, (which we convert out of SameAsPrecedent)
         let start_state = input_buffer
-- 
2.43.0


From 49702b7f6b4fc840a93c2917f410f31f2ca32826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:24 +0000
Subject: [PATCH 27/29] fix: input history at tick 0 and over very long repeats
 of one input

---
 crates/inputs/inputs/src/input_buffer.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/crates/inputs/inputs/src/input_buffer.rs b/crates/inputs/inputs/src/input_buffer.rs
index cf8c647..5190529 100644
--- a/crates/inputs/inputs/src/input_buffer.rs
+++ b/crates/inputs/inputs/src/input_buffer.rs
@@ -165,7 +165,9 @@ impl<T: Clone + PartialEq, M> InputBuffer<T, M> {
     ///
     /// This should be called every tick.
     pub fn set(&mut self, tick: Tick, value: T) {
-        if let Some(precedent) = self.get(tick - 1)
+        // (tick 0 has no precedent: `tick - 1` saturates)
+        if tick > Tick(0)
+            && let Some(precedent) = self.get(tick - 1)
             && precedent == &value
         {
             self.set_raw(tick, Compressed::SameAsPrecedent);
@@ -229,6 +231,10 @@ impl<T: Clone + PartialEq, M> InputBuffer<T, M> {
             return self.pop(tick);
         };
         let clamped = if tick >= last_tick {
+            // there is nothing before tick 0
+            if last_tick == Tick(0) {
+                return None;
+            }
             last_tick - 1
         } else {
             tick
@@ -299,14 +305,16 @@ impl<T: Clone + PartialEq, M> InputBuffer<T, M> {
         if tick < start_tick || tick > start_tick + (self.buffer.len() as i32 - 1) {
             return None;
         }
-        let data = self.buffer.get((tick - start_tick) as usize).unwrap();
+        // for SameAsPrecedent, get the data from the closest preceding tick that has some
+        // (not recursively: a player can be idle for a very long time)
+        let data = self
+            .buffer
+            .range(..=(tick - start_tick) as usize)
+            .rev()
+            .find(|data| !matches!(data, Compressed::SameAsPrecedent))?;
         match data {
-            Compressed::Absent => None,
-            Compressed::SameAsPrecedent => {
-                // get the data from the preceding tick
-                self.get(tick - 1)
-            }
             Compressed::Input(data) => Some(data),
+            _ => None,
         }
     }
 
-- 
2.43.0


From 056a268b8bd83efb3c2e4d2cb3233f29208b662c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:36 +0000
Subject: [PATCH 28/29] fix: a received input older than the buffer is no
 longer dropped with the rest of the buffer

---
 crates/inputs/inputs/src/input_message.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/inputs/inputs/src/input_message.rs b/crates/inputs/inputs/src/input_message.rs
index 3ef70ce..a045553 100644
--- a/crates/inputs/inputs/src/input_message.rs
+++ b/crates/inputs/inputs/src/input_message.rs
@@ -216,9 +216,11 @@ pub trait ActionStateSequence:
                     debug!(
                         "Mismatch detected at tick {tick:?} for new_input {latest_received_input:?}. Previous predicted input: {previous_predicted_input:?}"
                     );
-                    input_buffer.set_raw(tick, Compressed::from(latest_received_input.clone()));
                     // remove all existing inputs in the buffer that come after `tick`
                     input_buffer.clip_after(tick);
+                    // (set the new value last: if the buffer only started after `tick` it is empty
+                    // now, and starts again from that value)
+                    input_buffer.set_raw(tick, Compressed::from(latest_received_input.clone()));
                     earliest_mismatch = Some(tick);
                 }
             }
-- 
2.43.0


From 1a022481fd3ea578320f911611ce67bcddce9870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:37 +0000
Subject: [PATCH 29/29] fix: an input message that arrives out of order does
 not move the last received tick back

---
 crates/inputs/inputs/src/input_message.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/inputs/inputs/src/input_message.rs b/crates/inputs/inputs/src/input_message.rs
index a045553..648e139 100644
--- a/crates/inputs/inputs/src/input_message.rs
+++ b/crates/inputs/inputs/src/input_message.rs
@@ -225,7 +225,9 @@ pub trait ActionStateSequence:
                 }
             }
         }
-        input_buffer.last_remote_tick = Some(end_tick);
+        // messages can arrive out of order: what was received stays received
+        input_buffer.last_remote_tick =
+            Some(last_remote_tick.map_or(end_tick, |last| last.max(end_tick)));
         trace!("input buffer after update: {input_buffer:?}");
         earliest_mismatch
     }
-- 
2.43.0

