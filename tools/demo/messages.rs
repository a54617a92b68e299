//! A server app and client apps with typed messages, whose packets the scenario moves by hand.
#![allow(dead_code)]
use bevy_app::prelude::*;
use bevy_ecs::entity::MapEntities;
pub use bevy_ecs::prelude::*;
use bevy_ecs::system::SystemId;
use bevy_time::TimeUpdateStrategy;
pub use bytes::Bytes;
pub use core::time::Duration;
pub use lightyear_connection::client::{Client, Connected, ConnectionPlugin, Disconnected};
pub use lightyear_connection::client_of::ClientOf;
use lightyear_connection::direction::NetworkDirection;
pub use lightyear_connection::network_target::NetworkTarget;
pub use lightyear_core::id::{LocalId, PeerId, RemoteId};
use lightyear_core::plugin::CorePlugins;
pub use lightyear_core::prelude::{LocalTimeline, NetworkTimeline, Tick};
pub use lightyear_core::time::{Overstep, TickDelta, TickInstant};
use lightyear_core::timeline::TimelineConfig;
pub use lightyear_link::prelude::{LinkOf, Server};
pub use lightyear_link::{Link, Linked, recv_payload_from_bytes};
pub use lightyear_messages::MessageManager;
use lightyear_messages::plugin::MessagePlugin;
pub use lightyear_messages::prelude::{AppMessageExt, AppTriggerExt, EventSender, MessageReceiver, MessageSender, RemoteEvent, ServerMultiMessageSender};
use lightyear_transport::plugin::TransportPlugin;
use lightyear_transport::prelude::{AppChannelExt, ChannelMode, ChannelSettings, ReliableSettings, Transport};
use mock_instant::global::MockClock;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MsgA { pub id: u32 }
#[derive(Clone, Debug, Serialize, Deserialize, MapEntities)]
pub struct MsgB { pub id: u32, #[entities] pub e: Entity }
#[derive(Clone, Debug, Event, Serialize, Deserialize)]
pub struct EvA { pub id: u32 }
/// reliable, no order
pub struct Rel;
/// reliable and ordered
pub struct Ord;
/// reliable, released at the sender's tick on timeline TlA / TlB
pub struct OnA;
pub struct OnB;

macro_rules! timeline { ($cfg:ident, $t:ident) => {
    #[derive(Component)]
    pub struct $cfg;
    #[derive(Component, Default)]
    pub struct $t(pub TickInstant);
    impl TimelineConfig for $cfg { type Context = (); type Timeline = $t; }
    impl NetworkTimeline for $t {
        type Config = $cfg;
        fn now(&self) -> TickInstant { self.0 }
        fn tick(&self) -> Tick { self.0.tick() }
        fn overstep(&self) -> Overstep { self.0.overstep() }
        fn set_now(&mut self, now: TickInstant) { self.0 = now; }
        fn apply_delta(&mut self, delta: TickDelta) { self.0 = self.0 + delta; }
    }
} }
timeline!(CfgA, TlA);
timeline!(CfgB, TlB);

#[derive(Resource, Default)]
pub struct Got { pub msgs: Vec<(Entity, u32, u32, Option<Entity>)>, pub evs: Vec<u32>, multi: Option<SystemId<In<(Entity, NetworkTarget, MsgB)>>>, multi_a: Option<SystemId<In<(Entity, NetworkTarget, MsgA)>>> }

pub fn make_app() -> App {
    let mut app = App::new();
    app.add_plugins(CorePlugins { tick_duration: Duration::from_millis(10) });
    app.add_plugins(ConnectionPlugin);
    app.add_plugins(lightyear_connection::host::HostPlugin);
    app.add_plugins(TransportPlugin);
    let rel = ReliableSettings { rtt_resend_factor: 1.5, rtt_resend_min_delay: Duration::from_millis(20) };
    let s = |mode| ChannelSettings { mode, ..Default::default() };
    app.add_channel::<Rel>(s(ChannelMode::UnorderedReliable(rel))).add_direction(NetworkDirection::Bidirectional);
    app.add_channel::<Ord>(s(ChannelMode::OrderedReliable(rel))).add_direction(NetworkDirection::Bidirectional);
    app.add_channel::<OnA>(s(ChannelMode::UnorderedReliable(rel)).on_timeline::<TlA>()).add_direction(NetworkDirection::Bidirectional);
    app.add_channel::<OnB>(s(ChannelMode::UnorderedReliable(rel)).on_timeline::<TlB>()).add_direction(NetworkDirection::Bidirectional);
    app.register_message::<MsgA>().add_direction(NetworkDirection::Bidirectional);
    app.register_message::<MsgB>().add_map_entities().add_direction(NetworkDirection::Bidirectional);
    app.register_event::<EvA>().add_direction(NetworkDirection::Bidirectional);
    app.init_resource::<Got>();
    app.add_observer(|t: On<RemoteEvent<EvA>>, mut o: ResMut<Got>| o.evs.push(t.trigger.id));
    app.add_plugins(MessagePlugin);
    app.add_systems(Update, |mut g: ResMut<Got>, mut a: Query<(Entity, &mut MessageReceiver<MsgA>)>, mut b: Query<(Entity, &mut MessageReceiver<MsgB>)>| {
        for (e, mut r) in a.iter_mut() { for m in r.receive_with_tick() { g.msgs.push((e, m.data.id, m.remote_tick.0, None)) } }
        for (e, mut r) in b.iter_mut() { for m in r.receive_with_tick() { g.msgs.push((e, m.data.id, m.remote_tick.0, Some(m.data.e))) } }
    });
    app.finish();
    app.cleanup();
    let id = app.world_mut().register_system(|In((srv, t, m)): In<(Entity, NetworkTarget, MsgB)>, mut s: ServerMultiMessageSender, q: Query<&Server>| {
        let _ = s.send::<_, Rel>(&m, q.get(srv).unwrap(), &t);
    });
    app.world_mut().resource_mut::<Got>().multi = Some(id);
    let id = app.world_mut().register_system(|In((srv, t, m)): In<(Entity, NetworkTarget, MsgA)>, mut s: ServerMultiMessageSender, q: Query<&Server>| {
        let _ = s.send::<_, Rel>(&m, q.get(srv).unwrap(), &t);
    });
    app.world_mut().resource_mut::<Got>().multi_a = Some(id);
    app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::ZERO));
    app.update();
    app
}

/// apps[0] is the server; apps[k] the client k. at[k] is the link of client k at the server, mine[k] at the client.
pub struct Net { pub apps: Vec<App>, pub server: Entity, pub at: Vec<Entity>, pub mine: Vec<Entity> }
pub fn net(clients: usize) -> Net {
    let mut apps: Vec<App> = (0..=clients).map(|_| make_app()).collect();
    let server = apps[0].world_mut().spawn(Server::default()).id();
    let mut at = vec![Entity::PLACEHOLDER];
    let mut mine = vec![Entity::PLACEHOLDER];
    for k in 1..=clients {
        at.push(apps[0].world_mut().spawn((LinkOf { server }, ClientOf, Link::default(), Transport::default(), MessageManager::default())).id());
        mine.push(apps[k].world_mut().spawn((Client::default(), Link::default(), Transport::default(), MessageManager::default())).id());
        apps[0].world_mut().flush();
        apps[k].world_mut().flush();
    }
    Net { apps, server, at, mine }
}
impl Net {
    pub fn connect(&mut self, k: usize) {
        for (a, e, me, other) in [(0, self.at[k], PeerId::Server, PeerId::Netcode(k as u64)), (k, self.mine[k], PeerId::Netcode(k as u64), PeerId::Server)] {
            let w = self.apps[a].world_mut();
            w.entity_mut(e).insert((LocalId(me), RemoteId(other), Linked));
            w.entity_mut(e).insert(Connected);
            w.flush();
        }
    }
    pub fn disconnect(&mut self, k: usize) {
        for (a, e) in [(0, self.at[k]), (k, self.mine[k])] {
            let w = self.apps[a].world_mut();
            w.entity_mut(e).insert(Disconnected::default());
            w.flush();
            let mut l = w.get_mut::<Link>(e).unwrap();
            l.send.drain().count();
            l.recv.drain().count();
        }
    }
    /// One frame of `ms` in app `a`.
    pub fn frame(&mut self, a: usize, ms: u64) {
        self.apps[a].insert_resource(TimeUpdateStrategy::ManualDuration(Duration::from_millis(ms)));
        self.apps[a].update();
    }
    pub fn clock(&self, ms: u64) { MockClock::advance(Duration::from_millis(ms)); }
    /// packets app `a` sent on client k's link
    pub fn take(&mut self, a: usize, k: usize) -> Vec<Bytes> {
        let e = if a == 0 { self.at[k] } else { self.mine[k] };
        self.apps[a].world_mut().get_mut::<Link>(e).unwrap().send.drain().collect()
    }
    pub fn give(&mut self, a: usize, k: usize, p: Vec<Bytes>) {
        let e = if a == 0 { self.at[k] } else { self.mine[k] };
        let mut l = self.apps[a].world_mut().get_mut::<Link>(e).unwrap();
        for b in p { l.recv.push_raw(recv_payload_from_bytes(b)); }
    }
    /// A frame of `ms` everywhere, with every packet handed over afterwards.
    pub fn step(&mut self, ms: u64) {
        self.clock(ms);
        for a in 0..self.apps.len() { self.frame(a, ms); }
        for k in 1..self.at.len() {
            if self.apps[0].world().get::<Connected>(self.at[k]).is_none() { continue; }
            let p = self.take(0, k); self.give(k, k, p);
            let p = self.take(k, k); self.give(0, k, p);
        }
    }
    pub fn sender<M: lightyear_messages::Message>(&mut self, a: usize, k: usize) -> Mut<'_, MessageSender<M>> {
        let e = if a == 0 { self.at[k] } else { self.mine[k] };
        self.apps[a].world_mut().get_mut::<MessageSender<M>>(e).unwrap()
    }
    pub fn multi(&mut self, t: NetworkTarget, m: MsgB) {
        let f = self.apps[0].world().resource::<Got>().multi.unwrap();
        let srv = self.server;
        self.apps[0].world_mut().run_system_with(f, (srv, t, m)).unwrap();
    }
    pub fn multi_a(&mut self, t: NetworkTarget, m: MsgA) {
        let f = self.apps[0].world().resource::<Got>().multi_a.unwrap();
        let srv = self.server;
        self.apps[0].world_mut().run_system_with(f, (srv, t, m)).unwrap();
    }
    /// what the app got since the last call: (link entity, id, sender's tick, entity inside)
    pub fn got(&mut self, a: usize) -> Vec<(Entity, u32, u32, Option<Entity>)> { core::mem::take(&mut self.apps[a].world_mut().resource_mut::<Got>().msgs) }
    pub fn ids(&mut self, a: usize) -> Vec<u32> { self.got(a).into_iter().map(|x| x.1).collect() }
    pub fn evs(&mut self, a: usize) -> Vec<u32> { core::mem::take(&mut self.apps[a].world_mut().resource_mut::<Got>().evs) }
}
