//! Peer-to-peer apps whose packets the scenario moves by hand.
#![allow(dead_code)]
use bevy_app::prelude::*;
pub use bevy_ecs::prelude::*;
use bevy_time::TimeUpdateStrategy;
use bytes::Bytes;
pub use core::time::Duration;
pub use lightyear_connection::client::{Connected, ConnectionPlugin, Disconnected};
pub use lightyear_connection::p2p::P2P;
pub use lightyear_core::id::{LocalId, PeerId, RemoteId};
use lightyear_core::plugin::CorePlugins;
pub use lightyear_core::prelude::{LocalTimeline, Tick};
use lightyear_link::{Link, Linked, recv_payload_from_bytes};
use lightyear_messages::plugin::MessagePlugin;
pub use lightyear_p2p::{P2PSession, P2PSessionPlugin, P2PSessionState, P2PStart, P2PStarted, P2PStop};
use lightyear_sync::prelude::LocalTimelineSync;
use lightyear_transport::prelude::Transport;
use mock_instant::global::MockClock;

#[derive(Resource, Default)]
pub struct Starts(pub Vec<u32>);
pub struct Peer { pub app: App, pub links: Vec<Option<Entity>> }

pub fn peer(me: usize, n: usize, delay: u16, timeout_ms: u64) -> Peer {
    let mut app = App::new();
    app.add_plugins(CorePlugins { tick_duration: Duration::from_millis(10) });
    app.add_plugins(ConnectionPlugin);
    app.init_resource::<LocalTimelineSync>();
    app.init_resource::<Starts>();
    app.insert_resource(P2PSession::default().with_start_delay_ticks(delay).with_start_timeout(Duration::from_millis(timeout_ms)));
    app.add_plugins(P2PSessionPlugin);
    app.add_plugins(MessagePlugin);
    app.add_observer(|t: On<P2PStarted>, mut s: ResMut<Starts>| s.0.push(t.start_tick.0));
    app.finish();
    app.cleanup();
    app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::ZERO));
    app.update();
    app.world_mut().resource_mut::<LocalTimelineSync>().set_synced(true);
    let links = (0..n).map(|q| (q != me).then(|| {
        let e = app.world_mut().spawn((P2P::Inactive, LocalId(PeerId::Netcode(me as u64 + 1)), RemoteId(PeerId::Netcode(q as u64 + 1)), Link::default(), Transport::default(), Linked)).id();
        app.world_mut().flush();
        app.world_mut().entity_mut(e).insert(Connected);
        app.world_mut().flush();
        e
    })).collect();
    Peer { app, links }
}
impl Peer {
    pub fn ask(&mut self) { self.app.world_mut().trigger(P2PStart); self.app.world_mut().flush(); }
    pub fn stop(&mut self) { self.app.world_mut().trigger(P2PStop { unlink: false }); self.app.world_mut().flush(); }
    /// A frame of `ticks` ticks.
    pub fn frame(&mut self, ticks: u64) {
        self.app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::from_millis(10 * ticks)));
        self.app.update();
    }
    pub fn tick(&self) -> u32 { self.app.world().resource::<LocalTimeline>().tick().0 }
    pub fn state(&self) -> P2PSessionState { self.app.world().resource::<P2PSession>().state() }
    pub fn started(&self) -> bool { self.app.world().resource::<P2PSession>().is_started() }
    pub fn starts(&self) -> Vec<u32> { self.app.world().resource::<Starts>().0.clone() }
    pub fn mode(&self, q: usize) -> P2P { *self.app.world().get::<P2P>(self.links[q].unwrap()).unwrap() }
    pub fn take(&mut self, q: usize) -> Vec<Bytes> {
        self.app.world_mut().get_mut::<Link>(self.links[q].unwrap()).unwrap().send.drain().collect()
    }
    pub fn put(&mut self, q: usize, ps: &[Bytes]) {
        let mut l = self.app.world_mut().get_mut::<Link>(self.links[q].unwrap()).unwrap();
        for p in ps { l.recv.push_raw(recv_payload_from_bytes(p.clone())); }
    }
}
/// Advances the wall clock that the transport looks at.
pub fn clock(ms: u64) { MockClock::advance(Duration::from_millis(ms)); }
/// One frame of a tick at every peer; then the packets between pairs for which `pass(from, to)` holds move on.
pub fn round(ps: &mut [Peer], pass: impl Fn(usize, usize) -> bool) {
    clock(10);
    for p in ps.iter_mut() { p.frame(1); }
    for a in 0..ps.len() { for b in 0..ps.len() { if a != b {
        let out = ps[a].take(b);
        if pass(a, b) { ps[b].put(a, &out); }
    } } }
}
pub fn fail(why: &str) -> ! { println!("VIOLATED: {why}"); std::process::exit(1) }
