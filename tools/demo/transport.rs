//! Two transport endpoints whose packets the scenario moves by hand.
#![allow(dead_code)]
use bevy_app::prelude::*;
use bevy_ecs::prelude::*;
use bevy_time::{Real, Time};
use bytes::{Bytes, BytesMut};
use core::time::Duration;
use lightyear_connection::prelude::Disconnected;
use lightyear_core::prelude::LocalTimeline;
use lightyear_link::{Link, LinkMtu, Linked, Unlinked};
use lightyear_transport::channel::ChannelKind;
use lightyear_transport::plugin::{PacketAcked, PacketLost, TransportPlugin};
pub use lightyear_transport::prelude::*;

pub struct A;
pub struct B;
#[derive(Resource, Default)]
pub struct Obs { pub acked: Vec<(u16, Duration)>, pub lost: Vec<u16> }

pub struct End { pub app: App, pub ent: Entity, pub rtt: u64 }

pub fn settings(mode: ChannelMode) -> ChannelSettings {
    ChannelSettings { mode, ..Default::default() }
}

/// An endpoint with channels A (`a`) and B (`b`).
pub fn end(a: ChannelSettings, b: ChannelSettings, prio: PriorityConfig, mtu: usize) -> End {
    let mut app = App::new();
    app.init_resource::<Time<Real>>();
    app.init_resource::<LocalTimeline>();
    app.init_resource::<Obs>();
    app.add_channel::<A>(a);
    app.add_channel::<B>(b);
    app.add_plugins(TransportPlugin);
    app.finish();
    app.add_observer(|t: On<PacketAcked>, mut o: ResMut<Obs>| o.acked.push((t.packet_id.0, t.rtt_sample)));
    app.add_observer(|t: On<PacketLost>, mut o: ResMut<Obs>| o.lost.push(t.packet_id.0));
    let mut tr = Transport::new(prio);
    let reg = app.world().resource::<ChannelRegistry>();
    tr.add_channel_send_from_registry::<A>(reg);
    tr.add_channel_receive_from_registry::<A>(reg);
    tr.add_channel_send_from_registry::<B>(reg);
    tr.add_channel_receive_from_registry::<B>(reg);
    let ent = app.world_mut().spawn((Link::default().with_mtu(LinkMtu::new(mtu)), tr, Linked)).id();
    End { app, ent, rtt: 0 }
}

impl End {
    pub fn wait(&mut self, ms: u64) {
        self.app.world_mut().resource_mut::<Time<Real>>().advance_by(Duration::from_millis(ms));
    }
    fn t(&mut self) -> Mut<'_, Transport> {
        self.app.world_mut().get_mut::<Transport>(self.ent).unwrap()
    }
    pub fn send<C: Channel>(&mut self, bytes: &[u8]) { self.send_p::<C>(bytes, 1.0) }
    pub fn send_p<C: Channel>(&mut self, bytes: &[u8], prio: f32) {
        self.t().send_mut_erased(ChannelKind::of::<C>(), Bytes::copy_from_slice(bytes), prio).unwrap();
    }
    pub fn tick(&mut self, d: i32) { self.app.world_mut().resource_mut::<LocalTimeline>().apply_delta(d); }
    /// Flushes the channels and returns the packets put on the link.
    pub fn flush(&mut self) -> Vec<Bytes> {
        self.app.world_mut().run_schedule(PostUpdate);
        self.app.world_mut().get_mut::<Link>(self.ent).unwrap().send.drain().collect()
    }
    pub fn deliver(&mut self, p: &Bytes) {
        self.app.world_mut().get_mut::<Link>(self.ent).unwrap().recv.push_raw(BytesMut::from(p.as_ref()));
    }
    /// Receives what was delivered; returns the messages readable on channel A, then B, with their ticks.
    pub fn recv(&mut self) -> (Vec<Vec<u8>>, Vec<Vec<u8>>) {
        let rtt = self.rtt;
        self.app.world_mut().get_mut::<Link>(self.ent).unwrap().stats.rtt = Duration::from_millis(rtt);
        self.app.world_mut().run_schedule(PreUpdate);
        let mut r = (vec![], vec![]);
        for c in self.t().channel_receives_mut() {
            let a = c.channel_kind() == ChannelKind::of::<A>();
            while let Some((_, b, _)) = c.read_message() {
                if a { r.0.push(b.to_vec()) } else { r.1.push(b.to_vec()) }
            }
        }
        r
    }
    pub fn message_acks<C: Channel>(&mut self) -> usize {
        let k = ChannelKind::of::<C>();
        let t = self.app.world().get::<Transport>(self.ent).unwrap();
        t.channel_sends().find(|(x, _)| *x == k).map(|(_, s)| s.message_acks().len()).unwrap_or(0)
    }
    pub fn obs(&mut self) -> Obs { std::mem::take(&mut *self.app.world_mut().resource_mut::<Obs>()) }
    pub fn reconnect(&mut self) {
        let e = self.ent;
        let w = self.app.world_mut();
        w.entity_mut(e).insert(Disconnected { reason: Default::default() });
        w.entity_mut(e).insert(Unlinked { reason: Default::default() });
        w.flush();
        w.entity_mut(e).remove::<Disconnected>();
        w.entity_mut(e).insert(Linked);
        w.flush();
    }
}

pub fn fail(what: &str) -> ! {
    println!("PROPERTY BROKEN: {what}");
    std::process::exit(1)
}
