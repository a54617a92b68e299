//! Typed messages (M01, M02): a server app, a few client apps and perhaps an in-process client.
use crate::common::*;
use bevy_app::prelude::*;
use bevy_ecs::component::Mutable;
use bevy_ecs::entity::MapEntities;
use bevy_ecs::prelude::*;
use bevy_ecs::system::SystemId;
use bevy_time::TimeUpdateStrategy;
use bytes::Bytes;
use core::time::Duration;
use lightyear_connection::client::{Client, Connect, Connected, ConnectionPlugin, Disconnect, Disconnected};
use lightyear_connection::client_of::ClientOf;
use lightyear_connection::direction::NetworkDirection;
use lightyear_connection::host::{HostClient, HostPlugin};
use lightyear_connection::network_target::NetworkTarget;
use lightyear_connection::server::Started;
use lightyear_core::id::{LocalId, PeerId, RemoteId};
use lightyear_core::plugin::CorePlugins;
use lightyear_core::prelude::{LocalTimeline, NetworkTimeline, Tick};
use lightyear_core::time::{Overstep, TickDelta, TickInstant};
use lightyear_core::timeline::TimelineConfig;
use lightyear_link::prelude::{LinkOf, Server};
use lightyear_link::{Link, Linked, recv_payload_from_bytes};
use lightyear_messages::MessageManager;
use lightyear_messages::plugin::MessagePlugin;
use lightyear_messages::prelude::{
    AppMessageExt, AppTriggerExt, EventSender, MessageReceiver, MessageSender, RemoteEvent, ServerMultiMessageSender,
};
use lightyear_messages::receive::ReceivedMessage;
use lightyear_serde::reader::Reader;
use lightyear_serde::registry::SerializeFns;
use lightyear_serde::writer::Writer;
use lightyear_serde::{SerializationError, ToBytes};
use lightyear_transport::channel::ChannelKind;
use lightyear_transport::plugin::TransportPlugin;
use lightyear_transport::prelude::{AppChannelExt, ChannelMode, ChannelSettings, ReliableSettings, Transport};
use mock_instant::global::MockClock;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MsgA { id: u32, pad: Vec<u8> }
#[derive(Clone, Debug, Serialize, Deserialize, MapEntities)]
struct MsgB { id: u32, #[entities] e: Entity }
/// its serialization can fail half way (1), or what it writes cannot be read (2)
#[derive(Clone, Debug)]
struct MsgC { id: u32, bad: u8 }
#[derive(Clone, Debug, Event, Serialize, Deserialize)]
struct EvA { id: u32 }
#[derive(Clone, Debug, Event, Serialize, Deserialize, MapEntities)]
struct EvB { id: u32, #[entities] e: Entity }
/// an event whose serialization can fail
#[derive(Clone, Debug, Event)]
struct EvC { id: u32, bad: u8 }

thread_local! { static SENT_BAD: std::cell::RefCell<BTreeMap<u32, u8>> = const { std::cell::RefCell::new(BTreeMap::new()) }; }
fn as_sent(id: u32, bad: u8) -> bool { SENT_BAD.with(|s| s.borrow().get(&id) == Some(&bad)) }

fn ser_c(id: u32, bad: u8, w: &mut Writer) -> Result<(), SerializationError> {
    for b in id.to_le_bytes() { b.to_bytes(w)?; }
    if bad == 1 { return Err(SerializationError::InvalidValue); }
    bad.to_bytes(w)
}
fn de_c(r: &mut Reader) -> Result<(u32, u8), SerializationError> {
    let mut b = [0; 4];
    for x in b.iter_mut() { *x = u8::from_bytes(r)?; }
    let id = u32::from_le_bytes(b);
    let bad = u8::from_bytes(r)?;
    if bad == 2 { return Err(SerializationError::InvalidValue); }
    Ok((id, bad))
}
fn fns_c() -> SerializeFns<MsgC> {
    SerializeFns { serialize: |m, w| ser_c(m.id, m.bad, w), deserialize: |r| de_c(r).map(|(id, bad)| MsgC { id, bad }) }
}
fn fns_ec() -> SerializeFns<EvC> {
    SerializeFns { serialize: |m, w| ser_c(m.id, m.bad, w), deserialize: |r| de_c(r).map(|(id, bad)| EvC { id, bad }) }
}

macro_rules! timeline { ($cfg:ident, $t:ident) => {
    #[derive(Component)]
    struct $cfg;
    #[derive(Component, Default)]
    struct $t(TickInstant);
    impl TimelineConfig for $cfg { type Context = (); type Timeline = $t; }
    impl NetworkTimeline for $t {
        type Config = $cfg;
        fn now(&self) -> TickInstant { self.0 }
        fn tick(&self) -> Tick { self.0.tick() }
        fn overstep(&self) -> Overstep { self.0.overstep() }
        fn set_now(&mut self, now: TickInstant) { self.0 = now; }
        fn apply_delta(&mut self, delta: TickDelta) { self.0 = self.0 + delta; }
    }
} }
timeline!(CfgA, TlA);
timeline!(CfgB, TlB);

struct C0; struct C1; struct C2; struct C3; struct C4; struct C5;

fn chan_no(k: ChannelKind) -> i64 {
    [ChannelKind::of::<C0>(), ChannelKind::of::<C1>(), ChannelKind::of::<C2>(), ChannelKind::of::<C3>(), ChannelKind::of::<C4>(), ChannelKind::of::<C5>()]
        .iter().position(|x| *x == k).map_or(-1, |x| x as i64)
}

#[derive(Clone, Debug)]
struct Spec { ty: u8, ch: u8, id: u32, bad: u8, e: Entity, pad: usize }

#[derive(Resource, Default)]
struct Obs {
    /// links in this app and their entities
    links: Vec<(usize, Entity)>,
    pool: Vec<Entity>,
    /// (link or -1 for an event, type, id, tick, channel, entity, from)
    msgs: Vec<(i64, u8, u32, i64, i64, i64, String)>,
    evs: Vec<(u8, u32, Entity, PeerId)>,
    take: u8,
    mid: Vec<Mid>,
    mid_log: Vec<Value>,
    tls: Vec<Value>,
    multi: Option<SystemId<In<(Entity, NetworkTarget, Spec)>, bool>>,
}
#[derive(Clone)]
enum Mid { Send(usize, Spec), Multi(Entity, NetworkTarget, Vec<i64>, Spec), Down(usize) }

fn send_spec(w: &mut World, e: Entity, s: &Spec) {
    macro_rules! ch { ($snd:expr, $m:ident, $msg:expr) => { match s.ch {
        0 => $snd.$m::<C0>($msg), 1 => $snd.$m::<C1>($msg), 2 => $snd.$m::<C2>($msg), 3 => $snd.$m::<C3>($msg), 4 => $snd.$m::<C4>($msg), _ => $snd.$m::<C5>($msg),
    } } }
    match s.ty {
        0 => { let mut x = w.get_mut::<MessageSender<MsgA>>(e).unwrap(); ch!(x, send, MsgA { id: s.id, pad: vec![7; s.pad] }) }
        1 => { let mut x = w.get_mut::<MessageSender<MsgB>>(e).unwrap(); ch!(x, send, MsgB { id: s.id, e: s.e }) }
        2 => { let mut x = w.get_mut::<MessageSender<MsgC>>(e).unwrap(); ch!(x, send, MsgC { id: s.id, bad: s.bad }) }
        3 => { let mut x = w.get_mut::<EventSender<EvA>>(e).unwrap(); ch!(x, trigger, EvA { id: s.id }) }
        4 => { let mut x = w.get_mut::<EventSender<EvB>>(e).unwrap(); ch!(x, trigger, EvB { id: s.id, e: s.e }) }
        _ => { let mut x = w.get_mut::<EventSender<EvC>>(e).unwrap(); ch!(x, trigger, EvC { id: s.id, bad: s.bad }) }
    }
}
fn multi_send(In((srv, target, s)): In<(Entity, NetworkTarget, Spec)>, mut snd: ServerMultiMessageSender, q: Query<&Server>) -> bool {
    let server = q.get(srv).unwrap();
    macro_rules! ch { ($msg:expr) => { match s.ch {
        0 => snd.send::<_, C0>($msg, server, &target), 1 => snd.send::<_, C1>($msg, server, &target), 2 => snd.send::<_, C2>($msg, server, &target),
        3 => snd.send::<_, C3>($msg, server, &target), 4 => snd.send::<_, C4>($msg, server, &target), _ => snd.send::<_, C5>($msg, server, &target),
    } } }
    match s.ty {
        0 => ch!(&MsgA { id: s.id, pad: vec![7; s.pad] }),
        1 => ch!(&MsgB { id: s.id, e: s.e }),
        _ => ch!(&MsgC { id: s.id, bad: s.bad }),
    }.is_ok()
}
trait Body: lightyear_messages::Message { const TY: u8; fn parts(&self) -> (u32, Entity); fn intact(&self) -> bool { true } }
impl Body for MsgA { const TY: u8 = 0; fn parts(&self) -> (u32, Entity) { (self.id, Entity::PLACEHOLDER) } fn intact(&self) -> bool { self.pad.iter().all(|x| *x == 7) } }
impl Body for MsgB { const TY: u8 = 1; fn parts(&self) -> (u32, Entity) { (self.id, self.e) } }
impl Body for MsgC { const TY: u8 = 2; fn parts(&self) -> (u32, Entity) { (self.id, Entity::PLACEHOLDER) } fn intact(&self) -> bool { as_sent(self.id, self.bad) } }

fn ent_no(pool: &[Entity], e: Entity) -> i64 {
    if e == Entity::PLACEHOLDER { -1 } else { pool.iter().position(|x| *x == e).map_or(-2, |x| x as i64) }
}
fn collect<M: Body>(w: &mut World, links: &[(usize, Entity)], pool: &[Entity], take: u8, out: &mut Vec<(i64, u8, u32, i64, i64, i64, String)>)
where MessageReceiver<M>: Component<Mutability = Mutable> {
    for (l, e) in links {
        let Ok(mut em) = w.get_entity_mut(*e) else { continue };
        let Some(mut r) = em.get_mut::<MessageReceiver<M>>() else { continue };
        let mut add = |m: &M, tick: Tick, ch: ChannelKind| {
            let (id, en) = m.parts();
            out.push((*l as i64, M::TY, if m.intact() { id } else { 999_999_999 }, tick.0 as i64, chan_no(ch), ent_no(pool, en), String::new()));
        };
        match take {
            // only looks
            0 => r.retain_received_messages(|d, m| { add(m, d.remote_tick, d.channel_kind); true }),
            // takes them all
            1 => for ReceivedMessage { data, remote_tick, channel_kind, .. } in r.receive_with_tick() { add(&data, remote_tick, channel_kind) },
            // takes some
            _ => { let mut i = 0; r.retain_received_messages(|d, m| { add(m, d.remote_tick, d.channel_kind); i += 1; i % 2 == 0 }) }
        }
    }
}
fn peek(w: &mut World) {
    let (links, pool, take) = { let o = w.resource::<Obs>(); (o.links.clone(), o.pool.clone(), o.take) };
    let mut out = vec![];
    collect::<MsgA>(w, &links, &pool, take, &mut out);
    collect::<MsgB>(w, &links, &pool, take, &mut out);
    collect::<MsgC>(w, &links, &pool, take, &mut out);
    let evs = core::mem::take(&mut w.resource_mut::<Obs>().evs);
    for (ty, id, e, from) in evs {
        out.push((-1, ty, id, -1, -1, ent_no(&pool, e), peer(from)));
    }
    let tls = links.iter().filter_map(|(l, e)| w.get_entity(*e).ok().map(|x| json!({"l": l,
        "a": x.get::<TlA>().map_or(-1, |t| t.0.tick().0 as i64), "b": x.get::<TlB>().map_or(-1, |t| t.0.tick().0 as i64)}))).collect();
    let mid = core::mem::take(&mut w.resource_mut::<Obs>().mid);
    let mut log = vec![];
    for m in mid { do_op(w, m, &mut log); }
    let mut o = w.resource_mut::<Obs>();
    o.msgs = out;
    o.tls = tls;
    o.mid_log = log;
}
/// something the application does; in a system or between frames
fn do_op(w: &mut World, m: Mid, log: &mut Vec<Value>) {
    let links = w.resource::<Obs>().links.clone();
    let pool = w.resource::<Obs>().pool.clone();
    let at = |l: usize| links.iter().find(|x| x.0 == l).unwrap().1;
    match m {
        Mid::Send(l, s) => {
            send_spec(w, at(l), &s);
            log.push(json!({"op": "send", "l": l, "ty": s.ty, "ch": s.ch, "id": s.id, "bad": s.bad, "e": ent_no(&pool, s.e), "pad": s.pad}));
        }
        Mid::Multi(srv, t, peers, mut s) => {
            // a message for a client that is not connected may or may not be kept; on an ordered channel that
            // would decide about all later ones
            if matches!(s.ch, 1 | 3) && links.iter().any(|l| w.get::<Connected>(l.1).is_none()) { s.ch = if s.ch == 1 { 0 } else { 4 }; }
            let f = w.resource::<Obs>().multi.unwrap();
            let kind = match &t { NetworkTarget::None => "none", NetworkTarget::All => "all", NetworkTarget::Single(_) | NetworkTarget::Only(_) => "only", _ => "except" };
            let ok = w.run_system_with(f, (srv, t, s.clone())).unwrap();
            log.push(json!({"op": "multi", "t": kind, "to": peers, "ty": s.ty, "ch": s.ch, "id": s.id, "bad": s.bad, "e": ent_no(&pool, s.e), "pad": s.pad, "ok": ok}));
        }
        Mid::Down(l) => {
            let e = at(l);
            if w.get::<HostClient>(e).is_some() { w.trigger(Disconnect { entity: e }); }
            else { w.entity_mut(e).insert(Disconnected::default()); }
            w.flush();
            log.push(json!({"op": "down", "l": l}));
        }
    }
}
fn peer(p: PeerId) -> String {
    match p { PeerId::Netcode(x) => format!("p{x}"), PeerId::Server => "server".into(), PeerId::Local(_) => "local".into(), o => format!("{o:?}") }
}

fn make_app(exact: bool) -> App {
    let mut app = App::new();
    app.add_plugins(CorePlugins { tick_duration: Duration::from_millis(10) });
    app.add_plugins(ConnectionPlugin);
    app.add_plugins(HostPlugin);
    app.add_plugins(TransportPlugin);
    let rel = ReliableSettings { rtt_resend_factor: 1.5, rtt_resend_min_delay: if exact { Duration::from_secs(100_000) } else { Duration::from_millis(20) } };
    let s = |mode| ChannelSettings { mode, ..Default::default() };
    app.add_channel::<C0>(s(ChannelMode::UnorderedReliable(rel))).add_direction(NetworkDirection::Bidirectional);
    app.add_channel::<C1>(s(ChannelMode::OrderedReliable(rel))).add_direction(NetworkDirection::Bidirectional);
    app.add_channel::<C2>(s(ChannelMode::UnorderedUnreliable)).add_direction(NetworkDirection::Bidirectional);
    app.add_channel::<C3>(s(ChannelMode::OrderedReliable(rel)).on_timeline::<TlA>()).add_direction(NetworkDirection::Bidirectional);
    app.add_channel::<C4>(s(ChannelMode::UnorderedReliable(rel)).on_timeline::<TlA>()).add_direction(NetworkDirection::Bidirectional);
    app.add_channel::<C5>(s(ChannelMode::UnorderedReliable(rel)).on_timeline::<TlB>()).add_direction(NetworkDirection::Bidirectional);
    app.register_message::<MsgA>().add_direction(NetworkDirection::Bidirectional);
    app.register_message::<MsgB>().add_map_entities().add_direction(NetworkDirection::Bidirectional);
    app.register_message_custom_serde::<MsgC>(fns_c()).add_direction(NetworkDirection::Bidirectional);
    app.register_event::<EvA>().add_direction(NetworkDirection::Bidirectional);
    app.register_event::<EvB>().add_map_entities().add_direction(NetworkDirection::Bidirectional);
    app.register_event_custom_serde::<EvC>(fns_ec()).add_direction(NetworkDirection::Bidirectional);
    app.init_resource::<Obs>();
    app.add_observer(|t: On<RemoteEvent<EvA>>, mut o: ResMut<Obs>| o.evs.push((3, t.trigger.id, Entity::PLACEHOLDER, t.from)));
    app.add_observer(|t: On<RemoteEvent<EvB>>, mut o: ResMut<Obs>| o.evs.push((4, t.trigger.id, t.trigger.e, t.from)));
    app.add_observer(|t: On<RemoteEvent<EvC>>, mut o: ResMut<Obs>| o.evs.push((5, if as_sent(t.trigger.id, t.trigger.bad) { t.trigger.id } else { 999_999_999 }, Entity::PLACEHOLDER, t.from)));
    app.add_plugins(MessagePlugin);
    app.add_systems(Update, peek);
    app.finish();
    app.cleanup();
    let id = app.world_mut().register_system(multi_send);
    app.world_mut().resource_mut::<Obs>().multi = Some(id);
    let pool: Vec<Entity> = (0..4).map(|_| app.world_mut().spawn_empty().id()).collect();
    app.world_mut().resource_mut::<Obs>().pool = pool;
    app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::ZERO));
    app.update();
    app
}

struct Packet { at: u64, link: usize, to: usize, batch: u64, bytes: Vec<Bytes> }
struct Sim {
    apps: Vec<App>,
    /// entities of links: [at the server, at the client]; link 0 is the in-process client
    ents: BTreeMap<usize, [Option<Entity>; 2]>,
    up: BTreeMap<usize, [bool; 2]>,
    server: Entity,
    net: Vec<Packet>,
    now: u64,
    frames: u64,
    id: u32,
    exact: bool,
    loss: u64,
    lat: (i64, i64),
    maps: BTreeMap<(usize, usize), Vec<(usize, usize)>>,
    received: u64,
}

impl Sim {
    fn app_of(&self, l: usize, side: usize) -> usize { if side == 0 { 0 } else { l } }
    fn flush_link(&mut self, l: usize) {
        self.net.retain(|p| p.link != l);
        for side in 0..2 {
            let a = self.app_of(l, side);
            if let Some(e) = self.ents[&l][side] {
                if let Some(mut k) = self.apps[a].world_mut().get_mut::<Link>(e) {
                    let _ = k.send.drain().count();
                    let _ = k.recv.drain().count();
                }
            }
        }
    }
    fn connect(&mut self, tr: &mut Trace, l: usize) {
        if self.up[&l][0] || self.up[&l][1] { return; }
        if l == 0 {
            let e = self.ents[&0][0].unwrap();
            let w = self.apps[0].world_mut();
            w.trigger(Connect { entity: e });
            w.flush();
            self.up.insert(0, [true, false]);
            tr.ev(json!({"k": "up", "l": 0, "host": w.get::<HostClient>(e).is_some()}));
            return;
        }
        self.flush_link(l);
        for side in 0..2 {
            let a = self.app_of(l, side);
            let e = self.ents[&l][side].unwrap();
            let (me, other) = if side == 0 { (PeerId::Server, PeerId::Netcode(l as u64)) } else { (PeerId::Netcode(l as u64), PeerId::Server) };
            let w = self.apps[a].world_mut();
            w.entity_mut(e).insert((LocalId(me), RemoteId(other), Linked));
            w.entity_mut(e).insert(Connected);
            w.flush();
        }
        self.up.insert(l, [true, true]);
        tr.ev(json!({"k": "up", "l": l, "host": false}));
    }
    fn went_down(&mut self, l: usize, side: usize) {
        self.up.get_mut(&l).unwrap()[side] = false;
        self.maps.remove(&(l, side));
        self.flush_link(l);
    }
    fn op(&mut self, tr: &mut Trace, a: usize, m: Mid) {
        let mut log = vec![];
        do_op(self.apps[a].world_mut(), m.clone(), &mut log);
        for v in log { tr.ev(merge(json!({"k": "op", "a": a}), v)); }
        if let Mid::Down(l) = m { self.went_down(l, if a == 0 { 0 } else { 1 }); }
    }
    fn frame(&mut self, tr: &mut Trace, rng: &mut Rng, a: usize, dt: u64, mid: Vec<Mid>) {
        self.frames += 1;
        // arrivals
        let mut keep = vec![];
        let mut come = vec![];
        for p in core::mem::take(&mut self.net) {
            if p.at <= self.now && self.app_of(p.link, p.to) == a && self.up[&p.link] == [true, true] { come.push(p) } else { keep.push(p) }
        }
        self.net = keep;
        come.sort_by_key(|p| p.at);
        let mut del: Vec<Value> = vec![];
        for p in come {
            let e = self.ents[&p.link][p.to].unwrap();
            let mut k = self.apps[a].world_mut().get_mut::<Link>(e).unwrap();
            for b in p.bytes { k.recv.push_raw(recv_payload_from_bytes(b)); }
            del.push(json!([p.link, p.batch]));
        }
        let downs: Vec<usize> = mid.iter().filter_map(|m| if let Mid::Down(l) = m { Some(*l) } else { None }).collect();
        {
            let mut o = self.apps[a].world_mut().resource_mut::<Obs>();
            o.take = rng.below(3) as u8;
            o.mid = mid;
            o.evs.clear();
        }
        self.apps[a].insert_resource(TimeUpdateStrategy::ManualDuration(Duration::from_millis(dt)));
        self.apps[a].update();
        let (msgs, log, tls) = {
            let mut o = self.apps[a].world_mut().resource_mut::<Obs>();
            (core::mem::take(&mut o.msgs), core::mem::take(&mut o.mid_log), core::mem::take(&mut o.tls))
        };
        self.received += msgs.len() as u64;
        let got: Vec<Value> = msgs.iter().map(|m| json!([m.0, m.1, m.2, m.3, m.4, m.5, m.6])).collect();
        tr.ev(json!({"k": "recv", "a": a, "del": del, "got": got, "tls": tls}));
        for v in log { tr.ev(merge(json!({"k": "op", "a": a}), v)); }
        for l in downs { let side = if a == 0 { 0 } else { 1 }; self.went_down(l, side); }
        let tick = self.apps[a].world().resource::<LocalTimeline>().tick().0;
        // events triggered after the application's turn: those of the in-process client
        let (evs, pool) = { let mut o = self.apps[a].world_mut().resource_mut::<Obs>(); (core::mem::take(&mut o.evs), o.pool.clone()) };
        let got: Vec<Value> = evs.into_iter().map(|(ty, id, e, from)| json!([-1, ty, id, -1, -1, ent_no(&pool, e), peer(from)])).collect();
        tr.ev(json!({"k": "flush", "a": a, "tick": tick, "batch": self.frames, "got": got}));
        // what leaves
        let links: Vec<usize> = self.ents.keys().copied().filter(|l| *l != 0 && (a == 0 || *l == a)).collect();
        for l in links {
            let side = if a == 0 { 0 } else { 1 };
            let e = self.ents[&l][side].unwrap();
            let out: Vec<Bytes> = self.apps[a].world_mut().get_mut::<Link>(e).unwrap().send.drain().collect();
            if self.up[&l] != [true, true] || out.is_empty() { continue; }
            if self.exact {
                self.net.push(Packet { at: self.now + rng.range(self.lat.0, self.lat.1) as u64, link: l, to: 1 - side, batch: self.frames, bytes: out });
            } else {
                for b in out {
                    for _ in 0..if rng.pct(10) { 2 } else { 1 } {
                        if rng.pct(self.loss) { continue; }
                        self.net.push(Packet { at: self.now + rng.range(self.lat.0, self.lat.1) as u64, link: l, to: 1 - side, batch: self.frames, bytes: vec![b.clone()] });
                    }
                }
            }
        }
    }
    fn set_tl(&mut self, tr: &mut Trace, l: usize, side: usize, which: u8, v: Option<u32>) {
        let a = self.app_of(l, side);
        let Some(e) = self.ents[&l][side] else { return };
        let mut em = self.apps[a].world_mut().entity_mut(e);
        match (which, v) {
            (0, Some(t)) => { em.insert(TlA(Tick(t).into())); }
            (0, None) => { em.remove::<TlA>(); }
            (_, Some(t)) => { em.insert(TlB(Tick(t).into())); }
            (_, None) => { em.remove::<TlB>(); }
        }
        tr.ev(json!({"k": "tl", "a": a, "l": l, "w": which, "v": v.map_or(-1, |x| x as i64)}));
    }
    fn spec(&mut self, rng: &mut Rng, a: usize, types: u64) -> Spec {
        self.id += 1;
        let ty = rng.below(types) as u8;
        let ch = rng.below(6) as u8;
        let pool = &self.apps[a].world().resource::<Obs>().pool;
        let e = *rng.pick(pool);
        let pad = if ty == 0 && ch <= 2 && rng.pct(10) { rng.below(3000) as usize } else { 0 };
        let bad = if (ty == 2 || ty == 5) && rng.pct(35) { 1 + rng.below(2) as u8 } else { 0 };
        SENT_BAD.with(|s| s.borrow_mut().insert(self.id, bad));
        Spec { ty, ch, id: self.id, bad, e: if ty == 1 || ty == 4 { e } else { Entity::PLACEHOLDER }, pad }
    }
    fn rand_op(&mut self, rng: &mut Rng, a: usize, downs: bool) -> Option<Mid> {
        let links: Vec<usize> = if a == 0 { self.ents.keys().copied().collect() } else { vec![a] };
        let l = *rng.pick(&links);
        let side = if a == 0 { 0 } else { 1 };
        if downs && rng.pct(4) {
            return if self.up[&l][side] { Some(Mid::Down(l)) } else { None };
        }
        if a == 0 && rng.pct(40) {
            let s = self.spec(rng, 0, 3);
            let n = self.apps.len() as u64;
            let mut peers: Vec<i64> = (0..rng.below(3)).map(|_| rng.below(n) as i64).collect();
            let pid = |x: i64| if x == 0 { PeerId::Local(0) } else { PeerId::Netcode(x as u64) };
            let t = match rng.below(6) {
                0 => { peers.clear(); NetworkTarget::None }
                1 => { peers.clear(); NetworkTarget::All }
                2 => { peers = vec![rng.below(n) as i64]; NetworkTarget::Single(pid(peers[0])) }
                3 => { peers = vec![rng.below(n) as i64]; NetworkTarget::AllExceptSingle(pid(peers[0])) }
                4 => NetworkTarget::Only(peers.iter().map(|x| pid(*x)).collect()),
                _ => NetworkTarget::AllExcept(peers.iter().map(|x| pid(*x)).collect()),
            };
            return Some(Mid::Multi(self.server, t, peers, s));
        }
        let s = self.spec(rng, a, 6);
        Some(Mid::Send(l, s))
    }
}
fn merge(mut a: Value, b: Value) -> Value {
    for (k, v) in b.as_object().unwrap() { a[k] = v.clone(); }
    a
}

pub fn run(args: &Args, tr: &mut Trace) {
    let mut n = 0;
    run_cases(args, tr, |tr, rng, i| n += case(tr, rng, args.thorough && i % 40 == 7));
    if std::env::var("VH_STATS").is_ok() { eprintln!("received {n}"); }
}

fn case(tr: &mut Trace, rng: &mut Rng, burst: bool) -> u64 {
    MockClock::set_time(Duration::from_secs(1000));
    let clients = rng.range(1, 3) as usize;
    let exact = burst || rng.pct(75);
    let host = rng.pct(50);
    let mut apps: Vec<App> = (0..=clients).map(|_| make_app(exact)).collect();
    let base = *rng.pick(&[0u32, 5, 1000]);
    for a in apps.iter_mut() { a.world_mut().resource_mut::<LocalTimeline>().apply_delta((base + rng.below(20) as u32) as i32); }
    let server = apps[0].world_mut().spawn((Server::default(), Started)).id();
    let mut ents = BTreeMap::new();
    let mut up = BTreeMap::new();
    for l in 1..=clients {
        let s = apps[0].world_mut().spawn((LinkOf { server }, ClientOf, Link::default(), Transport::default(), MessageManager::default())).id();
        let c = apps[l].world_mut().spawn((Client, Link::default(), Transport::default(), MessageManager::default())).id();
        ents.insert(l, [Some(s), Some(c)]);
        up.insert(l, [false, false]);
        apps[l].world_mut().resource_mut::<Obs>().links.push((l, c));
        apps[0].world_mut().resource_mut::<Obs>().links.push((l, s));
    }
    if host {
        let e = apps[0].world_mut().spawn((Client, LinkOf { server }, Link::default(), Linked, Transport::default(), MessageManager::default())).id();
        // the senders come with being a client
        ents.insert(0, [Some(e), None]);
        up.insert(0, [false, false]);
        apps[0].world_mut().resource_mut::<Obs>().links.push((0, e));
    }
    for a in apps.iter_mut() { a.world_mut().flush(); }
    SENT_BAD.with(|s| s.borrow_mut().clear());
    let mut s = Sim {
        apps, ents, up, server, net: vec![], now: 0, frames: 0, id: 0, exact,
        loss: if exact { 0 } else { *rng.pick(&[0, 10, 40]) },
        lat: *rng.pick(&[(0, 0), (0, 30), (10, 60), (0, 150)]),
        maps: BTreeMap::new(), received: 0,
    };
    tr.ev(json!({"k": "reset", "n": clients, "host": host, "exact": exact}));
    let eps: Vec<(usize, usize)> = s.ents.iter().flat_map(|(l, e)| (0..2).filter(|i| e[*i].is_some()).map(|i| (*l, i)).collect::<Vec<_>>()).collect();
    for (l, i) in &eps {
        for w in 0..2 { if rng.pct(90) || !exact { s.set_tl(tr, *l, *i, w, Some(base + rng.below(30) as u32)); } }
    }
    let mut all: Vec<usize> = s.ents.keys().copied().collect();
    rng.shuffle(&mut all);
    for l in &all { if rng.pct(85) { s.connect(tr, *l); } }
    let dts = *rng.pick(&[(10u64, 10u64), (3, 12), (10, 40)]);
    let downs = rng.pct(60);
    let n = rng.range(30, 90);
    let rate = *rng.pick(&[1u64, 2, 5]);
    for step in 0..n {
        let a = rng.below(clients as u64 + 1) as usize;
        for _ in 0..rng.below(rate + 1) {
            if let Some(m) = s.rand_op(rng, a, downs) { s.op(tr, a, m); }
        }
        if burst && step == n / 2 {
            // more than fit in the queue of a timeline
            let l = *rng.pick(&eps);
            let a = s.app_of(l.0, l.1);
            let ty = *rng.pick(&[0u8, 3]);
            let mut log = vec![];
            for _ in 0..4096 + rng.below(12) {
                s.id += 1;
                let sp = Spec { ty, ch: 4, id: s.id, bad: 0, e: Entity::PLACEHOLDER, pad: 0 };
                do_op(s.apps[a].world_mut(), Mid::Send(l.0, sp), &mut log);
            }
            let (first, last) = (log[0]["id"].clone(), log[log.len() - 1]["id"].clone());
            tr.ev(json!({"k": "burst", "a": a, "l": l.0, "ty": ty, "ch": 4, "first": first, "last": last}));
        }
        // timelines move, usually forward
        for (l, i) in &eps {
            for w in 0..2u8 {
                if !rng.pct(25) { continue; }
                let a = s.app_of(*l, *i);
                let e = s.ents[l][*i].unwrap();
                let cur = if w == 0 { s.apps[a].world().get::<TlA>(e).map(|t| t.0.tick().0) } else { s.apps[a].world().get::<TlB>(e).map(|t| t.0.tick().0) };
                let here = s.apps[0].world().resource::<LocalTimeline>().tick().0;
                let v = match (cur, rng.below(30)) {
                    (Some(_), 0) if exact => None,
                    (Some(c), 1) if exact => Some(c.saturating_sub(rng.below(200) as u32)),
                    (Some(c), 2) if exact => Some(c + rng.below(60) as u32),
                    (Some(c), 3..=12) => Some(c + 1),
                    (Some(c), 13..=20) => Some(c + 1 + rng.below(4) as u32),
                    (Some(c), _) => Some(c.max(here.saturating_sub(rng.below(12) as u32))),
                    (None, 0..=7) => Some(here.saturating_sub(rng.below(120) as u32)),
                    (None, _) => None,
                };
                if v != cur { s.set_tl(tr, *l, *i, w, v); }
            }
        }
        if exact && rng.pct(12) {
            // the two worlds get to know each other's entities
            let (l, i) = *rng.pick(&eps);
            if l != 0 && s.up[&l][i] {
                let a = s.app_of(l, i);
                let b = s.app_of(l, 1 - i);
                let (r, loc) = (rng.below(4) as usize, rng.below(4) as usize);
                let known = s.maps.entry((l, i)).or_default();
                if !known.iter().any(|x| x.0 == r || x.1 == loc) {
                    known.push((r, loc));
                    let re = s.apps[b].world().resource::<Obs>().pool[r];
                    let le = s.apps[a].world().resource::<Obs>().pool[loc];
                    let e = s.ents[&l][i].unwrap();
                    s.apps[a].world_mut().get_mut::<MessageManager>(e).unwrap().entity_mapper.insert(re, le);
                    tr.ev(json!({"k": "map", "a": a, "l": l, "r": r, "e": loc}));
                }
            }
        }
        for l in all.clone() { if rng.pct(12) { s.connect(tr, l); } }
        let mut mid = vec![];
        if rng.pct(50) {
            for _ in 0..rng.below(rate + 1) {
                if let Some(m) = s.rand_op(rng, a, downs) {
                    // once a connection is ended here it stays so for the frame
                    if let Mid::Down(l) = &m { if mid.iter().any(|x| matches!(x, Mid::Down(k) if k == l)) { continue; } }
                    mid.push(m);
                }
            }
        }
        let dt = rng.range(dts.0 as i64, dts.1 as i64) as u64;
        s.now += dt;
        s.frame(tr, rng, a, dt, mid);
    }
    // quiet: whatever is still on its way comes in
    s.loss = 0;
    for i in 0..if exact { 3 } else { 12 } {
        for (l, k) in &eps {
            for w in 0..2u8 {
                let a = s.app_of(*l, *k);
                let e = s.ents[l][*k].unwrap();
                let has = if w == 0 { s.apps[a].world().get::<TlA>(e).is_some() } else { s.apps[a].world().get::<TlB>(e).is_some() };
                if has && i == 1 { s.set_tl(tr, *l, *k, w, Some(base + 5000)); }
            }
        }
        for a in 0..=clients {
            s.now += 60;
            s.frame(tr, rng, a, 20, vec![]);
        }
    }
    if std::env::var("VH_ONE").is_ok() { eprintln!("{}", s.received); }
    for a in 0..=clients { s.frame(tr, rng, a, 10, vec![]); }
    tr.ev(json!({"k": "end"}));
    s.received
}
