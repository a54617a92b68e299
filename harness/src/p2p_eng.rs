//! Peer-to-peer sessions (P01, P02): a few real apps joined by lossy links.
use crate::common::*;
use bevy_app::prelude::*;
use bevy_ecs::prelude::*;
use bevy_time::{Real, Time, TimeUpdateStrategy};
use bytes::Bytes;
use core::time::Duration;
use lightyear_connection::client::{Connected, ConnectionPlugin, Disconnected};
use lightyear_connection::network_topology::{NetworkTopology, NetworkingMetadata};
use lightyear_connection::p2p::P2P;
use lightyear_core::id::{LocalId, PeerId, RemoteId};
use lightyear_core::plugin::CorePlugins;
use lightyear_core::prelude::{LocalTimeline, Tick};
use lightyear_link::{Link, Linked, Unlinked, recv_payload_from_bytes};
use lightyear_messages::plugin::{MessagePlugin, MessageSystems};
use lightyear_p2p::verif::ControlMessage;
use lightyear_p2p::{P2PSession, P2PSessionPlugin, P2PSessionState, P2PStart, P2PStarted, P2PStop, P2PStopped};
use lightyear_sync::prelude::LocalTimelineSync;
use lightyear_transport::prelude::Transport;
use mock_instant::global::MockClock;
use serde_json::{Value, json};
use std::collections::BTreeMap;

#[derive(Resource, Default)]
struct Obs {
    links: Vec<(usize, Entity)>,
    recv: Vec<(usize, ControlMessage)>,
    tick: i64,
    now: i64,
    starts: Vec<(i64, i64, Vec<Entity>)>,
    told: u32,
}

struct Peer {
    app: App,
    links: BTreeMap<usize, Entity>,
    last: u64,
    period: (u64, u64),
    due: u64,
    mult: i32,
}
struct Pair {
    ends: [usize; 2],
    up: [bool; 2],
    alive: bool,
}
struct Packet {
    at: u64,
    pair: usize,
    to: usize,
    bytes: Bytes,
}
struct Sim {
    peers: Vec<Peer>,
    pairs: Vec<Pair>,
    net: Vec<Packet>,
    now: u64,
    lat: (i64, i64),
    loss: u64,
    started: u64,
}

fn id(p: usize) -> PeerId { PeerId::Netcode(p as u64 + 1) }
fn name(p: Option<PeerId>) -> String {
    match p { None => String::new(), Some(PeerId::Netcode(x)) => format!("p{x}"), Some(o) => format!("{o:?}") }
}

fn peek(world: &mut World) {
    let links = world.resource::<Obs>().links.clone();
    let mut recv = vec![];
    for (k, e) in links {
        if world.get_entity(e).is_err() { continue; }
        if world.get::<P2P>(e) != Some(&P2P::Candidate) { continue; }
        for m in lightyear_p2p::verif::received(world, e) { recv.push((k, m)); }
    }
    let tick = world.resource::<LocalTimeline>().tick().0 as i64;
    let now = world.resource::<Time<Real>>().elapsed().as_millis() as i64;
    let mut o = world.resource_mut::<Obs>();
    o.recv = recv;
    o.tick = tick;
    o.now = now;
}

fn make_peer(delay: u16, timeout: u64) -> App {
    let mut app = App::new();
    app.add_plugins(CorePlugins { tick_duration: Duration::from_millis(10) });
    app.add_plugins(ConnectionPlugin);
    app.init_resource::<LocalTimelineSync>();
    app.init_resource::<Obs>();
    app.insert_resource(P2PSession::default().with_start_delay_ticks(delay).with_start_timeout(Duration::from_millis(timeout)));
    app.add_plugins(P2PSessionPlugin);
    app.add_plugins(MessagePlugin);
    app.add_observer(|t: On<P2PStarted>, tl: Res<LocalTimeline>, m: Res<NetworkingMetadata>, mut o: ResMut<Obs>| {
        let members = match &m.mode { NetworkTopology::P2P(v) => v.to_vec(), _ => vec![] };
        let now = tl.tick().0 as i64;
        o.starts.push((t.start_tick.0 as i64, now, members));
    });
    app.add_observer(|_: On<P2PStopped>, mut o: ResMut<Obs>| o.told += 1);
    app.add_systems(PreUpdate, peek.in_set(MessageSystems::Receive).after(MessageSystems::ReleaseTimeline));
    app.finish();
    app.cleanup();
    // the first update only starts the clock
    app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::ZERO));
    app.update();
    app
}

impl Sim {
    fn link_ev(&mut self, tr: &mut Trace, a: usize, k: usize, cut: bool) {
        let Some(&e) = self.peers[a].links.get(&k) else {
            tr.ev(json!({"k": "link", "a": a + 1, "id": k, "gone": true, "cut": cut}));
            return;
        };
        let w = self.peers[a].app.world();
        tr.ev(json!({"k": "link", "a": a + 1, "id": k, "gone": false, "cut": cut, "mode": mode(w, e),
            "rid": name(w.get::<RemoteId>(e).map(|x| x.0)), "me": name(w.get::<LocalId>(e).map(|x| x.0)), "conn": w.get::<Connected>(e).is_some()}));
    }
    fn flush_pair(&mut self, k: usize) {
        self.net.retain(|p| p.pair != k);
        for i in 0..2 {
            let a = self.pairs[k].ends[i];
            if let Some(&e) = self.peers[a].links.get(&k) {
                let mut l = self.peers[a].app.world_mut().get_mut::<Link>(e).unwrap();
                let _ = l.send.drain().count();
                let _ = l.recv.drain().count();
            }
        }
    }
    fn new_pair(&mut self, tr: &mut Trace, a: usize, b: usize, conn: bool) {
        let k = self.pairs.len();
        self.pairs.push(Pair { ends: [a, b], up: [false, false], alive: true });
        for (x, y) in [(a, b), (b, a)] {
            let p = &mut self.peers[x];
            let e = p.app.world_mut().spawn((P2P::Inactive, LocalId(id(x)), RemoteId(id(y)), Link::default(), Transport::default(), Linked)).id();
            p.app.world_mut().flush();
            p.links.insert(k, e);
            p.app.world_mut().resource_mut::<Obs>().links.push((k, e));
            self.link_ev(tr, x, k, false);
        }
        if conn { self.up(tr, k); }
    }
    /// a connection comes up at both ends
    fn up(&mut self, tr: &mut Trace, k: usize) {
        if !self.pairs[k].alive || self.pairs[k].up != [false, false] { return; }
        self.flush_pair(k);
        for i in 0..2 {
            let a = self.pairs[k].ends[i];
            let e = self.peers[a].links[&k];
            let w = self.peers[a].app.world_mut();
            // the netcode/raw layers put the identity there before they connect
            if w.get::<RemoteId>(e).is_none() {
                let b = self.pairs[k].ends[1 - i];
                w.entity_mut(e).insert(RemoteId(id(b)));
            }
            w.entity_mut(e).insert((Linked, Connected));
            w.flush();
            self.pairs[k].up[i] = true;
            self.link_ev(tr, a, k, true);
        }
    }
    fn down(&mut self, tr: &mut Trace, k: usize, i: usize) {
        if !self.pairs[k].up[i] { return; }
        self.pairs[k].up[i] = false;
        let a = self.pairs[k].ends[i];
        if let Some(&e) = self.peers[a].links.get(&k) {
            let w = self.peers[a].app.world_mut();
            w.entity_mut(e).insert(Disconnected::default());
            w.flush();
        }
        self.flush_pair(k);
        self.link_ev(tr, a, k, true);
    }
    fn seen(&self, a: usize) -> Value {
        let w = self.peers[a].app.world();
        let (st, start) = match w.resource::<P2PSession>().state() {
            P2PSessionState::Stopped => ("stopped", -1),
            P2PSessionState::Starting { start_tick } => ("starting", start_tick.map_or(-1, |t| t.0 as i64)),
            P2PSessionState::Started { start_tick } => ("started", start_tick.0 as i64),
        };
        let modes: Vec<Value> = self.peers[a].links.iter().map(|(k, e)| json!([k, mode(w, *e)])).collect();
        json!({"st": st, "start": start, "modes": modes})
    }
    fn ask(&mut self, tr: &mut Trace, a: usize) {
        let w = self.peers[a].app.world_mut();
        w.trigger(P2PStart);
        w.flush();
        let now = w.resource::<Time<Real>>().elapsed().as_millis() as i64;
        let hash = lightyear_p2p::verif::roster_hash(w.resource::<P2PSession>()).map_or(String::new(), |h| format!("{h:x}"));
        tr.ev(merge(json!({"k": "start", "a": a + 1, "now": now, "hash": hash}), self.seen(a)));
    }
    fn leave(&mut self, tr: &mut Trace, a: usize, unlink: bool) {
        let links = self.peers[a].links.clone();
        let w = self.peers[a].app.world_mut();
        w.resource_mut::<Obs>().told = 0;
        let before: Vec<(usize, bool)> = links.iter().filter(|(_, e)| w.get::<P2P>(**e).is_some()).map(|(k, e)| (*k, w.get::<Unlinked>(*e).is_some())).collect();
        w.trigger(P2PStop { unlink });
        w.flush();
        let told = core::mem::take(&mut w.resource_mut::<Obs>().told);
        let down: Vec<usize> = before.iter().filter(|(k, was)| (!was || unlink) && w.get::<Unlinked>(links[k]).is_some()).map(|x| x.0).collect();
        tr.ev(merge(json!({"k": "stop", "a": a + 1, "unlink": unlink, "told": told, "down": down}), self.seen(a)));
        if unlink {
            for k in down {
                let i = if self.pairs[k].ends[0] == a { 0 } else { 1 };
                if self.pairs[k].up[i] {
                    self.pairs[k].up[i] = false;
                    let e = self.peers[a].links[&k];
                    let w = self.peers[a].app.world_mut();
                    if w.get::<Connected>(e).is_some() { w.entity_mut(e).insert(Disconnected::default()); w.flush(); }
                    self.flush_pair(k);
                }
                self.link_ev(tr, a, k, true);
            }
        }
    }
    fn inject(&mut self, tr: &mut Trace, rng: &mut Rng, a: usize) {
        let ks: Vec<usize> = self.peers[a].links.keys().copied().filter(|k| self.pairs[*k].up == [true, true]).collect();
        if ks.is_empty() { return; }
        let k = *rng.pick(&ks);
        let e = self.peers[a].links[&k];
        let b = if self.pairs[k].ends[0] == a { self.pairs[k].ends[1] } else { self.pairs[k].ends[0] };
        // what the receiver would take for the truth, mostly
        let own = lightyear_p2p::verif::roster_hash(self.peers[b].app.world().resource::<P2PSession>());
        let hash = if rng.pct(80) { own.unwrap_or(7) } else { 7 };
        let cur = self.peers[b].app.world().resource::<P2PSession>();
        let gcur = lightyear_p2p::verif::generation(cur);
        let g = match rng.below(10) { 0..=4 => gcur, 5 | 6 => gcur.wrapping_sub(1), 7 => gcur + 1, 8 => 0, _ => u32::MAX };
        let st = cur.start_tick();
        let tick = if rng.pct(50) { st.map_or(40, |t| t.0) } else { rng.below(300) as u32 };
        // a message with the receiver's current generation and roster is only a faulty member: keep that rare
        if g == gcur && hash != 7 && rng.pct(60) { return; }
        let m = ControlMessage { acknowledgement: rng.pct(50), generation: g, roster_hash: hash, tick: Tick(tick) };
        lightyear_p2p::verif::send(self.peers[a].app.world_mut(), e, m);
        tr.ev(json!({"k": "inject", "a": a + 1, "id": k, "m": mj(&m)}));
    }
    fn frame(&mut self, tr: &mut Trace, a: usize) {
        let dt = self.now - self.peers[a].last;
        self.peers[a].last = self.now;
        // deliver
        let now = self.now;
        let mut rest = vec![];
        for p in core::mem::take(&mut self.net) {
            if p.to == a && p.at <= now {
                if let Some(&e) = self.peers[a].links.get(&p.pair) {
                    self.peers[a].app.world_mut().get_mut::<Link>(e).unwrap().recv.push_raw(recv_payload_from_bytes(p.bytes.clone()));
                }
            } else { rest.push(p); }
        }
        self.net = rest;
        let p = &mut self.peers[a];
        {
            let mut o = p.app.world_mut().resource_mut::<Obs>();
            o.recv.clear();
            o.starts.clear();
            o.told = 0;
        }
        p.app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::from_millis(dt)));
        p.app.update();
        let w = p.app.world();
        let t1 = w.resource::<LocalTimeline>().tick().0 as i64;
        let o = w.resource::<Obs>();
        let synced = w.resource::<LocalTimelineSync>().is_synced();
        let recv: Vec<Value> = o.recv.iter().map(|(k, m)| {
            let from = if self.pairs[*k].ends[0] == a { self.pairs[*k].ends[1] } else { self.pairs[*k].ends[0] };
            merge(json!({"id": k, "from": from + 1}), mj(m))
        }).collect();
        self.started += o.starts.len() as u64;
        let starts: Vec<Value> = o.starts.iter().map(|(s, t, m)| json!({"start": s, "tick": t,
            "members": m.iter().map(|e| p.links.iter().find(|x| x.1 == e).map_or(-1, |x| *x.0 as i64)).collect::<Vec<_>>()})).collect();
        let ev = json!({"k": "frame", "a": a + 1, "now": o.now, "tick": o.tick, "n": t1 - o.tick, "synced": synced, "recv": recv, "starts": starts, "told": o.told});
        tr.ev(merge(ev, self.seen(a)));
    }
    /// collects what the app put on its links
    fn collect(&mut self, rng: &mut Rng, a: usize) {
        let links: Vec<(usize, Entity)> = self.peers[a].links.iter().map(|(k, e)| (*k, *e)).collect();
        for (k, e) in links {
            let out: Vec<Bytes> = self.peers[a].app.world_mut().get_mut::<Link>(e).unwrap().send.drain().collect();
            if self.pairs[k].up != [true, true] { continue; }
            let to = if self.pairs[k].ends[0] == a { self.pairs[k].ends[1] } else { self.pairs[k].ends[0] };
            for b in out {
                if rng.pct(self.loss) { continue; }
                for _ in 0..if rng.pct(5) { 2 } else { 1 } {
                    let at = self.now + rng.range(self.lat.0, self.lat.1) as u64;
                    self.net.push(Packet { at, pair: k, to, bytes: b.clone() });
                }
            }
        }
    }
    fn step(&mut self, tr: &mut Trace, rng: &mut Rng) {
        self.now += 5;
        MockClock::advance(Duration::from_millis(5));
        for a in 0..self.peers.len() {
            if self.now >= self.peers[a].due {
                let (lo, hi) = self.peers[a].period;
                self.peers[a].due = self.now + rng.range(lo as i64, hi as i64) as u64;
                self.frame(tr, a);
                self.collect(rng, a);
            }
        }
    }
    fn sync(&mut self, a: usize, on: bool) {
        self.peers[a].app.world_mut().resource_mut::<LocalTimelineSync>().set_synced(on);
    }
}

fn mode(w: &World, e: Entity) -> &'static str {
    match w.get::<P2P>(e) {
        None => "none",
        Some(P2P::Inactive) => "inactive",
        Some(P2P::Candidate) => "candidate",
        Some(P2P::Joined) => "joined",
    }
}
fn mj(m: &ControlMessage) -> Value {
    json!({"kind": if m.acknowledgement { "ack" } else { "ready" }, "gen": m.generation as i32, "hash": format!("{:x}", m.roster_hash), "tick": m.tick.0})
}
fn merge(mut a: Value, b: Value) -> Value {
    for (k, v) in b.as_object().unwrap() { a[k] = v.clone(); }
    a
}

pub fn run(args: &Args, tr: &mut Trace) {
    let mut started = 0;
    run_cases(args, tr, |tr, rng, _| started += case(tr, rng));
    if std::env::var("VH_STATS").is_ok() { eprintln!("sessions started {started}"); }
}

fn case(tr: &mut Trace, rng: &mut Rng) -> u64 {
    MockClock::set_time(Duration::from_secs(1000));
    let n = *rng.pick(&[2, 2, 2, 3, 3, 4]);
    let chaos = rng.pct(50);
    let delay: Vec<u16> = (0..n).map(|_| *rng.pick(&[2, 5, 10, 20, 20, 40])).collect();
    let base = *rng.pick(&[200u64, 400, 800]);
    let timeout: Vec<u64> = (0..n).map(|_| if rng.pct(80) { base } else { base / 2 }).collect();
    tr.ev(json!({"k": "reset", "n": n, "delay": delay, "timeout": timeout}));
    let mut s = Sim {
        peers: (0..n).map(|i| {
            let p = *rng.pick(&[(10, 10), (5, 15), (15, 25), (30, 60)]);
            Peer { app: make_peer(delay[i], timeout[i]), links: BTreeMap::new(), last: 0, period: p, due: 0, mult: 0 }
        }).collect(),
        pairs: vec![], net: vec![], now: 0,
        lat: *rng.pick(&[(0, 0), (0, 10), (5, 40), (20, 90)]),
        loss: *rng.pick(&[0, 0, 10, 30]),
        started: 0,
    };
    for a in 0..n {
        let t = rng.below(12) as i32;
        s.peers[a].mult = t;
        s.peers[a].app.world_mut().resource_mut::<LocalTimeline>().apply_delta(t);
    }
    let conn0 = rng.pct(50);
    for a in 0..n { for b in a + 1..n { if !chaos || rng.pct(90) { s.new_pair(tr, a, b, conn0); } } }
    for _ in 0..rng.below(4) { s.step(tr, rng); }
    let rounds = rng.range(1, 3);
    for _ in 0..rounds {
        // everybody asks; then the links come up and the clocks synchronise
        let together = rng.pct(85);
        let mut wait: Vec<u64> = (0..n).map(|_| if together { 0 } else { rng.below(30) }).collect();
        let mut sync_at: Vec<u64> = (0..n).map(|_| rng.below(25)).collect();
        let mut up_at: Vec<u64> = (0..s.pairs.len()).map(|_| rng.below(20)).collect();
        let len = rng.range(60, 200) as u64;
        for i in 0..len {
            for a in 0..n {
                if wait[a] == i { s.ask(tr, a); wait[a] = u64::MAX; }
                if sync_at[a] == i { s.sync(a, true); sync_at[a] = u64::MAX; }
            }
            for k in 0..up_at.len() { if up_at[k] == i { s.up(tr, k); up_at[k] = u64::MAX; } }
            if chaos && rng.pct(6) { disturb(&mut s, tr, rng, n); }
            s.step(tr, rng);
        }
        // end of the round
        for a in 0..n {
            if rng.pct(85) { let u = rng.pct(15); s.leave(tr, a, u); }
            if rng.pct(20) { s.sync(a, false); }
            for _ in 0..rng.below(3) { s.step(tr, rng); }
        }
        for k in 0..s.pairs.len() {
            for i in 0..2 { if !s.pairs[k].up[1 - i] { s.down(tr, k, i); } }
        }
    }
    if !chaos || rng.pct(50) {
        s.loss = 0;
        for _ in 0..(base / 5 + 40) {
            s.step(tr, rng);
        }
        // an attempt that has agreed waits for its tick, at most the longest start delay
        for _ in 0..120 { s.step(tr, rng); }
        if !chaos { tr.ev(json!({"k": "end"})); }
    }
    s.started
}

fn disturb(s: &mut Sim, tr: &mut Trace, rng: &mut Rng, n: usize) {
    let a = rng.below(n as u64) as usize;
    let ks: Vec<usize> = s.peers[a].links.keys().copied().collect();
    let k = if ks.is_empty() { None } else { Some(*rng.pick(&ks)) };
    match rng.below(20) {
        0 => s.ask(tr, a),
        1 => { let u = rng.pct(30); s.leave(tr, a, u) }
        2 => { let on = rng.pct(70); s.sync(a, on) }
        3 => if let Some(k) = k { s.down(tr, k, 0); s.down(tr, k, 1); },
        4 => if let Some(k) = k { let i = rng.below(2) as usize; s.down(tr, k, i); },
        5 | 6 => if let Some(k) = k {
            for i in 0..2 { s.down(tr, k, i); }
            s.up(tr, k);
        },
        7 => {
            let b = (a + 1 + rng.below(n as u64 - 1) as usize) % n;
            if s.pairs.len() < 10 { let c = rng.pct(70); s.new_pair(tr, a, b, c); }
        }
        8 => if let (Some(k), true) = (k, rng.pct(30)) {
            // the entity goes
            let e = s.peers[a].links.remove(&k).unwrap();
            s.flush_rest(k);
            s.peers[a].app.world_mut().entity_mut(e).despawn();
            s.peers[a].app.world_mut().flush();
            let i = if s.pairs[k].ends[0] == a { 0 } else { 1 };
            s.pairs[k].alive = false;
            s.pairs[k].up[i] = false;
            s.link_ev(tr, a, k, true);
        },
        9 => if let (Some(k), true) = (k, rng.pct(40)) {
            let e = s.peers[a].links[&k];
            let w = s.peers[a].app.world_mut();
            if w.get::<P2P>(e).is_some() { w.entity_mut(e).remove::<P2P>(); } else { w.entity_mut(e).insert(P2P::Inactive); }
            w.flush();
            s.link_ev(tr, a, k, false);
        },
        10 => if let (Some(k), true) = (k, rng.pct(40)) {
            // another peer than was thought
            let e = s.peers[a].links[&k];
            let b = rng.below(n as u64 + 1) as usize;
            let w = s.peers[a].app.world_mut();
            if rng.pct(15) { w.entity_mut(e).remove::<RemoteId>(); } else { w.entity_mut(e).insert(RemoteId(id(b))); }
            w.flush();
            s.link_ev(tr, a, k, false);
        },
        11 => {
            let d = *rng.pick(&[-3, -1, 1, 2, 5, 30]);
            let t = s.peers[a].app.world().resource::<LocalTimeline>().tick().0 as i32;
            if t + d >= 0 { s.peers[a].app.world_mut().resource_mut::<LocalTimeline>().apply_delta(d); }
        }
        12 => { s.loss = *rng.pick(&[0, 0, 20, 60, 100]); }
        _ => s.inject(tr, rng, a),
    }
}

impl Sim {
    fn flush_rest(&mut self, k: usize) { self.net.retain(|p| p.pair != k); }
}
