//! Clock synchronization (S01, S02, S03): the controller over scripted remote clocks, the input delay,
//! the ping protocol over a scripted network, and whole apps over a steady network.
use crate::common::*;
use bevy_app::prelude::*;
use bevy_ecs::change_detection::{DetectChanges, Ref};
use bevy_ecs::prelude::*;
use bevy_time::{Fixed, Time, TimeUpdateStrategy, Virtual};
use bytes::Bytes;
use core::time::Duration;
use fixed::types::U32F32;
use lightyear_connection::client::{Client, Connected, ConnectionPlugin, Disconnected};
use lightyear_connection::ConnectionPlugin as TopologyPlugin;
use lightyear_connection::client_of::ClientOf;
use lightyear_connection::host::HostClient;
use lightyear_connection::network_topology::{NetworkTopology, NetworkingMetadata};
use lightyear_connection::p2p::P2P;
use lightyear_connection::server::Started;
use lightyear_core::id::{LocalId, PeerId, RemoteId};
use lightyear_core::plugin::CorePlugins;
use lightyear_core::prelude::{LocalTimeline, NetworkTimeline, Tick};
use lightyear_core::time::{Overstep, PositiveTickDelta, TickDelta, TickInstant};
use lightyear_core::timeline::{LocalTimelineShift, TimelineConfig};
use lightyear_link::prelude::{LinkOf, Server};
use lightyear_link::{Link, Linked, recv_payload_from_bytes};
use lightyear_messages::MessageManager;
use lightyear_messages::plugin::{MessagePlugin, MessageSystems};
use lightyear_messages::prelude::{MessageReceiver, MessageSender};
use lightyear_sync::client::ClientPlugin;
use lightyear_sync::ping::estimator::FinalStats;
use lightyear_sync::ping::plugin::{PingPlugin, PingSystems};
use lightyear_sync::ping::store::PingId;
use lightyear_sync::prelude::client::{InputDelayConfig, RemoteTimeline};
use lightyear_sync::prelude::{
    InputTimelineConfig, LocalTimelineSync, P2PTimelineDiverged, Ping, PingChannel, PingConfig, PingManager, Pong,
    PredictionWindowWait, SyncConfig, SyncSystems,
};
use lightyear_sync::server::ServerPlugin;
use lightyear_sync::timeline::sync::{LocalTimelineSyncPlugin, SyncTargetTimeline};
use lightyear_transport::plugin::{PacketReceived, TransportPlugin};
use lightyear_transport::prelude::Transport;
use mock_instant::global::MockClock;
use serde_json::{Value, json};

/// one tick, and one of the units in which its parts are counted (1/1024 of it)
const TICK: u64 = 1 << 24;
const UNIT: u64 = 1 << 14;

fn rel(a: TickInstant, base: u32) -> i64 {
    (a.value.to_bits().wrapping_sub((base as u64) << 32) as i64) >> 22
}
fn inst(base: u32, units: i64) -> TickInstant {
    TickInstant { value: U32F32::from_bits(((base as u64) << 32).wrapping_add((units << 22) as u64)) }
}
fn speed(x: f32) -> i64 { (x as f64 * 1e4).round() as i64 }
/// in units, to the nearest
fn units(d: Duration) -> i64 { ((d.as_nanos() as f64) / UNIT as f64).round() as i64 }

#[derive(Component, Default)]
struct FakeConfig;
#[derive(Component, Default)]
struct Fake { now: TickInstant, est: TickInstant, init: bool, recv: bool }
impl TimelineConfig for FakeConfig { type Context = (); type Timeline = Fake; }
impl NetworkTimeline for Fake {
    type Config = FakeConfig;
    fn now(&self) -> TickInstant { self.now }
    fn tick(&self) -> Tick { self.now.tick() }
    fn overstep(&self) -> Overstep { self.now.overstep() }
    fn set_now(&mut self, now: TickInstant) { self.now = now; }
    fn apply_delta(&mut self, delta: TickDelta) { self.now = self.now + delta; }
}
impl SyncTargetTimeline for Fake {
    fn current_estimate(&self) -> TickInstant { self.est }
    fn is_initialized(&self) -> bool { self.init }
    fn received_packet(&self) -> bool { self.recv }
}

#[derive(Resource, Default)]
struct Obs {
    base: u32,
    now: i64,
    mc: bool,
    cc: bool,
    shifts: Vec<i32>,
    div: Vec<(Entity, f32)>,
    /// clock advance during Update
    proc: u64,
    pings: Vec<u16>,
    pongs: Vec<(u16, i64)>,
    ticks: Vec<i64>,
    est: Vec<i64>,
    /// arrivals at the other end: sender's tick less the receiver's
    slack: Vec<i64>,
}
fn instant_of(w: &World) -> TickInstant { w.resource::<LocalTimeline>().instant(w.resource::<Time<Fixed>>()) }

pub fn run(args: &Args, tr: &mut Trace) {
    run_cases(args, tr, |tr, rng, _| {
        MockClock::set_time(Duration::from_secs(1000));
        let w: [u64; 4] = match args.prop.as_str() { "S01" => [0, 0, 90, 10], "S02" => [55, 0, 15, 30], "S03" => [55, 45, 0, 0], _ => [30, 20, 30, 20] };
        let mut k = rng.below(100);
        let mut kind = 0;
        for (i, x) in w.iter().enumerate() { if k < *x { kind = i; break; } k -= x; }
        match kind { 0 => plug(tr, rng), 1 => delay(tr, rng), 2 => scripted(tr, rng), _ => steady(tr, rng, args.thorough) }
    });
}

// ---------------------------------------------------------------------------------------------- controller
struct Cfg { em: i64, xm: i64, thr: u8, sf: i64, mult: u8, jm: i64, hs: u8 }
fn some_cfg(r: &mut Rng) -> Cfg {
    let em = *r.pick(&[256i64, 512, 1024, 1024, 2048]);
    Cfg { em, xm: em * *r.pick(&[2i64, 4, 10]), thr: *r.pick(&[0u8, 1, 1, 2, 3, 5]), sf: *r.pick(&[10000i64, 10100, 10500, 12000, 13000]),
          mult: *r.pick(&[0u8, 1, 4]), jm: *r.pick(&[0i64, 1024, 1536]), hs: if r.pct(8) { 1 } else { 0 } }
}
fn sync_config(c: &Cfg) -> SyncConfig {
    SyncConfig { jitter_multiple: c.mult, jitter_margin: c.jm as f32 / 1024., handshake_pings: c.hs, error_margin: c.em as f32 / 1024.,
        max_error_margin: c.xm as f32 / 1024., consecutive_errors_threshold: c.thr, speedup_factor: c.sf as f32 / 1e4 }
}
fn before_sync(tl: Res<LocalTimeline>, ft: Res<Time<Fixed>>, md: Res<NetworkingMetadata>, p: Query<Ref<P2P>>, mut o: ResMut<Obs>) {
    o.now = rel(tl.instant(&ft), o.base);
    o.mc = md.is_changed();
    o.cc = p.iter().any(|x| *x == P2P::Candidate && x.is_changed());
}

fn plug(tr: &mut Trace, r: &mut Rng) {
    let mut app = App::new();
    app.add_plugins((CorePlugins { tick_duration: Duration::from_nanos(TICK) }, LocalTimelineSyncPlugin::<Fake>::default()));
    app.init_resource::<NetworkingMetadata>();
    app.init_resource::<Obs>();
    app.add_observer(|t: On<LocalTimelineShift>, mut o: ResMut<Obs>| o.shifts.push(t.delta));
    app.add_observer(|t: On<P2PTimelineDiverged>, mut o: ResMut<Obs>| { let x = (t.limiting_link, t.lead); o.div.push(x) });
    app.add_systems(PostUpdate, before_sync.before(SyncSystems::Sync));
    app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::ZERO));
    app.finish();
    app.cleanup();
    app.update();
    let base = *r.pick(&[3000u32, 1_000_000, (1 << 31) - 60]);
    app.world_mut().resource_mut::<Obs>().base = base;
    app.world_mut().resource_mut::<LocalTimeline>().apply_delta(base as i32);
    let n = r.range(1, 4) as usize;
    let p2p = r.pct(45);
    let links: Vec<Entity> = (0..n).map(|i| {
        let e = app.world_mut().spawn((Client, RemoteId(PeerId::Netcode(i as u64)), PingManager::default(), Fake::default())).id();
        if p2p { app.world_mut().entity_mut(e).insert(P2P::Candidate); }
        e
    }).collect();
    let mut c = some_cfg(r);
    tr.ev(json!({"k": "reset", "kind": "plug", "n": n}));
    let set_cfg = |app: &mut App, tr: &mut Trace, c: &Cfg| {
        app.insert_resource(InputTimelineConfig::new(sync_config(c), InputDelayConfig::no_input_delay()));
        tr.ev(json!({"k": "cfg", "em": c.em, "xm": c.xm, "thr": c.thr, "sf": c.sf, "mult": c.mult, "jm": c.jm, "hs": c.hs}));
    };
    set_cfg(&mut app, tr, &c);
    let pick_mode = |r: &mut Rng, app: &mut App| {
        let e = *r.pick(&links);
        match r.below(if p2p { 14 } else { 12 }) {
            0 => (NetworkTopology::Undefined, json!({"t": "undef", "m": []})),
            1 => (NetworkTopology::Server(e), json!({"t": "server", "m": []})),
            2 => (NetworkTopology::HostClient { server: e, client: e }, json!({"t": "host", "m": []})),
            3..=8 if !p2p => { let i = r.below(n as u64) as usize; (NetworkTopology::Client(links[i]), json!({"t": "client", "m": [i]})) }
            _ => {
                let _ = app;
                let mut m: Vec<usize> = (0..n).filter(|_| r.pct(80)).collect();
                if m.is_empty() { m.push(0); }
                (NetworkTopology::P2P(m.iter().map(|i| links[*i]).collect()), json!({"t": "p2p", "m": m}))
            }
        }
    };
    let mut mode_v = json!({"t": "undef", "m": []});
    if !p2p { for l in &links { if r.pct(80) { app.world_mut().entity_mut(*l).insert(Connected); } } }
    // how the remote clocks behave: lead of the local clock in units, drift per frame
    let mut lead: Vec<i64> = vec![0; n];
    let mut drift: Vec<i64> = vec![0; n];
    let mut next_mode = true;
    let frames = r.range(40, 120);
    let mut tickno = 0i64;
    for f in 0..frames {
        if next_mode || r.pct(3) {
            let (m, v) = if !p2p && r.pct(70) { (NetworkTopology::Client(links[0]), json!({"t": "client", "m": [0]})) } else { pick_mode(r, &mut app) };
            app.world_mut().resource_mut::<NetworkingMetadata>().mode = m;
            mode_v = v;
            next_mode = false;
        }
        if p2p && f == 0 { app.world_mut().resource_mut::<NetworkingMetadata>().mode = NetworkTopology::Undefined; mode_v = json!({"t": "undef", "m": []}); }
        if r.pct(2) { app.world_mut().resource_mut::<NetworkingMetadata>().as_mut(); }
        for _ in 0..r.below(3) {
            let i = r.below(n as u64) as usize;
            let e = links[i];
            let w = app.world_mut();
            match r.below(30) {
                0..=3 => {
                    if w.get::<Connected>(e).is_none() && w.get::<HostClient>(e).is_none() {
                        w.entity_mut(e).insert(Connected);
                        w.flush();
                        let s = w.resource::<LocalTimelineSync>();
                        let v = json!({"k": "conn", "l": i, "p2p": w.get::<P2P>(e).is_some(), "s": s.is_synced(), "v": speed(s.relative_speed())});
                        tr.ev(v);
                    }
                }
                4 => {
                    w.entity_mut(e).remove::<HostClient>().insert(Disconnected::default());
                    w.flush();
                    let s = w.resource::<LocalTimelineSync>();
                    let v = json!({"k": "disc", "l": i, "p2p": w.get::<P2P>(e).is_some(), "s": s.is_synced(), "v": speed(s.relative_speed())});
                    tr.ev(v);
                    w.entity_mut(e).remove::<Disconnected>();
                }
                5 => {
                    if !p2p && w.get::<HostClient>(e).is_none() && r.pct(30) {
                        w.entity_mut(e).insert(HostClient { buffer: Default::default() });
                        w.flush();
                        let s = w.resource::<LocalTimelineSync>();
                        let v = json!({"k": "host", "l": i, "s": s.is_synced(), "v": speed(s.relative_speed())});
                        tr.ev(v);
                    }
                }
                6..=7 if p2p => { w.entity_mut(e).insert(*r.pick(&[P2P::Candidate, P2P::Joined, P2P::Joined, P2P::Inactive])); }
                8 if p2p => {
                    // the session starts: all cross the barrier
                    for l in &links { w.entity_mut(*l).insert(P2P::Joined); }
                    w.resource_mut::<NetworkingMetadata>().mode = NetworkTopology::P2P(links.iter().copied().collect());
                    mode_v = json!({"t": "p2p", "m": (0..n).collect::<Vec<_>>()});
                }
                9 if p2p => { for l in &links { if w.get::<Connected>(*l).is_none() {
                    w.entity_mut(*l).insert(Connected); w.flush();
                    let s = w.resource::<LocalTimelineSync>();
                    let i = links.iter().position(|x| x == l).unwrap();
                    let v = json!({"k": "conn", "l": i, "p2p": true, "s": s.is_synced(), "v": speed(s.relative_speed())});
                    tr.ev(v);
                } } }
                10 if r.pct(30) => { c = some_cfg(r); set_cfg(&mut app, tr, &c); }
                11 if r.pct(20) => { app.world_mut().resource_mut::<LocalTimelineSync>().set_synced(r.pct(50));
                    let s = app.world().resource::<LocalTimelineSync>().is_synced(); tr.ev(json!({"k": "force", "s": s})); }
                12..=13 => drift[i] = *r.pick(&[0i64, 0, 20, -20, 100, -100, 300]),
                14..=16 => lead[i] = r.range(-c.xm * 3 / 2, c.xm * 3 / 2),
                17..=19 => lead[i] = r.range(-c.em * 3 / 2, c.em * 3 / 2),
                20 => lead[i] = r.range(-60, 200) * 1024,
                _ => {}
            }
        }
        // prediction window
        if r.pct(40) {
            tickno += r.range(0, 2);
            let wb = base.wrapping_add(tickno as u32);
            let conf = if r.pct(15) { None } else { Some(tickno - r.range(-2, 9)) };
            let max = *r.pick(&[0u16, 1, 2, 3, 4, 6, 6, 6, 6, u16::MAX]);
            let w = app.world_mut();
            let mut p = w.resource_mut::<PredictionWindowWait>();
            if r.pct(4) { p.reset(); tr.ev(json!({"k": "wreset", "w": p.is_waiting(), "d": p.prediction_depth()})); }
            let ch = p.update(Tick(wb), conf.map(|x| Tick(base.wrapping_add(x as u32))), max);
            tr.ev(json!({"k": "wait", "cur": tickno, "conf": conf.map_or(json!([]), |x| json!([x])), "max": max, "ch": ch, "w": p.is_waiting(),
                "d": p.prediction_depth(), "gotmax": p.maximum_predicted_ticks(),
                "gotconf": p.confirmed_tick().map_or(json!([]), |x| json!([x.0.wrapping_sub(base) as i32]))}));
        }
        let dt = r.range(1, 2400);
        let loc = rel(instant_of(app.world()), base);
        let mut lv = vec![];
        for (i, e) in links.iter().enumerate() {
            lead[i] += drift[i];
            let rtt = if r.pct(70) { 0 } else { 2 * r.range(0, 3000) };
            let jit = if r.pct(70) { 0 } else { r.range(0, 600) };
            // the local clock is about to move by dt; in client mode the objective is ahead of the estimate
            let off = if mode_v["t"] == "client" { rtt / 2 + jit * c.mult as i64 + c.jm + 1024 + c.em } else { 0 };
            let est = loc + dt - off - lead[i];
            let (init, recv) = (r.pct(93), r.pct(80));
            let mut em = app.world_mut().entity_mut(*e);
            let mut t = em.get_mut::<Fake>().unwrap();
            t.now = inst(base, est);
            t.est = inst(base, est);
            t.init = init;
            t.recv = recv;
            em.get_mut::<PingManager>().unwrap().rtt_estimator_ewma.final_stats =
                FinalStats { rtt: Duration::from_nanos(rtt as u64 * UNIT), jitter: Duration::from_nanos(jit as u64 * UNIT) };
            let p = match em.get::<P2P>() { None => 0, Some(P2P::Inactive) => 1, Some(P2P::Candidate) => 2, _ => 3 };
            lv.push(json!({"c": em.contains::<Connected>(), "h": em.contains::<HostClient>(), "p": p, "i": init, "r": recv, "est": est, "rtt": rtt, "jit": jit}));
        }
        let (s0, v0) = { let s = app.world().resource::<LocalTimelineSync>(); (s.is_synced(), speed(s.relative_speed())) };
        let vs0 = speed(app.world().resource::<Time<Virtual>>().relative_speed());
        app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::from_nanos(dt as u64 * UNIT)));
        app.update();
        let w = app.world_mut();
        let (s1, v1) = { let s = w.resource::<LocalTimelineSync>(); (s.is_synced(), speed(s.relative_speed())) };
        let vs1 = speed(w.resource::<Time<Virtual>>().relative_speed());
        let wait = w.resource::<PredictionWindowWait>().is_waiting();
        let end = rel(instant_of(w), base);
        let mut o = w.resource_mut::<Obs>();
        let div: Vec<Value> = core::mem::take(&mut o.div).iter().map(|(e, x)| json!([links.iter().position(|l| l == e).map_or(-1, |i| i as i64), (*x as f64 * 1024.).round() as i64])).collect();
        let sh = core::mem::take(&mut o.shifts);
        // what the local clock moved while nothing looked
        for l in lead.iter_mut() { *l += o.now - loc - dt + if mode_v["t"] == "client" || !sh.is_empty() { (end - o.now) * 1 } else { 0 }; }
        tr.ev(json!({"k": "frame", "dt": dt, "mode": mode_v, "mc": o.mc, "cc": o.cc, "links": lv, "from": loc, "now": o.now, "end": end,
            "shifts": sh, "div": div, "s0": s0, "s1": s1, "v0": v0, "v1": v1, "vs0": vs0, "vs1": vs1, "w": wait}));
    }
}

// --------------------------------------------------------------------------------------------- input delay
fn delay(tr: &mut Trace, r: &mut Rng) {
    let mut app = App::new();
    app.add_plugins((CorePlugins { tick_duration: Duration::from_nanos(TICK) }, ClientPlugin));
    app.init_resource::<NetworkingMetadata>();
    let n = 4;
    let links: Vec<Entity> = (0..n).map(|i| if i == 3 { app.world_mut().spawn_empty().id() } else { app.world_mut().spawn(Link::default()).id() }).collect();
    let mut stats = vec![(0i64, 0i64); 4];
    let mut p = vec![0u8; 4];
    let mut cfg = (0u16, 0u16, 100u16, 4u8, 1024i64);
    let mut topo = ("undef", vec![]);
    tr.ev(json!({"k": "reset", "kind": "delay", "n": n}));
    for _ in 0..80 {
        for _ in 0..r.below(4) {
            let i = r.below(3) as usize;
            match r.below(10) {
                0..=5 => {
                    stats[i] = (match r.below(8) { 0 => 0, 1 => r.range(0, 1024), 2 => 1024 * r.range(0, 30), 3 => r.range(0, 100_000) * 1024, _ => r.range(0, 30 * 1024) },
                                if r.pct(50) { 0 } else { r.range(0, 2048) });
                    let mut l = app.world_mut().get_mut::<Link>(links[i]).unwrap();
                    l.stats.rtt = Duration::from_nanos(stats[i].0 as u64 * UNIT);
                    l.stats.jitter = Duration::from_nanos(stats[i].1 as u64 * UNIT);
                }
                6 => {
                    p[i] = r.below(4) as u8;
                    let mut em = app.world_mut().entity_mut(links[i]);
                    match p[i] { 0 => { em.remove::<P2P>(); } 1 => { em.insert(P2P::Inactive); } 2 => { em.insert(P2P::Candidate); } _ => { em.insert(P2P::Joined); } }
                }
                7 if r.pct(20) => {
                    p[3] = if p[3] == 0 { 2 } else { 0 };
                    let mut em = app.world_mut().entity_mut(links[3]);
                    // a candidate whose link is not there yet
                    if p[3] == 2 { em.insert(P2P::Candidate); } else { em.remove::<P2P>(); }
                }
                _ => {}
            }
        }
        if r.pct(25) {
            let i = r.below(4) as usize;
            let j = r.below(4) as usize;
            let (m, t, v) = match r.below(8) {
                0 => (NetworkTopology::Undefined, "undef", vec![]),
                1 => (NetworkTopology::Server(links[i]), "server", vec![]),
                2..=3 => (NetworkTopology::Client(links[i]), "client", vec![i]),
                4 => (NetworkTopology::HostClient { server: links[j], client: links[i] }, "host", vec![i]),
                _ => {
                    let mut v: Vec<usize> = (0..4).filter(|k| r.pct(if *k == 3 { 15 } else { 60 })).collect();
                    if v.is_empty() { v.push(i); }
                    (NetworkTopology::P2P(v.iter().map(|k| links[*k]).collect()), "p2p", v)
                }
            };
            app.world_mut().resource_mut::<NetworkingMetadata>().mode = m;
            topo = (t, v);
        }
        let before = app.world().resource::<LocalTimelineSync>().input_delay();
        let how = if r.pct(35) {
            let min = *r.pick(&[0u16, 0, 0, 2, 5, 1000, u16::MAX]);
            let mb = min.saturating_add(*r.pick(&[0u16, 0, 3, 5, 10, u16::MAX]));
            cfg = (min, mb, *r.pick(&[0u16, 0, 1, 7, 20, 100, u16::MAX]), *r.pick(&[0u8, 1, 4, 255]), *r.pick(&[0i64, 1024, 1536, 512]));
            app.insert_resource(InputTimelineConfig::new(
                SyncConfig { jitter_multiple: cfg.3, jitter_margin: cfg.4 as f32 / 1024., ..Default::default() },
                InputDelayConfig { minimum_input_delay_ticks: cfg.0, maximum_input_delay_before_prediction: cfg.1, maximum_predicted_ticks: cfg.2 }));
            app.world_mut().flush();
            "cfg"
        } else {
            app.world_mut().trigger(LocalTimelineShift { delta: r.range(-3, 3) as i32 });
            app.world_mut().flush();
            "shift"
        };
        let got = app.world().resource::<LocalTimelineSync>().input_delay();
        tr.ev(json!({"k": "delay", "how": how, "has": links.iter().map(|e| app.world().get::<Link>(*e).is_some()).collect::<Vec<_>>(), "t": topo.0, "m": topo.1, "p": p, "stats": stats, "min": cfg.0, "mb": cfg.1, "mp": cfg.2, "mult": cfg.3, "jm": cfg.4,
            "before": before, "got": got}));
    }
}

// ------------------------------------------------------------------------------------------ ping protocol
/// durations in units of 1024 ns
const MICRO: u64 = 1024;
fn micro(d: Duration) -> i64 { (d.as_nanos() as f64 / MICRO as f64).round() as i64 }

fn peek(w: &mut World) {
    let mut pings = vec![];
    let mut pongs = vec![];
    let mut q = w.query_filtered::<(&mut MessageReceiver<Ping>, &mut MessageReceiver<Pong>), With<Client>>();
    for (mut a, mut b) in q.iter_mut(w) {
        a.retain_received_messages(|_, m| { pings.push(m.id.0); true });
        b.retain_received_messages(|_, m| { pongs.push((m.ping_id.0, (m.frame_time.value.to_bits() >> 24) as i64)); true });
    }
    let e = estimates(w);
    let mut o = w.resource_mut::<Obs>();
    o.pings = pings;
    o.pongs = pongs;
    o.est.push(e);
}
fn estimates(w: &mut World) -> i64 {
    let base = w.resource::<Obs>().base;
    let mut q = w.query::<&RemoteTimeline>();
    q.iter(w).next().map_or(0, |t| rel(t.current_estimate(), base))
}
fn first(w: &mut World) { let e = estimates(w); let mut o = w.resource_mut::<Obs>(); o.est = vec![e]; o.ticks.clear(); o.shifts.clear(); }
fn work(o: Res<Obs>) { if o.proc > 0 { MockClock::advance(Duration::from_nanos(o.proc * MICRO)); } }
fn answer(mut q: Query<(&mut MessageReceiver<Ping>, &mut MessageReceiver<Pong>)>, mut o: ResMut<Obs>) {
    for (mut a, mut b) in q.iter_mut() {
        for p in a.receive() { o.pings.push(p.id.0); }
        for p in b.receive() { o.pongs.push((p.ping_id.0, (p.frame_time.value.to_bits() >> 24) as i64)); }
    }
}
fn client_app() -> (App, Entity) {
    let mut app = App::new();
    app.add_plugins((CorePlugins { tick_duration: Duration::from_nanos(TICK) }, TopologyPlugin, ConnectionPlugin, TransportPlugin, ClientPlugin, MessagePlugin));
    app.init_resource::<Obs>();
    app.add_observer(|t: On<LocalTimelineShift>, mut o: ResMut<Obs>| o.shifts.push(t.delta));
    app.add_observer(|t: On<PacketReceived>, mut o: ResMut<Obs>| { let b = o.base; o.ticks.push(t.remote_tick.0.wrapping_sub(b) as i32 as i64) });
    app.add_systems(First, first);
    app.add_systems(PreUpdate, peek.after(MessageSystems::Receive).before(PingSystems::Receive));
    app.add_systems(Update, work);
    app.add_systems(PostUpdate, |tl: Res<LocalTimeline>, ft: Res<Time<Fixed>>, mut o: ResMut<Obs>| { o.now = rel(tl.instant(&ft), o.base); });
    app.finish();
    app.cleanup();
    app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::ZERO));
    app.update();
    let e = app.world_mut().spawn((Client, Link::default(), Transport::default(), MessageManager::default())).id();
    (app, e)
}
fn server_app(answers: bool) -> (App, Entity) {
    let mut app = App::new();
    app.add_plugins((CorePlugins { tick_duration: Duration::from_nanos(TICK) }, TopologyPlugin, ConnectionPlugin, TransportPlugin));
    if answers { app.add_plugins(ServerPlugin); } else { app.add_plugins(PingPlugin); }
    app.add_plugins(MessagePlugin);
    app.init_resource::<Obs>();
    app.add_observer(|t: On<PacketReceived>, tl: Res<LocalTimeline>, mut o: ResMut<Obs>| o.slack.push((t.remote_tick - tl.tick()) as i64));
    if !answers { app.add_systems(Update, answer); }
    app.finish();
    app.cleanup();
    app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::ZERO));
    app.update();
    let server = app.world_mut().spawn((Server::default(), Started)).id();
    let e = app.world_mut().spawn((LinkOf { server }, ClientOf, Link::default(), Transport::default(), MessageManager::default())).id();
    if !answers { app.world_mut().entity_mut(e).remove::<PingManager>(); }
    (app, e)
}
fn connect(app: &mut App, e: Entity, server: bool) {
    let (me, other) = if server { (PeerId::Server, PeerId::Netcode(1)) } else { (PeerId::Netcode(1), PeerId::Server) };
    let w = app.world_mut();
    w.entity_mut(e).insert((LocalId(me), RemoteId(other), Linked));
    w.entity_mut(e).insert(Connected);
    w.flush();
    if server && w.get::<PingManager>(e).is_none() {
        w.entity_mut(e).insert((MessageReceiver::<Ping>::default(), MessageReceiver::<Pong>::default(), MessageSender::<Ping>::default(), MessageSender::<Pong>::default()));
    }
}
fn drain(app: &mut App, e: Entity) -> Vec<Bytes> { app.world_mut().get_mut::<Link>(e).unwrap().send.drain().collect() }
fn push(app: &mut App, e: Entity, b: Vec<Bytes>) {
    let mut l = app.world_mut().get_mut::<Link>(e).unwrap();
    for x in b { l.recv.push_raw(recv_payload_from_bytes(x)); }
}
fn step(app: &mut App, d: u64) { app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::from_nanos(d))); app.update(); }

fn scripted(tr: &mut Trace, r: &mut Rng) {
    let (mut c, ce) = client_app();
    let (mut d, de) = server_app(false);
    let base = *r.pick(&[100u32, 5000, 20_000_000, (1 << 31) - 60]);
    c.world_mut().resource_mut::<Obs>().base = base;
    c.world_mut().resource_mut::<LocalTimeline>().apply_delta(base as i32);
    let iv = *r.pick(&[1u64, 5000, 20000, 97656]);
    c.world_mut().entity_mut(ce).insert(PingManager::new(PingConfig { ping_interval: Duration::from_nanos(iv * MICRO) }));
    let mut cfg = some_cfg(r);
    cfg.hs = *r.pick(&[0u8, 3, 5]);
    let hs = cfg.hs;
    c.insert_resource(InputTimelineConfig::new(sync_config(&cfg), InputDelayConfig::no_input_delay()));
    tr.ev(json!({"k": "reset", "kind": "net", "n": 1, "iv": iv, "hs": hs}));
    connect(&mut c, ce, false);
    connect(&mut d, de, true);
    let t0 = MockClock::time();
    // pings the peer has seen: id, when
    let mut known: Vec<u16> = vec![];
    // what the peer means to do: when, message (ping id, or pong id and processing time)
    let mut later: Vec<(u64, bool, u16, i64)> = vec![];
    let mut up = true;
    let mut next_ping = 0u16;
    let lat = *r.pick(&[0u64, 3000, 20000, 60000]);
    let var = *r.pick(&[0u64, 0, 1000, 20000, 100000]);
    let frames = r.range(60, 200);
    // the peer's clock: where it is now and where its packets say it is
    let mut dtick = r.range(0, 40);
    let mut acc = 0u64;
    for f in 0..frames {
        let dt = if iv == 1 { r.range(1, 3000) as u64 } else { *r.pick(&[0u64, 1000, 8000, 16000, 30000]) + r.below(500) };
        MockClock::advance(Duration::from_nanos(dt * MICRO));
        let now = (MockClock::time() - t0).as_nanos() as u64 / MICRO;
        acc += dt * MICRO;
        dtick += (acc / TICK) as i64;
        acc %= TICK;
        if up && r.pct(1) {
            for (a, e) in [(&mut c, ce), (&mut d, de)] { a.world_mut().entity_mut(e).insert(Disconnected::default()); a.world_mut().flush(); let _ = drain(a, e); }
            up = false;
            known.clear();
            later.clear();
        } else if !up && r.pct(50) {
            for (a, e) in [(&mut c, ce), (&mut d, de)] { a.world_mut().get_mut::<Link>(e).unwrap().recv.drain().count(); }
            connect(&mut c, ce, false);
            connect(&mut d, de, true);
            up = true;
            let m = c.world().get::<PingManager>(ce).unwrap();
            tr.ev(json!({"k": "up", "rtt": micro(m.rtt()), "jit": micro(m.jitter()), "n": m.latency_samples_recv(),
                "init": c.world().get::<RemoteTimeline>(ce).unwrap().is_initialized(), "s": c.world().resource::<LocalTimelineSync>().is_synced()}));
        }
        if up {
            // the peer says something
            let mut talk = r.pct(30);
            let due: Vec<_> = later.iter().copied().filter(|x| x.0 <= now).collect();
            later.retain(|x| x.0 > now);
            for (_, ping, id, ft) in due { say(&mut d, de, ping, id, ft); talk = true; }
            if r.pct(20) { say(&mut d, de, true, next_ping, 0); next_ping = next_ping.wrapping_add(1); talk = true;
                if r.pct(10) { say(&mut d, de, true, next_ping.wrapping_sub(1), 0); } }
            // an answer that nobody asked for
            if r.pct(4) { say(&mut d, de, false, *r.pick(&[0u16, 1, 500, 40000, 65535]), r.range(0, 300)); talk = true; }
            if talk {
                let t = if r.pct(5) { dtick - r.range(1, 30) } else { dtick + r.range(0, 1) * r.range(0, 1) };
                let cur = d.world().resource::<LocalTimeline>().tick().0;
                d.world_mut().resource_mut::<LocalTimeline>().apply_delta((base.wrapping_add(t as u32)).wrapping_sub(cur) as i32);
                step(&mut d, 0);
                let b = drain(&mut d, de);
                push(&mut c, ce, b);
            }
        }
        let proc = if r.pct(50) { 0 } else { r.below(20000) };
        c.world_mut().resource_mut::<Obs>().proc = proc;
        step(&mut c, dt * MICRO);
        let out = drain(&mut c, ce);
        if !up { continue; }
        push(&mut d, de, out);
        { let mut o = d.world_mut().resource_mut::<Obs>(); o.pings.clear(); o.pongs.clear(); }
        step(&mut d, 0);
        let _ = drain(&mut d, de);
        let (op, oq) = { let mut o = d.world_mut().resource_mut::<Obs>(); (core::mem::take(&mut o.pings), core::mem::take(&mut o.pongs)) };
        let later_now = (MockClock::time() - t0).as_nanos() as u64 / MICRO;
        for id in &op {
            known.push(*id);
            // usually one answer, some time later; sometimes none, or several
            for _ in 0..*r.pick(&[1u64, 1, 1, 1, 1, 1, 1, 0, 2]) {
                let ft = if r.pct(60) { 0 } else { r.range(0, 400) };
                let late = if r.pct(4) { 2_000_000 } else { 0 };
                later.push((later_now + lat + r.below(var + 1) + late, false, *id, ft));
            }
        }
        if known.len() > 3 && r.pct(3) { later.push((later_now, false, *r.pick(&known), r.range(0, 100))); }
        let w = c.world_mut();
        let end_est = estimates(w);
        let m = w.get::<PingManager>(ce).unwrap();
        let (rtt, jit, n) = (micro(m.rtt()), micro(m.jitter()), m.latency_samples_recv());
        let ls = w.get::<Link>(ce).unwrap().stats;
        let init = w.get::<RemoteTimeline>(ce).unwrap().is_initialized();
        let synced = w.resource::<LocalTimelineSync>().is_synced();
        let o = w.resource::<Obs>();
        let pongs: Vec<Value> = o.pongs.iter().map(|x| json!([x.0, x.1])).collect();
        let oq: Vec<Value> = oq.iter().map(|x| json!([x.0, x.1])).collect();
        tr.ev(json!({"k": "net", "t": now, "dt": dt, "proc": proc, "pings": o.pings, "pongs": pongs, "ticks": o.ticks, "outp": op, "outq": oq,
            "rtt": rtt, "jit": jit, "n": n, "lr": micro(ls.rtt), "lj": micro(ls.jitter), "est": o.est, "eend": end_est, "init": init, "s": synced, "now": o.now, "shifts": o.shifts.len()}));
        let _ = f;
    }
}
fn say(d: &mut App, e: Entity, ping: bool, id: u16, ft: i64) {
    let mut em = d.world_mut().entity_mut(e);
    if ping { em.get_mut::<MessageSender<Ping>>().unwrap().send::<PingChannel>(Ping { id: PingId(id) }); }
    else { em.get_mut::<MessageSender<Pong>>().unwrap().send::<PingChannel>(Pong { ping_id: PingId(id), frame_time: PositiveTickDelta { value: U32F32::from_bits((ft as u64) << 24) } }); }
}

// ------------------------------------------------------------------------------------------ steady network
fn steady(tr: &mut Trace, r: &mut Rng, thorough: bool) {
    let (mut c, ce) = client_app();
    let (mut d, de) = server_app(true);
    let base = *r.pick(&[100u32, 5000, 20_000_000]);
    c.world_mut().resource_mut::<Obs>().base = base;
    d.world_mut().resource_mut::<Obs>().base = base;
    d.world_mut().resource_mut::<LocalTimeline>().apply_delta((base + 200) as i32);
    c.world_mut().resource_mut::<LocalTimeline>().apply_delta(base as i32 + r.range(0, 400) as i32);
    // one way, in units
    let lat = *r.pick(&[0i64, 500, 2000, 6000, 10000]);
    let dc = *r.pick(&[300i64, 512, 1000, 1024]);
    let dd = *r.pick(&[300i64, 512, 1000, 1024]);
    let cfg = Cfg { em: *r.pick(&[1024i64, 1024, 2048]), xm: 10240, thr: 3, sf: *r.pick(&[10500i64, 11000]), mult: 4, jm: *r.pick(&[1024i64, 2048]), hs: *r.pick(&[3u8, 3, 5]) };
    let idc = match r.below(3) { 0 => InputDelayConfig::no_input_delay(), 1 => InputDelayConfig::balanced(), _ => InputDelayConfig::fixed_input_delay(r.below(6) as u16) };
    c.insert_resource(InputTimelineConfig::new(sync_config(&cfg), idc));
    tr.ev(json!({"k": "reset", "kind": "steady", "n": 1, "lat": lat, "dc": dc, "dd": dd, "em": cfg.em, "xm": cfg.xm, "jm": cfg.jm, "sf": cfg.sf, "hs": cfg.hs}));
    connect(&mut c, ce, false);
    connect(&mut d, de, true);
    let start = MockClock::time();
    let (mut tc, mut td) = (r.range(0, dc), r.range(0, dd));
    let (mut lc, mut ld) = (0i64, 0i64);
    let mut net: Vec<(i64, bool, Vec<Bytes>)> = vec![];
    let len = if thorough { 1_200_000 } else { 700_000 };
    let settle = 500_000;
    let mut clock = 0i64;
    let mut dinst = (rel(instant_of(d.world()), base), 0i64);
    loop {
        let t = tc.min(td);
        if t > len { break; }
        MockClock::set_time(start + Duration::from_nanos(t as u64 * UNIT));
        clock = clock.max(t);
        let client = tc <= td;
        let (app, e) = if client { (&mut c, ce) } else { (&mut d, de) };
        let mut come = vec![];
        net.retain_mut(|p| if p.1 == client && p.0 <= t { come.append(&mut p.2); false } else { true });
        push(app, e, come);
        let prev = if client { &mut lc } else { &mut ld };
        let dt = t - *prev;
        *prev = t;
        let s0 = app.world().get_resource::<LocalTimelineSync>().map(|s| (s.is_synced(), speed(s.relative_speed())));
        step(app, dt as u64 * UNIT);
        let out = drain(app, e);
        if !out.is_empty() { net.push((t + lat, !client, out)); }
        if client {
            let w = c.world_mut();
            let (s1, v1, idl) = { let s = w.resource::<LocalTimelineSync>(); (s.is_synced(), speed(s.relative_speed()), s.input_delay()) };
            let m = w.get::<PingManager>(ce).unwrap();
            let (rtt, jit, n) = (units(m.rtt()), units(m.jitter()), m.latency_samples_recv());
            let here = rel(instant_of(w), base);
            let o = w.resource::<Obs>();
            let there = dinst.0 + (t - dinst.1);
            let slack = core::mem::take(&mut d.world_mut().resource_mut::<Obs>().slack);
            let settled = t >= settle;
            if settled || !o.shifts.is_empty() || s0.unwrap().0 != s1 || s0.unwrap().1 != v1 {
                tr.ev(json!({"k": "steady", "t": t, "settled": settled, "lead": here - there, "s0": s0.unwrap().0, "s": s1, "v": v1, "shifts": o.shifts, "rtt": rtt, "jit": jit, "n": n,
                    "delay": idl, "slack": slack}));
            }
            tc += dc;
        } else {
            dinst = (rel(instant_of(d.world()), base), t);
            td += dd;
        }
    }
}
