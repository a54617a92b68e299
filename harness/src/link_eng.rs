//! Links, conditioners and IO layers (L01, L02).
use crate::common::*;
use aeronet_io::connection::{LocalAddr, PeerAddr};
use bevy_app::App;
use bevy_ecs::prelude::*;
use bytes::{Bytes, BytesMut};
use core::net::SocketAddr;
use core::time::Duration;
use lightyear_core::time::Instant;
use lightyear_crossbeam::{CrossbeamIo, CrossbeamPlugin};
use lightyear_link::prelude::*;
use lightyear_link::server::ServerLinkPlugin;
use lightyear_link::{LinkMtu, LinkState, recv_payload_from_bytes};
use lightyear_udp::server::{ServerUdpIo, ServerUdpPlugin, UdpLinkOfIO};
use lightyear_udp::{UdpIo, UdpPlugin};
use mock_instant::global::MockClock;
use serde_json::{Value, json};
use std::collections::HashMap;
use std::net::UdpSocket;

pub fn run(args: &Args, tr: &mut Trace) {
    let prop = args.prop.clone();
    run_cases(args, tr, |tr, rng, i| {
        tr.ev(json!({"k": "reset", "case": i}));
        if prop == "L01" {
            match rng.below(6) {
                0 => queue(tr, rng),
                1 => config(tr, rng),
                _ => conditioned(tr, rng),
            }
        } else if rng.pct(55) {
            crossbeam(tr, rng)
        } else {
            udp(tr, rng)
        }
    });
}

/// The packet with number `id`: its length and bytes follow from it.
fn packet(id: u32, max: usize) -> Vec<u8> {
    let n = 4 + (id as usize).wrapping_mul(2654435761) % (max - 3);
    let mut v = id.to_le_bytes().to_vec();
    v.extend((4..n).map(|i| (id as usize * 31 + i * 7) as u8));
    v
}
/// The number of a packet, or -1 if its bytes are not those of any packet.
fn ident(b: &[u8], max: usize) -> i64 {
    if b.len() < 4 {
        return -1;
    }
    let id = u32::from_le_bytes(b[..4].try_into().unwrap());
    if id < 1_000_000 && packet(id, max) == b { id as i64 } else { -1 }
}
const SMALL: usize = 40;

fn queue(tr: &mut Trace, r: &mut Rng) {
    let mut link = Link::default();
    let mut next = 0u32;
    let mut shared: Vec<Bytes> = vec![];
    for _ in 0..20 + r.below(80) {
        let out = |it: &mut dyn Iterator<Item = i64>| it.collect::<Vec<_>>();
        match r.below(11) {
            0 | 1 | 2 => {
                next += 1;
                let p = Bytes::from(packet(next, SMALL));
                if r.pct(50) { link.send(p) } else { link.send.push(p) }
                tr.ev(json!({"k": "q", "op": "push", "q": "s", "id": next}));
            }
            3 => {
                next += 1;
                link.send.push_front(Bytes::from(packet(next, SMALL)));
                tr.ev(json!({"k": "q", "op": "front", "q": "s", "id": next}));
            }
            4 => {
                let x = link.send.pop().map_or(0, |p| ident(&p, SMALL));
                tr.ev(json!({"k": "q", "op": "pop", "q": "s", "id": x, "len": link.send.len()}));
            }
            5 => {
                let x = out(&mut link.send.drain().map(|p| ident(&p, SMALL)));
                tr.ev(json!({"k": "q", "op": "drain", "q": "s", "out": x, "len": link.send.len()}));
            }
            6 | 7 | 8 => {
                next += 1;
                let b = Bytes::from(packet(next, SMALL));
                if r.pct(40) { shared.push(b.clone()); }
                let p = recv_payload_from_bytes(b);
                if r.pct(50) { link.recv.push_raw(p) } else { link.recv.push(p, Instant::now()) }
                tr.ev(json!({"k": "q", "op": "push", "q": "r", "id": next}));
            }
            9 => {
                let x = link.recv.pop().map_or(0, |mut p| { let i = ident(&p, SMALL); p.fill(0xEE); i });
                tr.ev(json!({"k": "q", "op": "pop", "q": "r", "id": x, "len": link.recv.len()}));
            }
            _ => {
                let x = out(&mut link.recv.drain().map(|mut p| { let i = ident(&p, SMALL); p.fill(0xEE); i }));
                tr.ev(json!({"k": "q", "op": "drain", "q": "r", "out": x, "len": link.recv.len()}));
            }
        }
    }
    // what the other holders of a shared payload see is not touched by what a receiver does to its copy
    let bad = shared.iter().filter(|b| ident(b, SMALL) < 0).count();
    tr.ev(json!({"k": "shared", "bad": bad}));
}

fn ppm(x: f32) -> i64 { (x as f64 * 1e6).round() as i64 }

fn config(tr: &mut Trace, r: &mut Rng) {
    for _ in 0..10 {
        // losses in 1/1000, burst length in packets
        let bad = r.range(1, 1000);
        let min = r.range(0, bad - 1);
        let mean = r.range(min, bad - 1);
        let len = r.range(1, 40);
        let (fb, fmin, fmean) = (bad as f32 / 1000., min as f32 / 1000., mean as f32 / 1000.);
        let (lat, jit) = (r.below(500), r.below(200));
        let base = LinkConditionerConfig::default()
            .with_incoming_latency(Duration::from_millis(lat))
            .with_incoming_jitter(Duration::from_millis(jit));
        let (kind, c) = match r.below(4) {
            0 => ("fixed", base.with_fixed_loss(fmean)),
            1 => ("simple", base.with_simple_gilbert_loss(fmean, len as f32)),
            2 => ("gilbert", base.with_gilbert_loss(fmean, len as f32, fb)),
            _ => ("elliott", base.with_gilbert_elliott_loss(fmean, len as f32, fb, fmin)),
        };
        let h = c.clone().half();
        let f = |c: &LinkConditionerConfig| json!([c.incoming_latency.as_micros() as u64, c.incoming_jitter.as_micros() as u64,
            ppm(c.good_loss), ppm(c.bad_loss), ppm(c.good_to_bad.min(1000.)), ppm(c.bad_to_good)]);
        tr.ev(json!({"k": "cfg", "kind": kind, "lat": lat * 1000, "jit": jit * 1000, "mean": mean * 1000, "bad": bad * 1000,
            "min": min * 1000, "len": len, "c": f(&c), "h": f(&h), "got": ppm(c.mean_loss())}));
        let min = 1 + r.below(1500) as usize;
        let mut m = Link::default().with_mtu(LinkMtu::new(min));
        let mut sets = vec![];
        for _ in 0..4 {
            let v = r.below(2 * min as u64 + 2) as usize;
            let ok = m.set_mtu(v).is_ok();
            sets.push(json!([v, ok, m.mtu(), m.min_mtu()]));
        }
        tr.ev(json!({"k": "mtu", "min": min, "sets": sets}));
    }
}

/// losses and transitions in percent
fn some_config(r: &mut Rng) -> (LinkConditionerConfig, Value) {
    let lat = *r.pick(&[0u64, 0, 1, 5, 40, 100]);
    let jit = *r.pick(&[0u64, 0, 1, 3, 10, 60, 150]);
    let p = |r: &mut Rng| *r.pick(&[0u64, 0, 0, 100, 100, 50]);
    let l = match r.below(5) {
        0 | 1 => [0, 0, 0, 0],
        2 => [0, 100, 100, 100],
        _ => [p(r), p(r), p(r), p(r)],
    };
    let f = |x: u64| x as f32 / 100.;
    (LinkConditionerConfig {
        // a jitter of less than a millisecond has no effect
        incoming_latency: Duration::from_millis(lat),
        incoming_jitter: Duration::from_millis(jit) + Duration::from_micros(if jit == 0 && r.pct(40) { 1 + r.below(999) } else { 0 }),
        good_loss: f(l[0]), bad_loss: f(l[1]), good_to_bad: f(l[2]), bad_to_good: f(l[3]),
    }, json!({"lat": lat, "jit": jit, "loss": {"g": l[0], "b": l[1]}, "flip": {"g": l[2], "b": l[3]}}))
}

fn conditioned(tr: &mut Trace, r: &mut Rng) {
    MockClock::set_time(Duration::from_secs(1000));
    let mut app = App::new();
    app.add_plugins(ServerLinkPlugin);
    let mut t = 0u64;
    let mut next = 0u32;
    let (sc, sj) = if r.pct(70) { let (c, j) = some_config(r); (Some(c), j) } else { (None, json!(0)) };
    let server = app.world_mut().spawn(Server::new(sc.map(RecvLinkConditioner::new))).id();
    let mut links: Vec<Entity> = vec![];
    let spawn = |app: &mut App, tr: &mut Trace, r: &mut Rng, links: &mut Vec<Entity>, next: &mut u32, t: u64| {
        let child = r.pct(55);
        let (oc, oj) = if r.pct(if child { 35 } else { 90 }) { let (c, j) = some_config(r); (Some(c), j) } else { (None, json!(0)) };
        let own = oc.is_some();
        let mut link = Link::default().with_conditioner(oc.map(RecvLinkConditioner::new));
        let mut queued = vec![];
        for _ in 0..r.below(3) {
            *next += 1;
            link.recv.push_raw(BytesMut::from(&packet(*next, SMALL)[..]));
            queued.push(*next);
        }
        let e = if child { app.world_mut().spawn((LinkOf { server }, link)).id() } else { app.world_mut().spawn(link).id() };
        links.push(e);
        tr.ev(json!({"k": "link", "l": links.len(), "own": own, "child": child, "oc": oj, "queued": queued, "t": t}));
    };
    tr.ev(json!({"k": "server", "has": sj.is_object(), "c": sj}));
    spawn(&mut app, tr, r, &mut links, &mut next, t);
    let n = 20 + r.below(100);
    for s in 0..n {
        match r.below(12) {
            0..=5 => {
                let l = r.below(links.len() as u64) as usize;
                let recv = &mut app.world_mut().get_mut::<Link>(links[l]).unwrap().into_inner().recv;
                for _ in 0..=r.below(4) {
                    next += 1;
                    let p = BytesMut::from(&packet(next, SMALL)[..]);
                    let raw = r.pct(8);
                    if raw { recv.push_raw(p) } else { recv.push(p, Instant::now()) }
                    tr.ev(json!({"k": "in", "l": l + 1, "t": t, "id": next, "raw": raw}));
                }
            }
            6 | 7 if s < n - 1 => {
                let d = *r.pick(&[1u64, 1, 2, 5, 10, 16, 40, 100, 400]);
                t += d;
                MockClock::advance(Duration::from_millis(d));
            }
            8 if links.len() < 3 => spawn(&mut app, tr, r, &mut links, &mut next, t),
            9 => {
                let l = r.below(links.len() as u64) as usize;
                let recv = &mut app.world_mut().get_mut::<Link>(links[l]).unwrap().into_inner().recv;
                let all = r.pct(50);
                let x = if !all { recv.pop().map(|p| ident(&p, SMALL)).into_iter().collect::<Vec<_>>() }
                    else { recv.drain().map(|p| ident(&p, SMALL)).collect() };
                tr.ev(json!({"k": "take", "l": l + 1, "all": all, "out": x, "len": recv.len()}));
            }
            _ => poll(&mut app, tr, &links, t),
        }
    }
    t += 1000;
    MockClock::advance(Duration::from_millis(1000));
    poll(&mut app, tr, &links, t);
}

fn poll(app: &mut App, tr: &mut Trace, links: &[Entity], t: u64) {
    app.update();
    let bufs: Vec<Vec<i64>> = links.iter().map(|e| app.world().get::<Link>(*e).unwrap().recv.iter().map(|p| ident(p, SMALL)).collect()).collect();
    tr.ev(json!({"k": "frame", "t": t, "bufs": bufs}));
}

// ---------------------------------------------------------------------------------------------- crossbeam

fn state(w: &World, e: Entity) -> &'static str {
    let s = (w.get::<Linked>(e).is_some(), w.get::<Unlinked>(e).is_some(), w.get::<Link>(e).map(|l| l.state));
    match s {
        (true, false, Some(LinkState::Linked)) => "up",
        (false, _, Some(LinkState::Unlinked)) => "down",
        _ => "odd",
    }
}

fn crossbeam(tr: &mut Trace, r: &mut Rng) {
    let two = r.pct(50);
    let mut apps: Vec<App> = (0..if two { 2 } else { 1 }).map(|_| { let mut a = App::new(); a.add_plugins(CrossbeamPlugin); a }).collect();
    let pairs = 1 + r.below(2) as usize;
    // side 2i and 2i+1 are the ends of pair i
    let mut sides: Vec<Option<(usize, Entity)>> = vec![];
    let mut caps = vec![];
    for _ in 0..pairs {
        let cap = if r.pct(25) { 1 + r.below(4) as usize } else { 0 };
        let (a, b) = if cap == 0 { CrossbeamIo::new_pair() } else {
            let (s1, r1) = crossbeam_channel::bounded(cap);
            let (s2, r2) = crossbeam_channel::bounded(cap);
            (CrossbeamIo::new(s1, r2), CrossbeamIo::new(s2, r1))
        };
        caps.push(cap);
        for (i, io) in [a, b].into_iter().enumerate() {
            let ai = if two { i } else { 0 };
            let e = apps[ai].world_mut().spawn((Link::default(), io)).id();
            sides.push(Some((ai, e)));
        }
    }
    let home: Vec<usize> = sides.iter().map(|s| s.unwrap().0 + 1).collect();
    tr.ev(json!({"k": "pairs", "home": home, "caps": caps}));
    let mut next = 0u32;
    let mut held: Vec<(i64, BytesMut)> = vec![];
    let see = |tr: &mut Trace, apps: &Vec<App>, sides: &Vec<Option<(usize, Entity)>>, mut ev: Value| {
        ev["st"] = sides.iter().map(|s| s.map_or("gone", |(a, e)| state(apps[a].world(), e))).collect();
        ev["recv"] = sides.iter().map(|s| s.map_or(json!([]), |(a, e)| apps[a].world().get::<Link>(e).unwrap().recv.iter().map(|p| ident(p, SMALL)).collect())).collect();
        ev["left"] = sides.iter().map(|s| s.map_or(json!(0), |(a, e)| json!(apps[a].world().get::<Link>(e).unwrap().send.len()))).collect();
        tr.ev(ev);
    };
    for _ in 0..30 + r.below(80) {
        let i = r.below(sides.len() as u64) as usize;
        let op = r.below(20);
        if op < 8 {
            let a = r.below(apps.len() as u64) as usize;
            apps[a].update();
            see(tr, &apps, &sides, json!({"k": "xupdate", "app": a + 1}));
            continue;
        }
        let Some((a, e)) = sides[i] else { continue };
        let w = apps[a].world_mut();
        match op {
            8 | 9 => {
                w.trigger(LinkStart { entity: e });
                w.flush();
                see(tr, &apps, &sides, json!({"k": "xstart", "s": i + 1}));
            }
            10..=14 => {
                let mut ids = vec![];
                for _ in 0..=r.below(5) {
                    next += 1;
                    ids.push(next);
                    w.get_mut::<Link>(e).unwrap().send(Bytes::from(packet(next, SMALL)));
                }
                see(tr, &apps, &sides, json!({"k": "xsend", "s": i + 1, "ids": ids}));
            }
            15..=17 => {
                let got: Vec<BytesMut> = w.get_mut::<Link>(e).unwrap().recv.drain().collect();
                let ids: Vec<i64> = got.iter().map(|p| ident(p, SMALL)).collect();
                held.extend(ids.iter().copied().zip(got));
                see(tr, &apps, &sides, json!({"k": "xtake", "s": i + 1, "out": ids}));
            }
            18 if r.pct(40) => {
                w.trigger(Unlink { entity: e, reason: UnlinkReason::UserRequested(None) });
                w.flush();
                see(tr, &apps, &sides, json!({"k": "xstop", "s": i + 1}));
            }
            19 if r.pct(30) => {
                w.despawn(e);
                sides[i] = None;
                see(tr, &apps, &sides, json!({"k": "xgone", "s": i + 1}));
            }
            _ => {}
        }
    }
    let bad = held.iter().filter(|(id, p)| ident(p, SMALL) != *id).count();
    tr.ev(json!({"k": "shared", "bad": bad}));
}

// ---------------------------------------------------------------------------------------------- UDP

enum Peer {
    Raw(UdpSocket),
    Io(Entity),
}

const BIG: usize = 1472;

/// Everything a UDP case holds. `want`, `news` and `stale` only decide how long to wait for datagrams in the kernel.
struct Udp {
    app: App,
    capp: App,
    server: Entity,
    peers: Vec<Peer>,
    addr_ids: HashMap<SocketAddr, usize>,
    link_ids: HashMap<Entity, usize>,
    live: HashMap<Entity, usize>,
    held: Vec<(i64, BytesMut)>,
    up: bool,
    from: HashMap<i64, usize>,
    want: HashMap<i64, usize>,
    news: Vec<u32>,
    stale: Vec<bool>,
}

fn udp(tr: &mut Trace, r: &mut Rng) {
    let mut app = App::new();
    app.add_plugins((ServerUdpPlugin, ServerLinkPlugin));
    let mut capp = App::new();
    capp.add_plugins(UdpPlugin);
    let any: SocketAddr = "127.0.0.1:0".parse().unwrap();
    let server = app.world_mut().spawn((LocalAddr(any), ServerUdpIo::default())).id();
    let mut next = 0u32;
    let mut to: SocketAddr = any;
    let mut peers = vec![];
    for _ in 0..1 + r.below(4) {
        if r.pct(50) {
            let s = UdpSocket::bind(any).unwrap();
            s.set_nonblocking(true).unwrap();
            peers.push(Peer::Raw(s));
        } else {
            let e = capp.world_mut().spawn((UdpIo::default(), LocalAddr(any), PeerAddr(any))).id();
            capp.world_mut().trigger(LinkStart { entity: e });
            capp.world_mut().flush();
            peers.push(Peer::Io(e));
        }
    }
    let n = peers.len();
    tr.ev(json!({"k": "udp", "n": n}));
    let mut u = Udp { app, capp, server, peers, addr_ids: HashMap::new(), link_ids: HashMap::new(), live: HashMap::new(), held: vec![],
        up: false, from: HashMap::new(), want: HashMap::new(), news: vec![0; n], stale: vec![false; n] };
    let mut flying = 0;
    let steps = 20 + r.below(60);
    for step in 0..steps {
        let op = if step == 0 { 0 } else if step == steps - 1 { 99 } else { r.below(24) };
        match op {
            0 if !u.up => {
                u.app.world_mut().entity_mut(server).insert(LocalAddr(any));
                u.app.world_mut().trigger(LinkStart { entity: server });
                u.app.world_mut().flush();
                to = u.app.world().get::<LocalAddr>(server).unwrap().0;
                for p in &u.peers {
                    if let Peer::Io(e) = p { u.capp.world_mut().entity_mut(*e).insert(PeerAddr(to)); }
                }
                u.up = true;
                tr.ev(json!({"k": "ustart", "ok": to.port() != 0 && u.app.world().get::<Linked>(server).is_some()}));
            }
            0 if r.pct(30) => {
                u.app.world_mut().trigger(Unlink { entity: server, reason: UnlinkReason::UserRequested(None) });
                u.app.world_mut().flush();
                u.up = false;
                u.want.retain(|_, c| *c >= 100);
                for c in u.live.values() { u.stale[*c] = true; }
                for c in &mut u.news { *c = 0; }
                u.live.clear();
                tr.ev(json!({"k": "ustop", "down": u.app.world().get::<Linked>(server).is_none()}));
            }
            1..=8 => {
                if !u.up || flying > 30 { continue; }
                let c = r.below(n as u64) as usize;
                let known = u.live.values().any(|x| *x == c);
                let mut ids = vec![];
                for _ in 0..=r.below(4) {
                    next += 1;
                    flying += 1;
                    ids.push(next);
                    u.from.insert(next as i64, c);
                    if known { u.want.insert(next as i64, c); } else { u.news[c] += 1; }
                    let b = packet(next, BIG);
                    match &u.peers[c] {
                        Peer::Raw(s) => { s.send_to(&b, to).unwrap(); }
                        Peer::Io(e) => u.capp.world_mut().get_mut::<Link>(*e).unwrap().send(Bytes::from(b)),
                    }
                }
                tr.ev(json!({"k": "csend", "c": c + 1, "ids": ids}));
                u.clients(tr);
            }
            9..=12 => {
                // to a peer from its server link
                if u.live.is_empty() || flying > 30 { continue; }
                let mut all: Vec<_> = u.live.iter().map(|(e, c)| (*e, *c)).collect();
                all.sort();
                let (e, c) = *r.pick(&all);
                let mut ids = vec![];
                for _ in 0..=r.below(4) {
                    next += 1;
                    flying += 1;
                    ids.push(next);
                    u.want.insert(next as i64, 100 + c);
                    u.app.world_mut().get_mut::<Link>(e).unwrap().send(Bytes::from(packet(next, BIG)));
                }
                tr.ev(json!({"k": "ssend", "l": u.link_ids[&e], "ids": ids}));
                u.frame(tr);
            }
            13 => {
                if u.live.is_empty() || !r.pct(40) { continue; }
                let mut all: Vec<_> = u.live.iter().map(|(e, c)| (*e, *c)).collect();
                all.sort();
                let (e, c) = *r.pick(&all);
                u.live.remove(&e);
                u.want.retain(|_, x| *x != c);
                u.news[c] = 0;
                u.stale[c] = true;
                u.app.world_mut().despawn(e);
                tr.ev(json!({"k": "lgone", "l": u.link_ids[&e]}));
            }
            14 => u.held.clear(),
            15..=20 => u.frame(tr),
            _ => {
                // let everything that is under way arrive
                for k in 0..150 {
                    if k > 0 { std::thread::sleep(Duration::from_millis(2)); }
                    u.frame(tr);
                    u.clients(tr);
                    if u.want.is_empty() && !u.up || k > 0 && u.want.is_empty()
                        && (0..n).all(|c| u.news[c] <= u.stale[c] as u32 || u.live.values().any(|x| *x == c)) { break; }
                }
                flying = 0;
                tr.ev(json!({"k": "settled"}));
            }
        }
    }
    let bad = u.held.iter().filter(|(id, p)| ident(p, BIG) != *id).count();
    tr.ev(json!({"k": "shared", "bad": bad}));
}

impl Udp {
    /// A frame of the clients' app, and what each client has got.
    fn clients(&mut self, tr: &mut Trace) {
        self.capp.update();
        for (c, p) in self.peers.iter().enumerate() {
            let mut ids = vec![];
            match p {
                Peer::Raw(s) => {
                    let mut b = [0u8; 2000];
                    while let Ok((n, _)) = s.recv_from(&mut b) { ids.push(ident(&b[..n], BIG)); }
                }
                Peer::Io(e) => for p in self.capp.world_mut().get_mut::<Link>(*e).unwrap().recv.drain() {
                    let id = ident(&p, BIG);
                    ids.push(id);
                    self.held.push((id, p));
                },
            }
            for i in &ids { self.want.remove(i); }
            if !ids.is_empty() { tr.ev(json!({"k": "cgot", "c": c + 1, "ids": ids})); }
        }
    }
    /// A frame of the server's app, and what each of its links has got.
    fn frame(&mut self, tr: &mut Trace) {
        self.app.update();
        let mut q = self.app.world_mut().query_filtered::<(Entity, &mut Link, &PeerAddr, &LinkOf), With<UdpLinkOfIO>>();
        let mut links = vec![];
        let mut now = HashMap::new();
        for (e, mut link, addr, of) in q.iter_mut(self.app.world_mut()) {
            let n = self.link_ids.len() + 1;
            let l = *self.link_ids.entry(e).or_insert(n);
            let m = self.addr_ids.len() + 1;
            let a = *self.addr_ids.entry(addr.0).or_insert(m);
            let mut ids = vec![];
            for p in link.recv.drain() {
                let id = ident(&p, BIG);
                ids.push(id);
                self.want.remove(&id);
                self.held.push((id, p));
            }
            let c = self.live.get(&e).copied().or_else(|| ids.first().and_then(|i| self.from.get(i)).copied());
            if let Some(c) = c {
                now.insert(e, c);
                self.stale[c] = false;
            }
            links.push(json!({"l": l, "a": a, "got": ids, "of": of.server == self.server, "up": link.state == LinkState::Linked}));
        }
        self.live = now;
        tr.ev(json!({"k": "uframe", "links": links}));
    }
}
