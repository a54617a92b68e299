//! Connections: lifecycle and registration (C01, C02), topology (C03), targets (C04).
use crate::common::*;
use aeronet_io::connection::{LocalAddr, PeerAddr};
use bevy_app::App;
use bevy_ecs::prelude::*;
use bevy_ecs::relationship::RelationshipTarget;
use bevy_ecs::system::RunSystemOnce;
use bevy_platform::collections::HashMap as BMap;
use core::net::SocketAddr;
use lightyear_connection::client::{
    Client, Connect, Connected, Connecting, Disconnect, Disconnected, Disconnecting,
};
use lightyear_connection::client_of::ClientOf;
use lightyear_connection::host::{HostClient, HostPlugin, HostServer};
use lightyear_connection::identity;
use lightyear_connection::network_target::{NetworkTarget, NetworkTargetResolver, Target, TargetList};
use lightyear_connection::network_topology::{
    NetworkTopology, NetworkTopologyError, NetworkingMetadata,
};
use lightyear_connection::p2p::P2P;
use lightyear_connection::server::{Start, Started, Starting, Stop, Stopped, Stopping};
use lightyear_core::id::{LocalId, PeerId, RemoteId};
use lightyear_link::prelude::*;
use lightyear_link::server::ServerLinkPlugin;
use lightyear_link::{LinkState, UnlinkReason};
use lightyear_raw_connection::client::RawClient;
use lightyear_raw_connection::server::RawServer;
use lightyear_serde::ToBytes;
use lightyear_serde::reader::Reader;
use serde_json::{Value, json};

pub fn run(args: &Args, tr: &mut Trace) {
    let prop = args.prop.clone();
    run_cases(args, tr, |tr, rng, i| {
        tr.ev(json!({"k": "reset", "case": i}));
        match prop.as_str() {
            "C04" => match i % 4 {
                0 => small_targets(tr, i / 4),
                1 | 2 => targets(tr, rng),
                _ => resolve(tr, rng),
            },
            "C03" => topology(tr, rng),
            _ => lifecycle(tr, rng),
        }
    });
}

// ------------------------------------------------------------------------------------------------ targets
type T = Target<u32>;

fn tj(t: &T) -> Value {
    match t {
        Target::None => json!({"neg": false, "ids": []}),
        Target::All => json!({"neg": true, "ids": []}),
        Target::Single(x) => json!({"neg": false, "ids": [x]}),
        Target::AllExceptSingle(x) => json!({"neg": true, "ids": [x]}),
        Target::Only(x) => json!({"neg": false, "ids": x.to_vec()}),
        Target::AllExcept(x) => json!({"neg": true, "ids": x.to_vec()}),
    }
}

fn setop(tr: &mut Trace, op: &str, a: &T, b: &T, n: u32) {
    let mut r = a.clone();
    match op {
        "inter" => r.verif_intersection(b),
        "union" => r.verif_union(b),
        "excl" => r.verif_exclude(b),
        _ => r.verif_inverse(),
    }
    answer(tr, op, tj(a), tj(b), &r, n);
}

/// The result of an operation with what it answers for each of the ids 0..=n (n is never mentioned)
fn answer(tr: &mut Trace, op: &str, a: Value, b: Value, r: &T, n: u32) {
    let probe: Vec<u32> = (0..=n).filter(|i| r.targets(i)).collect();
    tr.ev(json!({"k": "set", "op": op, "a": a, "b": b, "r": tj(r), "n": n, "probe": probe, "empty": r.is_empty()}));
}

/// All pairs of small targets, a slice per case
fn small_targets(tr: &mut Trace, i: u64) {
    let mut lists: Vec<Vec<u32>> = vec![vec![]];
    for a in 0..3u32 {
        lists.push(vec![a]);
        for b in 0..3 {
            lists.push(vec![a, b]);
            for c in 0..3 { if (a, b, c) == (0, 1, 2) || (a, b, c) == (2, 1, 2) || (a, b, c) == (1, 1, 0) { lists.push(vec![a, b, c]); } }
        }
    }
    let mut all: Vec<T> = vec![Target::None, Target::All];
    all.extend((0..3).flat_map(|x| [Target::Single(x), Target::AllExceptSingle(x)]));
    all.extend(lists.iter().flat_map(|l| [Target::Only(l.iter().copied().collect()), Target::AllExcept(l.iter().copied().collect())]));
    let k = all.len() as u64;
    for j in 0..48 {
        let x = (i * 48 + j) % (k * k);
        let (a, b) = (&all[(x / k) as usize], &all[(x % k) as usize]);
        for op in ["inter", "union", "excl", "inv"] { setop(tr, op, a, b, 3); }
    }
}

fn ids(r: &mut Rng, n: u32, len: u64) -> Vec<u32> { (0..len).map(|_| r.below(n as u64) as u32).collect() }
fn len(r: &mut Rng) -> u64 { *r.pick(&[0, 1, 2, 3, 4, 4, 5, 5, 6, 9, 14]) }
fn rand_target(r: &mut Rng, n: u32) -> T {
    match r.below(10) {
        0 => Target::None,
        1 => Target::All,
        2 => Target::Single(r.below(n as u64) as u32),
        3 => Target::AllExceptSingle(r.below(n as u64) as u32),
        x => {
            let l = len(r);
            let mut l = ids(r, n, l);
            if r.pct(70) { l.sort_unstable(); l.dedup(); r.shuffle(&mut l); }
            if x < 7 { Target::Only(l.into_iter().collect()) } else { Target::AllExcept(l.into_iter().collect()) }
        }
    }
}

fn targets(tr: &mut Trace, r: &mut Rng) {
    let n = *r.pick(&[6u32, 10, 20]);
    for _ in 0..30 {
        let (a, b) = (rand_target(r, n), rand_target(r, n));
        let op = *r.pick(&["inter", "union", "excl", "inv"]);
        setop(tr, op, &a, &b, n);
        let l = len(r);
        let l = ids(r, n, l);
        let lj = json!({"neg": false, "ids": l});
        match r.below(4) {
            0 => {
                let mut x = a.clone();
                x.extend(l.iter().copied());
                answer(tr, "union", tj(&a), lj, &x, n);
            }
            1 => answer(tr, "inv", lj, json!({"neg": false, "ids": []}), &T::from_exclude(l.iter().copied()), n),
            2 => answer(tr, "same", lj, json!({"neg": false, "ids": []}), &l.iter().copied().collect::<T>(), n),
            _ => {
                let x = if r.pct(50) { T::from(l.clone()) } else { T::from(l.iter().copied().collect::<TargetList<u32>>()) };
                answer(tr, "same", lj, json!({"neg": false, "ids": []}), &x, n)
            }
        }
        // chains keep working on what an operation returned
        let (mut x, mut xs) = (a.clone(), b.clone());
        for _ in 0..3 {
            let y = rand_target(r, n);
            let before = x.clone();
            let op = *r.pick(&["inter", "union", "excl", "inv"]);
            match op { "inter" => x.verif_intersection(&y), "union" => x.verif_union(&y), "excl" => x.verif_exclude(&y), _ => x.verif_inverse() }
            answer(tr, op, tj(&before), tj(&y), &x, n);
            core::mem::swap(&mut x, &mut xs);
        }
    }
}

fn peer(i: u32) -> PeerId {
    match i % 6 {
        0 => PeerId::Netcode(i as u64 / 6),
        1 => PeerId::Local(i as u64 / 6),
        2 => PeerId::Entity(i as u64 / 6),
        3 => PeerId::Steam(i as u64 / 6),
        4 => PeerId::Raw(format!("10.0.0.{}:{}", i % 4 + 1, 1000 + i / 4 % 3 + 256 * (i % 5)).parse().unwrap()),
        _ => PeerId::Raw(format!("[2001:db8::{:x}]:{}", i + 1, 500 + i).parse().unwrap()),
    }
}
fn map_target(t: &T) -> NetworkTarget {
    match t {
        Target::None => Target::None,
        Target::All => Target::All,
        Target::Single(x) => Target::Single(peer(*x)),
        Target::AllExceptSingle(x) => Target::AllExceptSingle(peer(*x)),
        Target::Only(x) => Target::Only(x.iter().map(|i| peer(*i)).collect()),
        Target::AllExcept(x) => Target::AllExcept(x.iter().map(|i| peer(*i)).collect()),
    }
}

fn resolve(tr: &mut Trace, r: &mut Rng) {
    let mut world = World::new();
    let es: Vec<Entity> = (0..24).map(|_| world.spawn_empty().id()).collect();
    let at = |e: &Entity| es.iter().position(|x| x == e).map_or(-1, |x| x as i64);
    let n = 20u32;
    let mut resolver = NetworkTargetResolver::default();
    for _ in 0..40 {
        let t = rand_target(r, n);
        let nt = map_target(&t);
        // clients of one server; registered peers, some of them on no client or on another server's
        let mut cs: Vec<usize> = (0..24).collect();
        r.shuffle(&mut cs);
        cs.truncate(*r.pick(&[0, 1, 2, 3, 4, 5, 7, 12]));
        let mut map = vec![];
        let mut free: Vec<usize> = (0..24).collect();
        r.shuffle(&mut free);
        for p in 0..n { if r.pct(70) { if let Some(e) = free.pop() { map.push((p, e)); } } }
        let mapping: BMap<PeerId, Entity> = map.iter().map(|(p, e)| (peer(*p), es[*e])).collect();
        let clients: Vec<Entity> = cs.iter().map(|i| es[*i]).collect();
        let mut got: Vec<i64> = resolver.resolve(&nt, &clients, &mapping).iter().map(at).collect();
        got.sort_unstable();
        let mut apply = vec![];
        nt.apply_targets(clients.iter().copied(), &mapping, &mut |e| apply.push(at(&e)));
        tr.ev(json!({"k": "res", "t": tj(&t), "cs": cs, "map": map.iter().map(|(p, e)| json!([p, e])).collect::<Vec<_>>(), "got": got, "apply": apply}));
        // on the wire
        let mut buf = vec![];
        nt.to_bytes(&mut buf).unwrap();
        let back = NetworkTarget::from_bytes(&mut Reader::from(bytes::Bytes::from(buf.clone())));
        let cut = (0..buf.len()).filter(|k| NetworkTarget::from_bytes(&mut Reader::from(bytes::Bytes::copy_from_slice(&buf[..*k]))).is_ok()).count();
        let probe: Vec<u32> = match &back { Ok(b) => (0..=n).filter(|i| b.targets(&peer(*i))).collect(), Err(_) => vec![999] };
        tr.ev(json!({"k": "wire", "t": tj(&t), "n": n, "len": buf.len(), "said": nt.bytes_len(), "eq": back.as_ref().is_ok_and(|b| *b == nt), "probe": probe, "cut": cut}));
    }
}

// ------------------------------------------------------------------------------------------------ topology
fn topology(tr: &mut Trace, r: &mut Rng) {
    let mut app = App::new();
    app.add_plugins(lightyear_connection::ConnectionPlugin);
    if r.pct(50) { app.add_plugins(HostPlugin); }
    if r.pct(50) { app.update(); }
    let mut es: Vec<Entity> = vec![];
    let focus = r.below(4); // which roles dominate
    for _ in 0..6 + r.below(26) {
        for _ in 0..1 + r.below(3) {
            let w = app.world_mut();
            if es.is_empty() || (es.len() < 6 && r.pct(25)) {
                let p = r.below(1000);
                let e = match (focus, r.below(4)) {
                    (0, 0..=2) | (3, 0) => w.spawn((Client, RemoteId(PeerId::Local(p)), Connected)).id(),
                    (1, 0..=2) | (3, 1) => w.spawn((Server::default(), Started)).id(),
                    (2, 0..=2) | (3, 2) => w.spawn(*r.pick(&[P2P::Inactive, P2P::Candidate, P2P::Joined])).id(),
                    _ => w.spawn_empty().id(),
                };
                es.push(e);
                continue;
            }
            let e = *r.pick(&es);
            let o = *r.pick(&es);
            match r.below(30) {
                0 | 1 => { w.entity_mut(e).insert(Client); }
                2 => { w.entity_mut(e).remove::<Client>(); }
                3..=6 => { w.entity_mut(e).insert((RemoteId(PeerId::Local(r.below(1000))), Connected)); }
                7 | 8 => { w.entity_mut(e).insert(Disconnected::default()); }
                9 => { w.entity_mut(e).insert(Connecting); }
                10 | 11 => { if !w.entity(e).contains::<LinkOf>() { w.entity_mut(e).insert((Server::default(), Started)); } }
                12 => { w.entity_mut(e).insert(Started); }
                13 => { w.entity_mut(e).insert(Stopped); }
                14 => { w.entity_mut(e).insert(Stopping); }
                15 => { w.entity_mut(e).insert(Starting); }
                16 => { w.entity_mut(e).insert(HostClient { buffer: vec![] }); }
                17 => { w.entity_mut(e).remove::<HostClient>(); }
                18 | 19 => { if e != o && w.entity(o).contains::<Server>() && !w.entity(e).contains::<Server>() { w.entity_mut(e).insert(LinkOf { server: o }); } }
                20 => { w.entity_mut(e).remove::<LinkOf>(); }
                21..=24 => { let p = *r.pick(&[P2P::Inactive, P2P::Candidate, P2P::Joined, P2P::Joined]); w.entity_mut(e).insert(p); }
                25 => { w.entity_mut(e).remove::<P2P>(); }
                26 => { w.entity_mut(e).remove::<Connected>(); }
                27 => { w.entity_mut(e).remove::<Started>(); }
                28 => { w.entity_mut(e).remove::<Server>(); }
                _ => { w.despawn(e); }
            }
            w.flush();
            es.retain(|e| w.get_entity(*e).is_ok());
        }
        app.update();
        let w = app.world_mut();
        es.retain(|e| w.get_entity(*e).is_ok());
        let list: Vec<_> = es.iter().map(|e| {
            let x = w.entity(*e);
            json!({"e": e.index_u32(), "cl": x.contains::<Client>(), "sv": x.contains::<Server>(), "hc": x.contains::<HostClient>(),
                "lo": x.get::<LinkOf>().map_or(-1, |l| l.server.index_u32() as i64),
                "pp": x.get::<P2P>().map_or(0, |p| match p { P2P::Inactive => 1, P2P::Candidate => 2, P2P::Joined => 3 }),
                "cn": x.contains::<Connected>(), "st": x.contains::<Started>()})
        }).collect();
        let ix = |e: &Entity| e.index_u32();
        let md = w.resource::<NetworkingMetadata>().mode.clone();
        let m = match &md {
            NetworkTopology::Undefined => json!(["undefined", []]),
            NetworkTopology::Client(e) => json!(["client", [ix(e)]]),
            NetworkTopology::Server(e) => json!(["server", [ix(e)]]),
            NetworkTopology::HostClient { server, client } => json!(["host", [ix(server), ix(client)]]),
            NetworkTopology::P2P(l) => json!(["p2p", l.iter().map(ix).collect::<Vec<_>>()]),
            NetworkTopology::Invalid(err) => match err {
                NetworkTopologyError::MixedP2PAndConventional { p2p, conventional_client, server } =>
                    json!(["mixedp2p", [ix(p2p) as i64, conventional_client.map_or(-1, |e| ix(&e) as i64), server.map_or(-1, |e| ix(&e) as i64)]]),
                NetworkTopologyError::MultipleConnectedClients(l) => json!(["clients", l.iter().map(ix).collect::<Vec<_>>()]),
                NetworkTopologyError::MultipleStartedServers(l) => json!(["servers", l.iter().map(ix).collect::<Vec<_>>()]),
                NetworkTopologyError::HostClientWithoutClient { client } => json!(["hostnoclient", [ix(client)]]),
                NetworkTopologyError::HostClientMissingLinkOf { client } => json!(["hostnolink", [ix(client)]]),
                NetworkTopologyError::HostClientServerNotStarted { client, server } => json!(["hostnotstarted", [ix(client), ix(server)]]),
                NetworkTopologyError::MixedClientServer { client, server } => json!(["mixed", [ix(client), ix(server)]]),
            },
        };
        let run = [
            w.run_system_once(identity::is_client).unwrap(),
            w.run_system_once(identity::is_server).unwrap(),
            w.run_system_once(identity::is_headless_server).unwrap(),
            w.run_system_once(identity::is_host_server).unwrap(),
            w.run_system_once(identity::is_p2p).unwrap(),
        ];
        tr.ev(json!({"k": "topo", "es": list, "m": m, "run": run}));
    }
}

// ------------------------------------------------------------------------------------------------ lifecycle
struct Life {
    app: App,
    ids: Vec<(u32, Entity, &'static str)>,
    next: u32,
}
fn addr(p: u64) -> SocketAddr { SocketAddr::from(([10, 0, 0, 1], 1000 + p as u16)) }
fn pid(p: PeerId) -> i64 {
    match p { PeerId::Server => 100, PeerId::Local(0) => 101, PeerId::Raw(a) => a.port() as i64 - 1000, _ => 999 }
}
impl Life {
    fn add(&mut self, e: Entity, kind: &'static str) -> u32 {
        self.next += 1;
        self.ids.push((self.next, e, kind));
        self.next
    }
    fn id(&self, e: Entity) -> i64 { self.ids.iter().find(|x| x.1 == e).map_or(-1, |x| x.0 as i64) }
    fn live(&self, kinds: &[&str]) -> Vec<(u32, Entity, &'static str)> {
        self.ids.iter().filter(|x| kinds.contains(&x.2) && self.app.world().get_entity(x.1).is_ok()).copied().collect()
    }
    fn log(&mut self, tr: &mut Trace, mut ev: Value) {
        self.app.world_mut().flush();
        let w = self.app.world();
        let mut es = vec![];
        for (id, e, kind) in &self.ids {
            let Ok(x) = w.get_entity(*e) else { continue };
            let set = |l: &[(bool, &str)]| l.iter().filter(|m| m.0).map(|m| m.1.to_string()).collect::<Vec<_>>();
            es.push(json!({
                "id": id, "kind": kind,
                "link": set(&[(x.contains::<Linking>(), "linking"), (x.contains::<Linked>(), "linked"), (x.contains::<Unlinked>(), "unlinked")]),
                "ls": x.get::<Link>().map_or("none", |l| match l.state { LinkState::Linking => "linking", LinkState::Linked => "linked", LinkState::Unlinked => "unlinked" }),
                "conn": set(&[(x.contains::<Connecting>(), "connecting"), (x.contains::<Connected>(), "connected"), (x.contains::<Disconnecting>(), "disconnecting"), (x.contains::<Disconnected>(), "disconnected")]),
                "srv": set(&[(x.contains::<Starting>(), "starting"), (x.contains::<Started>(), "started"), (x.contains::<Stopping>(), "stopping"), (x.contains::<Stopped>(), "stopped")]),
                "cof": x.contains::<ClientOf>(), "host": x.contains::<HostClient>(), "hs": x.contains::<HostServer>(),
                "of": x.get::<LinkOf>().map_or(0, |l| self.id(l.server)),
                "rid": x.get::<RemoteId>().map_or(-1, |p| pid(p.0)),
                "col": x.get::<Server>().map_or(vec![], |s| { let mut c: Vec<i64> = s.collection().iter().map(|e| self.id(*e)).collect(); c.sort_unstable(); c }),
            }));
        }
        let mut pm: Vec<_> = w.resource::<NetworkingMetadata>().peer_map.iter().map(|(p, e)| (pid(*p), self.id(*e))).collect();
        pm.sort_unstable();
        ev["k"] = json!("life");
        for (f, v) in [("e", json!(0)), ("s", json!(0)), ("p", json!(-1)), ("x", json!(""))] { if ev.get(f).is_none() { ev[f] = v; } }
        ev["es"] = json!(es);
        ev["pm"] = json!(pm.iter().map(|x| json!([x.0, x.1])).collect::<Vec<_>>());
        tr.ev(ev);
    }
}

fn lifecycle(tr: &mut Trace, r: &mut Rng) {
    let mut app = App::new();
    app.add_plugins(ServerLinkPlugin);
    app.add_plugins(lightyear_raw_connection::client::RawConnectionPlugin);
    app.add_plugins(lightyear_raw_connection::server::RawConnectionPlugin);
    app.add_plugins(HostPlugin);
    let mut l = Life { app, ids: vec![], next: 0 };
    for _ in 0..25 + r.below(60) {
        let ev = step(&mut l, r);
        if let Some(ev) = ev { l.log(tr, ev); }
    }
}

fn step(l: &mut Life, r: &mut Rng) -> Option<Value> {
    let servers = l.live(&["rs"]);
    let any = l.live(&["rs", "rc", "lo", "hc"]);
    let conns = l.live(&["rc", "lo", "hc"]);
    let w = l.app.world_mut();
    let roll = r.below(100);
    if servers.is_empty() || (roll < 5 && servers.len() < 3) {
        let e = w.spawn(RawServer).id();
        return Some(json!({"op": "spawn", "x": "rs", "e": l.add(e, "rs")}));
    }
    let s = *r.pick(&servers);
    match roll {
        5..=8 if any.len() < 12 => {
            let e = w.spawn((RawClient, LocalAddr(addr(90)))).id();
            Some(json!({"op": "spawn", "x": "rc", "e": l.add(e, "rc")}))
        }
        9..=22 if any.len() < 12 => {
            let p = r.below(4);
            let linked = r.pct(60);
            let mut c = w.spawn((LinkOf { server: s.1 }, Link::default(), PeerAddr(addr(p))));
            if linked { c.insert(Linked); }
            let e = c.id();
            Some(json!({"op": "spawn", "x": if linked { "lol" } else { "lo" }, "e": l.add(e, "lo"), "s": s.0, "p": p}))
        }
        23..=25 if any.len() < 12 => {
            // at most one in-process client
            if any.iter().any(|x| x.2 == "hc") { return None; }
            let e = w.spawn((Client, LinkOf { server: s.1 })).id();
            Some(json!({"op": "spawn", "x": "hc", "e": l.add(e, "hc"), "s": s.0}))
        }
        26..=45 => {
            let x = *r.pick(&any);
            // not while being disconnected; the in-process client has no link of its own
            if x.2 == "hc" || w.entity(x.1).contains::<Disconnecting>() { return None; }
            if r.pct(75) {
                w.entity_mut(x.1).insert(Linked);
                Some(json!({"op": "linked", "e": x.0}))
            } else {
                w.entity_mut(x.1).insert(Linking);
                Some(json!({"op": "linking", "e": x.0}))
            }
        }
        46..=55 => {
            let x = if r.pct(30) { s } else { *r.pick(&any) };
            let reason = match r.below(3) { 0 => UnlinkReason::ServerStopped, 1 => UnlinkReason::ByPeer("x".into()), _ => UnlinkReason::UserRequested(None) };
            if r.pct(70) { w.trigger(Unlink { entity: x.1, reason }) } else { w.entity_mut(x.1).insert(Unlinked { reason }); }
            Some(json!({"op": "unlink", "e": x.0}))
        }
        56..=60 => {
            w.trigger(Stop { entity: s.1 });
            Some(json!({"op": "stop", "e": s.0}))
        }
        61..=66 => {
            w.trigger(Start { entity: s.1 });
            w.entity_mut(s.1).insert(Linked);
            Some(json!({"op": "linked", "e": s.0}))
        }
        67..=76 if !conns.is_empty() => {
            let x = *r.pick(&conns);
            let hcs: Vec<_> = conns.iter().filter(|x| x.2 == "hc").copied().collect();
            let x = if !hcs.is_empty() && r.pct(50) { hcs[0] } else { x };
            if r.pct(60) { w.trigger(Connect { entity: x.1 }); Some(json!({"op": "connect", "e": x.0})) }
            else { w.trigger(Disconnect { entity: x.1 }); Some(json!({"op": "disconnect", "e": x.0})) }
        }
        77..=82 if !conns.is_empty() => {
            // a protocol layer moves a connection along
            let x = *r.pick(&conns);
            if x.2 == "hc" { return None; }
            let m = r.below(3);
            let mut c = w.entity_mut(x.1);
            match m { 0 => { c.insert(Connecting); } 1 => { c.insert(Disconnecting); } _ => { c.insert(Disconnected::default()); } }
            Some(json!({"op": "mark", "e": x.0, "x": (["connecting", "disconnecting", "disconnected"][m as usize])}))
        }
        83..=85 => {
            // a server's own layer moves it along
            let m = r.below(2);
            let mut c = w.entity_mut(s.1);
            match m { 0 => { c.insert(Starting); } _ => { c.insert(Stopping); } }
            Some(json!({"op": "mark", "e": s.0, "x": (["starting", "stopping"][m as usize])}))
        }
        86..=89 => {
            let x = if r.pct(20) { s } else { *r.pick(&any) };
            w.despawn(x.1);
            Some(json!({"op": "despawn", "e": x.0}))
        }
        90..=99 => {
            l.app.update();
            Some(json!({"op": "update"}))
        }
        _ => None,
    }
}
