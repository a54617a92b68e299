//! Conformance driver for netcode: a real `NetcodeServer` app and one real `NetcodeClient` app per connection
//! attempt, joined by a hostile network. It records what happened and asserts nothing.
use crate::common::*;
use aeronet_io::connection::LocalAddr;
use bevy_app::prelude::*;
use bevy_ecs::prelude::*;
use bevy_time::{Real, Time};
use bytes::{Bytes, BytesMut};
use chacha20poly1305::{AeadInPlace, ChaCha20Poly1305, KeyInit};
use core::net::SocketAddr;
use core::time::Duration;
use lightyear_connection::client::{Connect, Connected, Connecting, Disconnect, Disconnected};
use lightyear_connection::prelude::server::{Start, Stop};
use lightyear_connection::shared::{ConnectionRequestHandler, DeniedReason};
use lightyear_core::id::{PeerId, RemoteId};
use lightyear_link::prelude::{LinkOf, Linked};
use lightyear_link::Link;
use lightyear_netcode::client::{Client, ClientConfig, ClientState};
use lightyear_netcode::prelude::client::{NetcodeClient, NetcodeClientPlugin};
use lightyear_netcode::prelude::server::{NetcodeConfig, NetcodeServer, NetcodeServerPlugin, TokenUserData};
use lightyear_netcode::{ConnectToken, NETCODE_VERSION};
use serde_json::{Value, json};
use std::collections::HashMap;
use std::sync::Arc;

const PROTO: u64 = 0x1122_3344;
const KEY: [u8; 32] = [7; 32];

#[derive(Debug)]
struct Handler;
impl ConnectionRequestHandler for Handler {
    fn handle_request(&self, id: PeerId) -> Option<DeniedReason> {
        (id == PeerId::Netcode(7)).then(|| DeniedReason::Custom("no".into()))
    }
}

fn app() -> App {
    let mut app = App::new();
    app.add_plugins(bevy_app::TaskPoolPlugin { task_pool_options: bevy_app::TaskPoolOptions::with_num_threads(1) });
    app.init_resource::<Time<Real>>();
    app
}

struct Att {
    app: App,
    ent: Entity,
    addr: usize,
    hostile: bool,
    c2s: [u8; 32],
    s2c: [u8; 32],
    inbox: Vec<(i64, Vec<u8>)>,
    started: bool,
    last: (String, usize),
    gone_bad: bool,
    blackout: u64,
    npay: u32,
}
struct SLink {
    ent: Entity,
    addr: usize,
    inbox: Vec<(i64, Vec<u8>)>,
    npay: u32,
    gone: bool,
    wild: bool,
    conn: bool,
}
struct Pk {
    bytes: Vec<u8>,
    srv: bool,
    /// sending attempt, or (server packets) the address it was sent to
    who: usize,
    kind: u8,
}

pub struct Sim {
    srv: App,
    sent: Entity,
    up: u8,
    att: Vec<Att>,
    links: Vec<SLink>,
    pk: Vec<Pk>,
    /// (packet, destination address) client to server; (packet, attempt) server to client
    c2s: Vec<(usize, usize)>,
    s2c: Vec<(usize, usize)>,
    pay: HashMap<Vec<u8>, usize>,
    naddr: usize,
    sdt: u64,
}

fn seal(key: &[u8; 32], prefix: u8, seq: u64, body: &[u8]) -> Vec<u8> {
    let mut aad = NETCODE_VERSION.to_vec();
    aad.extend_from_slice(&PROTO.to_be_bytes());
    aad.push(prefix);
    let mut nonce = [0u8; 12];
    nonce[4..].copy_from_slice(&seq.to_be_bytes());
    let mut b = body.to_vec();
    let mac = ChaCha20Poly1305::new(key.into()).encrypt_in_place_detached(&nonce.into(), &aad, &mut b).unwrap();
    let n = (prefix >> 4) as usize;
    let mut out = vec![prefix];
    let le = seq.to_le_bytes();
    out.extend((0..n).map(|i| if i < 8 { le[i] } else { 0 }));
    out.extend_from_slice(&b);
    out.extend_from_slice(&mac);
    out
}

/// (kind, sequence, plaintext) if `p` opens with `key`
fn open(key: &[u8; 32], proto: u64, p: &[u8]) -> Option<(u8, u64, Vec<u8>)> {
    let n = (p[0] >> 4) as usize;
    if p[0] == 0 || n == 0 || n > 8 || p.len() < 1 + n + 16 {
        return None;
    }
    let mut s = [0u8; 8];
    s[..n].copy_from_slice(&p[1..1 + n]);
    let seq = u64::from_le_bytes(s);
    let mut aad = NETCODE_VERSION.to_vec();
    aad.extend_from_slice(&proto.to_be_bytes());
    aad.push(p[0]);
    let mut nonce = [0u8; 12];
    nonce[4..].copy_from_slice(&seq.to_be_bytes());
    let mut b = p[1 + n..p.len() - 16].to_vec();
    let tag = *chacha20poly1305::Tag::from_slice(&p[p.len() - 16..]);
    ChaCha20Poly1305::new(key.into()).decrypt_in_place_detached(&nonce.into(), &aad, &mut b, &tag).ok()?;
    Some((p[0] & 15, seq, b))
}

fn seq_small(s: u64) -> u64 {
    if s >= 1 << 62 { s - (1 << 62) } else if s >= 1 << 23 { s - (1 << 23) } else { s }
}

impl Sim {
    pub fn new(max: usize, check: bool) -> Sim {
        let mut srv = app();
        srv.add_plugins(NetcodeServerPlugin);
        let cfg = NetcodeConfig {
            max_clients: max,
            protocol_id: PROTO,
            private_key: KEY,
            server_addr_check: check,
            connection_request_handler: Some(Arc::new(Handler)),
            ..Default::default()
        };
        let addr: SocketAddr = "127.0.0.1:5000".parse().unwrap();
        let sent = srv.world_mut().spawn((NetcodeServer::new(cfg), LocalAddr(addr))).id();
        srv.world_mut().trigger(Start { entity: sent });
        srv.world_mut().flush();
        Sim { srv, sent, up: 1, att: vec![], links: vec![], pk: vec![], c2s: vec![], s2c: vec![],
              pay: HashMap::new(), naddr: 0, sdt: 0 }
    }

    /// A new client with its own token. `bad` selects what is wrong with the token (0: nothing).
    fn new_att(&mut self, tr: &mut Trace, id: u64, ud: u8, tmo: i32, life: u64, bad: u8, check: bool, hostile: bool, na: usize, addr: usize) {
        let addrs: Vec<SocketAddr> = if bad == 4 {
            vec!["10.0.0.9:5000".parse().unwrap()]
        } else {
            (0..na).map(|i| format!("127.0.0.1:{}", 5000 + i).parse().unwrap()).collect()
        };
        let key = if bad == 1 { [8; 32] } else { KEY };
        let proto = if bad == 2 { PROTO + 1 } else { PROTO };
        let tok = ConnectToken::build(&addrs[..], proto, id, key)
            .timeout_seconds(tmo)
            .expire_seconds(if bad == 3 || bad == 6 { 0 } else { 36000 })
            .user_data([ud; 256])
            .generate()
            .unwrap();
        let mut b = tok.try_into_bytes().unwrap();
        let mut exp = u64::from_be_bytes(b[29..37].try_into().unwrap());
        if bad == 6 {
            exp += 3600; // an expired token with its date moved
            b[29..37].copy_from_slice(&exp.to_be_bytes());
        }
        b[21..29].copy_from_slice(&(exp - life).to_be_bytes());
        if bad == 5 {
            b[61 + 100] ^= 1;
        }
        let nk = 1089 + 4 + addrs.len() * 7;
        let c2s: [u8; 32] = b[nk..nk + 32].try_into().unwrap();
        let s2c: [u8; 32] = b[nk + 32..nk + 64].try_into().unwrap();
        let valid = bad == 0 || (bad == 4 && !check);
        let inner = Client::with_config(&b, ClientConfig::default()).unwrap();
        let mut app = app();
        app.add_plugins(NetcodeClientPlugin);
        let ent = app.world_mut().spawn((NetcodeClient { inner }, Linked)).id();
        app.world_mut().flush();
        self.naddr = self.naddr.max(addr + 1);
        self.att.push(Att { app, ent, addr, hostile, c2s, s2c, inbox: vec![], started: false, last: (String::new(), 0), gone_bad: false, blackout: 0, npay: 0 });
        tr.ev(json!({"k": "new", "id": id, "ud": ud, "tmo": tmo as i64 * 1000, "life": life * 1000, "valid": valid, "hostile": hostile,
            "na": addrs.len()}));
    }

    fn connect(&mut self, tr: &mut Trace, a: usize) {
        let att = &mut self.att[a];
        let e = att.ent;
        att.started = true;
        att.app.world_mut().trigger(Connect { entity: e });
        att.app.world_mut().flush();
        tr.ev(json!({"k": "connect", "a": a + 1}));
    }

    fn cdisc(&mut self, tr: &mut Trace, a: usize) {
        let att = &mut self.att[a];
        let e = att.ent;
        if att.app.world().get::<Disconnected>(e).is_some() {
            return;
        }
        att.app.world_mut().trigger(Disconnect { entity: e });
        att.app.world_mut().flush();
        tr.ev(json!({"k": "cdisc", "a": a + 1}));
    }

    fn payload(&mut self, rng: &mut Rng, dir: u8, who: usize, idx: u32) -> (Vec<u8>, usize) {
        let len = match rng.below(30) {
            0 => 1200,
            1 => 1201 + rng.below(60) as usize,
            2 => 600,
            _ => 7 + rng.below(20) as usize,
        };
        let mut v = vec![dir, (who >> 8) as u8, who as u8];
        v.extend_from_slice(&idx.to_be_bytes());
        while v.len() < len {
            v.push((v.len() as u32 * 31 + idx * 7 + who as u32) as u8);
        }
        let id = self.pay.len() + 1;
        self.pay.insert(v.clone(), id);
        (v, id)
    }

    fn client_frame(&mut self, tr: &mut Trace, rng: &mut Rng, a: usize, dt: u64, npay: usize) {
        let att = &mut self.att[a];
        if !att.started {
            return;
        }
        let ent = att.ent;
        let inbox = std::mem::take(&mut att.inbox);
        let ins: Vec<i64> = inbox.iter().map(|x| x.0).collect();
        let w = att.app.world_mut();
        w.resource_mut::<Time<Real>>().advance_by(Duration::from_millis(dt));
        {
            let mut l = w.get_mut::<Link>(ent).unwrap();
            for (_, b) in inbox {
                l.recv.push_raw(BytesMut::from(&b[..]));
            }
        }
        w.run_schedule(PreUpdate);
        w.flush();
        let ups: Vec<Vec<u8>> = w.get_mut::<Link>(ent).unwrap().recv.drain().map(|b| b.to_vec()).collect();
        let c = &w.get::<NetcodeClient>(ent).unwrap().inner;
        let st = match c.state() {
            ClientState::ConnectTokenExpired => "Expired",
            ClientState::ConnectionTimedOut => "TimedOut",
            ClientState::ConnectionRequestTimedOut => "RequestTimedOut",
            ClientState::ChallengeResponseTimedOut => "ResponseTimedOut",
            ClientState::ConnectionDenied => "Denied",
            ClientState::Disconnected => "Disconnected",
            ClientState::SendingConnectionRequest => "Request",
            ClientState::SendingChallengeResponse => "Response",
            ClientState::Connected => "Connected",
        };
        let idx = (c.server_addr().port() - 5000) as usize % 2000;
        let cid = c.id();
        let mk: Vec<&str> = [("Connecting", w.get::<Connecting>(ent).is_some()), ("Connected", w.get::<Connected>(ent).is_some()),
            ("Disconnected", w.get::<Disconnected>(ent).is_some())].iter().filter(|x| x.1).map(|x| x.0).collect();
        let mk = mk.join("+");
        let done = !matches!(st, "Request" | "Response" | "Connected");
        let cur = (format!("{st}{mk}"), idx);
        let upids: Vec<i64> = ups.iter().map(|b| self.pay.get(b).map(|x| *x as i64).unwrap_or(-1)).collect();
        if !(done && ins.is_empty() && att.last == cur && upids.is_empty()) {
            tr.ev(json!({"k": "crecv", "a": a + 1, "dt": dt, "in": ins, "st": st, "idx": idx, "cid": cid, "mk": mk, "up": upids}));
        }
        let was_done = done && att.last == cur;
        att.last = cur;
        // the application's payloads, then the send phase
        let mut pays = vec![];
        for _ in 0..npay {
            let i = self.att[a].npay;
            self.att[a].npay += 1;
            let (v, id) = self.payload(rng, 1, a, i);
            pays.push(json!([id, v.len()]));
            self.att[a].app.world_mut().get_mut::<Link>(ent).unwrap().send.push(Bytes::from(v));
        }
        let att = &mut self.att[a];
        let w = att.app.world_mut();
        w.run_schedule(PostUpdate);
        w.run_schedule(Last);
        let outs: Vec<Bytes> = w.get_mut::<Link>(ent).unwrap().send.drain().collect();
        let (c2s, addr) = (att.c2s, att.addr);
        let mut o = vec![];
        for b in &outs {
            let (kind, seq, x) = if b[0] == 0 { (0, 0, 0) } else {
                match open(&c2s, PROTO, b).or_else(|| open(&c2s, PROTO + 1, b)) {
                    Some((k, s, body)) => (k, s, if k == 5 { self.pay.get(&body).map(|x| *x as i64).unwrap_or(-1) } else { 0 }),
                    None => (99, 0, 0),
                }
            };
            o.push(json!([kind, seq_small(seq), x]));
            self.pk.push(Pk { bytes: b.to_vec(), srv: false, who: a, kind });
            self.c2s.push((self.pk.len() - 1, addr));
        }
        if !(was_done && o.is_empty() && pays.is_empty()) {
            tr.ev(json!({"k": "csend", "a": a + 1, "pay": pays, "out": o}));
        }
    }

    fn link_at(&mut self, tr: &mut Trace, addr: usize) -> usize {
        if let Some(i) = self.links.iter().position(|l| l.addr == addr && !l.gone) {
            return i;
        }
        let s = self.sent;
        let ent = self.srv.world_mut().spawn((LinkOf { server: s }, Link::default(), Linked)).id();
        self.srv.world_mut().flush();
        self.links.push(SLink { ent, addr, inbox: vec![], npay: 0, gone: false, wild: false, conn: false });
        tr.ev(json!({"k": "link"}));
        self.links.len() - 1
    }

    fn push_server(&mut self, tr: &mut Trace, addr: usize, n: i64, b: Vec<u8>) {
        if self.up != 1 {
            return;
        }
        let l = self.link_at(tr, addr);
        self.links[l].inbox.push((n, b));
    }

    fn server_frame(&mut self, tr: &mut Trace, rng: &mut Rng, dt: u64, npay: usize, stop: bool) {
        if self.up == 0 {
            return;
        }
        let sent = self.sent;
        let order: Vec<Entity> = self.srv.world().get::<lightyear_link::prelude::Server>(sent).map(|s| s.collection().to_vec()).unwrap_or_default();
        let mut ins = vec![];
        let mut byent: HashMap<Entity, usize> = HashMap::new();
        for (i, l) in self.links.iter().enumerate() {
            if !l.gone {
                byent.insert(l.ent, i);
            }
        }
        for e in &order {
            let Some(&i) = byent.get(e) else { continue };
            let inbox = std::mem::take(&mut self.links[i].inbox);
            let mut l = self.srv.world_mut().get_mut::<Link>(*e).unwrap();
            for (n, b) in inbox {
                ins.push(json!([i + 1, n]));
                l.recv.push_raw(BytesMut::from(&b[..]));
            }
        }
        let w = self.srv.world_mut();
        w.resource_mut::<Time<Real>>().advance_by(Duration::from_millis(dt));
        w.run_schedule(PreUpdate);
        w.flush();
        let mut conn = vec![];
        let mut dead = vec![];
        let mut ups = vec![];
        for (i, l) in self.links.iter_mut().enumerate() {
            if l.gone {
                continue;
            }
            let Ok(er) = w.get_entity(l.ent) else {
                dead.push(i + 1);
                l.gone = true;
                l.conn = false;
                continue;
            };
            l.conn = er.contains::<Connected>();
            if l.conn {
                let id = match er.get::<RemoteId>() { Some(RemoteId(PeerId::Netcode(x))) => *x as i64, _ => -1 };
                let ud = er.get::<TokenUserData>().map(|u| if u.0.iter().all(|b| *b == u.0[0]) { u.0[0] as i64 } else { -1 }).unwrap_or(-1);
                conn.push(json!([i + 1, id, ud]));
            }
            let got: Vec<BytesMut> = w.get_mut::<Link>(l.ent).unwrap().recv.drain().collect();
            for b in got {
                ups.push(json!([i + 1, self.pay.get(&b[..]).map(|x| *x as i64).unwrap_or(-1)]));
            }
        }
        tr.ev(json!({"k": "srecv", "dt": dt, "in": ins, "conn": conn, "dead": dead, "up": ups}));
        if self.up == 2 {
            self.up = 0;
        }
        // nothing runs on a stopped server
        let npay = if self.up == 1 { npay } else { 0 };
        if stop {
            self.stop(tr);
        }
        let npay = if stop { 0 } else { npay };
        let mut pays = vec![];
        for i in 0..self.links.len() {
            if self.links[i].gone || !rng.pct(if npay > 0 { 60 } else { 0 }) {
                continue;
            }
            for _ in 0..npay {
                let k = self.links[i].npay;
                self.links[i].npay += 1;
                let (v, id) = self.payload(rng, 2, i, k);
                pays.push(json!([i + 1, id, v.len()]));
                let e = self.links[i].ent;
                self.srv.world_mut().get_mut::<Link>(e).unwrap().send.push(Bytes::from(v));
            }
        }
        self.server_send(tr, pays);
    }

    fn server_send(&mut self, tr: &mut Trace, pays: Vec<Value>) {
        let w = self.srv.world_mut();
        w.run_schedule(PostUpdate);
        w.flush();
        let mut o = vec![];
        let mut dead = vec![];
        for i in 0..self.links.len() {
            if self.links[i].gone {
                continue;
            }
            let (e, addr) = (self.links[i].ent, self.links[i].addr);
            let Ok(er) = self.srv.world().get_entity(e) else {
                self.links[i].gone = true;
                dead.push(i + 1);
                continue;
            };
            let _ = er;
            let outs: Vec<Bytes> = self.srv.world_mut().get_mut::<Link>(e).unwrap().send.drain().collect();
            for b in outs {
                let mut rec = (0usize, 99u8, 0u64, 0i64);
                for (a, t) in self.att.iter().enumerate() {
                    if let Some((k, s, body)) = open(&t.s2c, PROTO, &b) {
                        let x = match k {
                            1 => body.first().map(|c| *c as i64).unwrap_or(-1),
                            4 => body.get(..8).map(|c| u64::from_be_bytes(c.try_into().unwrap()) as i64).unwrap_or(-1),
                            5 => self.pay.get(&body).map(|x| *x as i64).unwrap_or(-1),
                            _ => 0,
                        };
                        rec = (a + 1, k, seq_small(s), x);
                        break;
                    }
                }
                o.push(json!([i + 1, rec.0, rec.1, rec.2, rec.3]));
                self.pk.push(Pk { bytes: b.to_vec(), srv: true, who: addr, kind: rec.1 });
                let n = self.pk.len() - 1;
                if let Some(a) = self.att.iter().rposition(|t| t.addr == addr && t.started) {
                    self.s2c.push((n, a));
                }
            }
        }
        // the io sends at the end of PostUpdate; closed links are despawned in Last
        self.srv.world_mut().run_schedule(Last);
        self.srv.world_mut().flush();
        for i in 0..self.links.len() {
            if self.links[i].gone {
                continue;
            }
            match self.srv.world().get_entity(self.links[i].ent) {
                Ok(er) => self.links[i].conn = er.contains::<Connected>(),
                Err(_) => {
                    self.links[i].gone = true;
                    dead.push(i + 1);
                }
            }
        }
        tr.ev(json!({"k": "ssend", "pay": pays, "out": o, "dead": dead}));
    }

    fn stop(&mut self, tr: &mut Trace) {
        if self.up != 1 {
            return;
        }
        let s = self.sent;
        self.srv.world_mut().trigger(Stop { entity: s });
        self.srv.world_mut().flush();
        self.up = 2;
        tr.ev(json!({"k": "stop"}));
    }

    fn start(&mut self, tr: &mut Trace) {
        if self.up != 0 {
            return;
        }
        let s = self.sent;
        self.srv.world_mut().trigger(Start { entity: s });
        self.srv.world_mut().flush();
        self.up = 1;
        tr.ev(json!({"k": "start"}));
    }

    fn kill(&mut self, tr: &mut Trace, l: usize) {
        if self.links[l].gone {
            return;
        }
        let e = self.links[l].ent;
        self.links[l].gone = true;
        self.srv.world_mut().despawn(e);
        self.srv.world_mut().flush();
        tr.ev(json!({"k": "kill", "l": l + 1}));
    }

    /// A packet that is authentic for the session of attempt `h` but which no honest client would send.
    fn craft(&mut self, rng: &mut Rng, h: usize) -> Vec<u8> {
        let key = self.att[h].c2s;
        let kind = match rng.below(6) { 0 => 0, 1 => 3, 2 => 5, _ => rng.below(16) as u8 };
        let seq = match rng.below(6) {
            0 => u64::MAX,
            1 => u64::MAX - rng.below(300),
            2 => rng.below(5),
            _ => 1000 + rng.below(100000),
        };
        let need = (8 - seq.leading_zeros() as usize / 8).max(1);
        let sl = if rng.pct(15) { 8 } else { need } as u8;
        let body: Vec<u8> = match kind {
            0 => {
                // a forged connect token in the clear, naming somebody else
                let mut p = vec![];
                p.extend_from_slice(&(1 + rng.below(3)).to_be_bytes());
                p.extend_from_slice(&3i32.to_be_bytes());
                p.extend_from_slice(&1u32.to_be_bytes());
                p.extend_from_slice(&[1, 127, 0, 0, 1]);
                p.extend_from_slice(&5000u16.to_be_bytes());
                p.extend_from_slice(&self.att[h].c2s);
                p.extend_from_slice(&self.att[h].s2c);
                p.extend_from_slice(&[66; 256]);
                p.resize(1024, 0);
                let mut r = NETCODE_VERSION.to_vec();
                r.extend_from_slice(&PROTO.to_be_bytes());
                r.extend_from_slice(&u64::MAX.to_be_bytes());
                r.extend_from_slice(&[0; 24]);
                r.extend_from_slice(&p);
                r
            }
            2 | 3 => {
                let mut v = vec![0u8; 308];
                for b in v.iter_mut() { *b = rng.next() as u8 }
                v
            }
            1 => vec![rng.below(9) as u8; 1 + rng.below(6) as usize],
            4 => vec![0; rng.below(12) as usize],
            _ => {
                let n = rng.below(40) as usize;
                (0..n).map(|_| rng.next() as u8).collect()
            }
        };
        seal(&key, kind | sl << 4, seq, &body)
    }

    /// Bytes that are not a packet of anybody.
    fn junk(&mut self, rng: &mut Rng) -> Vec<u8> {
        if !self.pk.is_empty() && rng.pct(60) {
            let i = rng.below(self.pk.len() as u64) as usize;
            let mut b = self.pk[i].bytes.clone();
            match rng.below(4) {
                0 => {
                    let n = rng.below(b.len() as u64) as usize;
                    b.truncate(n);
                }
                1 if b[0] != 0 => b[0] = rng.next() as u8 | 0x90,
                2 if b[0] != 0 => {
                    for _ in 0..1 + rng.below(4) { b.push(rng.next() as u8) }
                }
                _ => {
                    let p = match rng.below(3) { 0 => 0, 1 => b.len() - 1, _ => rng.below(b.len() as u64) as usize };
                    b[p] ^= 1 << rng.below(8);
                }
            }
            return b;
        }
        let n = match rng.below(4) { 0 => rng.below(3), 1 => 10 + rng.below(30), 2 => 1078, _ => rng.below(1400) } as usize;
        let mut b: Vec<u8> = (0..n).map(|_| rng.next() as u8).collect();
        if n > 0 && rng.pct(50) {
            b[0] = *rng.pick(&[0u8, 0x10, 0x11, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x1f, 0x04, 0x05, 0x80, 0x94, 0x95, 0xf5, 0xff, 0x85]);
        }
        b
    }
}

struct Net { loss: u64, dup: u64, delay: u64, replay: u64, junk: u64 }

fn network(sim: &mut Sim, tr: &mut Trace, rng: &mut Rng, net: &Net, step: u64, crafted: bool) {
    let q = std::mem::take(&mut sim.c2s);
    for (n, addr) in q {
        let (a, bad, hostile) = { let t = &sim.att[sim.pk[n].who]; (t.blackout > step, t.gone_bad, t.hostile) };
        if a || rng.pct(net.loss) || (hostile && bad) {
            continue;
        }
        if rng.pct(net.delay) {
            sim.c2s.push((n, addr));
            continue;
        }
        if crafted {
            sim.c2s.push((n, addr));
            continue;
        }
        if rng.pct(net.dup) {
            sim.c2s.push((n, addr));
        }
        // now and then a packet comes from another address than the sender's usual one
        let b = sim.pk[n].bytes.clone();
        sim.push_server(tr, addr, n as i64 + 1, b);
    }
    let q = std::mem::take(&mut sim.s2c);
    for (n, a) in q {
        if sim.att[a].blackout > step || rng.pct(net.loss) {
            continue;
        }
        if rng.pct(net.delay) {
            sim.s2c.push((n, a));
            continue;
        }
        if rng.pct(net.dup) {
            sim.s2c.push((n, a));
        }
        let b = sim.pk[n].bytes.clone();
        sim.att[a].inbox.push((n as i64 + 1, b));
    }
    if !sim.pk.is_empty() && rng.pct(net.replay) {
        for _ in 0..1 + rng.below(6) {
            let n = rng.below(sim.pk.len() as u64) as usize;
            let b = sim.pk[n].bytes.clone();
            let hostile_pk = !sim.pk[n].srv && sim.att[sim.pk[n].who].hostile;
            if rng.pct(50) && !crafted && !hostile_pk {
                let addr = if !sim.pk[n].srv && rng.pct(50) { sim.att[sim.pk[n].who].addr } else { rng.below(sim.naddr as u64) as usize };
                sim.push_server(tr, addr, n as i64 + 1, b);
            } else {
                let a = if sim.pk[n].srv && rng.pct(70) {
                    sim.att.iter().rposition(|t| t.addr == sim.pk[n].who).unwrap_or(0)
                } else { rng.below(sim.att.len() as u64) as usize };
                sim.att[a].inbox.push((n as i64 + 1, b));
            }
        }
    }
    if rng.pct(net.junk) && sim.naddr > 0 {
        for _ in 0..1 + rng.below(4) {
            let b = sim.junk(rng);
            if rng.pct(50) {
                let addr = rng.below(sim.naddr as u64 + 1) as usize;
                sim.push_server(tr, addr, 0, b);
            } else {
                let a = rng.below(sim.att.len() as u64) as usize;
                sim.att[a].inbox.push((0, b));
            }
        }
    }
}

fn random_case(args: &Args, tr: &mut Trace, rng: &mut Rng, case: u64) {
    let max = 1 + rng.below(3) as usize;
    let check = rng.pct(60);
    let calm = rng.pct(35);
    let net = if calm { Net { loss: 0, dup: 0, delay: 0, replay: 0, junk: 0 } } else {
        Net { loss: *rng.pick(&[0, 0, 10, 30]), dup: *rng.pick(&[0, 10, 30]), delay: *rng.pick(&[0, 20, 50]), replay: *rng.pick(&[0, 10, 40]),
              junk: *rng.pick(&[0, 10, 40]) }
    };
    let hostile = !calm && rng.pct(if args.prop == "N05" || args.prop == "N01" { 60 } else { 25 });
    let steps = if args.thorough { 120 + rng.below(200) } else { 50 + rng.below(70) };
    tr.ev(json!({"k": "reset", "case": case, "max": max, "check": check}));
    let mut sim = Sim::new(max, check);
    let maxatt = 2 + rng.below(7) as usize;
    let jump = rng.pct(40);
    for step in 0..steps {
        let crafted_step = hostile && rng.pct(15) && sim.links.iter().all(|l| l.gone || l.inbox.is_empty());
        if sim.att.len() < maxatt && rng.pct(if sim.att.is_empty() { 100 } else { 12 }) {
            let hs = hostile && rng.pct(40);
            let id = if hs { 9 } else if rng.pct(8) { 7 } else { 1 + rng.below(3) };
            let bad = if !hs && rng.pct(18) { 1 + rng.below(6) as u8 } else { 0 };
            let tmo = *rng.pick(&[1, 2, 3, 3, 10, -1, 0]);
            let life = *rng.pick(&[1, 2, 5, 30, 30, 30]);
            let na = if rng.pct(25) { 2 } else { 1 };
            let addr = if !sim.att.is_empty() && !hs && rng.pct(25) { rng.below(sim.naddr as u64) as usize } else { sim.naddr };
            let addr = if sim.att.iter().any(|t| t.addr == addr && t.hostile) { sim.naddr } else { addr };
            let ud = 1 + sim.att.len() as u8;
            sim.new_att(tr, id, ud, tmo, life, bad, check, hs, na, addr);
            let a = sim.att.len() - 1;
            sim.connect(tr, a);
        }
        for a in 0..sim.att.len() {
            if rng.pct(1) {
                sim.att[a].blackout = step + 8 + rng.below(40);
            }
            if rng.pct(1) && !sim.att[a].hostile && rng.pct(60) {
                sim.cdisc(tr, a);
            }
        }
        let mut stop = false;
        match rng.below(300) {
            0 | 1 | 2 => stop = true,
            3 if !sim.links.is_empty() => {
                let l = rng.below(sim.links.len() as u64) as usize;
                if !sim.links[l].wild { sim.kill(tr, l) }
            }
            _ => {}
        }
        if sim.up == 0 && rng.pct(15) {
            sim.start(tr);
        }
        if crafted_step && sim.up == 1 {
            if let Some(h) = sim.att.iter().position(|t| t.hostile) {
                let addr = sim.att[h].addr;
                if sim.links.iter().any(|l| l.addr == addr && !l.gone) {
                    let b = sim.craft(rng, h);
                    sim.att[h].gone_bad = true;
                    for l in sim.links.iter_mut().filter(|l| l.addr == addr) { l.wild = true }
                    if rng.pct(80) {
                        sim.push_server(tr, addr, -(h as i64) - 1, b);
                    } else {
                        let o = rng.below(sim.naddr as u64) as usize;
                        sim.push_server(tr, o, -(h as i64) - 1, b);
                    }
                }
            }
        }
        network(&mut sim, tr, rng, &net, step, crafted_step);
        let dt = 14 * if jump && rng.pct(6) { 20 + rng.below(90) } else { 1 + rng.below(8) };
        for a in 0..sim.att.len() {
            if rng.pct(95) {
                let npay = if rng.pct(30) { 1 + rng.below(3) } else if rng.pct(1) { 130 + rng.below(180) } else { 0 };
                sim.client_frame(tr, rng, a, dt, npay as usize);
            }
        }
        if rng.pct(95) {
            let npay = if rng.pct(30) { 1 + rng.below(2) } else if rng.pct(1) { 130 + rng.below(180) } else { 0 };
            sim.sdt = dt;
            sim.server_frame(tr, rng, dt, npay as usize, stop);
        }
    }
    tr.ev(json!({"k": "end"}));
}

/// Behaviours generated from the model: the attempts and addresses of MCNetcode's A3 / Mix4.
fn run_script(args: &Args, tr: &mut Trace, path: &str) {
    let text = std::fs::read_to_string(path).unwrap();
    let mut rng0 = Rng::new(args.seed);
    for (case, line) in text.lines().enumerate() {
        let ops: Value = serde_json::from_str(line).unwrap();
        let mut rng = Rng::new(rng0.next());
        let r = guard_case(std::panic::AssertUnwindSafe(|| {
            tr.ev(json!({"k": "reset", "case": case, "max": 2, "check": true}));
            let mut sim = Sim::new(2, true);
            for (id, ud, tmo, bad, na, addr) in [(1, 1, 1, 0, 2, 1), (1, 2, 3, 0, 1, 1), (2, 3, 1, 0, 1, 2), (3, 4, 1, 1, 1, 3)] {
                sim.new_att(tr, id, ud, tmo, 30, bad, true, false, na, addr);
            }
            let mut tick = 0u64;
            let (mut ct, mut stm) = ([0u64; 4], 0u64);
            for op in ops.as_array().unwrap() {
                let a = op["a"].as_u64().unwrap_or(1) as usize - 1;
                let find = |sim: &Sim, addr: usize| -> Option<usize> {
                    let (srv, kind) = (op["dir"] == "s", op["kind"].as_u64().unwrap() as u8);
                    let f = op["f"].as_u64().unwrap() as usize - 1;
                    let c: Vec<usize> = (0..sim.pk.len())
                        .filter(|i| { let p = &sim.pk[*i]; p.srv == srv && p.kind == kind && p.who == if srv { addr } else { f } })
                        .collect();
                    if c.is_empty() { None } else { Some(c[op["seq"].as_u64().unwrap() as usize % c.len()]) }
                };
                match op["op"].as_str().unwrap() {
                    "connect" => if !sim.att[a].started { sim.connect(tr, a) },
                    "cdisc" => if sim.att[a].started { sim.cdisc(tr, a) },
                    "tick" => tick += 462,
                    "cdel" => {
                        let f = op["f"].as_u64().unwrap() as usize - 1;
                        let addr = sim.att[f].addr;
                        if let Some(n) = find(&sim, addr) {
                            let b = sim.pk[n].bytes.clone();
                            sim.att[a].inbox.push((n as i64 + 1, b));
                        }
                    }
                    "sdel" => {
                        if let Some(n) = find(&sim, 0) {
                            let b = sim.pk[n].bytes.clone();
                            sim.push_server(tr, op["addr"].as_u64().unwrap() as usize, n as i64 + 1, b);
                        }
                    }
                    "cframe" => {
                        let dt = tick - ct[a];
                        ct[a] = tick;
                        sim.client_frame(tr, &mut rng, a, dt, op["pay"].as_bool().unwrap() as usize);
                    }
                    "sframe" => {
                        let dt = tick - stm;
                        stm = tick;
                        sim.server_frame(tr, &mut rng, dt, op["pay"].as_bool().unwrap() as usize, false);
                    }
                    "restart" => {
                        let dt = tick - stm;
                        stm = tick;
                        sim.server_frame(tr, &mut rng, dt, 0, true);
                        sim.server_frame(tr, &mut rng, 0, 0, false);
                        sim.start(tr);
                    }
                    x => panic!("unknown op {x}"),
                }
            }
            tr.ev(json!({"k": "end"}));
        }));
        if let Err(m) = r {
            tr.ev(json!({"k": "panic", "msg": m}));
        }
    }
}

pub fn run(args: &Args, tr: &mut Trace) {
    if let Some(p) = &args.script {
        return run_script(args, tr, p);
    }
    run_cases(args, tr, |tr, rng, i| random_case(args, tr, rng, i));
}
