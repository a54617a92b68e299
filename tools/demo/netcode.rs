//! A netcode server and clients whose packets the scenario moves by hand.
#![allow(dead_code)]
use bevy_app::prelude::*;
pub use bevy_ecs::prelude::*;
use bevy_time::{Real, Time};
pub use bytes::{Bytes, BytesMut};
use core::net::SocketAddr;
use core::time::Duration;
pub use lightyear_connection::client::{Connect, Connected, Connecting, Disconnect, Disconnected};
pub use lightyear_connection::prelude::server::{Start, Stop};
pub use lightyear_core::id::{PeerId, RemoteId};
pub use lightyear_link::prelude::{LinkOf, Linked};
pub use lightyear_link::Link;
pub use lightyear_netcode::client::{Client, ClientConfig, ClientState};
pub use lightyear_netcode::prelude::client::{NetcodeClient, NetcodeClientPlugin};
pub use lightyear_netcode::prelude::server::{NetcodeConfig, NetcodeServer, NetcodeServerPlugin};
pub use lightyear_netcode::ConnectToken;

fn app() -> App {
    let mut app = App::new();
    app.add_plugins(bevy_app::TaskPoolPlugin { task_pool_options: bevy_app::TaskPoolOptions::with_num_threads(1) });
    app.init_resource::<Time<Real>>();
    app
}
pub struct Srv { pub app: App, pub ent: Entity }
pub struct Cl { pub app: App, pub ent: Entity }

pub fn server(max: usize) -> Srv {
    let mut app = app();
    app.add_plugins(NetcodeServerPlugin);
    let cfg = NetcodeConfig { max_clients: max, protocol_id: 1, server_addr_check: false, private_key: [7; 32], ..Default::default() };
    let ent = app.world_mut().spawn(NetcodeServer::new(cfg)).id();
    app.world_mut().trigger(Start { entity: ent });
    app.world_mut().flush();
    Srv { app, ent }
}
pub fn client(id: u64, timeout: i32, servers: usize) -> Cl {
    let a: Vec<SocketAddr> = (0..servers).map(|i| format!("127.0.0.1:{}", 5000 + i).parse().unwrap()).collect();
    let b = ConnectToken::build(&a[..], 1, id, [7; 32]).timeout_seconds(timeout).expire_seconds(3600).generate().unwrap().try_into_bytes().unwrap();
    let inner = Client::with_config(&b, ClientConfig::default()).unwrap();
    let mut app = app();
    app.add_plugins(NetcodeClientPlugin);
    let ent = app.world_mut().spawn((NetcodeClient { inner }, Linked)).id();
    app.world_mut().flush();
    app.world_mut().trigger(Connect { entity: ent });
    app.world_mut().flush();
    Cl { app, ent }
}
fn frame(app: &mut App, ents: &[Entity], ms: u64) {
    let _ = ents;
    app.world_mut().resource_mut::<Time<Real>>().advance_by(Duration::from_millis(ms));
    app.world_mut().run_schedule(PreUpdate);
    app.world_mut().flush();
}
fn take(app: &mut App, e: Entity) -> Vec<Vec<u8>> {
    match app.world_mut().get_mut::<Link>(e) { Some(mut l) => l.send.drain().map(|b| b.to_vec()).collect(), None => vec![] }
}
fn put(app: &mut App, e: Entity, ps: &[Vec<u8>]) {
    if let Some(mut l) = app.world_mut().get_mut::<Link>(e) { for p in ps { l.recv.push_raw(BytesMut::from(&p[..])) } }
}
fn got(app: &mut App, e: Entity) -> Vec<Vec<u8>> {
    match app.world_mut().get_mut::<Link>(e) { Some(mut l) => l.recv.drain().map(|b| b.to_vec()).collect(), None => vec![] }
}
impl Srv {
    pub fn link(&mut self) -> Entity {
        let e = self.app.world_mut().spawn((LinkOf { server: self.ent }, Link::default(), Linked)).id();
        self.app.world_mut().flush();
        e
    }
    /// Delivers `ins`, runs a frame of `ms`, returns what was handed up and sent on each of `links`.
    pub fn frame(&mut self, ms: u64, links: &[Entity], ins: &[(Entity, Vec<Vec<u8>>)], pay: &[(Entity, Vec<u8>)]) -> Vec<(Vec<Vec<u8>>, Vec<Vec<u8>>)> {
        for (l, p) in ins { put(&mut self.app, *l, p); }
        frame(&mut self.app, links, ms);
        let up: Vec<_> = links.iter().map(|l| got(&mut self.app, *l)).collect();
        for (l, p) in pay { if let Some(mut k) = self.app.world_mut().get_mut::<Link>(*l) { k.send.push(Bytes::from(p.clone())) } }
        self.app.world_mut().run_schedule(PostUpdate);
        self.app.world_mut().flush();
        let r = links.iter().zip(up).map(|(l, u)| (u, take(&mut self.app, *l))).collect();
        self.app.world_mut().run_schedule(Last);
        self.app.world_mut().flush();
        r
    }
    pub fn connected(&self, l: Entity) -> bool { self.app.world().get_entity(l).map(|e| e.contains::<Connected>()).unwrap_or(false) }
}
impl Cl {
    pub fn frame(&mut self, ms: u64, ins: &[Vec<u8>], pay: &[Vec<u8>]) -> (Vec<Vec<u8>>, Vec<Vec<u8>>) {
        put(&mut self.app, self.ent, ins);
        frame(&mut self.app, &[], ms);
        let up = got(&mut self.app, self.ent);
        for p in pay { self.app.world_mut().get_mut::<Link>(self.ent).unwrap().send.push(Bytes::from(p.clone())) }
        self.app.world_mut().run_schedule(PostUpdate);
        self.app.world_mut().flush();
        let o = take(&mut self.app, self.ent);
        self.app.world_mut().run_schedule(Last);
        (up, o)
    }
    pub fn state(&self) -> ClientState { self.app.world().get::<NetcodeClient>(self.ent).unwrap().inner.state() }
    pub fn disconnect(&mut self) {
        let e = self.ent;
        self.app.world_mut().trigger(Disconnect { entity: e });
        self.app.world_mut().flush();
    }
}
/// One honest round between a client and its link; returns what each handed up.
pub fn round(s: &mut Srv, c: &mut Cl, l: Entity, ms: u64, inbox: &mut Vec<Vec<u8>>, cp: &[Vec<u8>], sp: &[Vec<u8>]) -> (Vec<Vec<u8>>, Vec<Vec<u8>>) {
    let (cu, co) = c.frame(ms, inbox, cp);
    let pay: Vec<(Entity, Vec<u8>)> = sp.iter().map(|p| (l, p.clone())).collect();
    let mut r = s.frame(ms, &[l], &[(l, co)], &pay);
    let (su, so) = r.remove(0);
    *inbox = so;
    (su, cu)
}
pub fn establish(s: &mut Srv, c: &mut Cl, l: Entity) -> Vec<Vec<u8>> {
    let mut inbox = vec![];
    for _ in 0..6 { round(s, c, l, 110, &mut inbox, &[], &[]); }
    if !s.connected(l) { fail("could not connect"); }
    inbox
}
pub fn fail(m: &str) -> ! { eprintln!("FAIL: {m}"); std::process::exit(1) }
