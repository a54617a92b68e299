//! Conformance driver for the transport: two real `TransportPlugin` apps joined by a simulated network.
//! It applies seeded (or scripted) operations and records what the real code did; it asserts nothing.
use crate::common::*;
use bevy_app::prelude::*;
use bevy_ecs::prelude::*;
use bevy_time::{Real, Time};
use bytes::{Bytes, BytesMut};
use core::time::Duration;
use lightyear_connection::prelude::Disconnected;
use lightyear_core::prelude::LocalTimeline;
use lightyear_link::{Link, LinkMtu, Linked, Unlinked};
use lightyear_transport::channel::ChannelKind;
use lightyear_transport::packet::packet::fragment_size_for_min_mtu;
use lightyear_transport::plugin::{PacketAcked, PacketLost, TransportPlugin};
use lightyear_transport::prelude::*;
use serde_json::{Value, json};
use std::collections::HashMap;

pub struct C1;
pub struct C2;
pub struct C3;
pub struct C4;
pub struct C5;
pub struct C6;
pub const NCH: usize = 6;
pub(crate) const MODES: [&str; NCH] = ["UU", "UA", "SU", "UR", "SR", "OR"];

#[derive(Clone, Copy)]
pub struct ChCfg {
    pub(crate) freq: u64,
    prio: i64,
    retry: bool,
    mind: u64,
    /// tenths
    factor: u64,
}

#[derive(Resource, Default)]
pub(crate) struct Obs {
    pub(crate) acked: Vec<(u16, i64)>,
    pub(crate) lost: Vec<u16>,
}

struct Msg {
    bytes: Bytes,
}

pub(crate) struct End {
    pub(crate) app: App,
    pub(crate) ent: Entity,
    pub(crate) t: u64,
    pub(crate) tick: i64,
    pub(crate) rtt: u64,
    pub(crate) nsent: i64,
    pub(crate) pid_to_n: HashMap<u16, i64>,
    pub(crate) msgs: Vec<Vec<Msg>>,
    pub(crate) mids: HashMap<(usize, u16), usize>,
    pub(crate) zero_used: Vec<bool>,
    /// packets waiting in the peer's link, not yet received
    pub(crate) waiting: Vec<i64>,
    pub(crate) start: std::time::Instant,
}

#[derive(Clone)]
pub struct CaseCfg {
    pub(crate) min_mtu: usize,
    pub(crate) ch: [ChCfg; NCH],
    pub(crate) cap: Option<(u32, u32)>,
    pub(crate) mpsc: [bool; NCH],
    /// compression: smallest payload to compress
    pub(crate) comp: Option<usize>,
}

pub struct Sim {
    e: [End; 2],
    cfg: CaseCfg,
    now: u64,
    sess: u64,
    fs: usize,
    kinds: [ChannelKind; NCH],
    netids: HashMap<u16, usize>,
    /// (n, bytes) of the packets each end emitted in its latest flush
    pub fresh: [Vec<(i64, Bytes)>; 2],
    log: bool,
}

fn settings(i: usize, c: &ChCfg) -> ChannelSettings {
    let r = ReliableSettings {
        rtt_resend_factor: c.factor as f32 / 10.0,
        rtt_resend_min_delay: Duration::from_millis(c.mind),
    };
    ChannelSettings {
        mode: match i {
            0 => ChannelMode::UnorderedUnreliable,
            1 => ChannelMode::UnorderedUnreliableWithAcks,
            2 => ChannelMode::SequencedUnreliable,
            3 => ChannelMode::UnorderedReliable(r),
            4 => ChannelMode::SequencedReliable(r),
            _ => ChannelMode::OrderedReliable(r),
        },
        send_frequency: Duration::from_millis(c.freq),
        priority: c.prio as f32,
        retry_unsent_messages: c.retry,
        ..Default::default()
    }
}

pub(crate) fn make_end(cfg: &CaseCfg) -> (End, HashMap<u16, usize>) {
    let mut app = App::new();
    app.init_resource::<Time<Real>>();
    app.init_resource::<LocalTimeline>();
    app.init_resource::<Obs>();
    app.add_channel::<C1>(settings(0, &cfg.ch[0]));
    app.add_channel::<C2>(settings(1, &cfg.ch[1]));
    app.add_channel::<C3>(settings(2, &cfg.ch[2]));
    app.add_channel::<C4>(settings(3, &cfg.ch[3]));
    app.add_channel::<C5>(settings(4, &cfg.ch[4]));
    app.add_channel::<C6>(settings(5, &cfg.ch[5]));
    app.add_plugins(TransportPlugin);
    app.finish();
    app.add_observer(|t: On<PacketAcked>, mut o: ResMut<Obs>| {
        o.acked.push((t.packet_id.0, t.rtt_sample.as_micros() as i64));
    });
    app.add_observer(|t: On<PacketLost>, mut o: ResMut<Obs>| {
        o.lost.push(t.packet_id.0);
    });
    let pc = match cfg.cap {
        Some((rate, burst)) => PriorityConfig::new(rate).with_burst_size(burst),
        None => PriorityConfig::default(),
    };
    let start = std::time::Instant::now();
    let mut tr = Transport::new(pc);
    if let Some(min) = cfg.comp {
        tr.set_compression(CompressionConfig { min_payload_size: min, ..CompressionConfig::LZ4 });
    }
    let reg = app.world().resource::<ChannelRegistry>();
    macro_rules! add { ($($c:ty),*) => { $( tr.add_channel_send_from_registry::<$c>(reg); tr.add_channel_receive_from_registry::<$c>(reg); )* } }
    add!(C1, C2, C3, C4, C5, C6);
    let mut netids = HashMap::new();
    for (i, k) in kinds().iter().enumerate() {
        netids.insert(*reg.get_net_from_kind(k).unwrap(), i);
    }
    let ent = app.world_mut().spawn((Link::default().with_mtu(LinkMtu::new(cfg.min_mtu)), tr, Linked)).id();
    let mut e = End {
        app, ent, t: 0, tick: 0, rtt: 0, nsent: 0, pid_to_n: HashMap::new(),
        msgs: (0..NCH).map(|_| vec![]).collect(), mids: HashMap::new(), zero_used: vec![false; NCH],
        waiting: vec![], start,
    };
    e.advance(10_000);
    (e, netids)
}

pub(crate) fn kinds() -> [ChannelKind; NCH] {
    [ChannelKind::of::<C1>(), ChannelKind::of::<C2>(), ChannelKind::of::<C3>(),
     ChannelKind::of::<C4>(), ChannelKind::of::<C5>(), ChannelKind::of::<C6>()]
}

impl End {
    pub(crate) fn advance(&mut self, to: u64) {
        let d = to - self.t;
        self.app.world_mut().resource_mut::<Time<Real>>().advance_by(Duration::from_millis(d));
        self.t = to;
    }
    pub(crate) fn link(&mut self) -> Mut<'_, Link> {
        self.app.world_mut().get_mut::<Link>(self.ent).unwrap()
    }
}

fn filler(idx: usize, ch: usize, e: usize, sess: u64, i: usize) -> u8 {
    let x = (idx as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ ((ch as u64) << 8) ^ ((e as u64) << 16) ^ (sess << 24)
        ^ ((i as u64).wrapping_mul(0xD1B54A32D192ED03));
    ((x >> 29) ^ (x >> 51) ^ x) as u8
}

pub(crate) struct PPart {
    pub(crate) net: u16,
    pub(crate) mid: Option<u16>,
    pub(crate) frag: Option<(u64, u64)>,
    pub(crate) bytes: Vec<u8>,
}

fn varint(b: &[u8], p: &mut usize) -> Option<u64> {
    let first = *b.get(*p)?;
    let n = 1usize << (first >> 6);
    let s = b.get(*p..*p + n)?;
    *p += n;
    let mut v = (s[0] & 0x3f) as u64;
    for x in &s[1..] {
        v = (v << 8) | *x as u64;
    }
    Some(v)
}
fn u16be(b: &[u8], p: &mut usize) -> Option<u16> {
    let s = b.get(*p..*p + 2)?;
    *p += 2;
    Some(u16::from_be_bytes([s[0], s[1]]))
}
fn take(b: &[u8], p: &mut usize, n: usize) -> Option<Vec<u8>> {
    let s = b.get(*p..*p + n)?.to_vec();
    *p += n;
    Some(s)
}

/// The body of a compressed packet: length (4 bytes, little endian), then an LZ4 block.
fn unlz4(b: &[u8]) -> Option<Vec<u8>> {
    let n = u32::from_le_bytes(b.get(..4)?.try_into().ok()?) as usize;
    let mut p = 4;
    let mut out: Vec<u8> = vec![];
    let more = |p: &mut usize, mut x: usize| {
        if x == 15 {
            loop {
                let c = *b.get(*p)?;
                *p += 1;
                x += c as usize;
                if c < 255 { break; }
            }
        }
        Some(x)
    };
    while p < b.len() {
        let t = b[p] as usize;
        p += 1;
        let l = more(&mut p, t >> 4)?;
        out.extend(b.get(p..p + l)?);
        p += l;
        if p == b.len() {
            break;
        }
        let off = u16::from_le_bytes(b.get(p..p + 2)?.try_into().ok()?) as usize;
        p += 2;
        let m = more(&mut p, t & 15)? + 4;
        let s = out.len().checked_sub(off).filter(|_| off > 0)?;
        for i in 0..m {
            out.push(out[s + i]);
        }
    }
    (out.len() == n).then_some(out)
}

pub(crate) fn parse(b: &[u8]) -> Option<(u8, u16, u32, Vec<PPart>)> {
    if b.len() < 13 {
        return None;
    }
    let mut ty = b[0];
    let body;
    let b = if ty == 2 || ty == 3 {
        ty -= 2;
        body = [&b[..13], &unlz4(&b[13..])?[..]].concat();
        &body[..]
    } else {
        b
    };
    let pid = u16::from_be_bytes([b[1], b[2]]);
    let tick = u32::from_be_bytes([b[9], b[10], b[11], b[12]]);
    let mut p = 13;
    let mut parts = vec![];
    if ty == 1 {
        let net = varint(b, &mut p)? as u16;
        let mid = u16be(b, &mut p)?;
        let fi = varint(b, &mut p)?;
        let nf = varint(b, &mut p)?;
        if fi == 0 {
            p += 1;
        }
        let l = varint(b, &mut p)? as usize;
        parts.push(PPart { net, mid: Some(mid), frag: Some((fi, nf)), bytes: take(b, &mut p, l)? });
    }
    while p < b.len() {
        let net = varint(b, &mut p)? as u16;
        let c = *b.get(p)?;
        p += 1;
        for _ in 0..c {
            let has = *b.get(p)?;
            p += 1;
            let mid = if has == 1 { Some(u16be(b, &mut p)?) } else { None };
            let l = varint(b, &mut p)? as usize;
            parts.push(PPart { net, mid, frag: None, bytes: take(b, &mut p, l)? });
        }
    }
    Some((ty, pid, tick, parts))
}

impl Sim {
    pub fn new(cfg: CaseCfg) -> Sim {
        let (a, netids) = make_end(&cfg);
        let (b, _) = make_end(&cfg);
        let fs = fragment_size_for_min_mtu(cfg.min_mtu).unwrap();
        Sim { e: [a, b], cfg, now: 10_000, sess: 1, fs, kinds: kinds(), netids, fresh: [vec![], vec![]], log: true }
    }

    fn content(&self, e: usize, ch: usize, idx: usize, len: usize) -> Vec<u8> {
        // with compression on, contents that compress well, a little and not at all
        let run = match (self.cfg.comp, idx % 3) { (Some(_), 0) => 64, (Some(_), 1) => 6, _ => 1 };
        let mut v: Vec<u8> = (0..len).map(|i| filler(idx, ch, e, self.sess, i / run)).collect();
        if len == 1 {
            v[0] = idx as u8;
        } else if len >= 2 {
            v[0] = (idx >> 8) as u8;
            v[1] = idx as u8;
        }
        v
    }

    /// Identity of a complete message content on `ch` sent by `e`: its index, or 0 if it is not one of them.
    fn identify(&self, e: usize, ch: usize, bytes: &[u8]) -> usize {
        let ms = &self.e[e].msgs[ch];
        let idx = match bytes.len() {
            0 => ms.iter().position(|m| m.bytes.is_empty()).map(|p| p + 1).unwrap_or(0),
            1 => bytes[0] as usize,
            _ => ((bytes[0] as usize) << 8) | bytes[1] as usize,
        };
        if idx == 0 || idx > ms.len() || ms[idx - 1].bytes.as_ref() != bytes { 0 } else { idx }
    }

    pub fn nfrag(&self, len: usize) -> usize {
        if len > self.fs { len.div_ceil(self.fs) } else { 1 }
    }

    pub fn send(&mut self, tr: &mut Trace, e: usize, ch: usize, mut len: usize, prio: i64) {
        let idx = self.e[e].msgs[ch].len() + 1;
        if self.cfg.mpsc[ch] {
            len = len.min(self.fs);
        }
        if len == 0 && self.e[e].zero_used[ch] {
            len = 2;
        }
        if len == 1 && idx > 255 {
            len = 2;
        }
        if len == 0 {
            self.e[e].zero_used[ch] = true;
        }
        let bytes = Bytes::from(self.content(e, ch, idx, len));
        let nf = self.nfrag(len);
        if self.log {
            tr.ev(json!({"k": "send", "e": e + 1, "ch": ch + 1, "idx": idx, "nf": nf, "len": len, "prio": prio}));
        }
        let kind = self.kinds[ch];
        let end = &mut self.e[e];
        end.msgs[ch].push(Msg { bytes: bytes.clone() });
        let ent = end.ent;
        let mut t = end.app.world_mut().get_mut::<Transport>(ent).unwrap();
        if self.cfg.mpsc[ch] {
            t.send_erased(kind, bytes, prio as f32).unwrap();
        } else if let Some(mid) = t.send_mut_erased(kind, bytes, prio as f32).unwrap() {
            end.mids.insert((ch, mid.0), idx);
        }
    }

    pub fn flush(&mut self, tr: &mut Trace, e: usize) {
        self.e[e].app.world_mut().run_schedule(PostUpdate);
        let out: Vec<Bytes> = self.e[e].link().send.drain().collect();
        let mtu = self.e[e].link().mtu();
        let el = self.e[e].start.elapsed();
        let mut pks = vec![];
        self.fresh[e].clear();
        for b in out {
            self.e[e].nsent += 1;
            let n = self.e[e].nsent;
            let mut ps = vec![];
            let mut ao = false;
            let mut tick = 0i64;
            match parse(&b) {
                None => ps.push(json!([0, 0, 0])),
                Some((ty, pid, tk, parts)) => {
                    ao = ty == 4;
                    tick = tk as i64;
                    self.e[e].pid_to_n.insert(pid, n);
                    for p in parts {
                        let Some(&ch) = self.netids.get(&p.net) else {
                            ps.push(json!([0, 0, 0]));
                            continue;
                        };
                        match p.frag {
                            None => {
                                let idx = self.identify(e, ch, &p.bytes);
                                if let (Some(mid), true) = (p.mid, idx > 0) {
                                    self.e[e].mids.insert((ch, mid), idx);
                                }
                                ps.push(json!([ch + 1, idx, 1]));
                            }
                            Some((fi, nf)) => {
                                let idx = p.mid.and_then(|m| self.e[e].mids.get(&(ch, m)).copied()).unwrap_or(0);
                                let comp = self.cfg.comp.is_some();
                                let ok = idx > 0 && if comp {
                                    // whole messages may be compressed first: what matters is what is read
                                    let key = (self.sess, e as u64 + 1, ch as u64 + 1, idx as u64);
                                    let full = self.e[e].msgs[ch][idx - 1].bytes.len();
                                    let known = tr.nf.as_mut().map(|m| *m.entry(key).or_insert(nf)).unwrap_or(nf);
                                    full > self.fs && known == nf && nf as usize <= self.nfrag(full) && fi < nf
                                } else {
                                    let full = &self.e[e].msgs[ch][idx - 1].bytes;
                                    let s = fi as usize * self.fs;
                                    nf as usize == self.nfrag(full.len())
                                        && full.get(s..(s + self.fs).min(full.len())) == Some(&p.bytes[..])
                                };
                                ps.push(json!([ch + 1, if ok { idx } else { 0 }, fi + 1]));
                            }
                        }
                    }
                }
            }
            pks.push(json!({"n": n, "len": b.len(), "ao": ao, "tick": tick, "ps": ps}));
            self.fresh[e].push((n, b));
        }
        if self.log {
            let lim = match self.cfg.cap {
                Some((rate, burst)) => burst as i64 + (rate as f64 * el.as_secs_f64()) as i64 + 1,
                None => 0,
            };
            tr.ev(json!({"k": "flush", "e": e + 1, "mtu": mtu, "tick": self.e[e].tick, "pk": pks, "lim": lim}));
        }
    }

    /// The network hands packet `n` of end `from` to the other end's link.
    pub fn deliver(&mut self, from: usize, n: i64, b: &Bytes) {
        let to = 1 - from;
        self.e[to].link().recv.push_raw(BytesMut::from(b.as_ref()));
        self.e[to].waiting.push(n);
    }

    pub fn recv(&mut self, tr: &mut Trace, e: usize) {
        let now = self.now;
        let dt = now - self.e[e].t;
        self.e[e].advance(now);
        let rtt = self.e[e].rtt;
        self.e[e].link().stats.rtt = Duration::from_millis(rtt);
        self.e[e].app.world_mut().run_schedule(PreUpdate);
        let got = std::mem::take(&mut self.e[e].waiting);
        let obs = std::mem::take(&mut *self.e[e].app.world_mut().resource_mut::<Obs>());
        let n_of = |p: u16| self.e[e].pid_to_n.get(&p).copied().unwrap_or(0);
        let acked: Vec<Value> = obs.acked.iter().map(|(p, r)| json!([n_of(*p), r])).collect();
        let lost: Vec<i64> = obs.lost.iter().map(|p| n_of(*p)).collect();
        let mut reads = vec![];
        let mut macks = vec![];
        let mut mnacks = vec![];
        let ent = self.e[e].ent;
        let mut raw = vec![];
        {
            let mut t = self.e[e].app.world_mut().get_mut::<Transport>(ent).unwrap();
            let mut m: Vec<(usize, u16, bool)> = vec![];
            for (k, s) in t.channel_sends() {
                let ch = kinds().iter().position(|x| *x == k).unwrap();
                m.extend(s.message_acks().iter().map(|i| (ch, i.0, true)));
                m.extend(s.message_nacks().iter().map(|i| (ch, i.0, false)));
            }
            m.sort();
            for c in t.channel_receives_mut() {
                let ch = kinds().iter().position(|x| *x == c.channel_kind()).unwrap();
                while let Some((tick, bytes, _)) = c.read_message() {
                    raw.push((ch, tick.0 as i64, bytes));
                }
            }
            for (ch, mid, a) in m {
                let idx = self.e[e].mids.get(&(ch, mid)).copied().unwrap_or(0);
                if a { macks.push(json!([ch + 1, idx])) } else { mnacks.push(json!([ch + 1, idx])) }
            }
        }
        raw.sort_by_key(|r| r.0);
        for (ch, tick, bytes) in raw {
            let idx = self.identify(1 - e, ch, &bytes);
            reads.push(json!([ch + 1, idx, tick]));
        }
        if self.log {
            tr.ev(json!({"k": "recv", "e": e + 1, "t": now, "dt": dt, "rtt": rtt, "got": got, "acked": acked, "lost": lost,
                "reads": reads, "macks": macks, "mnacks": mnacks}));
        }
    }

    /// Both ends lose the connection and get a new one.
    pub fn reconnect(&mut self, tr: &mut Trace) {
        self.sess += 1;
        for e in 0..2 {
            let ent = self.e[e].ent;
            let w = self.e[e].app.world_mut();
            w.entity_mut(ent).insert(Disconnected { reason: Default::default() });
            w.entity_mut(ent).insert(Unlinked { reason: Default::default() });
            w.flush();
            // the network forgets what was in flight
            let mut l = self.e[e].link();
            l.recv.drain();
            l.send.drain();
            let w = self.e[e].app.world_mut();
            w.entity_mut(ent).remove::<Disconnected>();
            w.entity_mut(ent).insert(Linked);
            w.flush();
            let end = &mut self.e[e];
            end.nsent = 0;
            end.pid_to_n.clear();
            end.msgs.iter_mut().for_each(|m| m.clear());
            end.mids.clear();
            end.zero_used = vec![false; NCH];
            end.waiting.clear();
            self.fresh[e].clear();
        }
        tr.ev(json!({"k": "reconnect"}));
    }

    fn set_rtt(&mut self, rtt: u64) {
        self.e[0].rtt = rtt;
        self.e[1].rtt = rtt;
    }

    fn bump_tick(&mut self, e: usize, d: i64) {
        self.e[e].tick += d;
        self.e[e].app.world_mut().resource_mut::<LocalTimeline>().apply_delta(d as i32);
    }

    /// Advances message or packet numbers close to wraparound, leaving both ends idle.
    fn warm(&mut self, tr: &mut Trace, msgs: usize, packets: usize) {
        self.log = false;
        self.set_rtt(2);
        let min = self.cfg.min_mtu;
        for e in 0..2 {
            self.e[e].link().set_mtu(20_000).unwrap();
        }
        let mut both = |s: &mut Sim, tr: &mut Trace| {
            s.now += 5;
            for e in 0..2 {
                s.flush(tr, e);
                for (n, b) in std::mem::take(&mut s.fresh[e]) {
                    s.deliver(e, n, &b);
                }
            }
            for e in 0..2 {
                s.recv(tr, e);
            }
        };
        let mut left = msgs;
        while left > 0 {
            let c = left.min(2000);
            for e in 0..2 {
                let ent = self.e[e].ent;
                let mut t = self.e[e].app.world_mut().get_mut::<Transport>(ent).unwrap();
                for k in kinds() {
                    for _ in 0..c {
                        t.send_mut_erased(k, Bytes::from_static(&[255, 255, 255]), 1.0).unwrap();
                    }
                }
            }
            for _ in 0..4 {
                both(self, tr);
            }
            left -= c;
        }
        for _ in 0..packets {
            for e in 0..2 {
                let ent = self.e[e].ent;
                let mut t = self.e[e].app.world_mut().get_mut::<Transport>(ent).unwrap();
                t.send_mut_erased(kinds()[0], Bytes::from_static(&[255, 255, 255]), 1.0).unwrap();
            }
            both(self, tr);
        }
        for _ in 0..6 {
            both(self, tr);
        }
        for e in 0..2 {
            self.e[e].link().set_mtu(min).unwrap();
            self.e[e].nsent = 0;
            self.e[e].pid_to_n.clear();
            self.e[e].mids.clear();
        }
        self.log = true;
    }
}

fn reset_event(s: &Sim, case: u64) -> Value {
    let chs: Vec<Value> = (0..NCH).map(|i| {
        let c = &s.cfg.ch[i];
        json!({"mode": MODES[i], "freq": c.freq, "prio": c.prio, "retry": c.retry, "mind": c.mind, "factor": c.factor})
    }).collect();
    json!({"k": "reset", "case": case, "cap": s.cfg.cap.is_some(), "chs": chs, "t": s.now})
}

struct Net {
    loss: u64,
    dup: u64,
    delay: u64,
    reorder: bool,
}

pub fn run(args: &Args, tr: &mut Trace) {
    bevy_tasks_init();
    if let Some(p) = &args.script {
        return run_script(args, tr, p);
    }
    let prop = args.prop.clone();
    run_cases(args, tr, |tr, rng, i| case(tr, rng, i, &prop));
}

pub fn bevy_tasks_init() {
    let mut app = App::new();
    app.add_plugins(bevy_app::TaskPoolPlugin { task_pool_options: bevy_app::TaskPoolOptions::with_num_threads(1) });
}

pub(crate) fn base_cfg() -> CaseCfg {
    CaseCfg {
        min_mtu: 1200,
        ch: [ChCfg { freq: 0, prio: 1, retry: true, mind: 0, factor: 15 }; NCH],
        cap: None,
        mpsc: [false; NCH],
        comp: None,
    }
}

fn gen_cfg(rng: &mut Rng, prop: &str) -> CaseCfg {
    let mut cfg = base_cfg();
    cfg.min_mtu = *rng.pick(&[1200, 1200, 64, 100, 200, 300, 47, 38 + 20]);
    for c in cfg.ch.iter_mut() {
        c.freq = if prop != "T06" && rng.pct(25) { *rng.pick(&[10, 33, 50, 100]) } else { 0 };
        c.prio = rng.range(1, 5);
        c.retry = rng.pct(50);
        c.mind = *rng.pick(&[0, 0, 0, 15, 40, 120]);
        c.factor = *rng.pick(&[15, 15, 10, 30]);
    }
    for m in cfg.mpsc.iter_mut() {
        *m = rng.pct(15);
    }
    if rng.pct(if prop == "T07" { 30 } else { 15 }) {
        cfg.comp = Some(*rng.pick(&[0, 40, 128]));
    }
    if prop == "T06" && rng.pct(90) {
        let fast = rng.pct(30);
        let mtu = cfg.min_mtu as u32;
        let burst = rng.range(mtu as i64, mtu as i64 * 6) as u32;
        cfg.cap = Some((if fast { 400_000 } else { 1 }, burst));
    }
    cfg
}

fn gen_len(rng: &mut Rng, fs: usize) -> usize {
    match rng.below(12) {
        0 => rng.below(3) as usize,
        1..=5 => rng.range(2, 24.min(fs as i64)) as usize,
        6 => rng.range(2, fs as i64) as usize,
        7 => fs,
        8 => fs + 1,
        9 => (fs as i64 * rng.range(2, 3) + rng.range(-1, 1)) as usize,
        _ => rng.range(fs as i64 + 1, fs as i64 * 5) as usize,
    }
}

fn case(tr: &mut Trace, rng: &mut Rng, i: u64, prop: &str) {
    let mut cfg = gen_cfg(rng, prop);
    let warm = match (prop, i % 150) {
        ("T01" | "T02" | "T03" | "T04" | "T05" | "T08", 20) => 1,
        ("T04" | "T09" | "T01", 40) => 2,
        _ => 0,
    };
    if warm > 0 {
        cfg.ch.iter_mut().for_each(|c| c.freq = 0);
        cfg.min_mtu = 200;
    }
    let big_burst = prop == "T07" && i % 12 == 3;
    let fast_cap = matches!(cfg.cap, Some((r, _)) if r > 1);
    let mut s = Sim::new(cfg);
    if warm == 1 {
        s.warm(tr, 65_536 - 8 - rng.below(10) as usize, 0);
    } else if warm == 2 {
        s.warm(tr, 0, 65_536 - 20 - rng.below(10) as usize);
    }
    if s.cfg.comp.is_some() {
        tr.nf = Some(HashMap::new());
    }
    tr.ev(reset_event(&s, i));
    let fs = s.fs;
    let net = Net {
        loss: *rng.pick(&[0, 0, 10, 30, 60]),
        dup: *rng.pick(&[0, 0, 10, 40]),
        delay: *rng.pick(&[0, 0, 1, 3, 6]),
        reorder: rng.pct(50),
    };
    s.set_rtt(*rng.pick(&[0, 10, 20, 40, 100, 200]));
    let frames = if big_burst { 3 } else { rng.range(6, 26) };
    // (due frame, n, bytes)
    let mut flight: [Vec<(i64, i64, Bytes)>; 2] = [vec![], vec![]];
    let mut old: [Vec<(i64, Bytes)>; 2] = [vec![], vec![]];
    let two_way = rng.pct(60);
    let send_pct = *rng.pick(&[20, 50, 80]);
    let nch = if rng.pct(30) { 1 + rng.below(2) as usize } else { NCH };
    let chs: Vec<usize> = { let mut v: Vec<usize> = (0..NCH).collect(); rng.shuffle(&mut v); v.truncate(nch); v };
    let blackout = (rng.range(0, 20), rng.range(0, 8));
    let long_gap = rng.pct(15);
    let reconnect_at = if prop == "T08" || (matches!(prop, "T01" | "T04") && rng.pct(10)) { rng.range(1, frames - 1) } else { -1 };
    let burst_at = if matches!(prop, "T01" | "T04" | "T09") && i % 10 == 7 { rng.range(1, frames - 2) } else { -1 };
    for f in 0..frames {
        s.now += if long_gap && rng.pct(12) { rng.range(2500, 3600) as u64 } else { rng.range(5, 60) as u64 };
        if rng.pct(5) {
            let r = *rng.pick(&[0, 10, 20, 40, 100, 200]);
            s.set_rtt(r);
        }
        if rng.pct(10) && prop == "T07" {
            let m = s.cfg.min_mtu + rng.below(300) as usize;
            let _ = s.e[0].link().set_mtu(m);
            let m = s.cfg.min_mtu + rng.below(3) as usize;
            let _ = s.e[1].link().set_mtu(m);
        }
        if f == reconnect_at {
            s.reconnect(tr);
            flight = [vec![], vec![]];
            old = [vec![], vec![]];
        }
        for e in 0..2 {
            // a long run of packets of one end, nearly all of them lost or late
            if f == burst_at && e == 0 {
                s.set_rtt(2000);
                let k = rng.range(20, 90);
                let keep = *rng.pick(&[0, 3, 30, 90]);
                let late = rng.pct(50);
                for j in 0..k {
                    let ch = *rng.pick(&chs);
                    s.send(tr, 0, ch, 3, 1);
                    s.flush(tr, 0);
                    for (n, b) in std::mem::take(&mut s.fresh[0]) {
                        if j == 0 || j == k - 1 || rng.pct(keep) {
                            flight[0].push((f, n, b));
                        } else if late && rng.pct(40) {
                            flight[0].push((f + rng.range(1, 3), n, b));
                        }
                    }
                }
            }
            // network
            let dark = f >= blackout.0 && f < blackout.0 + blackout.1;
            let mut due: Vec<(i64, Bytes)> = vec![];
            flight[e].retain(|(d, n, b)| {
                if *d <= f && !dark { due.push((*n, b.clone())); false } else { true }
            });
            if net.dup > 0 && rng.pct(net.dup / 4) && !old[e].is_empty() {
                due.push(rng.pick(&old[e]).clone());
            }
            if net.reorder {
                rng.shuffle(&mut due);
            }
            for (n, b) in due {
                s.deliver(e, n, &b);
                if net.dup > 0 && rng.pct(net.dup) {
                    s.deliver(e, n, &b);
                }
                old[e].push((n, b));
            }
        }
        for e in 0..2 {
            if rng.pct(85) {
                s.recv(tr, e);
                let d = rng.range(0, 3);
                s.bump_tick(e, d);
            } else if rng.pct(50) {
                continue;
            }
            if (e == 0 || two_way) && rng.pct(send_pct) {
                let k = if big_burst { 300 } else { rng.range(1, 6) };
                for _ in 0..k {
                    let ch = *rng.pick(&chs);
                    let len = if big_burst { rng.range(0, 6) as usize } else { gen_len(rng, fs) };
                    let prio = if rng.pct(50) { 1 } else { rng.range(1, 9) };
                    s.send(tr, e, ch, len, prio);
                }
            }
            if rng.pct(85) {
                if fast_cap && rng.pct(30) {
                    std::thread::sleep(Duration::from_millis(2));
                }
                s.flush(tr, e);
                for (n, b) in std::mem::take(&mut s.fresh[e]) {
                    if !rng.pct(net.loss) {
                        flight[e].push((f + 1 + rng.below(net.delay + 1) as i64, n, b.clone()));
                        if rng.pct(net.dup) {
                            flight[e].push((f + 1 + rng.below(net.delay + 4) as i64, n, b));
                        }
                    }
                }
            }
        }
    }
    drain(tr, rng, &mut s, flight, prop, fast_cap);
}

/// From here on the network lets everything through; then both ends must come to rest.
fn drain(tr: &mut Trace, rng: &mut Rng, s: &mut Sim, flight: [Vec<(i64, i64, Bytes)>; 2], prop: &str, fast_cap: bool) {
    let _ = (rng, prop);
    let capped = s.cfg.cap.is_some();
    s.set_rtt(20);
    tr.ev(json!({"k": "drain"}));
    for e in 0..2 {
        for (_, n, b) in &flight[e] {
            s.deliver(e, *n, b);
        }
    }
    let rounds = if capped { if fast_cap { 150 } else { 0 } } else { 8 };
    let mut quiet = 0;
    for r in 0..rounds {
        s.now += 125;
        let mut any = false;
        for e in 0..2 {
            s.recv(tr, e);
            if fast_cap && any_pending(r) {
                std::thread::sleep(Duration::from_millis(if s.cfg.min_mtu > 400 { 4 } else { 1 }));
            }
            s.flush(tr, e);
            for (n, b) in std::mem::take(&mut s.fresh[e]) {
                any = true;
                s.deliver(e, n, &b);
            }
        }
        quiet = if any { 0 } else { quiet + 1 };
        if fast_cap && quiet >= 4 {
            break;
        }
    }
    s.now += 3100;
    for e in 0..2 {
        s.recv(tr, e);
    }
    tr.ev(json!({"k": "end", "full": rounds > 0}));
}

fn any_pending(_r: usize) -> bool {
    true
}

/// Replays behaviours generated by TLC from the model (spec/transport/MCTransport.tla).
fn run_script(args: &Args, tr: &mut Trace, path: &str) {
    let text = std::fs::read_to_string(path).unwrap();
    let mut rng0 = Rng::new(args.seed);
    for (i, line) in text.lines().enumerate() {
        let ops: Value = serde_json::from_str(line).unwrap();
        let mut rng = Rng::new(rng0.next());
        let r = guard_case(std::panic::AssertUnwindSafe(|| {
            let mut cfg = base_cfg();
            cfg.min_mtu = 64;
            cfg.ch.iter_mut().for_each(|c| c.mind = 15);
            let mut s = Sim::new(cfg);
            tr.ev(reset_event(&s, i as u64));
            s.set_rtt(10);
            let mut pool: [Vec<(i64, Bytes)>; 2] = [vec![], vec![]];
            for op in ops.as_array().unwrap() {
                let e = op["e"].as_u64().unwrap_or(1) as usize - 1;
                match op["op"].as_str().unwrap() {
                    "send" => {
                        let ch = MODES.iter().position(|m| *m == op["m"].as_str().unwrap()).unwrap();
                        let nf = op["nf"].as_u64().unwrap() as usize;
                        let len = if nf == 1 { 6 } else { s.fs * (nf - 1) + 3 };
                        s.send(tr, e, ch, len, 1);
                    }
                    "flush" => {
                        s.flush(tr, e);
                        let f = std::mem::take(&mut s.fresh[e]);
                        pool[e].extend(f);
                    }
                    "deliver" => {
                        // the model's packet order and ours may differ; pick by position
                        let k = op["i"].as_u64().unwrap() as usize;
                        if !pool[e].is_empty() {
                            let j = k % pool[e].len();
                            let (n, b) = if op["keep"].as_bool().unwrap() { pool[e][j].clone() } else { pool[e].remove(j) };
                            s.deliver(e, n, &b);
                        }
                    }
                    "drop" => {
                        let k = op["i"].as_u64().unwrap() as usize;
                        if !pool[e].is_empty() {
                            let j = k % pool[e].len();
                            pool[e].remove(j);
                        }
                    }
                    "recv" => {
                        s.now += 1;
                        s.recv(tr, e);
                    }
                    "tick" => s.now += 20,
                    o => panic!("unknown op {o}"),
                }
            }
            let fl: [Vec<(i64, i64, Bytes)>; 2] = [
                pool[0].iter().map(|(n, b)| (0, *n, b.clone())).collect(),
                pool[1].iter().map(|(n, b)| (0, *n, b.clone())).collect(),
            ];
            drain(tr, &mut rng, &mut s, fl, "T01", false);
        }));
        if let Err(m) = r {
            tr.ev(json!({"k": "panic", "case": i, "msg": m.replace(['"', '\\'], "'")}));
        }
    }
}
