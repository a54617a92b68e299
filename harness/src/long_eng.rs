//! Long histories of one transport channel: more messages than message numbers, in bulk.
//! Records runs of message indices; asserts nothing.
use crate::common::*;
use crate::transport::*;
use bevy_app::prelude::*;
use bytes::{Bytes, BytesMut};
use core::time::Duration;
use lightyear_transport::packet::packet::fragment_size_for_min_mtu;
use lightyear_transport::prelude::*;
use serde_json::{Value, json};
use std::collections::HashMap;

/// At most this many messages lie between a packet in the network and the newest message.
const LAG: usize = 32_766;

struct Packet {
    n: i64,
    bytes: Bytes,
    /// lowest message index in it
    lo: usize,
}

struct Long {
    a: End,
    b: End,
    ch: usize,
    mode: &'static str,
    fs: usize,
    now: u64,
    lens: Vec<usize>,
    mids: HashMap<u16, Vec<usize>>,
    top: usize,
    waiting: Vec<i64>,
    netids: HashMap<u16, usize>,
}

fn content(idx: usize, len: usize) -> Vec<u8> {
    let mut v = (idx as u32).to_be_bytes().to_vec();
    let k = (idx as u32).wrapping_mul(0x9E37_79B9);
    v.extend((4..len).map(|i| (k >> (i % 23)) as u8 ^ i as u8));
    v
}

/// Consecutive runs, in the order of `v`.
fn runs(v: &[usize]) -> Vec<Value> {
    let mut out: Vec<[usize; 2]> = vec![];
    for &i in v {
        match out.last_mut() {
            Some(r) if r[1] + 1 == i && i > 0 => r[1] = i,
            _ => out.push([i, i]),
        }
    }
    out.into_iter().map(|r| json!(r)).collect()
}

impl Long {
    fn new(mode: usize) -> Long {
        let mut cfg = base_cfg();
        cfg.min_mtu = 200;
        let (mut a, netids) = make_end(&cfg);
        let (mut b, _) = make_end(&cfg);
        a.link().set_mtu(20_000).unwrap();
        b.link().set_mtu(20_000).unwrap();
        let fs = fragment_size_for_min_mtu(200).unwrap();
        Long { a, b, ch: mode, mode: MODES[mode], fs, now: 10_000, lens: vec![0], mids: HashMap::new(), top: 0, waiting: vec![], netids }
    }

    fn nf(&self, len: usize) -> usize {
        if len > self.fs { len.div_ceil(self.fs) } else { 1 }
    }

    fn identify(&self, b: &[u8]) -> usize {
        if b.len() < 4 {
            return 0;
        }
        let idx = u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as usize;
        if idx > 0 && idx < self.lens.len() && self.lens[idx] == b.len() && content(idx, b.len()) == b { idx } else { 0 }
    }

    fn send(&mut self, tr: &mut Trace, n: usize, big: impl Fn(usize) -> Option<usize>) {
        let kind = kinds()[self.ch];
        let mut fr = vec![];
        let ent = self.a.ent;
        let w = self.a.app.world_mut();
        let mut t = w.get_mut::<Transport>(ent).unwrap();
        for _ in 0..n {
            let idx = self.lens.len();
            let len = big(idx).map(|nf| (nf - 1) * self.fs + 10).unwrap_or(4);
            self.lens.push(len);
            let nf = if len > self.fs { len.div_ceil(self.fs) } else { 1 };
            if nf > 1 {
                fr.push(json!([idx, nf]));
            }
            if let Some(m) = t.send_mut_erased(kind, Bytes::from(content(idx, len)), 1.0).unwrap() {
                self.mids.entry(m.0).or_default().push(idx);
            }
        }
        tr.ev(json!({"k": "send", "n": n, "fr": fr}));
    }

    /// Flushes the sender; returns the packets.
    fn flush(&mut self, tr: &mut Trace) -> Vec<Packet> {
        self.a.app.world_mut().run_schedule(PostUpdate);
        let out: Vec<Bytes> = self.a.link().send.drain().collect();
        let mut pks = vec![];
        let mut res = vec![];
        for b in out {
            self.a.nsent += 1;
            let n = self.a.nsent;
            let mut single = vec![];
            let mut frag = vec![];
            let mut lo = usize::MAX;
            let parts = parse(&b);
            let pid = parts.as_ref().map(|p| p.1).unwrap_or(0);
            self.a.pid_to_n.insert(pid, n);
            for p in parts.map(|p| p.3).unwrap_or_default() {
                if self.netids.get(&p.net) != Some(&self.ch) {
                    single.push(0);
                    continue;
                }
                let idx = match p.frag {
                    None => {
                        let i = self.identify(&p.bytes);
                        single.push(i);
                        i
                    }
                    Some((fi, nf)) => {
                        let s = fi as usize * self.fs;
                        let i = p.mid.and_then(|m| self.mids.get(&m)).and_then(|v| {
                            v.iter().rev().copied().find(|i| {
                                let len = self.lens[*i];
                                nf as usize == self.nf(len) && content(*i, len).get(s..(s + self.fs).min(len)) == Some(&p.bytes[..])
                            })
                        }).unwrap_or(0);
                        frag.push(json!([i, fi + 1]));
                        i
                    }
                };
                lo = lo.min(idx);
                self.top = self.top.max(idx);
            }
            pks.push(json!({"n": n, "rs": runs(&single), "fr": frag}));
            res.push(Packet { n, bytes: b, lo });
        }
        tr.ev(json!({"k": "put", "pk": pks}));
        res
    }

    fn deliver(&mut self, p: &Packet) {
        self.b.link().recv.push_raw(BytesMut::from(p.bytes.as_ref()));
        self.waiting.push(p.n);
    }

    /// The receiver takes what arrived, reads everything and answers with its packets.
    fn recv(&mut self, tr: &mut Trace) -> Vec<Bytes> {
        self.b.advance(self.now);
        self.b.app.world_mut().run_schedule(PreUpdate);
        let ent = self.b.ent;
        let mut reads = vec![];
        {
            let mut raw = vec![];
            let mut t = self.b.app.world_mut().get_mut::<Transport>(ent).unwrap();
            for c in t.channel_receives_mut() {
                let here = c.channel_kind() == kinds()[self.ch];
                while let Some((_, bytes, _)) = c.read_message() {
                    raw.push((here, bytes));
                }
            }
            for (here, bytes) in raw {
                reads.push(if here { self.identify(&bytes) } else { 0 });
            }
        }
        let got = std::mem::take(&mut self.waiting);
        tr.ev(json!({"k": "recv", "got": got, "reads": runs(&reads)}));
        self.b.app.world_mut().run_schedule(PostUpdate);
        self.b.link().send.drain().collect()
    }

    fn acks(&mut self, tr: &mut Trace, back: Vec<Bytes>) {
        for b in back {
            self.a.link().recv.push_raw(BytesMut::from(b.as_ref()));
        }
        self.a.advance(self.now);
        self.a.link().stats.rtt = Duration::from_millis(20);
        self.a.app.world_mut().run_schedule(PreUpdate);
        let obs = std::mem::take(&mut *self.a.app.world_mut().resource_mut::<Obs>());
        let pk: Vec<i64> = obs.acked.iter().map(|(p, _)| self.a.pid_to_n.get(p).copied().unwrap_or(0)).collect();
        let ent = self.a.ent;
        let t = self.a.app.world_mut().get_mut::<Transport>(ent).unwrap();
        let mut m: Vec<usize> = vec![];
        for (k, s) in t.channel_sends() {
            for i in s.message_acks() {
                let idx = if k == kinds()[self.ch] {
                    self.mids.get(&i.0).and_then(|v| v.iter().rev().copied().find(|x| *x <= self.top)).unwrap_or(0)
                } else { 0 };
                m.push(idx);
            }
        }
        m.sort();
        tr.ev(json!({"k": "acks", "pk": pk, "m": runs(&m)}));
    }
}

pub fn run(args: &Args, tr: &mut Trace) {
    bevy_tasks_init();
    let prop = args.prop.clone();
    let thorough = args.thorough;
    run_cases(args, tr, |tr, rng, i| case(tr, rng, i, &prop, thorough));
}

fn case(tr: &mut Trace, rng: &mut Rng, i: u64, prop: &str, thorough: bool) {
    let modes: &[usize] = match prop {
        "T01" => &[3, 4, 5],
        "T02" => &[2, 4, 5],
        "T04" => &[1, 3, 4, 5],
        "T05" | "T07" => &[3, 5],
        _ => &[1, 2, 3, 4, 5],
    };
    let mode = *rng.pick(modes);
    let mut s = Long::new(mode);
    tr.ev(json!({"k": "reset", "case": i, "mode": s.mode}));
    let reliable = mode >= 3;
    // everything at once, or in a long run of small bursts
    let backlog = reliable && rng.pct(45);
    let total = if backlog { *rng.pick(&[33_000, 34_000, 66_000, 70_000]) } else if thorough { *rng.pick(&[70_000, 140_000]) } else { *rng.pick(&[67_000, 69_000, 72_000]) } as usize;
    let chunk = if backlog { total / 2 } else { *rng.pick(&[400, 1000, 2000]) } as usize;
    // partial messages expire after 3 s where lost pieces never come again
    let dt = if mode == 1 { 6000 * chunk as u64 / 65_000 + 10 } else { *rng.pick(&[3, 10, 40]) };
    let loss = *rng.pick(&[0, 0, 2, 10, 30]);
    let ackloss = *rng.pick(&[0, 0, 20, 60]);
    let dup = if mode == 1 { 0 } else { *rng.pick(&[0, 5, 30]) };
    let delay = *rng.pick(&[0, 2, 5]);
    let hold = *rng.pick(&[0, 2, 2, 6]);
    // messages of several pieces, at the same places of every round of message numbers
    let spots: Vec<usize> = (0..6).map(|_| rng.range(1, 3000) as usize).collect();
    let nf = rng.range(2, 4) as usize;
    let big = move |i: usize| spots.contains(&(i % 65_536)).then_some(nf);
    // (due frame or message count, packet)
    let mut flight: Vec<(usize, Packet)> = vec![];
    let mut held: Vec<(usize, Packet)> = vec![];
    let mut f = 0;
    let mut idle = 0;
    while idle < 6 && f < 1500 {
        f += 1;
        let left = total - (s.lens.len() - 1);
        let draining = left == 0;
        s.now += if draining { 40 } else { dt };
        if left > 0 {
            let n = left.min(if backlog { chunk } else { rng.range(1, 2 * chunk as i64) as usize });
            s.send(tr, n, &big);
        }
        for p in s.flush(tr) {
            let fragment = p.bytes[0] == 1;
            let l = if fragment && !draining { loss.max(if rng.pct(50) { 40 } else { 0 }) } else { loss };
            if !draining && rng.pct(l) {
                continue;
            }
            if !draining && dup > 0 && rng.pct(dup) {
                flight.push((f + rng.below(3 * delay + 1) as usize, Packet { n: p.n, bytes: p.bytes.clone(), lo: p.lo }));
            }
            if !draining && !backlog && p.lo != usize::MAX && held.len() < 8 && rng.pct(hold) && mode != 1 {
                let d = *rng.pick(&[300, 5_000, 20_000, 30_000]);
                held.push((p.lo + d, Packet { n: p.n, bytes: p.bytes.clone(), lo: p.lo }));
                if rng.pct(50) {
                    continue;
                }
            }
            flight.push((f + rng.below(delay + 1) as usize, p));
        }
        let top = s.top;
        let old = |p: &Packet| p.lo != usize::MAX && top - p.lo > LAG;
        let mut now = vec![];
        flight = flight.into_iter().filter_map(|(d, p)| if d <= f || draining { now.push(p); None } else { Some((d, p)) }).collect();
        held = held.into_iter().filter_map(|(d, p)| if d <= top || draining { now.push(p); None } else { Some((d, p)) }).collect();
        if delay > 0 && rng.pct(50) {
            rng.shuffle(&mut now);
        }
        now.retain(|p| !old(p));
        idle = if draining && now.is_empty() { idle + 1 } else { 0 };
        for p in &now {
            s.deliver(p);
        }
        let back: Vec<Bytes> = s.recv(tr).into_iter().filter(|_| draining || !rng.pct(ackloss)).collect();
        s.acks(tr, back);
    }
    tr.ev(json!({"k": "end", "full": idle >= 6}));
}
