//! Value types: ticks, instants, wrapping ids, histories, ready and sequence buffers, encodings (K01..K04).
use crate::common::*;
use bevy_ecs::entity::{Entity, EntityGeneration, EntityIndex};
use bytes::{Bytes, BytesMut};
use core::time::Duration;
use fixed::types::{I32F32, U0F16, U32F32};
use lightyear_core::buffer_pool::BufferPool;
use lightyear_core::confirmed_history::ConfirmedHistory;
use lightyear_core::history_buffer::{HistoryBuffer, HistoryState};
use lightyear_core::id::PeerId;
use lightyear_core::tick::{AtomicTick, Tick};
use lightyear_core::time::{Overstep, PositiveTickDelta, TickDelta, TickInstant};
use lightyear_serde::ToBytes;
use lightyear_serde::reader::{ReadVarInt, Reader};
use lightyear_serde::writer::{WriteInteger, Writer};
use lightyear_utils::ready_buffer::ReadyBuffer;
use lightyear_utils::sequence_buffer::SequenceBuffer;
use lightyear_utils::wrapping_id::wrapping_diff;
use serde_json::{Value, json};
use std::collections::BTreeMap;

lightyear_utils::wrapping_id!(Wid);

pub fn run(args: &Args, tr: &mut Trace) {
    let prop = args.prop.clone();
    run_cases(args, tr, |tr, rng, i| {
        tr.ev(json!({"k": "reset", "case": i}));
        let n = 4 + rng.below(40);
        match prop.as_str() {
            "K01" => (0..n).for_each(|_| arith(tr, rng)),
            "K02" => if rng.pct(50) { history(tr, rng, n) } else { confirmed(tr, rng, n) },
            "K03" => match rng.below(3) { 0 => ready(tr, rng, n), 1 => sequence(tr, rng, n), _ => pool(tr, rng, n) },
            _ => (0..n).for_each(|_| encoding(tr, rng)),
        }
    });
}

fn w(x: i64) -> Value { json!([x >> 16, x & 0xffff]) }
fn l4(x: u64) -> Value { json!([x >> 48, (x >> 32) & 0xffff, (x >> 16) & 0xffff, x & 0xffff]) }

fn some_u32(r: &mut Rng) -> u32 {
    let base = *r.pick(&[0u32, 1, 100, 65535, 65536, 1 << 24, (1 << 31) - 1, 1 << 31, u32::MAX - 3, u32::MAX]);
    if r.pct(30) { r.next() as u32 } else { base.wrapping_add(r.below(7) as u32).wrapping_sub(3) }
}
fn some_bits(r: &mut Rng) -> u64 {
    let hi = some_u32(r) as u64;
    let lo = match r.below(6) { 0 => 0, 1 => 0x8000_0000, 2 => 0x7fff_ffff, 3 => 0xffff_ffff, 4 => (r.below(65536)) << 16, _ => r.next() & 0xffff_ffff };
    (hi << 32) | lo
}

fn arith(tr: &mut Trace, r: &mut Rng) {
    match r.below(4) {
        0 => {
            let (a, b, u) = (some_u32(r), if r.pct(40) { some_u32(r) } else { 0 }, some_u32(r));
            let b = if b == 0 { a.wrapping_add(r.below(200) as u32).wrapping_sub(100) } else { b };
            let i = some_u32(r) as i32;
            let (ta, tb) = (Tick(a), Tick(b));
            let d = ta - tb;
            let at = AtomicTick::from(a);
            at.set_if_lower(Tick(u));
            let mut inc = ta;
            inc += u;
            tr.ev(json!({"k": "tick", "a": w(a.into()), "b": w(b.into()), "u": w(u.into()), "i": w(i.into()), "sub": w(d.into()),
                "back": w((tb + d).0.into()), "addt": w((ta + Tick(u)).0.into()), "addu": w(inc.0.into()), "addi": w((ta + i).0.into()),
                "subu": w((ta - u).0.into()), "lt": ta < tb, "eq": ta == tb, "low": w(at.get().0.into())}));
        }
        1 => {
            let a = some_bits(r);
            let b = if r.pct(50) { some_bits(r) } else { a.wrapping_add(r.next() >> 28).wrapping_sub(1 << 34) };
            let mut d = if r.pct(50) { some_bits(r) } else { (r.next() >> 26).wrapping_sub(1 << 37) };
            // magnitudes that still have a nearest whole tick and a negation
            if (d as i64).unsigned_abs() > (0x7fff_ffff << 32) { d &= 0x3fff_ffff_ffff_ffff; }
            let (ia, ib) = (TickInstant { value: U32F32::from_bits(a) }, TickInstant { value: U32F32::from_bits(b) });
            let dd = TickDelta::new(I32F32::from_bits(d as i64));
            let raw = |x: TickDelta| l4((TickInstant::zero() + x).value.to_bits());
            let abs = if dd.is_negative() { -dd } else { dd };
            let pos = PositiveTickDelta::from(abs);
            let mut wr = Writer::with_capacity(16);
            pos.to_bytes(&mut wr).unwrap();
            let mut rd = Reader::from(wr.take_written());
            let enc = PositiveTickDelta::from_bytes(&mut rd).unwrap();
            tr.ev(json!({"k": "inst", "a": l4(a), "b": l4(b), "d": l4(d), "sub": raw(ia - ib), "back": l4((ib + (ia - ib)).value.to_bits()),
                "add": l4((ia + dd).value.to_bits()), "min": l4((ia - dd).value.to_bits()),
                "tick": w(ia.tick().0.into()), "over": ia.overstep().value().to_bits(),
                "join": l4(TickInstant::from_tick_and_overstep(ia.tick(), ia.overstep()).value.to_bits()),
                "lt": ia < ib, "neg": dd.is_negative(), "pos": dd.is_positive(), "dneg": raw(-dd), "dsum": raw(dd + (ia - ib)), "ddif": raw(dd - (ia - ib)),
                "round": w(dd.to_i32().into()), "dt": w(dd.tick_diff().into()), "dover": dd.overstep().value().to_bits(),
                "enc": l4(enc.value.to_bits()), "left": rd.remaining()}));
        }
        2 => {
            let tm = r.range(1, 100) as u64;
            let us = r.below(2_000_000);
            let td = Duration::from_millis(tm);
            let du = Duration::from_micros(us);
            let q = |x: TickDelta| (f64::from(x.to_f32()) * 256.0).floor() as i64;
            let inst = TickInstant::from_duration(du, td);
            let pd = TickDelta::from_duration(du, td);
            let nd = TickDelta::from_time_delta(-lightyear_core::time::TimeDelta::from_duration(du).unwrap(), td);
            let rt = pd.to_duration(td).as_micros() as i64;
            let rt2 = inst.as_duration(td).as_micros() as i64;
            tr.ev(json!({"k": "dur", "us": us, "tm": tm, "inst": (inst.value.to_bits() >> 24), "posd": q(pd), "negd": -q(-nd), "rt": rt, "rt2": rt2, "tol": 2 + us / 1_000_000}));
        }
        _ => {
            let a = some_u32(r) as u16;
            let b = if r.pct(50) { a.wrapping_add(*r.pick(&[0u16, 1, 2, 32767, 32768, 32769, 65535, 100])) } else { r.next() as u16 };
            let i = r.next() as i16;
            let (x, y) = (Wid(a), Wid(b));
            let mut inc = x;
            inc += b;
            tr.ev(json!({"k": "wrap", "a": a, "b": b, "i": i, "diff": wrapping_diff(a, b), "sub": x - y, "lt": x < y, "gt": x > y, "eq": x == y,
                "addi": (x + i).0, "subu": (x - b).0, "inc": inc.0}));
        }
    }
}

type St = HistoryState<i64>;
fn st(s: Option<&St>) -> i64 { match s { None => -1, Some(HistoryState::Removed) => 0, Some(HistoryState::Updated(v)) => *v } }
fn mk(v: i64) -> St { if v == 0 { HistoryState::Removed } else { HistoryState::Updated(v) } }

fn history(tr: &mut Trace, r: &mut Rng, n: u64) {
    let mut h = HistoryBuffer::<i64>::default();
    let mut base = if r.pct(30) { 1000 } else { 0i64 };
    for _ in 0..n {
        let last = h.most_recent().map(|(t, _)| t.0 as i64).unwrap_or(base);
        let first = h.oldest().map(|(t, _)| t.0 as i64).unwrap_or(base);
        let anyt = |r: &mut Rng| (first - 2 + r.below((last - first + 5) as u64) as i64).max(0);
        let mut rr = -1;
        let (op, t, v) = match r.below(20) {
            0..=8 => {
                let t = if r.pct(15) { last } else { last + 1 + r.below(3) as i64 };
                let v = if r.pct(25) { 0 } else { r.range(1, 3) };
                match (r.below(3), v) {
                    (0, 0) => h.add_remove(Tick(t as u32)),
                    (0, _) => h.add_update(Tick(t as u32), v),
                    (1, _) => h.add(Tick(t as u32), if v == 0 { None } else { Some(v) }),
                    _ => h.add_state(Tick(t as u32), mk(v)),
                }
                ("add", t, v)
            }
            9 | 10 => { let t = anyt(r); h.clear_until_tick(Tick(t as u32)); ("until", t, 0) }
            11..=13 => { let t = anyt(r); rr = st(h.pop_until_tick(Tick(t as u32)).as_ref()); ("popuntil", t, 0) }
            14 | 15 => { let t = anyt(r); h.clear_after_tick(Tick(t as u32)); ("after", t, 0) }
            16 => { let t = anyt(r); rr = st(h.clear_except_tick(Tick(t as u32)).as_ref()); ("except", t, 0) }
            17 => { rr = st(h.pop().map(|x| x.1).as_ref()); ("pop", 0, 0) }
            18 => {
                if r.pct(20) { h.clear(); ("clear", 0, 0) } else {
                    let d = if first > 20 && r.pct(50) { -r.range(1, 15) } else { r.range(1, 300) };
                    h.update_ticks(d as i32);
                    base = (base + d).max(0);
                    ("shift", d, 0)
                }
            }
            _ => { let t = last + r.below(3) as i64; h.set_most_recent_tick(Tick(t as u32)); ("last", t, 0) }
        };
        let last = h.most_recent().map(|(t, _)| t.0 as i64).unwrap_or(base);
        let first = h.oldest().map(|(t, _)| t.0 as i64).unwrap_or(base);
        let q: Vec<_> = ((first - 3).max(0)..=(last + 2).min(first + 30)).map(|t| json!([t, st(h.get_state(Tick(t as u32))), h.get(Tick(t as u32)).copied().unwrap_or(-1)])).collect();
        let e = |x: Option<&(Tick, St)>| x.map(|(t, s)| json!([t.0, st(Some(s))])).unwrap_or(json!([]));
        let at = last + r.below(3) as i64;
        let it: Vec<_> = (&h).into_iter().map(|(t, v)| json!([t.0, v])).collect();
        tr.ev(json!({"k": "hist", "op": op, "t": t, "v": v, "r": rr, "q": q, "new": e(h.most_recent()), "old": e(h.oldest()), "at": at,
            "sec": h.second_most_recent(Tick(at as u32)).copied().unwrap_or(-1), "it": it}));
    }
}

fn confirmed(tr: &mut Trace, r: &mut Rng, n: u64) {
    let mut h = ConfirmedHistory::<i64>::default();
    let mut lo = 0i64;
    let mut hi = 6i64;
    for _ in 0..n {
        let anyt = |r: &mut Rng| r.range(lo, hi);
        let mut rr = -1;
        let newest = h.len().checked_sub(1).and_then(|i| h.get_nth_tick(i)).map(|t| t.0 as i64);
        let (op, t, v) = match r.below(20) {
            0..=5 => {
                let (t, v) = (anyt(r), r.range(0, 2));
                match v {
                    0 if r.pct(50) => h.insert_removed(Tick(t as u32)),
                    1.. if r.pct(50) => h.insert_present(Tick(t as u32), v),
                    _ => h.insert(Tick(t as u32), mk(v)),
                }
                ("ins", t, v)
            }
            6 | 7 => {
                let (t, v) = (newest.unwrap_or(lo) + r.below(3) as i64, r.range(0, 2));
                // SAFETY: the tick is not older than the newest
                unsafe { if v > 0 && r.pct(50) { h.insert_present_assume_sorted(Tick(t as u32), v) } else { h.insert_assume_sorted(Tick(t as u32), mk(v)) } };
                hi = hi.max(t);
                ("sorted", t, v)
            }
            8 | 9 => { let (t, v) = (anyt(r), r.range(0, 2)); h.insert_explicit(Tick(t as u32), mk(v)); ("expl", t, v) }
            10 | 11 => { let t = anyt(r); rr = h.add_unchanged(Tick(t as u32)) as i64; ("unch", t, 0) }
            12 | 13 => { let t = newest.unwrap_or(lo) + r.range(-1, 3); let t = t.max(0); rr = h.push_unchanged(Tick(t as u32)).map(|t| t.0 as i64).unwrap_or(-1); hi = hi.max(t); ("push", t, 0) }
            14 | 15 => { rr = h.pop_present().map(|x| x.1).unwrap_or(-1); ("pop", 0, 0) }
            16 | 17 => { let t = anyt(r); h.clear_until_tick(Tick(t as u32)); ("until", t, 0) }
            18 => { if r.pct(30) { h.clear(); ("clear", 0, 0) } else { let oldest = h.get_nth_tick(0).map_or(lo, |t| lo.min(t.0 as i64));
                let d = if oldest > 10 && r.pct(50) { -r.range(1, 9) } else { r.range(1, 40) };
                h.update_ticks(d as i32); lo += d; hi += d; ("shift", d, 0) } }
            _ => { let t = hi + 1; hi += 1; h.insert_present(Tick(t as u32), 1); ("ins", t, 1) }
        };
        if hi - lo > 12 { lo += 2; }
        let q: Vec<_> = ((lo - 3).max(0)..=hi + 1).map(|t| { let k = Tick(t as u32);
            json!([t, st(h.get_state_at_or_before(k)), st(h.get_state_at(k)), h.get_present(k).copied().unwrap_or(-1)]) }).collect();
        let e = |x: Option<(Tick, &i64)>| x.map(|(t, s)| json!([t.0, s])).unwrap_or(json!([]));
        let it: Vec<_> = (&h).into_iter().map(|(t, v)| json!([t.0, v])).collect();
        tr.ev(json!({"k": "conf", "op": op, "t": t, "v": v, "r": rr, "q": q, "it": it, "new": e(h.newest_present()), "first": e(h.start_present())}));
    }
}

fn ready(tr: &mut Trace, r: &mut Rng, n: u64) {
    let mut b: ReadyBuffer<i64, i64> = ReadyBuffer::new();
    for i in 0..n {
        let t = r.range(-4, 8);
        let mut out = vec![];
        let op = match r.below(16) {
            0..=8 => { b.push(t, i as i64); "push" }
            9 | 10 => { out.extend(b.pop_item(&t)); "popitem" }
            11 => { out.extend(b.peek_item(&t).map(|(k, v)| (k, *v))); "peek" }
            12 => { if b.has_item(&t) { out.push((t, 0)); } "has" }
            13 => { out.extend(b.pop_until(&t)); "popuntil" }
            14 => { out = b.drain_until(&t); "drainuntil" }
            _ => if r.pct(70) { out = b.drain_after(&t); "drainafter" } else { out = b.drain().collect(); "drain" },
        };
        tr.ev(json!({"k": "ready", "op": op, "t": t, "v": i, "r": out, "len": b.len()}));
    }
}

fn sequence(tr: &mut Trace, r: &mut Rng, n: u64) {
    let mut b: SequenceBuffer<Wid, i64, 8> = SequenceBuffer::new();
    let base = *r.pick(&[0u16, 65530, 32765]);
    for i in 0..n {
        let id = base.wrapping_add(r.below(20) as u16);
        let mut rr = -1;
        let op = match r.below(10) {
            0..=4 => { b.push(&Wid(id), i as i64); "push" }
            5 | 6 => { rr = b.remove(&Wid(id)).unwrap_or(-1); "rem" }
            7 | 8 => { rr = b.get(&Wid(id)).copied().unwrap_or(-1); "get" }
            _ => if r.pct(20) { b.clear(); "clear" } else { rr = b.get(&Wid(id)).copied().unwrap_or(-1); "get" },
        };
        let q: Vec<_> = (0..20u16).map(|j| { let k = base.wrapping_add(j); json!([k, b.get(&Wid(k)).copied().unwrap_or(-1)]) }).collect();
        tr.ev(json!({"k": "seq", "op": op, "t": id, "v": i, "r": rr, "q": q}));
    }
}

fn pool(tr: &mut Trace, r: &mut Rng, n: u64) {
    let cap = *r.pick(&[8usize, 16, 40]);
    let most = r.below(4) as usize;
    let mut p = BufferPool::new(cap, most);
    p.preallocate(r.below(4) as usize);
    let mut out: Vec<BytesMut> = vec![];
    let mut held: BTreeMap<u64, (Bytes, Option<BytesMut>)> = BTreeMap::new();
    let sum = |b: &[u8]| -> i64 { b.iter().fold(b.len() as i64, |a, x| (a * 31 + *x as i64) % 1_000_003) };
    for i in 0..n {
        let mut ev = json!({"k": "pool", "id": 0, "v": 0, "len": 0, "cap": 0, "want": cap, "hits": 0, "most": most});
        let op = match r.below(12) {
            0..=3 => {
                let b = p.take();
                ev["len"] = json!(b.len());
                ev["cap"] = json!(b.capacity());
                out.push(b);
                "take"
            }
            4..=7 if !out.is_empty() => {
                let j = r.below(out.len() as u64) as usize;
                let mut b = out.swap_remove(j);
                let len = match r.below(5) { 0 => cap + 5, 1 => cap, _ => r.below(cap as u64) as usize };
                b.extend((0..len).map(|x| (i as usize * 7 + x) as u8));
                let mut payload = p.split_for_handoff(b);
                if r.pct(30) && !payload.is_empty() { payload[0] ^= 0x55; }
                let s = sum(&payload);
                held.insert(i, if r.pct(50) { (payload.freeze(), None) } else { (Bytes::new(), Some(payload)) });
                ev["id"] = json!(i);
                ev["v"] = json!(s);
                "hand"
            }
            8 if !out.is_empty() => { let mut b = out.pop().unwrap(); b.extend_from_slice(&[9; 3]); p.recycle(b); "recycle" }
            9 | 10 if !held.is_empty() => {
                let k = *held.keys().nth(r.below(held.len() as u64) as usize).unwrap();
                held.remove(&k);
                ev["id"] = json!(k);
                "drop"
            }
            _ => {
                p.reclaim_pending();
                // how many buffers come without a new allocation: never more than the pool may retain
                if r.pct(25) {
                    let mut hits = 0;
                    loop {
                        let m = p.misses();
                        let b = p.take();
                        if p.misses() != m || hits > 20 { break; }
                        hits += 1;
                        out.push(b);
                    }
                    ev["hits"] = json!(hits);
                }
                "reclaim"
            }
        };
        // scribble over every buffer that is out
        for b in out.iter_mut() {
            b.clear();
            let c = b.capacity().min(cap);
            b.extend((0..c).map(|_| 0xEE));
            b.clear();
        }
        ev["op"] = json!(op);
        ev["q"] = held.iter().map(|(k, (a, b))| json!([k, b.as_ref().map(|b| sum(b)).unwrap_or_else(|| sum(a))])).collect();
        tr.ev(ev);
    }
}

struct Var(u64);
impl ToBytes for Var {
    fn bytes_len(&self) -> usize { lightyear_serde::varint::varint_len(self.0) }
    fn to_bytes(&self, b: &mut impl WriteInteger) -> Result<(), lightyear_serde::SerializationError> { b.write_varint(self.0) }
    fn from_bytes(b: &mut Reader) -> Result<Self, lightyear_serde::SerializationError> { Ok(Var(b.read_varint()?)) }
}

fn both<T: ToBytes>(tr: &mut Trace, r: &mut Rng, ty: &str, make: impl Fn(&mut Rng) -> T, show: impl Fn(&T) -> Value) {
    if r.pct(50) {
        let v = make(r);
        let mut wr = Writer::with_capacity(r.below(8) as usize);
        let pre = r.below(3) as usize;
        for _ in 0..pre { wr.write_u8(0xAB).unwrap(); }
        v.to_bytes(&mut wr).unwrap();
        let all = wr.take_written();
        let bytes = all.slice(pre..);
        let tail = r.below(4) as usize;
        let mut more = all.to_vec();
        more.extend(std::iter::repeat_n(0xCD, tail));
        let mut rd = Reader::from(more);
        rd.set_position(pre as u64);
        let back = T::from_bytes(&mut rd);
        let trunc: Vec<bool> = (0..bytes.len()).map(|n| T::from_bytes(&mut Reader::from(bytes.slice(..n))).is_ok()).collect();
        tr.ev(json!({"k": "rt", "ty": ty, "val": show(&v), "n": v.bytes_len(), "bytes": bytes.to_vec(), "ok": back.is_ok(),
            "back": back.as_ref().map(&show).unwrap_or(json!([])), "left": rd.remaining(), "tail": tail, "trunc": trunc}));
    } else {
        // arbitrary bytes, often a damaged encoding
        let mut bytes: Vec<u8> = if r.pct(50) {
            let mut wr = Writer::with_capacity(8);
            make(r).to_bytes(&mut wr).unwrap();
            wr.take_written().to_vec()
        } else {
            (0..r.below(14)).map(|_| r.next() as u8).collect()
        };
        if !bytes.is_empty() && r.pct(60) {
            let j = r.below(bytes.len() as u64) as usize;
            bytes[j] = if r.pct(40) { 0xff } else { r.next() as u8 };
        }
        if r.pct(20) { let n = bytes.len() / 2; bytes.truncate(n); }
        let mut rd = Reader::from(bytes.clone());
        let got = T::from_bytes(&mut rd);
        let used = rd.position();
        let again = match &got {
            Err(_) => true,
            Ok(v) => {
                let mut wr = Writer::with_capacity(8);
                v.to_bytes(&mut wr).is_ok() && {
                    let b = wr.take_written();
                    let n = b.len();
                    let mut rd = Reader::from(b);
                    let x = T::from_bytes(&mut rd);
                    n == v.bytes_len() && x.as_ref().map(&show).ok() == Some(show(v)) && rd.remaining() == 0
                }
            }
        };
        tr.ev(json!({"k": "dec", "ty": ty, "bytes": bytes, "ok": got.is_ok(), "val": got.as_ref().map(&show).unwrap_or(json!([])), "used": used, "again": again}));
    }
}

fn peer(r: &mut Rng) -> PeerId {
    let v = match r.below(3) { 0 => r.below(4), 1 => u64::MAX - r.below(4), _ => r.next() };
    match r.below(7) {
        0 => PeerId::Entity(v), 1 => PeerId::Netcode(v), 2 => PeerId::Steam(v), 3 => PeerId::Local(v), 4 => PeerId::Server,
        5 => PeerId::Raw(std::net::SocketAddr::from(((v as u32).to_be_bytes(), (v >> 32) as u16))),
        _ => PeerId::Raw(std::net::SocketAddr::from((((v as u128) << 64 | r.next() as u128).to_be_bytes(), (v >> 7) as u16))),
    }
}
fn pshow(p: &PeerId) -> Value {
    match p {
        PeerId::Entity(v) => json!([0, l4(*v)]), PeerId::Netcode(v) => json!([3, l4(*v)]), PeerId::Steam(v) => json!([4, l4(*v)]),
        PeerId::Local(v) => json!([5, l4(*v)]), PeerId::Server => json!([6]),
        PeerId::Raw(std::net::SocketAddr::V4(a)) => json!([1, a.ip().octets(), a.port()]),
        PeerId::Raw(std::net::SocketAddr::V6(a)) => json!([2, a.ip().octets(), a.port()]),
    }
}

fn encoding(tr: &mut Trace, r: &mut Rng) {
    let raw = |r: &mut Rng| { let n = *r.pick(&[0u64, 1, 2, 5, 63, 64, 70]); (0..n).map(|_| r.next() as u8).collect::<Vec<u8>>() };
    let ent = |r: &mut Rng| {
        let i = *r.pick(&[0u32, 1, 15, 16, 4095, 4096, (1 << 28) - 1, 1 << 28, 1 << 30, u32::MAX - 1]);
        let g = *r.pick(&[0u32, 0, 1, 63, 64, 16384, (1 << 30) - 1, 1 << 30, (1u32 << 31) - 1]);
        // the topmost bit marks an entity that its sender has already mapped
        let g = if r.pct(30) { g | 1 << 31 } else { g };
        Entity::from_index_and_generation(EntityIndex::from_raw_u32(i).unwrap(), EntityGeneration::from_bits(g))
    };
    match r.below(14) {
        0 | 1 => both(tr, r, "var", |r| { let k = *r.pick(&[6u32, 14, 30, 62]); Var(match r.below(4) { 0 => (1u64 << k) - 1, 1 => (1u64 << k) % (1 << 62), 2 => r.next() & ((1u64 << k) - 1), _ => (1u64 << k) - 1 - r.below(60) }) }, |v| l4(v.0)),
        2 => both(tr, r, "bytes", |r| Bytes::from(raw(r)), |v| json!(v.to_vec())),
        3 => both(tr, r, "vec", raw, |v| json!(v)),
        4 => both(tr, r, "small", |r| smallvec::SmallVec::<[u8; 4]>::from_vec(raw(r)), |v| json!(v.to_vec())),
        5 => both(tr, r, "tick", |r| Tick(some_u32(r)), |v| w(v.0.into())),
        6 | 7 => both(tr, r, "peer", peer, pshow),
        8 | 9 => both(tr, r, "entity", ent, |v| l4(v.to_bits())),
        10 => both(tr, r, "opt", |r| if r.pct(50) { Some((r.next() as u16, r.next() as u8)) } else { None }, |v| match v { None => json!([]), Some((a, b)) => json!([a, b]) }),
        11 => both(tr, r, "map", |r| (0..r.below(5)).map(|_| (r.next() as u8, r.next() as u16)).collect::<bevy_platform::collections::HashMap<u8, u16>>(),
            |v| { let mut x: Vec<_> = v.iter().map(|(a, b)| (*a, *b)).collect(); x.sort(); json!(x) }),
        12 => both(tr, r, "wid", |r| Wid(r.next() as u16), |v| json!([v.0])),
        _ => both(tr, r, "over", |r| Overstep::new(U0F16::from_bits(r.next() as u16 & 0xff00)), |v| json!([v.value().to_bits()])),
    }
}
