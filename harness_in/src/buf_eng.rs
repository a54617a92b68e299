//! Input buffers (I01, I02, I03): the history of one entity's inputs, the messages made from it, and what a
//! receiver makes of them.
use crate::common::*;
use bevy_ecs::entity::{EntityMapper, MapEntities};
use bevy_reflect::Reflect;
use core::time::Duration;
use lightyear_core::prelude::Tick;
use lightyear_inputs::input_buffer::{Compressed, InputBuffer};
use lightyear_inputs::input_message::ActionStateSequence;
use lightyear_inputs_native::prelude::ActionState;
use lightyear_inputs_native::prelude::NativeStateSequence;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Debug, Default, Reflect)]
pub struct Act(pub u8);
impl MapEntities for Act {
    fn map_entities<M: EntityMapper>(&mut self, _: &mut M) {}
}
pub type Seq = NativeStateSequence<Act>;
pub type Buf = InputBuffer<ActionState<Act>, Act>;
pub const DT: Duration = Duration::from_nanos(1 << 24);

pub fn val(v: Option<&ActionState<Act>>) -> i64 { v.map_or(-1, |a| a.0.0 as i64) }
/// what a message says: -1 nothing, -2 as before, else the value
pub fn states(m: &Seq) -> Vec<i64> {
    m.clone().get_snapshots_from_message(DT).map(|c| match c { Compressed::Absent => -1, Compressed::SameAsPrecedent => -2, Compressed::Input(a) => a.0.0 as i64 }).collect()
}
pub fn message(v: &[i64]) -> Seq {
    let s: Vec<Value> = v.iter().map(|x| match x { -1 => json!("Absent"), -2 => json!("SameAsPrecedent"), n => json!({"Input": n}) }).collect();
    serde_json::from_value(json!({"states": s})).unwrap()
}
fn look(b: &Buf, lo: u32, n: u32) -> Value {
    let g: Vec<i64> = (lo..lo + n).map(|t| val(b.get(Tick(t)))).collect();
    let p: Vec<i64> = (lo..lo + n).map(|t| val(b.get_predict(Tick(t)))).collect();
    let lw = b.get_last_with_tick();
    json!({"lo": lo, "get": g, "pred": p, "len": b.len(), "last": val(b.get_last()), "lt": lw.map_or(-1, |x| x.0.0 as i64), "lv": lw.map_or(-1, |x| x.1.0.0 as i64)})
}
/// a window that takes in the whole buffer, and three ticks on either side
fn window(b: &Buf, near: u32) -> (u32, u32) {
    let st = b.start_tick.map_or(near, |t| t.0);
    (st.saturating_sub(3), b.len() as u32 + 6)
}

pub fn run(args: &Args, tr: &mut Trace) {
    run_cases(args, tr, |tr, r, _| {
        let p = match args.prop.as_str() { "I01" => 65, _ => 15 };
        if r.pct(p) { plain(tr, r) } else { pipe(tr, r, args.thorough) }
    });
}

fn plain(tr: &mut Trace, r: &mut Rng) {
    tr.ev(json!({"k": "reset", "kind": "plain"}));
    let mut b = Buf::default();
    if r.pct(4) {
        // a player that stays away for long
        let n = *r.pick(&[3000u32, 100_000, 400_000]);
        b.set(Tick(5), ActionState(Act(3)));
        b.set(Tick(5 + n), ActionState(Act(4)));
        tr.ev(json!({"k": "gap", "before": val(b.get(Tick(4 + n))), "pred": val(b.get_predict(Tick(4 + n))), "at": val(b.get(Tick(5 + n))), "v": 3, "w": 4}));
        return;
    }
    let base = *r.pick(&[0u32, 1, 2, 50, 1_000_000, (1 << 31) - 2000]);
    let mut top = base;
    for _ in 0..r.range(5, 60) {
        let st = b.start_tick.map_or(base, |t| t.0);
        let end = st + b.len() as u32;
        let near = |r: &mut Rng| (end as i64 + r.range(-6, 3)).max(0) as u32;
        let v = r.below(3) as u8;
        let mut e = match r.below(100) {
            0..=44 => {
                // at the end, or beyond it
                let t = if b.start_tick.is_none() || b.len() == 0 { top + r.below(3) as u32 } else if r.pct(20) { end - 1 } else { end + if r.pct(75) { 0 } else { r.below(5) as u32 } };
                b.set(Tick(t), ActionState(Act(v)));
                json!({"k": "set", "t": t, "v": v})
            }
            45..=50 => {
                let t = if b.start_tick.is_none() || b.len() == 0 { top } else if r.pct(30) { end - 1 } else { end };
                b.set_empty(Tick(t));
                json!({"k": "empty", "t": t})
            }
            51..=60 => {
                // an earlier tick: what comes after goes
                let t = near(r);
                b.set(Tick(t), ActionState(Act(v)));
                b.clip_after(Tick(t));
                json!({"k": "setclip", "t": t, "v": v})
            }
            61..=68 => {
                let t = near(r);
                b.clip_after(Tick(t));
                json!({"k": "clip", "t": t})
            }
            69..=73 if base > 3 => {
                let a = (st as i64 + r.range(-3, 4)) as u32;
                let z = (end as i64 + r.range(-3, 4)) as u32;
                b.extend_to_range(Tick(a), Tick(z.max(a)));
                json!({"k": "ext", "a": a, "z": z.max(a)})
            }
            74..=85 => {
                let t = (st as i64 + r.range(-2, 6)).max(0) as u32;
                let x = b.pop(Tick(t));
                json!({"k": "pop", "t": t, "r": val(x.as_ref())})
            }
            _ => {
                let t = (st as i64 + r.range(-2, 9)).max(0) as u32;
                let x = b.pop_keeping_last(Tick(t));
                json!({"k": "popk", "t": t, "r": val(x.as_ref())})
            }
        };
        top = top.max(b.start_tick.map_or(0, |t| t.0 + b.len() as u32));
        let (lo, n) = window(&b, base);
        e["q"] = look(&b, lo, n);
        tr.ev(e);
    }
}

fn pipe(tr: &mut Trace, r: &mut Rng, deep: bool) {
    let client = r.pct(55);
    let num = *r.pick(&[1u32, 2, 3, 5, 10]);
    let crafted = r.pct(25);
    let mut s = *r.pick(&[1u32, 30, 30, 1_000_000, (1 << 31) - 2000]);
    // the receiver runs behind the sender if it is a server, near it if it is another client
    let mut now = (s as i64 + if client { r.range(-8, 8) } else { r.range(-12, 3) }).max(1) as u32;
    tr.ev(json!({"k": "reset", "kind": "pipe", "flav": if client { "client" } else { "server" }, "now": now}));
    let mut sb = Buf::default();
    let mut rb = Buf::default();
    let mut cur = ActionState(Act(0));
    let mut d = r.below(6) as u32;
    let mut frozen = 0u32;
    let mut v = r.below(4) as u8;
    let mut net: Vec<(u64, u32, Seq)> = vec![];
    let (lat, var, loss) = (r.below(10), *r.pick(&[0u64, 2, 8]), *r.pick(&[0u64, 10, 40]));
    let mut started = false;
    for f in 0..r.range(20, if deep { 200 } else { 80 }) as u64 {
        // ---- sender
        for _ in 0..*r.pick(&[0, 1, 1, 1, 2, 3]) {
            s += 1;
            if r.pct(5) {
                if r.pct(50) && d > 0 {
                    let old = d;
                    d = r.below(d as u64) as u32;
                    frozen = s + old;
                } else if s > frozen { d += r.range(1, 4) as u32; }
            }
            if r.pct(35) { v = r.below(4) as u8; }
            sb.set(Tick(s + d), ActionState(Act(v)));
            started = true;
            tr.ev(json!({"k": "w", "t": s + d, "v": v}));
            if r.pct(30) {
                let t = s.saturating_sub(20);
                sb.pop(Tick(t));
                tr.ev(json!({"k": "wpop", "t": t}));
            }
        }
        if started {
            // the delay may shrink before the next input
            let end = if r.pct(3) { s + r.below(d as u64 + 1) as u32 } else { s + d };
            let m = Seq::build_from_input_buffer(&sb, num, Tick(end));
            tr.ev(json!({"k": "build", "num": num, "end": end, "some": m.is_some(), "states": m.as_ref().map_or(vec![], states)}));
            if let Some(m) = m {
                let late = if r.pct(4) { 25 } else { 0 };
                if !r.pct(loss) { net.push((f + lat + r.below(var + 1) + late, end, m.clone())); }
                if r.pct(4) { net.push((f + lat + r.below(var + 4), end, m)); }
            }
        }
        // ---- receiver
        for _ in 0..*r.pick(&[0, 1, 1, 1, 2, 3]) {
            now += 1;
            sim(tr, &mut rb, &mut cur, client, now);
        }
        let mut due: Vec<(u32, Seq)> = vec![];
        net.retain(|(at, e, m)| if *at <= f { due.push((*e, m.clone())); false } else { true });
        if r.pct(30) { r.shuffle(&mut due); }
        if crafted && r.pct(15) {
            let n = r.range(1, 8) as usize;
            let mut x: Vec<i64> = (0..n).map(|_| *r.pick(&[-2i64, -2, -2, 0, 1, 2])).collect();
            if x[0] == -2 { x[0] = 1; }
            let e = (now as i64 + r.range(-9, 9)).max(n as i64) as u32;
            due.push((e, message(&x)));
        }
        for (e, m) in due {
            let st = states(&m);
            let mm = m.update_buffer(&mut rb, Tick(e), DT);
            let (lo, n) = window(&rb, now);
            tr.ev(json!({"k": "recv", "end": e, "states": st, "mm": mm.map_or(-1, |t| t.0 as i64), "lr": rb.last_remote_tick.map_or(-1, |t| t.0 as i64), "q": look(&rb, lo, n)}));
            if client && let Some(m) = mm && m.0 <= now {
                let from = m.0.max(rb.start_tick.map_or(0, |t| t.0));
                for t in from..=now { sim(tr, &mut rb, &mut cur, client, t); }
            }
        }
        if client && r.pct(30) {
            let t = now.saturating_sub(20);
            rb.pop(Tick(t));
            let (lo, n) = window(&rb, now);
            tr.ev(json!({"k": "rpop", "t": t, "q": look(&rb, lo, n)}));
        }
    }
}

/// What the two plugins do each tick for an entity whose inputs come from elsewhere.
fn sim(tr: &mut Trace, b: &mut Buf, cur: &mut ActionState<Act>, client: bool, t: u32) {
    if client {
        match b.get(Tick(t)) {
            Some(x) => *cur = x.clone(),
            None => b.set(Tick(t), cur.clone()),
        }
    } else {
        if let Some(x) = b.get_predict(Tick(t)) { *cur = x.clone(); }
        b.pop_keeping_last(Tick(t - 1));
    }
    let (lo, n) = window(b, t);
    tr.ev(json!({"k": "sim", "t": t, "v": cur.0.0, "q": look(b, lo, n)}));
}
