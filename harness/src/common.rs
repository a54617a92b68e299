//! Shared pieces of the conformance driver: PRNG, trace writer, panic capture.
use serde_json::Value;
use std::cell::RefCell;
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn pct(&mut self, p: u64) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

pub struct Args {
    pub engine: String,
    pub prop: String,
    pub seed: u64,
    pub cases: u64,
    pub first: u64,
    pub out: String,
    pub thorough: bool,
    pub script: Option<String>,
    pub budget_ms: u64,
}

pub fn parse_args() -> Args {
    let mut a = Args {
        engine: String::new(), prop: String::new(), seed: 1, cases: 1, first: 0,
        out: "/dev/null".into(), thorough: false, script: None, budget_ms: u64::MAX,
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        match x.as_str() {
            "--prop" => a.prop = it.next().unwrap(),
            "--seed" => a.seed = it.next().unwrap().parse().unwrap(),
            "--cases" => a.cases = it.next().unwrap().parse().unwrap(),
            "--first" => a.first = it.next().unwrap().parse().unwrap(),
            "--out" => a.out = it.next().unwrap(),
            "--tier" => a.thorough = it.next().unwrap() == "thorough",
            "--script" => a.script = it.next(),
            "--budget-ms" => a.budget_ms = it.next().unwrap().parse().unwrap(),
            _ if a.engine.is_empty() => a.engine = x,
            _ => panic!("bad argument {x}"),
        }
    }
    a
}

pub struct Trace {
    w: BufWriter<File>,
    pub events: u64,
    /// the case that runs, noted in every reset event
    pub case: Option<u64>,
    /// Number of pieces of messages that may be compressed, learned from their packets:
    /// (session, end, channel, message). While there is such a map, events wait for `release`.
    pub nf: Option<std::collections::HashMap<(u64, u64, u64, u64), u64>>,
    held: Vec<Value>,
}
impl Trace {
    pub fn new(path: &str) -> Self {
        Trace { w: BufWriter::new(File::create(path).unwrap()), events: 0, case: None, nf: None, held: vec![] }
    }
    pub fn ev(&mut self, mut v: Value) {
        if let (Some(c), Some(o)) = (self.case, v.as_object_mut()) {
            if o.get("k").is_some_and(|k| k == "reset") { o.entry("case").or_insert(c.into()); }
        }
        if self.nf.is_some() {
            self.held.push(v);
            return;
        }
        serde_json::to_writer(&mut self.w, &v).unwrap();
        self.w.write_all(b"\n").unwrap();
        self.events += 1;
    }
    /// Writes the events that waited, with what was learned meanwhile.
    pub fn release(&mut self) {
        let Some(nf) = self.nf.take() else { return };
        let mut sess = 1;
        for mut v in std::mem::take(&mut self.held) {
            if v["k"] == "reconnect" {
                sess += 1;
            }
            if v["k"] == "send" {
                let g = |k: &str| v[k].as_u64().unwrap_or(0);
                if let Some(n) = nf.get(&(sess, g("e"), g("ch"), g("idx"))) {
                    v["nf"] = (*n).into();
                }
            }
            self.ev(v);
        }
    }
    pub fn flush(&mut self) {
        self.w.flush().unwrap();
    }
}

thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }
static LAST_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let text = format!("{loc}: {msg}");
        PANIC.with(|p| *p.borrow_mut() = text.clone());
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = text;
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

/// Runs one case. A panic of the code under test is data: it becomes a trace event which no action accepts.
pub fn guard_case<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

/// Runs `cases` cases, each with its own rng and its own "reset" event.
pub fn run_cases(args: &Args, tr: &mut Trace, mut f: impl FnMut(&mut Trace, &mut Rng, u64)) {
    let start = std::time::Instant::now();
    for i in args.first..args.first + args.cases {
        if start.elapsed().as_millis() as u64 > args.budget_ms {
            break;
        }
        let mut rng = Rng::new(args.seed.wrapping_mul(1_000_003).wrapping_add(i).wrapping_mul(2_654_435_761));
        tr.case = Some(i);
        let r = {
            let t = &mut *tr;
            guard_case(AssertUnwindSafe(|| f(t, &mut rng, i)))
        };
        tr.release();
        if let Err(m) = r {
            let m: String = m.replace(['"', '\\'], "'").chars().take(400).collect();
            tr.ev(serde_json::json!({"k": "panic", "case": i, "msg": m}));
        }
        tr.flush();
    }
}
