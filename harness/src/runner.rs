//! Runs the cases of one property on several threads. Every case is a pure function of
//! (seed, property, index). The index being run is on disk before the case starts, so that the
//! driver can attribute a crash, a hang or a runaway to a case.
use crate::rng::{fnv, Rng};
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

/// Violation found by an oracle
#[derive(Clone, Debug)]
pub struct Bad {
    /// short stable signature
    pub kind: String,
    pub msg: String,
    pub input: String,
}

pub fn bad(kind: impl Into<String>, msg: impl Into<String>, input: impl Into<String>) -> Bad {
    Bad { kind: kind.into(), msg: msg.into(), input: input.into() }
}

pub type Res = Result<(), Bad>;

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub sets: BTreeMap<&'static str, HashSet<u64>>,
    pub samples: Vec<String>,
    pub inconclusive: u64,
}

const CAP_SET: usize = 400_000;

impl Stats {
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.counters.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    /// One evaluation that was non-trivial by the rule of the property
    pub fn nontrivial(&mut self, h: u64) {
        if self.distinct.len() < CAP_SET {
            self.distinct.insert(h);
        }
    }
    /// Distinct things seen (states, events, shapes)
    pub fn seen(&mut self, k: &'static str, h: u64) {
        let s = self.sets.entry(k).or_default();
        if s.len() < CAP_SET {
            s.insert(h);
        }
    }
    pub fn sample(&mut self, s: &str) {
        if self.samples.len() < 3 && s.len() < 1500 {
            self.samples.push(s.to_string());
        }
    }
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.inconclusive += o.inconclusive;
        for (k, v) in o.counters {
            let e = self.counters.entry(k).or_insert(0);
            if k.starts_with("max_") {
                *e = (*e).max(v)
            } else {
                *e += v
            }
        }
        self.distinct.extend(o.distinct);
        for (k, v) in o.sets {
            self.sets.entry(k).or_default().extend(v);
        }
        self.samples.extend(o.samples);
    }
}

pub struct Ctx {
    pub seed: u64,
    pub idx: u64,
    pub thorough: bool,
    pub stats: Stats,
    pub stream: u64,
    pub r: Rng,
    /// instrumented (slow) build
    pub slow: bool,
}

pub type CaseFn = fn(&mut Ctx) -> Res;

pub struct Opts {
    pub seed: u64,
    pub threads: usize,
    pub cases: u64,
    pub secs: f64,
    pub state: String,
    pub only: Option<u64>,
    pub thorough: bool,
    pub slow: bool,
    pub hang_secs: u64,
}

static ONLY: OnceLock<String> = OnceLock::new();
static SLOTS: OnceLock<File> = OnceLock::new();
thread_local! {
    static SLOT: std::cell::Cell<(u64, u64)> = const { std::cell::Cell::new((u64::MAX, 0)) };
}

/// Record why this thread's case cannot go on, and abort.
pub fn die(why: &str) -> ! {
    let (slot, idx) = SLOT.with(|s| s.get());
    if let Some(f) = SLOTS.get() {
        // no allocation here
        let mut b = [b' '; 32];
        for (i, c) in why.bytes().take(12).enumerate() {
            b[i] = c;
        }
        let mut n = idx;
        let mut p = 31;
        loop {
            b[p] = b'0' + (n % 10) as u8;
            n /= 10;
            if n == 0 {
                break;
            }
            p -= 1;
        }
        let _ = f.write_at(&b, 4096 + slot.min(63) * 32);
    }
    std::process::abort()
}

fn run_one(f: CaseFn, ctx: &mut Ctx, idx: u64) -> Res {
    ctx.idx = idx;
    ctx.r = Rng::stream(ctx.seed, ctx.stream, idx);
    ctx.stats.evaluations += 1;
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(ctx)));
    match res {
        Ok(r) => r,
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            let loc = LAST_PANIC.with(|l| l.borrow().clone());
            Err(bad("panic", format!("panicked: {} at {}", m, loc), CURRENT.with(|c| c.borrow().clone())))
        }
    }
}

thread_local! {
    pub static CURRENT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Remember the source text under test (for reports about panics)
pub fn current(src: &str) {
    if let Some(d) = ONLY.get() {
        // running one case again: should it end the process, the driver wants its input
        let _ = std::fs::write(format!("{}/current", d), src);
    }
    CURRENT.with(|c| {
        let mut c = c.borrow_mut();
        c.clear();
        c.push_str(src);
    });
}

pub fn run(prop: &str, f: CaseFn, o: &Opts) -> serde_json::Value {
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = l);
    }));
    let file = std::fs::OpenOptions::new()
        .create(true)
        .truncate(true)
        .read(true)
        .write(true)
        .open(format!("{}/slots", o.state))
        .expect("state file");
    let _ = SLOTS.set(file);
    if o.only.is_some() {
        let _ = ONLY.set(o.state.clone());
    }
    let stream = fnv(prop.as_bytes());
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let bads: Arc<Mutex<Vec<(u64, Bad)>>> = Arc::new(Mutex::new(vec![]));
    let t0 = Instant::now();
    let first_bad = Arc::new(AtomicU64::new(u64::MAX));
    let n = if o.only.is_some() { 1 } else { o.threads };
    let beats: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new((0..n).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect());
    // hang watchdog: generous, and only a reason to stop; the driver decides on CPU time
    {
        let beats = beats.clone();
        let limit = o.hang_secs;
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = t0.elapsed().as_millis() as u64;
            for (i, b) in beats.iter().enumerate() {
                let at = b.0.load(Acquire);
                if at > 0 && now > at + limit * 1000 {
                    SLOT.with(|s| s.set((i as u64, b.1.load(Acquire))));
                    die("hang");
                }
            }
        });
    }
    let mut hs = vec![];
    for slot in 0..n {
        let (next, stop, bads, beats, first_bad) = (next.clone(), stop.clone(), bads.clone(), beats.clone(), first_bad.clone());
        let (seed, thorough, slow, cases, secs, only) = (o.seed, o.thorough, o.slow, o.cases, o.secs, o.only);
        hs.push(
            std::thread::Builder::new()
                .stack_size(if slow { 2048 << 20 } else { 512 << 20 })
                .spawn(move || {
                    let mut ctx = Ctx { seed, idx: 0, thorough, stats: Stats::default(), stream, r: Rng::new(0), slow };
                    let file = SLOTS.get().unwrap();
                    loop {
                        let i = match only {
                            Some(i) => i,
                            None => next.fetch_add(1, Relaxed),
                        };
                        if i >= cases && only.is_none() || stop.load(Relaxed) || t0.elapsed().as_secs_f64() > secs {
                            break;
                        }
                        let ms = t0.elapsed().as_millis() as u64;
                        let fb = first_bad.load(Relaxed);
                        if fb != u64::MAX && ms > fb + 4000 {
                            break;
                        }
                        SLOT.with(|s| s.set((slot as u64, i)));
                        let _ = file.write_at(&(i + 1).to_le_bytes(), slot as u64 * 8);
                        beats[slot].1.store(i, Release);
                        beats[slot].0.store(ms.max(1), Release);
                        let r = run_one(f, &mut ctx, i);
                        beats[slot].0.store(0, Release);
                        if let Err(b) = r {
                            first_bad.fetch_min(ms, Relaxed);
                            let mut v = bads.lock().unwrap();
                            v.push((i, b));
                            if v.len() >= 400 {
                                stop.store(true, Relaxed);
                            }
                        }
                        if only.is_some() {
                            break;
                        }
                    }
                    let _ = file.write_at(&0u64.to_le_bytes(), slot as u64 * 8);
                    ctx.stats
                })
                .unwrap(),
        );
    }
    let mut st = Stats::default();
    for h in hs {
        st.merge(h.join().unwrap());
    }
    st.samples.truncate(6);
    let bads = bads.lock().unwrap();
    // the smallest input of every kind
    let mut by: BTreeMap<String, (u64, Bad, u64)> = BTreeMap::new();
    for (i, b) in bads.iter() {
        let e = by.entry(b.kind.clone()).or_insert_with(|| (*i, b.clone(), 0));
        e.2 += 1;
        if b.input.len() < e.1.input.len() {
            e.0 = *i;
            e.1 = b.clone();
        }
    }
    serde_json::json!({
        "evaluations": st.evaluations,
        "distinct_nontrivial": st.distinct.len(),
        "inconclusive": st.inconclusive,
        "counters": st.counters,
        "distinct": st.sets.iter().map(|(k, v)| (k.to_string(), v.len())).collect::<BTreeMap<_, _>>(),
        "samples": st.samples,
        "wall_s": t0.elapsed().as_secs_f64(),
        "bad": by.iter().map(|(k, (i, b, n))| serde_json::json!({
            "kind": k, "idx": i, "msg": b.msg, "input": b.input, "count": n})).collect::<Vec<_>>(),
    })
}
