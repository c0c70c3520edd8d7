//! Shared plumbing: vectors in, results out, panics as data.
use serde_json::{json, Value};
use std::{
    cell::RefCell,
    future::Future,
    io::{BufRead, Write},
    panic::{catch_unwind, AssertUnwindSafe},
    pin::Pin,
    sync::atomic::{AtomicUsize, Ordering},
    sync::Mutex,
    task::{Context, Poll, Waker},
};

thread_local! { static PANIC: RefCell<Option<String>> = const { RefCell::new(None) }; }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        PANIC.with(|p| *p.borrow_mut() = Some(i.to_string()));
    }));
}

/// Runs `f`; a panic becomes an `Err` with its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| PANIC.with(|p| p.borrow_mut().take().unwrap_or_else(|| "panic".into())))
}

/// Polls a future to completion on this thread; nothing here ever really waits, so a future that
/// is still pending after many polls is stuck.
pub fn block<T>(fut: impl Future<Output = T>) -> T {
    let mut fut = Box::pin(fut);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..100_000 {
        if let Poll::Ready(v) = fut.as_mut().poll(&mut cx) {
            return v;
        }
        std::thread::yield_now();
    }
    panic!("HANG: future still pending");
}

pub fn poll_once<T>(fut: &mut Pin<Box<dyn Future<Output = T> + '_>>) -> Poll<T> {
    let mut cx = Context::from_waker(Waker::noop());
    fut.as_mut().poll(&mut cx)
}

pub fn read_vectors(path: &str) -> Vec<Value> {
    let f = std::fs::File::open(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    std::io::BufReader::new(f)
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.is_empty())
        .map(|l| serde_json::from_str(&l).unwrap())
        .collect()
}

/// What running one vector gave.
#[derive(Default)]
pub struct Ran {
    /// Disagreements with the specification: what and how.
    pub bad: Vec<Value>,
    /// What was observed, for the samples in the evidence.
    pub seen: Value,
    /// A disagreement that may be listed in KNOWN_FINDINGS.txt under this name.
    pub known: Option<&'static str>,
    /// A recording for the trace checker.
    pub trace: Option<Value>,
    /// Concrete executions of the real code this vector stood for.
    pub runs: usize,
}

impl Ran {
    pub fn new() -> Self {
        Ran {
            runs: 1,
            ..Default::default()
        }
    }
    pub fn fail(&mut self, what: impl Into<String>, detail: Value) {
        if self.bad.len() < 5 {
            self.bad.push(json!({"what": what.into(), "detail": detail}));
        }
    }
    pub fn check(&mut self, ok: bool, what: &str, detail: impl FnOnce() -> Value) {
        if !ok {
            self.fail(what, detail());
        }
    }
}

thread_local!(static FAULTS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });
/// What a failing store, signer, client or hook says: whatever it is, a failure is a failure.
pub fn fault(of: &str) -> anyhow::Error {
    use std::io::{Error, ErrorKind::*};
    let mut rng = Rng(FAULTS.with(|f| f.get()));
    let n = rng.next();
    FAULTS.with(|f| f.set(n));
    match n % 16 {
        0 => anyhow::anyhow!("session not found"),
        1 => anyhow::anyhow!("timed out"),
        2 => anyhow::anyhow!("conflict: already exists"),
        3 => anyhow::anyhow!(""),
        4 => Error::from(NotFound).into(),
        5 => Error::from(Interrupted).into(),
        6 => Error::from(TimedOut).into(),
        7 => Error::from(AlreadyExists).into(),
        8 => Error::from(ConnectionReset).into(),
        9 => anyhow::anyhow!("unsupported").context(of.to_string()),
        10 => anyhow::anyhow!("not supported by this wallet"),
        11 => anyhow::anyhow!("status 503: service unavailable, retry later"),
        _ => anyhow::anyhow!("injected failure of the {of}"),
    }
}

/// Where the results go.
pub static OUT: std::sync::OnceLock<String> = std::sync::OnceLock::new();
/// Nothing a vector asks for takes long: one that is still running after this many seconds is stuck.
const STUCK: u64 = 150;

pub fn run_all(
    vectors: &[Value],
    seed: u64,
    traces: Option<&str>,
    f: impl Fn(&Value, u64) -> Ran + Sync,
) -> Value {
    let next = AtomicUsize::new(0);
    let bad = Mutex::new(Vec::new());
    let samples = Mutex::new(Vec::new());
    let known = Mutex::new(std::collections::BTreeMap::<&'static str, (Value, usize)>::new());
    let runs = AtomicUsize::new(0);
    let tr = Mutex::new(Vec::<(usize, Value)>::new());
    let n = vectors.len();
    let stride = (n / 3).max(1);
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get());
    // What each thread is at, and since when.
    let at: Vec<Mutex<Option<(usize, std::time::Instant)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
    let finished = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        sc.spawn(|| {
            while finished.load(Ordering::Relaxed) < threads {
                std::thread::sleep(std::time::Duration::from_millis(50));
                for slot in &at {
                    if let Some((i, _)) = slot.lock().unwrap().filter(|x| x.1.elapsed().as_secs() >= STUCK) {
                        let v = json!({"index": i, "vector": vectors[i], "bad": [{"what": "no answer", "detail": format!("still running after {STUCK} s")}], "seen": null});
                        let res = json!({"n": n, "runs": runs.load(Ordering::Relaxed), "violations_total": 1, "violations": [v], "known": {}, "samples": []});
                        std::fs::write(OUT.get().unwrap(), res.to_string()).unwrap();
                        std::process::exit(0);
                    }
                }
            }
        });
        for t in 0..threads {
            let (at, finished) = (&at, &finished);
            let (next, bad, samples, known, runs, tr, f) = (&next, &bad, &samples, &known, &runs, &tr, &f);
            sc.spawn(move || loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= n {
                    *at[t].lock().unwrap() = None;
                    finished.fetch_add(1, Ordering::Relaxed);
                    break;
                }
                let v = &vectors[i];
                let s = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ i as u64;
                FAULTS.with(|f| f.set(s));
                *at[t].lock().unwrap() = Some((i, std::time::Instant::now()));
                let ran = guard(|| f(v, s)).unwrap_or_else(|p| {
                    let mut r = Ran::new();
                    r.fail("panic", json!(p));
                    r
                });
                runs.fetch_add(ran.runs, Ordering::Relaxed);
                if !ran.bad.is_empty() {
                    bad.lock().unwrap().push(json!({"index": i, "vector": v, "bad": ran.bad, "seen": ran.seen}));
                }
                if let Some(k) = ran.known {
                    known.lock().unwrap().entry(k).or_insert((v.clone(), 0usize)).1 += 1;
                }
                if i % stride == stride / 2 {
                    samples.lock().unwrap().push(json!({"vector": v, "observed": ran.seen}));
                }
                if let Some(t) = ran.trace {
                    tr.lock().unwrap().push((i, t));
                }
            });
        }
    });
    if let Some(path) = traces {
        let mut t = tr.into_inner().unwrap();
        t.sort_by_key(|x| x.0);
        let mut w = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
        for (_, v) in t {
            writeln!(w, "{v}").unwrap();
        }
    }
    let mut bad = bad.into_inner().unwrap();
    bad.sort_by_key(|b: &Value| b["index"].as_u64());
    let total = bad.len();
    bad.truncate(200);
    json!({"n": n, "runs": runs.into_inner(), "violations_total": total, "violations": bad, "known": known.into_inner().unwrap(), "samples": samples.into_inner().unwrap()})
}

/// Deterministic pseudo-random numbers (splitmix64).
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn word(&mut self, n: usize) -> String {
        (0..n)
            .map(|_| char::from(b'a' + self.below(26) as u8))
            .collect()
    }
}
