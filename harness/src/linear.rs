//! Real threads on the in-memory store: records who called what when, and what came back (P01-P03).
use crate::{fake::*, session::{build, verifier}};
use openid4vp::{
    core::response::{parameters::VpToken, AuthorizationResponse, UnencodedAuthorizationResponse},
    verifier::{
        session::{MemoryStore, Outcome, SessionStore, Status},
        Verifier,
    },
};
use serde_json::{json, Value};
use std::{
    collections::BTreeSet,
    panic::AssertUnwindSafe,
    sync::{
        atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst},
        Arc, Mutex, RwLock,
    },
};
use uuid::Uuid;

const THREADS: usize = 4;
const OPS: usize = 3;

/// xorshift: the programs are a function of the seed alone.
struct Rng(u64);
impl Rng {
    fn below(&mut self, n: u64) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        (self.0 >> 11) % n
    }
}

#[derive(Clone, Debug)]
struct Op {
    n: usize, // number among the operations of its session
    s: usize,
    k: &'static str,
}

struct Round {
    store: Arc<MemoryStore>,
    by_ref: Arc<Verifier>,
    by_val: Arc<Verifier>,
    ids: [Uuid; 2],
    programs: Vec<Vec<Op>>,
}

fn shown(st: &Status) -> String {
    match st {
        Status::SentRequestByReference => "byref".into(),
        Status::SentRequest => "sent".into(),
        Status::Complete(Outcome::Failure { reason }) => reason.clone(),
        other => format!("{other:?}"),
    }
}

/// What came back, and what the validator was shown.
async fn perform(r: &Round, op: &Op) -> (String, String) {
    let id = r.ids[op.s];
    let sid = format!("s{}", op.s);
    let or = |ok: bool| if ok { "ok".to_string() } else { "err".to_string() };
    let none = "-".to_string();
    match op.k {
        "byref" => (or(build(&r.by_ref, "build", &sid, id).await.is_ok()), none),
        "sent" => (or(build(&r.by_val, "build", &sid, id).await.is_ok()), none),
        "poll" => (r.by_ref.poll_status(id).await.map_or("err".into(), |st| shown(&st)), none),
        "remove" => (or(r.store.remove_session(id).await.is_ok()), none),
        "retrieve" => match r.by_ref.retrieve_authorization_request(id).await {
            Ok(jwt) if payload(&jwt).is_some_and(|p| p["nonce"] == sid.as_str()) => ("ok".into(), none),
            Ok(jwt) => (format!("another request: {jwt}"), none),
            Err(_) => ("err".into(), none),
        },
        _ => {
            let saw = Arc::new(Mutex::new(none));
            let (seen, n) = (saw.clone(), op.n);
            let resp = AuthorizationResponse::Unencoded(UnencodedAuthorizationResponse::new(VpToken::new()));
            let done = r
                .by_ref
                .verify_response(id, resp, move |session, _| {
                    *seen.lock().unwrap() = if session.uuid == id { shown(&session.status) } else { "another session".into() };
                    Box::pin(async move { Outcome::Failure { reason: n.to_string() } })
                })
                .await;
            let saw = saw.lock().unwrap().clone();
            (or(done.is_ok()), saw)
        }
    }
}

pub fn record(rounds: usize, seed: u64) -> Value {
    let mut rng = Rng(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1);
    let clock = Arc::new(AtomicU64::new(0));
    let (go, ready) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
    let current: Arc<RwLock<Option<Arc<Round>>>> = Arc::default();
    let log: Arc<Mutex<Vec<(u64, usize, Value)>>> = Arc::default();
    let mut threads = Vec::new();
    for t in 0..THREADS {
        let (clock, go, ready, current, log) = (clock.clone(), go.clone(), ready.clone(), current.clone(), log.clone());
        threads.push(std::thread::spawn(move || {
            let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
            let mut round = 0;
            loop {
                let mut spins = 0u32;
                while go.load(SeqCst) == round {
                    spins += 1;
                    if spins % 200 == 0 {
                        std::thread::yield_now();
                    }
                    std::hint::spin_loop();
                }
                round = go.load(SeqCst);
                if round == usize::MAX {
                    return;
                }
                let r = current.read().unwrap().clone().unwrap();
                let mut mine = Vec::new();
                for op in &r.programs[t] {
                    mine.push((clock.fetch_add(1, SeqCst), op.s, json!({"e": "call", "n": op.n, "k": op.k, "r": "-", "saw": "-"})));
                    let done = std::panic::catch_unwind(AssertUnwindSafe(|| {
                        rt.block_on(async {
                            tokio::time::timeout(std::time::Duration::from_secs(30), perform(&r, op)).await
                        })
                    }));
                    let (res, saw) = match done {
                        Ok(Ok(x)) => x,
                        Ok(Err(_)) => ("hang".into(), "-".into()),
                        Err(_) => ("panic".into(), "-".into()),
                    };
                    mine.push((clock.fetch_add(1, SeqCst), op.s, json!({"e": "ret", "n": op.n, "k": op.k, "r": res, "saw": saw})));
                }
                log.lock().unwrap().extend(mine);
                ready.fetch_add(1, SeqCst);
            }
        }));
    }
    let client = Arc::new(FakeClient::new("fake:client", "fake"));
    let prebuild = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let mut out: BTreeSet<String> = BTreeSet::new();
    let (mut overlapping, mut calls) = (0usize, 0usize);
    let mut world = None;
    for round in 1..=rounds {
        if round % 64 == 1 {
            let store = Arc::new(MemoryStore::default());
            client.made.lock().unwrap().clear();
            world = Some((
                store.clone(),
                Arc::new(verifier(client.clone(), store.clone(), true)),
                Arc::new(verifier(client.clone(), store, false)),
            ));
        }
        let (store, by_ref, by_val) = world.clone().unwrap();
        let ids = [Uuid::from_u128(0x4a00_0000_0000_4000_8000_0000_0000_0000 + 2 * round as u128), Uuid::from_u128(0x4b00_0000_0000_4000_8000_0000_0000_0000 - round as u128)];
        let init: Vec<&str> = (0..2).map(|_| ["byref", "byref", "byref", "sent", "absent"][rng.below(5) as usize]).collect();
        let mut n = [0usize; 2];
        let mut unbuilt: Vec<bool> = init.iter().map(|i| *i == "absent").collect();
        let programs = (0..THREADS)
            .map(|_| {
                (0..OPS)
                    .map(|_| {
                        let s = usize::from(rng.below(4) == 0);
                        let mut k = ["retrieve", "retrieve", "retrieve", "verify", "verify", "verify", "poll", "poll", "poll", "remove"][rng.below(10) as usize];
                        if unbuilt[s] && rng.below(2) == 0 {
                            unbuilt[s] = false;
                            k = ["byref", "sent"][rng.below(2) as usize];
                        }
                        n[s] += 1;
                        Op { n: n[s], s, k }
                    })
                    .collect()
            })
            .collect();
        for s in 0..2 {
            if init[s] != "absent" {
                let v = if init[s] == "byref" { &by_ref } else { &by_val };
                prebuild.block_on(build(v, "build", &format!("s{s}"), ids[s])).expect("prebuilding a session");
            }
        }
        *current.write().unwrap() = Some(Arc::new(Round { store, by_ref: by_ref.clone(), by_val, ids, programs }));
        ready.store(0, SeqCst);
        go.store(round, SeqCst);
        while ready.load(SeqCst) < THREADS {
            std::thread::yield_now();
        }
        let mut events = std::mem::take(&mut *log.lock().unwrap());
        events.sort_by_key(|e| e.0);
        for s in 0..2 {
            let mut ev: Vec<Value> = events.iter().filter(|e| e.1 == s).map(|e| e.2.clone()).collect();
            // What is there in the end.
            let last = prebuild.block_on(by_ref.poll_status(ids[s])).map_or("err".to_string(), |st| shown(&st));
            n[s] += 1;
            ev.push(json!({"e": "call", "n": n[s], "k": "poll", "r": "-", "saw": "-"}));
            ev.push(json!({"e": "ret", "n": n[s], "k": "poll", "r": last, "saw": "-"}));
            calls += n[s];
            let overlaps = ev.windows(2).any(|w| w[0]["e"] == "call" && w[1]["e"] == "call");
            overlapping += usize::from(overlaps);
            if !overlaps && round % 16 != 0 {
                continue;
            }
            out.insert(json!({"init": init[s], "ops": n[s], "ev": ev}).to_string());
        }
    }
    go.store(usize::MAX, SeqCst);
    for t in threads {
        t.join().unwrap();
    }
    let histories: Vec<Value> = out.iter().map(|s| serde_json::from_str(s).unwrap()).collect();
    json!({"n": histories.len(), "runs": calls, "overlapping": overlapping, "histories": histories, "violations": [], "samples": []})
}
