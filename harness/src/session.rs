//! Replays schedules of store calls into the real verifier and records what happens (P01-P03).
use crate::{
    fake::*,
    util::{block, guard, poll_once, Ran},
};
use anyhow::Result;
use async_trait::async_trait;
use openid4vp::verifier::request_builder::RequestBuilder;
use openid4vp::{
    core::{
        authorization_request::parameters::{Nonce, ResponseMode, ResponseType},
        metadata::WalletMetadata,
        response::{parameters::{VpToken, VpTokenItem}, AuthorizationResponse, UnencodedAuthorizationResponse},
    },
    verifier::{
        session::{MemoryStore, Outcome, Session, SessionStore, Status},
        Verifier,
    },
};
use serde_json::{json, Value};
use std::{
    cell::RefCell,
    collections::{BTreeMap, VecDeque},
    future::Future,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll},
};
use uuid::Uuid;

#[derive(Debug, Clone, Copy, PartialEq)]
enum Permit {
    Go,
    Fail,
}

#[derive(Debug)]
struct Proc {
    n: u64,
    sid: String,
    permits: Mutex<VecDeque<Permit>>,
    decision: Mutex<Option<String>>,
    world: Arc<World>,
}

#[derive(Debug)]
struct World {
    inner: Arc<dyn SessionStore + Send + Sync>,
    client: Arc<FakeClient>,
    ids: Mutex<BTreeMap<String, Uuid>>,
    events: Mutex<Vec<Value>>,
}

thread_local! { static CUR: RefCell<Option<Arc<Proc>>> = const { RefCell::new(None) }; }

fn cur() -> Option<Arc<Proc>> {
    CUR.with(|c| c.borrow().clone())
}

/// Waits until the schedule lets this operation's next store call happen.
struct Gate;
impl Future for Gate {
    type Output = Permit;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Permit> {
        match cur() {
            None => Poll::Ready(Permit::Go),
            Some(p) => match p.permits.lock().unwrap().pop_front() {
                Some(Permit::Fail) => {
                    p.world.log(json!({"e": "fault", "p": p.n}));
                    Poll::Ready(Permit::Fail)
                }
                Some(x) => Poll::Ready(x),
                None => Poll::Pending,
            },
        }
    }
}

/// The store the verifier is given: gates every call, then hands it to the real store.
#[derive(Debug)]
struct Gated(Arc<World>);

impl Gated {
    async fn gate(&self) -> Result<()> {
        match Gate.await {
            Permit::Go => Ok(()),
            Permit::Fail => Err(crate::util::fault("store")),
        }
    }
}

#[async_trait]
impl SessionStore for Gated {
    async fn initiate(&self, session: Session) -> Result<()> {
        self.gate().await?;
        if let Some(p) = cur() {
            let mut ids = self.0.ids.lock().unwrap();
            ids.entry(p.sid.clone()).or_insert(session.uuid);
        }
        self.0.inner.initiate(session).await?;
        if cur().is_some() {
            self.0.log(json!({"e": "stored"}));
        }
        Ok(())
    }
    async fn update_status(&self, uuid: Uuid, status: Status) -> Result<()> {
        self.gate().await?;
        self.0.inner.update_status(uuid, status).await?;
        if cur().is_some() {
            self.0.log(json!({"e": "stored"}));
        }
        Ok(())
    }
    async fn get_session(&self, uuid: Uuid) -> Result<Session> {
        self.gate().await?;
        self.0.inner.get_session(uuid).await
    }
    async fn remove_session(&self, uuid: Uuid) -> Result<()> {
        self.gate().await?;
        self.0.inner.remove_session(uuid).await?;
        if cur().is_some() {
            self.0.log(json!({"e": "stored"}));
        }
        Ok(())
    }
}

pub fn show(st: &Status) -> String {
    match st {
        Status::SentRequestByReference => "byref".into(),
        Status::SentRequest => "sent".into(),
        Status::ReceivedResponse => "received".into(),
        Status::Complete(Outcome::Error { cause }) => format!("error:{cause}"),
        Status::Complete(Outcome::Failure { reason }) => format!("failure:{reason}"),
        Status::Complete(Outcome::Success { info }) => format!("success:{}", info.as_str().unwrap_or("?")),
    }
}

fn outcome(kind: &str, tag: &str) -> Outcome {
    match kind {
        "error" => Outcome::Error { cause: tag.into() },
        "failure" => Outcome::Failure { reason: tag.into() },
        _ => Outcome::Success { info: Value::String(tag.into()) },
    }
}

impl World {
    /// The session a JWT was made for (the nonce says), provided the client made it.
    fn tag_jwt(&self, jwt: &str) -> String {
        if !self.client.made.lock().unwrap().iter().any(|j| j == jwt) {
            return "?".into();
        }
        payload(jwt).and_then(|p| p["nonce"].as_str().map(String::from)).unwrap_or("?".into())
    }

    /// As `tag_jwt`, but of a JWT handed out for session `id`: it must be the stored one.
    fn tag_handed_out(&self, id: Uuid, jwt: &str) -> String {
        let saved = CUR.with(|c| c.borrow_mut().take());
        let stored = block(self.inner.get_session(id)).ok();
        CUR.with(|c| *c.borrow_mut() = saved);
        match stored {
            Some(s) if s.authorization_request_jwt != jwt => "?".into(),
            _ => self.tag_jwt(jwt),
        }
    }

    /// Appends an event together with what the store holds afterwards.
    fn log(&self, mut ev: Value) {
        let saved = CUR.with(|c| c.borrow_mut().take());
        let ids = self.ids.lock().unwrap().clone();
        let (mut st, mut body, mut polled) = (json!({}), json!({}), json!({}));
        let v = CHECKER.with(|c| c.borrow().clone());
        for s in ["s1", "s2"] {
            let got = ids.get(s).map(|id| block(self.inner.get_session(*id)));
            let (a, b) = match &got {
                Some(Ok(x)) => {
                    let own = self.tag_jwt(&x.authorization_request_jwt);
                    let same = own == s
                        && x.uuid == ids[s]
                        && x.authorization_request_object.nonce().as_str() == s
                        && x.dcql_query.credentials()[0].id() == format!("q-{s}");
                    (show(&x.status), if same { s.to_string() } else { "?".into() })
                }
                _ => ("absent".into(), "-".into()),
            };
            polled[s] = match (ids.get(s), &v) {
                (Some(id), Some(v)) => match block(v.poll_status(*id)) {
                    Ok(x) => json!(show(&x)),
                    Err(_) => json!("absent"),
                },
                _ => json!(a),
            };
            st[s] = json!(a);
            body[s] = json!(b);
        }
        ev["st"] = st;
        ev["body"] = body;
        ev["polled"] = polled;
        self.events.lock().unwrap().push(ev);
        CUR.with(|c| *c.borrow_mut() = saved);
    }
}

thread_local! { static CHECKER: RefCell<Option<Arc<Verifier>>> = const { RefCell::new(None) }; }

pub fn verifier(client: Arc<FakeClient>, store: Arc<dyn SessionStore + Send + Sync>, byref: bool) -> Verifier {
    let mut b = Verifier::builder()
        .with_client(client)
        .with_submission_endpoint("https://v.example/submit".parse().unwrap())
        .with_session_store(store)
        .with_default_request_parameter(ResponseType::VpToken);
    b = if byref {
        b.by_reference("https://v.example/req".parse().unwrap())
    } else {
        b.by_value()
    };
    block(b.build()).unwrap()
}

fn metadata() -> WalletMetadata {
    wallet_metadata(json!({"client_id_prefixes_supported": ["fake"]}))
}

pub async fn build(v: &Verifier, kind: &str, sid: &str, id: Uuid) -> Result<Uuid> {
    build_with(v, kind, sid, id, |b| b, false).await
}

pub async fn build_with(
    v: &Verifier,
    kind: &str,
    sid: &str,
    id: Uuid,
    more: impl for<'a> Fn(RequestBuilder<'a>) -> RequestBuilder<'a>,
    jwt: bool,
) -> Result<Uuid> {
    let b = v
        .build_authorization_request()
        .with_dcql_query(query(&format!("q-{sid}")))
        .with_request_parameter(Nonce::from(sid));
    let b = more(b);
    if kind == "builddc" {
        let (id, _) = b.with_request_parameter(if jwt { ResponseMode::DcApiJwt } else { ResponseMode::DcApi }).build_dc_api().await?;
        Ok(id)
    } else {
        b.with_request_parameter(if jwt { ResponseMode::DirectPostJwt } else { ResponseMode::DirectPost })
            .build_with_session_id(id, metadata())
            .await?;
        Ok(id)
    }
}

struct Running {
    proc_: Arc<Proc>,
    fut: Option<Pin<Box<dyn Future<Output = Value>>>>,
    dead: bool,
}

fn id_of(n: u128) -> Uuid {
    Uuid::from_u128(0x4a00_0000_0000_4000_8000_0000_0000_0000 + n)
}

/// Replays one schedule; `plain` selects a store that overwrites unconditionally.
pub fn replay(vec: &Value, plain: bool) -> Value {
    let client = Arc::new(FakeClient::new("fake:client", "fake"));
    let inner: Arc<dyn SessionStore + Send + Sync> =
        if plain { Arc::new(PlainStore::default()) } else { Arc::new(MemoryStore::default()) };
    let world = Arc::new(World {
        inner: inner.clone(),
        client: client.clone(),
        ids: Mutex::default(),
        events: Mutex::default(),
    });
    let ungated_ref = verifier(client.clone(), inner.clone(), true);
    let ungated_val = verifier(client.clone(), inner.clone(), false);
    CHECKER.with(|c| *c.borrow_mut() = Some(Arc::new(ungated_val.clone())));
    for (i, s) in ["s1", "s2"].iter().enumerate() {
        let ph = vec["init"][s].as_str().unwrap();
        if ph == "absent" {
            continue;
        }
        let v = if ph == "byref" { &ungated_ref } else { &ungated_val };
        block(build(v, "build", s, id_of(i as u128 + 1))).expect("prebuilding a session");
        world.ids.lock().unwrap().insert(s.to_string(), id_of(i as u128 + 1));
    }
    world.log(json!({"e": "init"}));

    let gated: Arc<dyn SessionStore + Send + Sync> = Arc::new(Gated(world.clone()));
    let g_ref = Arc::new(verifier(client.clone(), gated.clone(), true));
    let g_val = Arc::new(verifier(client, gated.clone(), false));
    let mut procs: BTreeMap<u64, Running> = BTreeMap::new();

    let advance = |r: &mut Running| {
        let Some(mut fut) = r.fut.take() else { return };
        CUR.with(|c| *c.borrow_mut() = Some(r.proc_.clone()));
        let res = guard(|| poll_once(&mut fut));
        CUR.with(|c| *c.borrow_mut() = None);
        match res {
            Ok(Poll::Pending) => r.fut = Some(fut),
            Ok(Poll::Ready(v)) => {
                let mut ev = v;
                ev["e"] = json!("ret");
                ev["p"] = json!(r.proc_.n);
                r.proc_.world.log(ev);
            }
            Err(msg) => {
                r.dead = true;
                r.proc_.world.log(json!({"e": "panic", "p": r.proc_.n, "msg": msg}));
            }
        }
    };

    // An operation that does more than its part of the schedule provides for runs to its end there.
    let finish = |r: &mut Running| {
        for _ in 0..12 {
            if r.fut.is_none() {
                break;
            }
            r.proc_.permits.lock().unwrap().push_back(Permit::Go);
            r.proc_.decision.lock().unwrap().get_or_insert("success".into());
            advance(r);
        }
        if r.fut.take().is_some() {
            r.proc_.world.log(json!({"e": "hang", "p": r.proc_.n}));
        }
    };
    let sched = vec["sched"].as_array().unwrap();
    for (i, a) in sched.iter().enumerate() {
        let p = a["p"].as_u64().unwrap();
        match a["a"].as_str().unwrap() {
            "start" => {
                let (k, s) = (a["k"].as_str().unwrap().to_string(), a["s"].as_str().unwrap().to_string());
                let proc_ = Arc::new(Proc {
                    n: p,
                    sid: s.clone(),
                    permits: Mutex::default(),
                    decision: Mutex::default(),
                    world: world.clone(),
                });
                let fut = operation(&k, &s, p, &world, &g_ref, &g_val, gated.clone(), proc_.clone());
                let mut r = Running { proc_, fut: Some(fut), dead: false };
                world.log(json!({"e": "inv", "p": p, "k": k, "s": s}));
                advance(&mut r);
                procs.insert(p, r);
            }
            "step" | "fail" => {
                let r = procs.get_mut(&p).unwrap();
                let permit = if a["a"] == "step" { Permit::Go } else { Permit::Fail };
                r.proc_.permits.lock().unwrap().push_back(permit);
                advance(r);
            }
            "decide" => {
                let r = procs.get_mut(&p).unwrap();
                *r.proc_.decision.lock().unwrap() = Some(a["o"].as_str().unwrap().to_string());
                advance(r);
            }
            "cancel" => {
                let r = procs.get_mut(&p).unwrap();
                if r.fut.take().is_some() {
                    world.log(json!({"e": "cancel", "p": p}));
                }
            }
            x => panic!("unknown action {x}"),
        }
        if !sched[i + 1..].iter().any(|b| b["p"] == a["p"]) {
            finish(procs.get_mut(&p).unwrap());
        }
    }
    CHECKER.with(|c| *c.borrow_mut() = None);
    let ev = world.events.lock().unwrap().clone();
    json!(ev)
}

#[allow(clippy::too_many_arguments)]
fn operation(
    k: &str,
    s: &str,
    p: u64,
    world: &Arc<World>,
    g_ref: &Arc<Verifier>,
    g_val: &Arc<Verifier>,
    gated: Arc<dyn SessionStore + Send + Sync>,
    proc_: Arc<Proc>,
) -> Pin<Box<dyn Future<Output = Value>>> {
    let n: u128 = if s == "s1" { 1 } else { 2 };
    let id = *world.ids.lock().unwrap().get(s).unwrap_or(&id_of(n));
    let v = if k == "buildval" { g_val.clone() } else { g_ref.clone() };
    let (k, s, world) = (k.to_string(), s.to_string(), world.clone());
    let r = |ok: bool| json!({"r": if ok { "ok" } else { "err" }});
    Box::pin(async move {
        match k.as_str() {
            "poll" => match v.poll_status(id).await {
                Ok(st) => json!({"r": "ok", "got": show(&st)}),
                Err(_) => r(false),
            },
            "retrieve" => match v.retrieve_authorization_request(id).await {
                Ok(j) => json!({"r": "ok", "jwt": world.tag_handed_out(id, &j)}),
                Err(_) => r(false),
            },
            "remove" => r(gated.remove_session(id).await.is_ok()),
            "verify" => {
                let resp = AuthorizationResponse::Unencoded(UnencodedAuthorizationResponse::new(
                    VpToken::with_credential("c", vec![VpTokenItem::String(format!("resp-{p}"))]),
                ));
                let w = world.clone();
                let res = v
                    .verify_response(id, resp, move |sess, resp| {
                        let got = match &resp {
                            AuthorizationResponse::Unencoded(u) => match u.vp_token().get("c").and_then(|x| x.first()) {
                                Some(VpTokenItem::String(t)) => t.trim_start_matches("resp-").parse().unwrap_or(0u64),
                                _ => 0,
                            },
                            _ => 0,
                        };
                        let which = w
                            .ids
                            .lock()
                            .unwrap()
                            .iter()
                            .find(|(_, i)| **i == sess.uuid)
                            .map(|(s, _)| s.clone())
                            .unwrap_or("?".into());
                        let q = sess.dcql_query.credentials()[0].id().trim_start_matches("q-").to_string();
                        w.log(json!({"e": "val", "p": p, "s": which, "jwt": w.tag_jwt(&sess.authorization_request_jwt),
                                     "q": q, "resp": got, "sst": show(&sess.status)}));
                        Box::pin(Deciding { proc_, p })
                    })
                    .await;
                r(res.is_ok())
            }
            _ => r(build(&v, &k, &s, id).await.is_ok()),
        }
    })
}

struct Deciding {
    proc_: Arc<Proc>,
    p: u64,
}
impl Future for Deciding {
    type Output = Outcome;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Outcome> {
        let d = self.proc_.decision.lock().unwrap().take();
        match d {
            None => Poll::Pending,
            Some(kind) => {
                let tag = format!("by{}", self.p);
                self.proc_
                    .world
                    .log(json!({"e": "decide", "p": self.p, "o": format!("{kind}:{tag}")}));
                Poll::Ready(outcome(&kind, &tag))
            }
        }
    }
}

pub fn run(vec: &Value, _seed: u64) -> Ran {
    let mut ran = Ran::new();
    let plain = vec["store"] == "plain";
    let ev = replay(vec, plain);
    ran.seen = json!(ev.as_array().unwrap().last().unwrap()["st"]);
    ran.trace = Some(ev);
    ran
}

/// Real threads on the in-memory store: concurrent operations on sessions that exist must all
/// succeed, every session ends with the outcome of a validation of it, and none moves backwards.
pub fn stress(rounds: usize) -> Value {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(8).build().unwrap();
    let mut bad = Vec::new();
    let mut calls = 0usize;
    for round in 0..rounds {
        let client = Arc::new(FakeClient::new("fake:client", "fake"));
        let store = Arc::new(MemoryStore::default());
        let v = Arc::new(verifier(client.clone(), store, true));
        let ids: Vec<Uuid> = (0..2).map(|i| id_of(100 + i)).collect();
        for (i, id) in ids.iter().enumerate() {
            block(build(&v, "build", &format!("s{i}"), *id)).unwrap();
        }
        let res: Vec<Vec<String>> = rt.block_on(async {
            let mut hs = Vec::new();
            for t in 0..8usize {
                let (v, id) = (v.clone(), ids[t % 2]);
                hs.push(tokio::spawn(async move {
                    let mut errs = Vec::new();
                    let mut last: Option<Status> = None;
                    for i in 0..40 {
                        match (t / 2, i) {
                            (0, _) => {
                                if let Err(e) = v.retrieve_authorization_request(id).await {
                                    errs.push(format!("retrieve: {e:#}"));
                                }
                            }
                            (1, _) => {
                                let resp = AuthorizationResponse::Unencoded(UnencodedAuthorizationResponse::new(VpToken::new()));
                                let r = v
                                    .verify_response(id, resp, move |_, _| {
                                        Box::pin(async move { Outcome::Failure { reason: format!("{t}") } })
                                    })
                                    .await;
                                if let Err(e) = r {
                                    errs.push(format!("verify: {e:#}"));
                                }
                            }
                            _ => match v.poll_status(id).await {
                                Err(e) => errs.push(format!("poll: {e:#}")),
                                Ok(st) => {
                                    if let Some(l) = &last {
                                        if st < *l {
                                            errs.push(format!("moved back: {} -> {}", show(l), show(&st)));
                                        }
                                    }
                                    if let Status::Complete(Outcome::Failure { reason }) = &st {
                                        if reason.parse::<usize>().map(|x| x % 2) != std::result::Result::Ok(t % 2) {
                                            errs.push(format!("foreign outcome {reason}"));
                                        }
                                    }
                                    last = Some(st);
                                }
                            },
                        }
                        tokio::task::yield_now().await;
                    }
                    errs
                }));
            }
            let mut out = Vec::new();
            for h in hs {
                out.push(h.await.unwrap_or_else(|e| vec![format!("panic: {e}")]));
            }
            out
        });
        calls += 8 * 40;
        for e in res.into_iter().flatten() {
            if bad.len() < 50 {
                bad.push(json!({"round": round, "error": e}));
            }
        }
        for id in &ids {
            match block(v.poll_status(*id)) {
                Ok(Status::Complete(Outcome::Failure { .. })) => {}
                x => bad.push(json!({"round": round, "error": format!("final: {x:?}")})),
            }
        }
    }
    json!({"rounds": rounds, "calls": calls, "bad": bad})
}
