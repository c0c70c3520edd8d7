//! Whole lives of sessions: Life.tla (P01, P02, P03).
use crate::{
    fake::*,
    session::{build, build_with, verifier},
    util::{block, Ran},
};
use openid4vp::{
    core::response::{
        parameters::{State, VpToken, VpTokenItem},
        AuthorizationResponse, JwtAuthorizationResponse, UnencodedAuthorizationResponse,
    },
    verifier::request_builder::RequestBuilder,
    verifier::session::{MemoryStore, Outcome, Session, SessionStore, Status},
};
use serde_json::{json, Value};
use std::{
    collections::BTreeMap,
    sync::{Arc, Mutex},
};
use uuid::Uuid;

const SPECIAL: &str = " ä\u{0}\n\"\\{}😀 ";

fn outcome(x: &str) -> Outcome {
    let (kind, what) = x.split_once(':').unwrap();
    let text = || match what {
        "long" => "x".repeat(70_000),
        "special" => SPECIAL.into(),
        "" => String::new(),
        w => w.to_string(),
    };
    match kind {
        "error" => Outcome::Error { cause: text() },
        "failure" => Outcome::Failure { reason: text() },
        _ => Outcome::Success {
            info: match what {
                "null" => Value::Null,
                "empty" => json!(""),
                "number" => json!(-1.5),
                "big" => json!(u64::MAX),
                "false" => json!(false),
                "list" => json!([null, [], {}, 0]),
                "object" => json!({"b": 1, "a": SPECIAL, "": null, "reason": "x", "outcome": "error"}),
                "nested" => (0..60).fold(json!(0), |v, i| if i % 2 == 0 { json!([v]) } else { json!({"x": v}) }),
                "long" => json!(["y".repeat(70_000)]),
                _ => json!("text"),
            },
        },
    }
}

fn status(x: &str) -> Option<Status> {
    match x {
        "absent" => None,
        "byref" => Some(Status::SentRequestByReference),
        "sent" => Some(Status::SentRequest),
        "received" => Some(Status::ReceivedResponse),
        o => Some(Status::Complete(outcome(o))),
    }
}
fn rank(s: &Status) -> u8 {
    match s {
        Status::SentRequestByReference => 1,
        Status::SentRequest => 2,
        Status::ReceivedResponse => 3,
        Status::Complete(_) => 4,
    }
}

/// Equality of outcomes in the library looks at their kind only.
fn same(x: &Option<Status>, y: &Option<Status>) -> bool {
    use Outcome::*;
    match (x, y) {
        (Some(Status::Complete(x)), Some(Status::Complete(y))) => match (x, y) {
            (Error { cause: a }, Error { cause: b }) | (Failure { reason: a }, Failure { reason: b }) => a == b,
            (Success { info: a }, Success { info: b }) => a == b,
            _ => false,
        },
        (Some(x), Some(y)) => rank(x) == rank(y),
        (x, y) => x.is_none() && y.is_none(),
    }
}

/// The response, and the same in a form that can be compared.
fn response(x: &str, n: usize) -> AuthorizationResponse {
    let item = |s: &str| VpTokenItem::String(s.to_string());
    let plain = |t: VpToken, s: Option<&str>| {
        AuthorizationResponse::Unencoded(UnencodedAuthorizationResponse { vp_token: t, state: s.map(|s| State(s.into())) })
    };
    let one = VpToken::with_credential("c", vec![item(&format!("resp-{n}"))]);
    match x {
        "plain" => plain(one, None),
        "state" => plain(one, Some("st")),
        "emptystate" => plain(one, Some("")),
        "special" => plain(VpToken::with_credential(SPECIAL, vec![item(SPECIAL), item("")]), Some(SPECIAL)),
        "jwt" => AuthorizationResponse::Jwt(JwtAuthorizationResponse { response: format!("a.b.c{n}") }),
        "emptyjwt" => AuthorizationResponse::Jwt(JwtAuthorizationResponse { response: String::new() }),
        "none" => plain(VpToken::default(), None),
        "many" => {
            let mut t = VpToken::default();
            for i in 0..50 {
                t.insert(format!("c{i}"), (0..i).map(|j| item(&format!("{i}-{j}-{n}"))).collect());
            }
            plain(t, None)
        }
        _ => plain(VpToken::with_credential("c", vec![item(&"z".repeat(300_000))]), None),
    }
}
fn readable(r: &AuthorizationResponse) -> Value {
    match r {
        AuthorizationResponse::Unencoded(u) => json!({"token": u.vp_token, "state": u.state.as_ref().map(|s| s.0.clone())}),
        AuthorizationResponse::Jwt(j) => json!({"jwt": j.response}),
    }
}

fn ids(x: &str) -> (Uuid, Uuid, Uuid) {
    let a: u128 = 0x4a01_0203_0405_4607_8809_0a0b_0c0d_0e0f;
    let u = |n: u128| Uuid::from_u128(n);
    match x {
        "last" => (u(a), u(a + 1), u(a ^ 0x80)),
        "first" => (u(a), u(a ^ (1 << 127)), u(a ^ (1 << 120))),
        "version" => (u(a), u(a ^ (0xf << 76)), u(a ^ (0x8 << 60))),
        "nil" => (Uuid::nil(), u(1), u(1 << 64)),
        "max" => (Uuid::max(), u(u128::MAX - 1), Uuid::nil()),
        "swapped" => (u(a), u(a.swap_bytes()), u(a.rotate_left(64))),
        "upper" => (u(0xaaaa_aaaa_aaaa_4aaa_8aaa_aaaa_aaaa_aaaa), u(0xaaaa_aaaa_aaaa_4aaa_8aaa_0000_0000_0000), u(0xaaaa_aaaa_aaaa_4aaa_0000_0000_0000_0000)),
        _ => (u(a), u(0x1b6f_11c2_9d3e_4f00_b001_75a3_6e21_90cc), u(0x7777_0000_1111_4222_9333_4444_5555_6666)),
    }
}

/// What else the request says.
fn ask<'a>(b: RequestBuilder<'a>, x: &str) -> RequestBuilder<'a> {
    use openid4vp::core::authorization_request::parameters::{ClientMetadata, ResponseType, State, TransactionData};
    match x {
        "state" => b.with_request_parameter(State("st".into())),
        "otherstate" => b.with_request_parameter(State("other".into())),
        "emptystate" => b.with_request_parameter(State(String::new())),
        "idtoken" => b.with_request_parameter(ResponseType::VpTokenIdToken),
        "code" => b.with_request_parameter(ResponseType::Unsupported("code".into())),
        "rich" => b
            .with_request_parameter(State(SPECIAL.into()))
            .with_request_parameter(TransactionData(vec!["eyJ0eXBlIjoieCJ9".into()]))
            .with_request_parameter(ClientMetadata(serde_json::from_value(json!({"vp_formats_supported": {"dc+sd-jwt": {}}, "x": [null]})).unwrap())),
        _ => b,
    }
}

fn apart(s: &Session) -> String {
    let mut s = s.clone();
    s.status = Status::SentRequest;
    format!("{s:?}")
}

pub fn run(v: &Value, _seed: u64, aspect: &str) -> Ran {
    let mut r = Ran::new();
    let c = &v["c"];
    let s = |k: &str| c[k].as_str().unwrap();
    let client = Arc::new(FakeClient::new("fake:client", "fake"));
    let (mine, watch): (Arc<dyn SessionStore + Send + Sync>, Arc<dyn SessionStore + Send + Sync>) = match s("store") {
        "plain" => {
            let p = Arc::new(PlainStore::default());
            (p.clone(), p)
        }
        "clone" => {
            let m = MemoryStore::default();
            (Arc::new(m.clone()), Arc::new(m))
        }
        _ => {
            let m = Arc::new(MemoryStore::default());
            (m.clone(), m)
        }
    };
    let byref = verifier(client.clone(), mine.clone(), true);
    let value = verifier(client.clone(), mine.clone(), false);
    let (a, b, u) = ids(s("ids"));
    let mut id: BTreeMap<&str, Uuid> = BTreeMap::from([("a", a), ("b", b), ("u", u)]);
    let mut jwt: BTreeMap<String, String> = BTreeMap::new();
    let mut body: BTreeMap<String, String> = BTreeMap::new();
    let mut crowd: Vec<Uuid> = vec![];
    let calls = Arc::new(Mutex::new(0usize));
    let (p01, p02, p03) = (aspect == "P01", aspect == "P02", aspect == "P03");
    let log = v["log"].as_array().unwrap();
    for (i, e) in log.iter().enumerate() {
        let e_s = |k: &str| e[k].as_str().unwrap();
        let (who, n, ok) = (e_s("s"), e["n"].as_u64().unwrap() as usize, e["ok"].as_bool().unwrap());
        let me = id.get(who).copied().unwrap_or_default();
        match e_s("op") {
            "crowd" => {
                let extra = block(build(&byref, "build", "crowd", Uuid::from_u128(9 << 100))).unwrap();
                let sample = block(watch.get_session(extra)).unwrap();
                for k in 0..n as u128 {
                    let mut x = sample.clone();
                    x.uuid = Uuid::from_u128((k.wrapping_mul(0x9e37_79b9_7f4a_7c15_f39c_c060_5ced_c835)) | (1 << 90));
                    x.status = [Status::SentRequestByReference, Status::SentRequest, Status::Complete(outcome("error:short"))][k as usize % 3].clone();
                    crowd.push(x.uuid);
                    block(mine.initiate(x)).unwrap();
                }
            }
            op @ ("build" | "replace") => {
                let (vf, kind) = match e_s("x") {
                    "byref" => (&byref, "build"),
                    "dc" => (&value, "builddc"),
                    _ => (&value, "build"),
                };
                let made = client.made.lock().unwrap().len();
                match block(build_with(vf, kind, &format!("{who}{i}"), me, |b| ask(b, s("ask")), s("mode") == "direct_post.jwt")) {
                    Ok(x) => {
                        id.insert(if who == "a" { "a" } else { "b" }, x);
                    }
                    Err(_) if op == "replace" => {
                        let held = block(watch.get_session(me)).ok();
                        r.check(!p03 || held.as_ref().map(apart).as_ref() == body.get(who), "a refused request changed the session", || json!(i));
                        return r;
                    }
                    Err(err) => r.check(false, "a session could not be built", || json!(format!("{err:#}"))),
                }
                jwt.insert(who.into(), client.made.lock().unwrap().get(made).cloned().unwrap_or_default());
                if let Ok(x) = block(watch.get_session(id[who])) {
                    body.insert(who.into(), apart(&x));
                }
            }
            "mark" => {
                let got = block(mine.update_status(me, status(e_s("x")).unwrap()));
                r.check(got.is_ok(), "a status could not be recorded", || json!(i));
            }
            "fetch" => {
                for k in 0..n {
                    let got = block(byref.retrieve_authorization_request(me));
                    r.runs += 1;
                    r.check(!p03 || got.is_ok() == ok, if ok { "a request of a known session could not be fetched" } else { "a request of an unknown session was handed out" }, || json!([i, k]));
                    if let (Ok(j), true) = (got, p03) {
                        r.check(Some(&j) == jwt.get(who), "another request was handed out", || json!([i, k, j]));
                    }
                    if k == 0 && p01 && ok && n > 1 {
                        let st = block(byref.poll_status(me)).ok();
                        r.check(st.as_ref().map(rank) == status(e_s(who)).as_ref().map(rank), "fetching the request moved the session wrongly", || json!([i, format!("{st:?}")]));
                    }
                }
            }
            "verify" => {
                let was = block(watch.get_session(me)).ok().map(|x| format!("{x:?}"));
                let resp = response(s("resp"), i);
                let shown = readable(&resp);
                let saw = Arc::new(Mutex::new(vec![]));
                let (w, cl, x) = (saw.clone(), calls.clone(), e_s("x").to_string());
                let got = block(byref.verify_response(me, resp, move |sess, resp| {
                    *cl.lock().unwrap() += 1;
                    w.lock().unwrap().push((format!("{sess:?}"), readable(&resp)));
                    Box::pin(async move { outcome(&x) })
                }));
                r.runs += 1;
                let saw = saw.lock().unwrap().clone();
                if p02 {
                    r.check(got.is_ok() == ok, if ok { "verification of a response failed" } else { "verification for an unknown session succeeded" }, || json!([i, got.as_ref().err().map(|e| format!("{e:#}"))]));
                    let total = *calls.lock().unwrap();
                    r.check(json!(total) == e["valid"], "the validator was not called once for each response", || json!([i, total]));
                    for (sess, resp) in &saw {
                        r.check(Some(sess) == was.as_ref(), "the validator saw another session than the one stored", || json!([i, sess, was]));
                        r.check(*resp == shown, "the validator saw another response than the one submitted", || json!([i, resp, shown]));
                    }
                }
                r.check(!p03 || got.is_ok() == ok, if ok { "an operation on a known session failed" } else { "an operation on an unknown session succeeded" }, || json!(i));
            }
            _ => {
                let got = block(mine.remove_session(me));
                r.check(!p03 || got.is_ok() == ok, "removing a session", || json!([i, got.is_ok()]));
            }
        }
        for w in ["a", "b"] {
            let want = status(e_s(w));
            let got = block(byref.poll_status(id[w])).ok();
            let held = block(watch.get_session(id[w])).ok();
            if p01 && w == "a" {
                r.check(got.as_ref().map(rank) == want.as_ref().map(rank), "the session is not as far as it should be", || json!([i, e_s("op"), format!("{got:?}"), e[w]]));
                r.check(held.as_ref().map(|h| rank(&h.status)) == got.as_ref().map(rank), "the status shown is not the one stored", || json!([i, format!("{got:?}")]));
            }
            if p02 {
                r.check(same(&got, &want), "the session does not show what was decided", || json!([i, e_s("op"), w, format!("{:.200}", format!("{got:?}")), e[w]]));
            }
            if p03 {
                r.check(w == who || same(&got, &want), "an operation changed another session", || json!([i, e_s("op"), w, format!("{:.200}", format!("{got:?}")), e[w]]));
                r.check(held.is_some() == want.is_some(), "a session appears or vanishes", || json!([i, e_s("op"), w, e[w]]));
                if let Some(h) = &held {
                    r.check(body.get(w) == Some(&apart(h)) && jwt.get(w) == Some(&h.authorization_request_jwt), "a session's content changed", || json!([i, e_s("op"), w]));
                }
            }
        }
        if p03 {
            r.check(block(watch.get_session(id["u"])).is_err() && block(byref.poll_status(id["u"])).is_err(), "a session that was never built is known", || json!([i, e_s("op")]));
        }
    }
    if p03 || p01 {
        for (k, x) in crowd.iter().enumerate() {
            let want = [Status::SentRequestByReference, Status::SentRequest, Status::Complete(outcome("error:short"))][k % 3].clone();
            let got = block(byref.poll_status(*x)).ok();
            if !same(&got, &Some(want)) {
                r.fail("another session of many was changed or lost", json!([k, crowd.len(), format!("{got:?}")]));
                break;
            }
        }
    }
    r.seen = json!(log.last().map(|e| e["a"].clone()));
    r
}
