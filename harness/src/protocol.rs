//! The whole presentation over a hostile network: Protocol.tla (P21).
use crate::{
    auth::{p256_sign, pool},
    fake::*,
    util::{block, Ran},
};
use anyhow::{anyhow, bail, Result};
use async_trait::async_trait;
use base64::prelude::*;
use http::{Request, Response};
use openid4vp::{
    core::{
        authorization_request::{
            parameters::{ClientMetadata, Nonce, ResponseMode, ResponseType, State},
            verification::{did, verifier::P256Verifier, x509_hash, x509_san, RequestVerifier},
            AuthorizationRequest, AuthorizationRequestObject, RequestIndirection,
        },
        metadata::WalletMetadata,
        response::{parameters::VpToken, AuthorizationResponse, JwtAuthorizationResponse, UnencodedAuthorizationResponse},
        util::AsyncHttpClient,
    },
    verifier::{
        client::{Client, DIDClient, X509HashClient, X509SanDnsClient},
        request_signer::P256Signer,
        session::{MemoryStore, Outcome, Status},
        Verifier,
    },
    wallet::Wallet,
};
use serde_json::{json, Value};
use ssi_claims::ProofValidationError;
use ssi_jwk::{JWKResolver, JWK};
use std::{
    borrow::Cow,
    collections::BTreeMap,
    sync::{Arc, Mutex},
};
use url::Url;
use uuid::Uuid;
use x509_cert::{der::Decode, Certificate};

const AT: &str = "https://v.example/request";
const TO: &str = "https://v.example/response";
const EVIL: &str = "https://evil.example/collect";

/// The DIDs of the two verifiers and their keys.
struct Dids;
impl JWKResolver for Dids {
    async fn fetch_public_jwk(&self, id: Option<&str>) -> Result<Cow<'_, JWK>, ProofValidationError> {
        match id {
            Some("did:example:v#k") => Ok(Cow::Owned(crate::auth::jwk_of(&pool().keys["A"]))),
            Some("did:example:e#k") => Ok(Cow::Owned(crate::auth::jwk_of(&pool().keys["E"]))),
            _ => Err(ProofValidationError::UnknownKey),
        }
    }
}

fn client(kind: &str, evil: bool) -> Arc<dyn Client + Send + Sync> {
    let p = pool();
    let signer = Arc::new(P256Signer::new(p.keys[if evil { "E" } else { "A" }].clone()).unwrap());
    let chain = || vec![Certificate::from_der(&p.certs[if evil { "evil" } else { "good" }]).unwrap()];
    match kind {
        "did" => {
            let vm = if evil { "did:example:e#k" } else { "did:example:v#k" };
            Arc::new(block(DIDClient::new(vm.into(), signer, Dids)).expect("a DID client"))
        }
        "x509_san_dns" => Arc::new(X509SanDnsClient::new(chain(), signer).expect("an X.509 client")),
        _ => Arc::new(X509HashClient::new(chain(), signer).expect("an X.509 client")),
    }
}

/// The network as its owner set it up for the next exchange.
#[derive(Default)]
struct Net {
    verifier: Mutex<Option<Verifier>>,
    /// What the wallet's next fetch gets: "honest", "lost" or a request object.
    answer: Mutex<String>,
    /// What happens to the wallet's next response.
    fate: Mutex<String>,
    uuids: Mutex<BTreeMap<String, Uuid>>,
    /// Every exchange: method, URL and body.
    log: Mutex<Vec<(String, String, Vec<u8>)>>,
    /// What validators were shown: session, the response.
    judged: Mutex<Vec<(Uuid, Value)>>,
}
fn reply(status: u16, body: impl Into<Vec<u8>>) -> Result<Response<Vec<u8>>> {
    Ok(Response::builder().status(status).body(body.into())?)
}
/// Whom and what the response says it is for.
fn token_of(r: &AuthorizationResponse) -> Value {
    match r {
        AuthorizationResponse::Unencoded(u) => json!({"token": serde_json::to_value(u.vp_token()).unwrap(), "state": u.state().map(|s| s.0.clone())}),
        AuthorizationResponse::Jwt(j) => serde_json::from_slice(&BASE64_URL_SAFE_NO_PAD.decode(&j.response).unwrap_or_default()).unwrap_or_default(),
    }
}
impl Net {
    async fn verify(&self, id: Uuid, body: &[u8]) -> Result<()> {
        let v = self.verifier.lock().unwrap().clone().unwrap();
        let response = AuthorizationResponse::from_x_www_form_urlencoded(body)?;
        v.verify_response(id, response, |session, response| {
            let got = token_of(&response);
            let o = serde_json::to_value(&session.authorization_request_object).unwrap();
            self.judged.lock().unwrap().push((session.uuid, got.clone()));
            let fits = got["token"]["cred"][0] == json!(format!("for {} nonce {}", o["client_id"].as_str().unwrap(), o["nonce"].as_str().unwrap()))
                && got["state"] == o["state"];
            Box::pin(async move {
                if fits {
                    Outcome::Success { info: got }
                } else {
                    Outcome::Failure { reason: "made for another request".into() }
                }
            })
        })
        .await
    }
}
#[async_trait]
impl AsyncHttpClient for Net {
    async fn execute(&self, q: Request<Vec<u8>>) -> Result<Response<Vec<u8>>> {
        let url = q.uri().to_string();
        self.log.lock().unwrap().push((q.method().to_string(), url.clone(), q.body().clone()));
        let id = url.rsplit('/').next().and_then(|s| s.parse::<Uuid>().ok());
        if q.method() == "GET" {
            let answer = self.answer.lock().unwrap().clone();
            let v = self.verifier.lock().unwrap().clone().unwrap();
            return match answer.as_str() {
                "lost" => bail!("connection reset"),
                "honest" if url.starts_with(AT) => match v.retrieve_authorization_request(id.unwrap()).await {
                    Ok(jwt) => reply(200, jwt),
                    Err(e) => reply(404, e.to_string()),
                },
                "honest" => reply(404, ""),
                jwt => reply(200, jwt),
            };
        }
        let fate = self.fate.lock().unwrap().clone();
        let to = match fate.as_str() {
            "lost" => bail!("connection reset"),
            s @ ("s1" | "s2") => Some(self.uuids.lock().unwrap()[s]),
            _ if url.starts_with(TO) => id,
            _ => None,
        };
        if let Some(id) = to {
            self.verify(id, q.body()).await?;
        }
        if fate == "unacknowledged" {
            bail!("timed out")
        }
        reply(200, json!({"redirect_uri": "https://v.example/done"}).to_string())
    }
}

struct TheWallet {
    md: WalletMetadata,
    net: Net,
}
#[async_trait]
impl RequestVerifier for TheWallet {
    async fn decentralized_identifier(&self, o: &AuthorizationRequestObject, j: Option<String>) -> Result<()> {
        let trusted = ["did:example:v".to_string(), "did:example:e".to_string()];
        did::verify_with_resolver(&self.md, o, j.ok_or(anyhow!("unsigned"))?, Some(&trusted), &Dids).await
    }
    async fn x509_san_dns(&self, o: &AuthorizationRequestObject, j: Option<String>) -> Result<()> {
        x509_san::validate::<P256Verifier>(&self.md, o, j.ok_or(anyhow!("unsigned"))?, None)
    }
    async fn x509_hash(&self, o: &AuthorizationRequestObject, j: Option<String>) -> Result<()> {
        x509_hash::validate::<P256Verifier>(&self.md, o, j.ok_or(anyhow!("unsigned"))?, None)
    }
}
#[async_trait]
impl Wallet for TheWallet {
    type HttpClient = Net;
    fn metadata(&self) -> &WalletMetadata {
        &self.md
    }
    fn http_client(&self) -> &Net {
        &self.net
    }
}

fn sign(header: &Value, body: &Value, key: &str) -> String {
    let m = format!("{}.{}", b64(header), b64(body));
    format!("{m}.{}", BASE64_URL_SAFE_NO_PAD.encode(p256_sign(&pool().keys[key])(m.as_bytes())))
}

pub fn protocol(v: &Value, _seed: u64) -> Ran {
    let mut r = Ran::new();
    let conf = &v["conf"];
    let (kind, mode) = (conf["kind"].as_str().unwrap(), conf["mode"].as_str().unwrap());
    let prefix = if kind == "did" { "decentralized_identifier" } else { kind };
    let md = || {
        wallet_metadata(json!({"authorization_endpoint": "openid4vp://authorize",
            "client_id_prefixes_supported": [prefix], "request_object_signing_alg_values_supported": ["ES256"],
            "authorization_encryption_alg_values_supported": ["ECDH-ES"], "authorization_encryption_enc_values_supported": ["A128GCM"]}))
    };
    let (honest, evil) = (client(kind, false), client(kind, true));
    let mut b = Verifier::builder()
        .with_client(honest.clone())
        .with_session_store(Arc::new(MemoryStore::default()))
        .with_submission_endpoint(TO.parse().unwrap());
    b = if conf["delivery"] == "reference" { b.by_reference(AT.parse().unwrap()) } else { b.by_value() };
    let verifier = block(b.build()).expect("a verifier");
    let meta = json!({"vp_formats_supported": {"dc+sd-jwt": {}}, "jwks": {"keys": [
        {"kty": "EC", "crv": "P-256", "x": "x", "y": "y", "use": "enc", "alg": "ECDH-ES", "kid": "1"}]}});
    let (mut links, mut uuids, mut jwts) = (BTreeMap::new(), BTreeMap::new(), BTreeMap::<String, String>::new());
    for s in ["s1", "s2"] {
        let (id, url) = block(
            verifier
                .build_authorization_request()
                .with_dcql_query(query("cred"))
                .with_request_parameter(ResponseType::VpToken)
                .with_request_parameter(ResponseMode::from(mode.to_string()))
                .with_request_parameter(Nonce::from(format!("nonce-{s}")))
                .with_request_parameter(State(format!("state-{s}")))
                .with_request_parameter(ClientMetadata(serde_json::from_value(meta.clone()).unwrap()))
                .build(md()),
        )
        .expect("a request");
        links.insert(s, url.clone());
        uuids.insert(s.to_string(), id);
        // The network owner gets at the request object as anyone can: from the link, or by asking another verifier's
        // worth of state. Here it is taken from the session, so as not to count as a retrieval.
        let parsed = AuthorizationRequest::from_url(url, &md().authorization_endpoint().0).expect("its own link");
        if let RequestIndirection::ByValue { request } = parsed.request_indirection {
            jwts.insert(s.into(), request);
        }
    }
    // With delivery by reference: what a second verifier over the same request would serve, obtained through a session
    // of its own whose status is not looked at.
    let object_of = |s: &str| {
        json!({"client_id": honest.id().0, "dcql_query": serde_json::to_value(query("cred")).unwrap(), "response_type": "vp_token",
            "response_mode": mode, "nonce": format!("nonce-{s}"), "state": format!("state-{s}"), "client_metadata": meta,
            "response_uri": format!("{TO}/{}", uuids[s])})
    };
    for s in ["s1", "s2"] {
        if !jwts.contains_key(s) {
            let typed: AuthorizationRequestObject = serde_json::from_value(object_of(s)).expect("the same request");
            jwts.insert(s.into(), block(honest.generate_request_object_jwt(&typed)).expect("signed"));
        }
    }
    let e_object = |nonce: &str| {
        let mut o = object_of("s1");
        o["client_id"] = json!(evil.id().0);
        o["nonce"] = json!(nonce);
        o["response_uri"] = json!(EVIL);
        o
    };
    for (name, nonce) in [("e", "nonce-e"), ("e1", "nonce-s1")] {
        let typed: AuthorizationRequestObject = serde_json::from_value(e_object(nonce)).unwrap();
        jwts.insert(name.into(), block(evil.generate_request_object_jwt(&typed)).unwrap());
    }
    let mut as_v = object_of("s1");
    as_v["response_uri"] = json!(EVIL);
    let parts: Vec<String> = jwts["s1"].split('.').map(Into::into).collect();
    let other: Vec<String> = jwts["s2"].split('.').map(Into::into).collect();
    let (hv, he) = (header(&jwts["s1"]).unwrap(), header(&jwts["e"]).unwrap());
    jwts.insert("asV".into(), sign(&he, &as_v, "E"));
    jwts.insert("asVheader".into(), sign(&hv, &as_v, "E"));
    jwts.insert("altered".into(), format!("{}.{}.{}", parts[0], b64(&as_v), parts[2]));
    jwts.insert("swapped".into(), format!("{}.{}.{}", parts[0], parts[1], other[2]));
    let mut hn = hv.clone();
    hn["alg"] = json!("none");
    jwts.insert("none".into(), format!("{}.{}.", b64(&hn), parts[1]));

    let w = TheWallet { md: md(), net: Net::default() };
    *w.net.verifier.lock().unwrap() = Some(verifier.clone());
    *w.net.uuids.lock().unwrap() = uuids.clone();
    let mut held: Option<AuthorizationRequestObject> = None;
    let mut seen = vec![];
    for (i, h) in v["hist"].as_array().unwrap().iter().enumerate() {
        let s = |k: &str| h[k].as_str().unwrap();
        let jwt_body = |j: &str| payload(&jwts[j]).unwrap();
        w.net.log.lock().unwrap().clear();
        w.net.judged.lock().unwrap().clear();
        let ok = h["ok"].as_bool().unwrap();
        if s("op") == "open" {
            let outer = match s("outer") {
                "V" => Some(honest.id().0.clone()),
                "E" => Some(evil.id().0.clone()),
                _ => None,
            };
            *w.net.answer.lock().unwrap() = jwts.get(s("answer")).cloned().unwrap_or(s("answer").into());
            let url: Url = if s("outer") == "link" {
                links[s("at")].clone()
            } else {
                let request_indirection = if s("at") == "-" {
                    RequestIndirection::ByValue { request: jwts[s("answer")].clone() }
                } else {
                    RequestIndirection::ByReference { request_uri: format!("{AT}/{}", uuids[s("at")]).parse().unwrap() }
                };
                AuthorizationRequest { client_id: outer, request_indirection }.to_url(md().authorization_endpoint().0.clone()).unwrap()
            };
            let got = block(w.validate_request(url));
            seen.push(json!({"ok": got.is_ok(), "error": got.as_ref().err().map(|e| format!("{e:#}"))}));
            r.check(got.is_ok() == ok, if ok { "a genuine request was refused" } else { "a request was accepted that is not its client's" },
                || json!({"step": i, "got": seen.last()}));
            held = got.ok();
            if let (Some(o), true) = (&held, ok) {
                let (o, want) = (serde_json::to_value(o).unwrap(), if s("jwt").starts_with('e') { jwt_body(s("jwt")) } else { object_of(s("jwt")) });
                r.check(o == want, "the wallet accepted another request than was made", || json!({"step": i, "got": o, "expected": want}));
            }
        } else {
            let Some(o) = held.take() else {
                r.fail("nothing to answer", json!(i));
                break;
            };
            let j = jwt_body(s("jwt"));
            let token = json!({"cred": [format!("for {} nonce {}", j["client_id"].as_str().unwrap(), o.nonce())]});
            let state = o.state().transpose().unwrap().map(|s| s.0);
            let response = if mode == "direct_post" {
                let t: VpToken = serde_json::from_value(token.clone()).unwrap();
                AuthorizationResponse::Unencoded(UnencodedAuthorizationResponse::with_state(t, State(state.clone().unwrap())))
            } else {
                AuthorizationResponse::Jwt(JwtAuthorizationResponse { response: b64(&json!({"token": token, "state": state})) })
            };
            *w.net.fate.lock().unwrap() = s("net").into();
            let got = block(w.submit_response(o, response));
            seen.push(json!({"ok": got.is_ok(), "error": got.as_ref().err().map(|e| format!("{e:#}"))}));
            r.check(got.is_ok() == ok, "the wallet was told otherwise than what happened", || json!({"step": i, "got": seen.last()}));
            if let (Ok(u), true) = (&got, ok) {
                r.check(u.as_ref().map(Url::as_str) == Some("https://v.example/done"), "the redirect was lost", || json!(u));
            }
            let log = w.net.log.lock().unwrap().clone();
            let home = if s("home") == "E" { EVIL.to_string() } else { format!("{TO}/{}", uuids[s("home")]) };
            r.check(log.len() == 1 && log[0].0 == "POST" && log[0].1 == home, "the response was not sent once to the address in the request",
                || json!(log.iter().map(|l| [&l.0, &l.1]).collect::<Vec<_>>()));
            let judged = w.net.judged.lock().unwrap().clone();
            let want: Vec<(Uuid, Value)> = uuids.get(s("to")).map(|u| (*u, json!({"token": token, "state": state}))).into_iter().collect();
            r.check(judged == want, "the verifier judged another response", || json!([judged, want]));
        }
        for k in ["s1", "s2"] {
            let now = match block(verifier.poll_status(uuids[k])) {
                Ok(Status::SentRequestByReference) => "ByReference",
                Ok(Status::SentRequest) => "Sent",
                Ok(Status::ReceivedResponse) => "Received",
                Ok(Status::Complete(Outcome::Success { .. })) => "Success",
                Ok(Status::Complete(Outcome::Failure { .. })) => "Failure",
                Ok(Status::Complete(Outcome::Error { .. })) => "Error",
                Err(_) => "none",
            };
            r.check(h["status"][k] == now, "the session's status differs", || json!({"step": i, "session": k, "got": now, "expected": h["status"][k]}));
        }
    }
    r.runs = seen.len();
    r.seen = json!(seen);
    r
}
