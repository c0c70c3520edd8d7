//! Replays Build.tla (P04: when a request is built, and all or nothing; P05: what is in it).
use crate::{
    fake::*,
    util::{block, Ran},
};
use anyhow::{anyhow, bail, Result};
use async_trait::async_trait;
use openid4vp::{
    core::{
        authorization_request::{
            parameters::{ClientId, ClientMetadata, RedirectUri, ResponseUri, State},
            AuthorizationRequestObject,
        },
        dcql_query::DcqlQuery,
        metadata::WalletMetadata,
        object::TypedParameter,
    },
    verifier::{
        request_builder::RequestBuilder,
        session::{Session, SessionStore, Status},
        Verifier, VerifierBuilder,
    },
};
use serde_json::{json, Map, Value};
use std::sync::{Arc, Mutex};
use url::Url;
use uuid::Uuid;

/// A parameter with any JSON value.
macro_rules! raw {
    ($n:ident, $k:literal) => {
        #[derive(Debug, Clone)]
        pub struct $n(pub Value);
        impl TryFrom<Value> for $n {
            type Error = anyhow::Error;
            fn try_from(v: Value) -> Result<Self> {
                Ok($n(v))
            }
        }
        impl From<$n> for Value {
            fn from(v: $n) -> Value {
                v.0
            }
        }
        impl TypedParameter for $n {
            const KEY: &'static str = $k;
        }
    };
}
raw!(RawType, "response_type");
raw!(RawMode, "response_mode");
raw!(RawNonce, "nonce");
raw!(RawQuery, "dcql_query");
raw!(RawAud, "aud");
raw!(RawData, "transaction_data");
raw!(RawOrigins, "expected_origins");
raw!(RawInfo, "verifier_info");
raw!(RawCustom, "x_custom");
raw!(RawScheme, "client_id_scheme");
raw!(RawScope, "scope");
raw!(RawIss, "iss");
raw!(RawExp, "exp");
raw!(RawIat, "iat");
raw!(RawJti, "jti");
raw!(RawMethod, "request_uri_method");
raw!(RawPurpose, "purpose");
raw!(RawDefinition, "presentation_definition");
raw!(RawWalletNonce, "wallet_nonce");
raw!(RawLikeId, "client_Id");
raw!(RawLikeNonce, "Nonce");
raw!(RawLikeMode, "response-mode");
raw!(RawRequest, "request");
raw!(RawRequestUri, "request_uri");
raw!(RawHint, "id_token_hint");

fn tok(s: &str) -> &str {
    static L: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    match s {
        "@long" => L.get_or_init(|| "n-0S6_Wz".repeat(600)),
        "@unicode" => "\u{e9}\u{1f600}\u{0}\u{2028}e\u{301} \"\\",
        "special" => "s p&=+/%20\"\\é😀",
        s => s,
    }
}
/// A further parameter of a request.
fn extra(k: &str) -> Value {
    match k {
        "aud" => json!("https://self-issued.me/v2"),
        "transaction_data" => json!(["eyJ0eXBlIjoieCJ9", "eyJ0eXBlIjoieSJ9"]),
        "expected_origins" => json!(["https://v.example", "https://w.example"]),
        "verifier_info" => json!([{"format": "jwt", "data": "x.y.z", "credential_ids": ["pid"]}]),
        "client_id_scheme" => json!("x509_hash"),
        "scope" => json!("openid com.example"),
        "iss" | "jti" | "purpose" | "request" | "client_Id" | "Nonce" | "response-mode" | "id_token_hint" => json!(format!("the {k} & more")),
        "exp" | "iat" => json!(1_700_000_000),
        "request_uri_method" => json!("post"),
        "request_uri" => json!("https://v.example/elsewhere"),
        _ => json!({"b": [1, null, {"é": 1.5}], "a": "", "nonce": "x"}),
    }
}

#[derive(Debug, Default)]
pub struct FailingStore {
    pub inner: PlainStore,
    pub fail: Mutex<bool>,
}
#[async_trait]
impl SessionStore for FailingStore {
    async fn initiate(&self, session: Session) -> Result<()> {
        if *self.fail.lock().unwrap() {
            return Err(crate::util::fault("store"))
        }
        self.inner.initiate(session).await
    }
    async fn update_status(&self, uuid: Uuid, status: Status) -> Result<()> {
        self.inner.update_status(uuid, status).await
    }
    async fn get_session(&self, uuid: Uuid) -> Result<Session> {
        self.inner.get_session(uuid).await
    }
    async fn remove_session(&self, uuid: Uuid) -> Result<()> {
        self.inner.remove_session(uuid).await
    }
}

fn val(s: &str) -> Option<Value> {
    match s {
        "-" => None,
        "#number" => Some(json!(5)),
        "#list" => Some(json!(["direct_post"])),
        "#null" => Some(Value::Null),
        "#bool" => Some(json!(true)),
        "#object" => Some(json!({"nonce": "n"})),
        s => Some(json!(tok(s))),
    }
}

pub fn client_id(prefix: &str) -> &'static str {
    match prefix {
        "x509_san_dns" => "x509_san_dns:v.example",
        "decentralized_identifier" => "decentralized_identifier:did:example:v",
        "odd" => "client 1&request=x#ü%20+",
        "colon" => "https://v.example/client",
        "slash" => "redirect_uri:https://v.example/cb/?x=1/",
        "upper" => "CLIENT-1",
        "blank" => " client 1 ",
        "x509_hash" => "x509_hash:Uvo3HtuIxuhC92rShpgqcT3YXwrqRxWEviRiA0OZszk",
        "longid" => {
            static L: std::sync::OnceLock<String> = std::sync::OnceLock::new();
            L.get_or_init(|| "client-of-a-long-name.".repeat(200))
        }
        "encoded" => "client%201%26request%3Dx?a=b&c=d",
        _ => "client-1",
    }
}

pub fn client_meta(which: &str) -> Value {
    match which {
        "empty" => json!({}),
        "keys" => json!({"jwks": {"keys": [{"kty": "EC", "crv": "P-256", "use": "enc", "alg": "ECDH-ES", "kid": "k", "x": "AA", "y": "BB"}]},
            "encrypted_response_enc_values_supported": ["A256GCM"], "vp_formats_supported": {"mso_mdoc": {}, "x-other": {"a": [1, null]}}}),
        _ => json!({"vp_formats_supported": {"dc+sd-jwt": {}}, "client_name": "ä client"}),
    }
}

enum Built {
    Url(Uuid, Url),
    Jwt(Uuid, String),
}

/// The identifier prefix of a client; most have none.
fn prefix(c: &Value) -> &str {
    match c["client"].as_str().unwrap() {
        p @ ("x509_san_dns" | "decentralized_identifier" | "x509_hash") => p,
        _ => "pre-registered",
    }
}

fn shaped(c: &Value, id: &str) -> DcqlQuery {
    let q = match c["qshape"].as_str().unwrap() {
        "rich" => json!({"credentials": [
            {"id": id, "format": "mso_mdoc", "meta": {"doctype_value": "org.iso.18013.5.1.mDL"}, "multiple": false, "require_cryptographic_holder_binding": true,
             "trusted_authorities": [{"type": "aki", "values": ["s9tIpPmhxdiuNkHMEWNpYim8S8Y", "x"]}],
             "claims": [{"id": "a", "path": ["org.iso.18013.5.1", "family_name"], "intent_to_retain": false},
                        {"id": "b", "path": ["x", null, 0], "values": ["é", -1, true, ""]}],
             "claim_sets": [["a", "b"], ["b"]]},
            {"id": "second", "format": "x-other", "meta": {}, "multiple": true}],
            "credential_sets": [{"options": [[id, "second"], []], "required": false}, {"options": [["second"]]}]}),
        "many" => json!({"credentials": (0..120).map(|i| json!({"id": format!("{id}-{i}"), "format": "dc+sd-jwt", "meta": {"vct_values": [format!("v{i}")]}})).collect::<Vec<_>>()}),
        _ => return query(id),
    };
    serde_json::from_value(q).unwrap()
}

fn wallet(c: &Value) -> WalletMetadata {
    let cl = prefix(c);
    let mut others: Vec<String> = ["pre-registered", "x509_san_dns", "decentralized_identifier", "x509_hash"]
        .iter()
        .filter(|p| **p != cl)
        .map(|p| p.to_string())
        .collect();
    others.push(format!("{cl} "));
    others.push(cl[..cl.len() - 1].to_string());
    others.push(format!("{cl}:"));
    let prefixes = match c["prefixes"].as_str().unwrap() {
        "-" => Value::Null,
        "none" => json!([]),
        "same" => json!([cl]),
        "same+others" => json!([others[0], cl, others[1]]),
        "others" => json!(others),
        "case" => json!([cl.to_uppercase()]),
        "twice" => json!([cl, cl]),
        "crowd" => json!((0..60).map(|i| if i == 55 { cl.to_string() } else { format!("p{i}") }).collect::<Vec<_>>()),
        "crowdwithout" => json!((0..60).map(|i| format!("{cl}{i}")).collect::<Vec<_>>()),
        "star" => json!(["*"]),
        "empties" => json!(["", " "]),
        "quoted" => json!([format!("\"{cl}\""), format!("{cl},{cl}"), format!("{cl} {cl}")]),
        "#text" => json!(cl),
        "#texts" => json!([cl, 5]),
        _ => json!(5),
    };
    let mut m = json!({"authorization_endpoint": c["wallet"], "client_id_prefixes_supported": prefixes});
    if c["wmore"] == "declares" {
        m["request_object_signing_alg_values_supported"] = json!(["EdDSA"]);
        m["response_types_supported"] = json!(["code"]);
        m["response_modes_supported"] = json!(["fragment"]);
        m["vp_formats_supported"] = json!({"ldp_vc": {}});
        m["authorization_encryption_alg_values_supported"] = json!(["RSA-OAEP"]);
        m["x_unknown"] = json!({"client_id": "x"});
    }
    wallet_metadata(m)
}

fn attempt(c: &Value, v: &Verifier, query: &DcqlQuery) -> Result<Built> {
    let s = |k: &str| c[k].as_str().unwrap();
    let mut b = v.build_authorization_request();
    if s("qparam") != "-" {
        b = b.with_request_parameter(RawQuery(json!({"credentials": [{"id": "other", "format": "mso_mdoc"}]})));
    }
    if s("origin") != "default" {
        if let Some(x) = val(s("rtype")) {
            b = b.with_request_parameter(RawType(x));
        }
        if let Some(x) = val(s("rmode")) {
            b = b.with_request_parameter(RawMode(x));
        }
        if let Some(x) = val(s("nonce")) {
            b = b.with_request_parameter(RawNonce(x));
        }
    }
    if s("state") != "-" {
        b = b.with_request_parameter(State(tok(s("state")).into()));
    }
    let x = extra(s("extra"));
    b = match s("extra") {
        "-" => b,
        "aud" => b.with_request_parameter(RawAud(x)),
        "transaction_data" => b.with_request_parameter(RawData(x)),
        "expected_origins" => b.with_request_parameter(RawOrigins(x)),
        "verifier_info" => b.with_request_parameter(RawInfo(x)),
        "client_id_scheme" => b.with_request_parameter(RawScheme(x)),
        "scope" => b.with_request_parameter(RawScope(x)),
        "iss" => b.with_request_parameter(RawIss(x)),
        "exp" => b.with_request_parameter(RawExp(x)),
        "iat" => b.with_request_parameter(RawIat(x)),
        "jti" => b.with_request_parameter(RawJti(x)),
        "request_uri_method" => b.with_request_parameter(RawMethod(x)),
        "purpose" => b.with_request_parameter(RawPurpose(x)),
        "presentation_definition" => b.with_request_parameter(RawDefinition(x)),
        "wallet_nonce" => b.with_request_parameter(RawWalletNonce(x)),
        "client_Id" => b.with_request_parameter(RawLikeId(x)),
        "Nonce" => b.with_request_parameter(RawLikeNonce(x)),
        "response-mode" => b.with_request_parameter(RawLikeMode(x)),
        "request" => b.with_request_parameter(RawRequest(x)),
        "request_uri" => b.with_request_parameter(RawRequestUri(x)),
        "id_token_hint" => b.with_request_parameter(RawHint(x)),
        _ => b.with_request_parameter(RawCustom(x)),
    };
    if s("meta") != "-" {
        b = b.with_request_parameter(ClientMetadata(serde_json::from_value(client_meta(s("meta")))?));
    }
    if s("cid") == "caller" {
        b = b.with_request_parameter(ClientId("evil".into()));
    }
    if s("ruri") != "-" {
        b = b.with_request_parameter(ResponseUri(s("ruri").parse()?));
    }
    if s("redir") != "-" {
        b = b.with_request_parameter(RedirectUri(s("redir").parse()?));
    }
    if s("query") == "yes" {
        b = b.with_dcql_query(query.clone());
    }
    Ok(match s("api") {
        "build" => {
            let (id, url) = block(b.build(wallet(c)))?;
            Built::Url(id, url)
        }
        "build_id" => {
            let id = match s("id") {
                "nil" => Uuid::nil(),
                "max" => Uuid::max(),
                "v7" => "018f2b5c-7d1e-7cc1-9d0a-2b5c7d1e9d0a".parse().unwrap(),
                "v5" => "886313e1-3b8a-5372-9b90-0c9aee199e5d".parse().unwrap(),
                "v4again" => "00000000-0000-4000-8000-000000000000".parse().unwrap(),
                "v1" => "f47ac10b-58cc-1372-8567-0e02b2c3d479".parse().unwrap(),
                _ => Uuid::new_v4(),
            };
            Built::Url(id, block(b.build_with_session_id(id, wallet(c)))?)
        }
        _ => {
            let (id, jwt) = block(b.build_dc_api())?;
            Built::Jwt(id, jwt)
        }
    })
}

fn verifier(c: &Value, client: &Arc<FakeClient>, store: &Arc<FailingStore>) -> Result<Verifier> {
    let s = |k: &str| c[k].as_str().unwrap();
    let mut b: VerifierBuilder = Verifier::builder();
    if s("missing") != "client" {
        b = b.with_client(client.clone());
    }
    if s("missing") != "store" {
        b = b.with_session_store(store.clone());
    }
    if s("missing") != "endpoint" {
        b = b.with_submission_endpoint(s("submit").parse()?);
    }
    b = match s("byref") {
        "value" => b.by_value(),
        u => b.by_reference(u.parse()?),
    };
    let d = s("origin");
    if d == "default" {
        if let Some(x) = val(s("rtype")) {
            b = b.with_default_request_parameter(RawType(x));
        }
        if let Some(x) = val(s("rmode")) {
            b = b.with_default_request_parameter(RawMode(x));
        }
        if let Some(x) = val(s("nonce")) {
            b = b.with_default_request_parameter(RawNonce(x));
        }
    }
    if d == "override" {
        // Different from what the caller asks for; absent where the caller asks for nothing.
        if val(s("rtype")).is_some() {
            b = b.with_default_request_parameter(RawType(json!(if s("rtype") == "vp_token" { "code" } else { "vp_token" })));
        }
        if val(s("rmode")).is_some() {
            b = b.with_default_request_parameter(RawMode(json!(if s("rmode") == "direct_post" { "dc_api" } else { "direct_post" })));
        }
        if val(s("nonce")).is_some() {
            b = b.with_default_request_parameter(RawNonce(json!("default-nonce")));
        }
    }
    if s("cid") == "default" {
        b = b.with_default_request_parameter(ClientId("evil".into()));
    }
    block(b.build())
}

pub fn run(v: &Value, _seed: u64, content: bool) -> Ran {
    let mut r = Ran::new();
    let c = &v["c"];
    let s = |k: &str| c[k].as_str().unwrap();
    let cl = s("client");
    let client = Arc::new(FakeClient::new(client_id(cl), prefix(c)));
    let store = Arc::new(FailingStore::default());

    // A session that is none of the build's business.
    let by = Arc::new(FakeClient::new("bystander", "pre-registered"));
    let mut good = c.clone();
    for (k, x) in json!({"missing": "-", "query": "yes", "rtype": "vp_token", "rmode": "direct_post", "nonce": "by",
        "origin": "caller", "cid": "-", "ruri": "-", "redir": "-", "byref": "value", "submit": "https://by.example/s",
        "prefixes": "-", "client": "pre-registered", "api": "dc_api", "id": "v4", "qshape": "one", "wmore": "-", "qparam": "-", "extra": "-"}).as_object().unwrap()
    {
        good[k] = x.clone();
    }
    let bv = verifier(&good, &by, &store).unwrap();
    let Built::Jwt(by_id, _) = attempt(&good, &bv, &query("by")).unwrap() else { unreachable!() };
    let before = format!("{:?}", block(store.get_session(by_id)).unwrap());

    *client.fail.lock().unwrap() = s("signer") == "fail";
    *store.fail.lock().unwrap() = s("store") == "fail";
    let q = shaped(c, "pid");
    let verifier = verifier(c, &client, &store);
    // Twice: nothing of one request may leak into the next.
    let mut ids = vec![];
    let fixed = s("api") == "build_id" && s("id") != "v4";
    for round in 0..if fixed { 1 } else { 2 } {
        let got = match &verifier {
            Ok(vf) => attempt(c, vf, &q),
            Err(e) => Err(anyhow!("{e:#}")),
        };
        let expected = v["ok"].as_bool().unwrap();
        let mut live: Vec<Uuid> = store.inner.0.lock().unwrap().keys().copied().filter(|k| *k != by_id).collect();
        live.retain(|k| !ids.contains(k));
        r.seen = json!({"ok": got.is_ok(), "error": got.as_ref().err().map(|e| format!("{e:#}")), "new sessions": live.len()});
        if !content {
            r.check(got.is_ok() == expected, if expected { "a valid request was refused" } else { "an invalid request was built" }, || r_json(&got));
            match &got {
                Err(_) => r.check(live.is_empty(), "a failed build left a session behind", || json!(round)),
                Ok(Built::Url(id, _)) | Ok(Built::Jwt(id, _)) => {
                    r.check(live == vec![*id], "a build must create exactly the session it returns", || json!([live, id]));
                }
            }
            let after = block(store.get_session(by_id)).map(|x| format!("{x:?}")).unwrap_or_default();
            r.check(before == after, "building changed another session", || json!([before, after]));
        } else if let (Ok(b), true) = (&got, expected) {
            check_content(&mut r, v, b, &client, &store, verifier.as_ref().unwrap(), &q);
        }
        match got {
            Ok(Built::Url(id, _)) | Ok(Built::Jwt(id, _)) => {
                r.check(!ids.contains(&id), "session identifiers repeat", || json!(id));
                ids.push(id);
            }
            _ => {}
        }
    }
    r.runs = if fixed { 1 } else { 2 };
    r
}

fn r_json(b: &Result<Built>) -> Value {
    match b {
        Ok(Built::Url(i, u)) => json!([i, u]),
        Ok(Built::Jwt(i, u)) => json!([i, u]),
        Err(e) => json!(format!("{e:#}")),
    }
}

fn same_object(a: &AuthorizationRequestObject, b: &Value) -> bool {
    serde_json::to_value(a).is_ok_and(|a| a == *b)
}

#[allow(clippy::too_many_arguments)]
fn check_content(r: &mut Ran, v: &Value, b: &Built, client: &FakeClient, store: &FailingStore, vf: &Verifier, q: &DcqlQuery) {
    let c = &v["c"];
    let (id, sent_jwt) = match b {
        Built::Url(id, url) => {
            // Addressed to the wallet, with exactly the client identifier and the request.
            let endpoint: Url = c["wallet"].as_str().unwrap().parse().unwrap();
            let mut bare = url.clone();
            bare.set_query(None);
            r.check(bare == endpoint, "the request is not addressed to the wallet's endpoint", || json!([url, endpoint]));
            let pairs: Vec<(String, String)> = url.query_pairs().into_owned().collect();
            let get = |k: &str| pairs.iter().filter(|p| p.0 == k).map(|p| p.1.clone()).collect::<Vec<_>>();
            r.check(get("client_id") == vec![client.id.0.clone()], "wrong client_id in the URL", || json!(url));
            r.check(pairs.len() == 2, "unexpected parameters in the URL", || json!(url));
            if v["uri"] == "-" {
                let j = get("request");
                r.check(j.len() == 1, "the request is not passed by value", || json!(url));
                (*id, j.first().cloned())
            } else {
                let want = v["uri"].as_str().unwrap().replace("{id}", &id.to_string());
                r.check(get("request_uri") == vec![want.clone()], "wrong request_uri", || json!([url, want]));
                (*id, None)
            }
        }
        Built::Jwt(id, jwt) => (*id, Some(jwt.clone())),
    };
    let Ok(session) = block(store.get_session(id)) else {
        return r.fail("no session under the returned identifier", json!(id));
    };
    // The object the client signed.
    let made = client.made.lock().unwrap().last().cloned().unwrap_or_default();
    let mut want = Map::new();
    for (k, x) in v["object"].as_object().unwrap() {
        let x = match (k.as_str(), x.as_str().unwrap()) {
            (_, "-") => continue,
            ("client_id", "own") => json!(client.id.0),
            ("dcql_query", "query") => serde_json::to_value(q).unwrap(),
            ("client_metadata", m) => client_meta(m),
            ("extra", e) => {
                want.insert(e.to_string(), extra(e));
                continue;
            }
            (_, s) => json!(tok(s).replace("{id}", &id.to_string())),
        };
        want.insert(k.clone(), x);
    }
    let want = Value::Object(want);
    let signed = payload(&made).unwrap_or_default();
    r.check(signed == want, "the signed request object is not the one asked for", || json!({"signed": signed, "wanted": want}));
    r.check(same_object(&session.authorization_request_object, &want), "the stored request object is not the one asked for",
        || json!({"stored": serde_json::to_value(&session.authorization_request_object).ok(), "wanted": want}));
    r.check(session.authorization_request_jwt == made, "the stored JWT is not the one signed", || json!([session.authorization_request_jwt, made]));
    if let Some(j) = sent_jwt {
        r.check(j == made, "the JWT handed out is not the one signed", || json!([j, made]));
    }
    r.check(session.uuid == id, "the session carries another identifier", || json!([session.uuid, id]));
    r.check(serde_json::to_value(&session.dcql_query).unwrap() == serde_json::to_value(q).unwrap(), "the session's query is not the one asked for", || json!(null));
    let st = crate::session::show(&session.status);
    r.check(v["status"] == st, "wrong initial status", || json!(st));
    match block(vf.retrieve_authorization_request(id)) {
        Ok(j) => r.check(j == made, "retrieval gives another JWT", || json!([j, made])),
        Err(e) => r.fail("retrieval failed", json!(format!("{e:#}"))),
    }
}

// ---------------------------------------------------------------------------- P06
struct Actors {
    a: Arc<FakeClient>,
    b: Arc<FakeClient>,
    s: Arc<PlainStore>,
    t: Arc<PlainStore>,
}

fn metas(x: &str) -> Value {
    match x {
        "m1" => json!({"vp_formats_supported": {"dc+sd-jwt": {}}, "client_name": "one"}),
        _ => json!({"vp_formats_supported": {"mso_mdoc": {}}, "jwks": {"keys": []}}),
    }
}

/// Builds a request from `b` and compares what comes out with `o`.
fn out(r: &mut Ran, w: &Actors, vf: &Verifier, b: RequestBuilder<'_>, o: &Value, which: &str, api: bool) {
    let got = if api {
        block(b.build_dc_api()).map(|(id, jwt)| (id, None, jwt))
    } else {
        block(b.build(wallet_metadata(json!({"authorization_endpoint": "openid4vp://authorize"})))).map(|(id, u)| (id, Some(u), String::new()))
    };
    let ok = o["ok"].as_bool().unwrap();
    r.check(got.is_ok() == ok, "a request comes out or not, wrongly", || json!([which, o, got.as_ref().map(|g| g.0).map_err(|e| format!("{e:#}"))]));
    let (Ok((id, url, jwt)), true) = (got, ok) else { return };
    let (client, other) = if o["client"] == "A" { (&w.a, &w.b) } else { (&w.b, &w.a) };
    let (store, elsewhere) = if o["store"] == "S" { (&w.s, &w.t) } else { (&w.t, &w.s) };
    let Ok(session) = block(store.get_session(id)) else {
        return r.fail("the session is not in the store set", json!([which, o]));
    };
    r.check(block(elsewhere.get_session(id)).is_err(), "the session is in another store", || json!([which, o]));
    r.check(block(vf.poll_status(id)).is_ok(), "the verifier does not know its session", || json!([which, o]));
    let made = client.made.lock().unwrap().last().cloned().unwrap_or_default();
    r.check(session.authorization_request_jwt == made, "the request is not signed by the client set", || json!([which, o, session.authorization_request_jwt]));
    r.check(!other.made.lock().unwrap().contains(&session.authorization_request_jwt), "another client signed the request", || json!([which, o]));
    if let Some(u) = url {
        let pairs: std::collections::BTreeMap<_, _> = u.query_pairs().into_owned().collect();
        let want = match o["byref"].as_str().unwrap() {
            "-" => ("request", made.clone()),
            at => ("request_uri", format!("{at}/{id}")),
        };
        r.check(pairs.get(want.0) == Some(&want.1) && pairs.get("client_id") == Some(&client.id.0) && pairs.len() == 2,
            "the request is not delivered as set", || json!([which, o, u]));
    } else {
        r.check(jwt == made, "the JWT handed out is another", || json!([which, o]));
    }
    let mut want = json!({"client_id": client.id.0, "dcql_query": query(o["query"].as_str().unwrap()), "response_type": "vp_token",
        "response_mode": "direct_post", "nonce": o["nonce"], "response_uri": format!("{}/{id}", o["endpoint"].as_str().unwrap())});
    if o["meta"] != "-" {
        want["client_metadata"] = metas(o["meta"].as_str().unwrap());
    }
    if o["state"] != "-" {
        want["state"] = o["state"].clone();
    }
    let signed = payload(&made).unwrap_or_default();
    r.check(signed == want, "the request does not have the settings made", || json!([which, signed, want]));
}

pub fn setup(v: &Value, seed: u64) -> Ran {
    let mut r = Ran::new();
    let w = Actors {
        a: Arc::new(FakeClient::new("client-a", "pre-registered")),
        b: Arc::new(FakeClient::new("client-b", "pre-registered")),
        s: Default::default(),
        t: Default::default(),
    };
    let with = |b: VerifierBuilder, op: &str, x: &str| match op {
        "client" => b.with_client(if x == "A" { w.a.clone() } else { w.b.clone() }),
        "store" => b.with_session_store(if x == "S" { w.s.clone() } else { w.t.clone() }),
        "endpoint" => b.with_submission_endpoint(x.parse().unwrap()),
        "by_reference" => b.by_reference(x.parse().unwrap()),
        "by_value" => b.by_value(),
        "default_nonce" => b.with_default_request_parameter(RawNonce(json!(x))),
        "default_meta" => b.with_default_request_parameter(ClientMetadata(serde_json::from_value(metas(x)).unwrap())),
        "default_state" => b.with_default_request_parameter(State(x.into())),
        op => panic!("{op}"),
    };
    let mut b = Verifier::builder()
        .with_default_request_parameter(RawType(json!("vp_token")))
        .with_default_request_parameter(RawMode(json!("direct_post")))
        .with_default_request_parameter(RawNonce(json!("n0")));
    if v["start"] == "full" {
        b = with(with(with(b, "client", "A"), "store", "S"), "endpoint", "https://v.example/e");
    }
    let calls: Vec<(&str, &str)> = v["hist"].as_array().unwrap().iter().map(|h| (h[0].as_str().unwrap(), h[1].as_str().unwrap())).collect();
    let turn = calls.iter().position(|c| c.0 == "turn").unwrap();
    let mut kept = None;
    for (op, x) in &calls[..turn] {
        if *op == "keep" {
            kept = Some(b.clone());
        } else {
            b = with(b, op, x);
        }
    }
    let api = seed % 2 == 0;
    let vf = block(b.build());
    r.check(json!(vf.is_ok()) == v["out"]["verifier"], "a verifier comes out or not, wrongly", || json!([v["out"], vf.as_ref().err().map(|e| format!("{e:#}"))]));
    r.seen = json!({"verifier": vf.is_ok()});
    if let Ok(vf) = &vf {
        let mut q = vf.build_authorization_request();
        if v["start"] == "empty" {
            q = q.with_dcql_query(query("q0"));
        }
        let mut copy = None;
        for (op, x) in &calls[turn + 1..] {
            q = match *op {
                "keep" => {
                    copy = Some(q.clone());
                    q
                }
                "query" => q.with_dcql_query(query(x)),
                "nonce" => q.with_request_parameter(RawNonce(json!(x))),
                "meta" => q.with_request_parameter(ClientMetadata(serde_json::from_value(metas(x)).unwrap())),
                "state" => q.with_request_parameter(State(x.to_string())),
                op => panic!("{op}"),
            };
        }
        out(&mut r, &w, vf, q, &v["out"], "the request", api);
        if let Some(q) = copy {
            out(&mut r, &w, vf, q, &v["keptout"], "a copy of the request", !api);
        }
        // Another request of the same verifier, and of a copy of it.
        out(&mut r, &w, vf, vf.build_authorization_request().with_dcql_query(query("q9")), &v["next"], "the next request", api);
        let vc = vf.clone();
        out(&mut r, &w, vf, vc.build_authorization_request().with_dcql_query(query("q9")), &v["next"], "a request of a copy", !api);
    }
    if let Some(b) = kept {
        let vf = block(b.build());
        r.check(json!(vf.is_ok()) == v["keptout"]["verifier"], "a verifier comes out of a copy or not, wrongly", || v["keptout"].clone());
        if let Ok(vf) = &vf {
            out(&mut r, &w, vf, vf.build_authorization_request().with_dcql_query(query("q9")), &v["keptout"], "a request of the verifier kept", api);
        }
    }
    r
}
