//! The wallet's side: Dispatch.tla (P07), Resolve.tla (P08), Encrypt.tla (P13), RequestObject.tla (P12).
use crate::{
    fake::*,
    util::{block, Ran},
};
use anyhow::Result;
use async_trait::async_trait;
use base64::prelude::*;
use http::{Request, Response};
use openid4vp::{
    core::{
        authorization_request::{
            parameters::{ResponseMode, ResponseType},
            verification::RequestVerifier,
            AuthorizationRequest, AuthorizationRequestObject, RequestIndirection,
        },
        metadata::WalletMetadata,
        util::AsyncHttpClient,
    },
    wallet::Wallet,
};
use serde_json::{json, Map, Value};
use std::sync::Mutex;
use url::Url;

/// Answers every request with the same reply and remembers the requests.
#[derive(Default)]
pub struct FakeHttp {
    pub reply: Mutex<Option<(u16, Vec<u8>)>>,
    pub headers: Mutex<Vec<(String, String)>>,
    pub seen: Mutex<Vec<Request<Vec<u8>>>>,
}
#[async_trait]
impl AsyncHttpClient for FakeHttp {
    async fn execute(&self, request: Request<Vec<u8>>) -> Result<Response<Vec<u8>>> {
        self.seen.lock().unwrap().push(request);
        match &*self.reply.lock().unwrap() {
            None => return Err(crate::util::fault("network")),
            Some((status, body)) => {
                let mut b = Response::builder().status(*status);
                for (k, v) in self.headers.lock().unwrap().iter() {
                    b = b.header(k, v);
                }
                Ok(b.body(body.clone())?)
            }
        }
    }
}

/// The headers of a reply.
pub fn headers(ctype: &str) -> Vec<(String, String)> {
    match ctype {
        "-" => vec![],
        "other headers" => ["Location: https://evil.example/", "Retry-After: 1", "Content-Length: 0", "WWW-Authenticate: Basic", "Link: <https://evil.example>; rel=next", "X-Redirect-Uri: https://evil.example/"]
            .iter()
            .map(|h| h.split_once(": ").map(|(k, v)| (k.into(), v.into())).unwrap())
            .collect(),
        t => vec![("Content-Type".into(), t.into())],
    }
}

#[derive(Debug, Clone)]
pub struct HookCall {
    pub hook: String,
    pub object: Value,
    pub jwt: Option<String>,
    pub prefix: Option<String>,
}

/// A wallet whose hooks record that they were called, and accept or refuse.
pub struct SpyWallet {
    pub md: WalletMetadata,
    pub http: FakeHttp,
    pub accept: bool,
    /// Only the hook called first refuses, as it would if it was not implemented.
    pub missing: bool,
    /// Only the hook called first refuses.
    pub once: bool,
    pub calls: Mutex<Vec<HookCall>>,
}
impl SpyWallet {
    pub fn new(md: WalletMetadata, accept: bool) -> Self {
        SpyWallet { md, http: FakeHttp::default(), accept, missing: false, once: false, calls: Mutex::default() }
    }
    fn hook(&self, hook: &str, prefix: Option<&str>, o: &AuthorizationRequestObject, jwt: Option<String>) -> Result<()> {
        self.calls.lock().unwrap().push(HookCall {
            hook: hook.into(),
            object: serde_json::to_value(o)?,
            jwt,
            prefix: prefix.map(Into::into),
        });
        if self.accept || ((self.once || self.missing) && self.calls.lock().unwrap().len() > 1) {
            return Ok(());
        }
        if self.missing {
            let w = BareWallet { md: self.md.clone(), http: FakeHttp::default() };
            return block(async {
                match hook {
                    "decentralized_identifier" => w.decentralized_identifier(o, None).await,
                    "openid_federation" => w.openid_federation(o, None).await,
                    "preregistered" => w.preregistered(o, None).await,
                    "redirect_uri" => w.redirect_uri(o, None).await,
                    "verifier_attestation" => w.verifier_attestation(o, None).await,
                    "x509_san_dns" => w.x509_san_dns(o, None).await,
                    "x509_hash" => w.x509_hash(o, None).await,
                    _ => w.other(prefix.unwrap_or_default(), o, None).await,
                }
            });
        }
        Err(crate::util::fault("wallet"))
    }
}
#[async_trait]
impl RequestVerifier for SpyWallet {
    async fn decentralized_identifier(&self, o: &AuthorizationRequestObject, j: Option<String>) -> Result<()> {
        self.hook("decentralized_identifier", None, o, j)
    }
    async fn openid_federation(&self, o: &AuthorizationRequestObject, j: Option<String>) -> Result<()> {
        self.hook("openid_federation", None, o, j)
    }
    async fn preregistered(&self, o: &AuthorizationRequestObject, j: Option<String>) -> Result<()> {
        self.hook("preregistered", None, o, j)
    }
    async fn redirect_uri(&self, o: &AuthorizationRequestObject, j: Option<String>) -> Result<()> {
        self.hook("redirect_uri", None, o, j)
    }
    async fn verifier_attestation(&self, o: &AuthorizationRequestObject, j: Option<String>) -> Result<()> {
        self.hook("verifier_attestation", None, o, j)
    }
    async fn x509_san_dns(&self, o: &AuthorizationRequestObject, j: Option<String>) -> Result<()> {
        self.hook("x509_san_dns", None, o, j)
    }
    async fn x509_hash(&self, o: &AuthorizationRequestObject, j: Option<String>) -> Result<()> {
        self.hook("x509_hash", None, o, j)
    }
    async fn other(&self, prefix: &str, o: &AuthorizationRequestObject, j: Option<String>) -> Result<()> {
        self.hook("other", Some(prefix), o, j)
    }
}
#[async_trait]
impl Wallet for SpyWallet {
    type HttpClient = FakeHttp;
    fn metadata(&self) -> &WalletMetadata {
        &self.md
    }
    fn http_client(&self) -> &FakeHttp {
        &self.http
    }
}

/// A wallet that implements no authentication at all.
pub struct BareWallet {
    pub md: WalletMetadata,
    pub http: FakeHttp,
}
impl RequestVerifier for BareWallet {}
#[async_trait]
impl Wallet for BareWallet {
    type HttpClient = FakeHttp;
    fn metadata(&self) -> &WalletMetadata {
        &self.md
    }
    fn http_client(&self) -> &FakeHttp {
        &self.http
    }
}

pub fn mk_jwt(header: &Value, payload: &Value) -> String {
    format!("{}.{}.{}", b64(header), b64(payload), BASE64_URL_SAFE_NO_PAD.encode([7u8; 64]))
}

fn good_header() -> Value {
    json!({"alg": "ES256", "typ": "oauth-authz-req+jwt"})
}

const PREFIXES: [&str; 17] = [
    "decentralized_identifier", "openid_federation", "pre-registered", "redirect_uri", "verifier_attestation",
    "x509_san_dns", "x509_hash", "origin", "custom", "X509_SAN_DNS", "Origin", " x509_hash", "x509_hash ", "x509", "did",
    "https", "v",
];

// ---------------------------------------------------------------------------- P07
pub fn dispatch(v: &Value, _seed: u64) -> Ran {
    let mut r = Ran::new();
    let c = &v["c"];
    let s = |k: &str| c[k].as_str().unwrap();
    let prefix = v["prefix"].as_str().unwrap();
    let mut all: Vec<&str> = PREFIXES.to_vec();
    all.push("");
    all.push(prefix);
    let declared = match s("takes") {
        "undeclared" => Value::Null,
        "all" => json!(all),
        "allbut" => json!(all.iter().filter(|p| **p != prefix).collect::<Vec<_>>()),
        "only" => json!([if prefix == "NONE" { "nothing" } else { prefix }]),
        "empty" => json!([]),
        "near" => {
            let mut near = vec![format!("{prefix}:"), format!("{prefix} "), format!("{prefix}x"), format!("\u{feff}{prefix}"), prefix.to_uppercase()];
            near.extend(prefix.get(1..).map(String::from));
            near.extend(prefix.strip_suffix(|_| true).map(String::from));
            near.extend(s("cid").contains(':').then(|| s("cid").to_string()));
            near.push("*".into());
            near.push(format!("{}*", prefix.chars().take(4).collect::<String>()));
            near.push(".*".into());
            near.retain(|p| p != prefix);
            json!(near)
        }
        _ => json!("all"),
    };
    // Without a prefix there is nothing to look up, so a malformed list is not met.
    let md = wallet_metadata(json!({"client_id_prefixes_supported": declared}));
    let mut object = json!({"response_type": "vp_token", "response_mode": s("mode"), "nonce": "n"});
    if s("mode").starts_with("direct_post") {
        object["response_uri"] = json!("https://v.example/r");
    }
    if s("mode").ends_with(".jwt") {
        object["client_metadata"] = json!({"jwks": {"keys": [{"kty": "EC", "crv": "P-256", "x": "AA", "y": "AA", "use": "enc", "alg": "ECDH-ES", "kid": "1"}]}});
    }
    if s("old") != "-" {
        object["client_id_scheme"] = json!(s("old"));
    }
    if s("cid") != "ABSENT" {
        object["client_id"] = json!(s("cid"));
    }
    let jwt = mk_jwt(&good_header(), &object);
    let ind = match s("ind") {
        "value" => RequestIndirection::ByValue { request: jwt.clone() },
        "reference" => RequestIndirection::ByReference { request_uri: "https://v.example/req/1".parse().unwrap() },
        _ => RequestIndirection::Direct(serde_json::from_value(object.clone()).unwrap()),
    };
    let ar = AuthorizationRequest {
        client_id: (s("outer") == "same" && s("cid") != "ABSENT").then(|| s("cid").to_string()),
        request_indirection: ind,
    };
    let reply = Some((200, jwt.clone().into_bytes()));
    let (got, calls) = if s("hooks") == "default" {
        let w = BareWallet { md, http: FakeHttp::default() };
        *w.http.reply.lock().unwrap() = reply;
        (block(ar.validate(&w)), vec![])
    } else {
        let mut w = SpyWallet::new(md, s("hooks") == "accept");
        w.missing = s("hooks") == "unimplemented";
        w.once = true;
        *w.http.reply.lock().unwrap() = reply;
        (block(ar.validate(&w)), w.calls.into_inner().unwrap())
    };
    r.seen = json!({"ok": got.is_ok(), "error": got.as_ref().err().map(|e| format!("{e:#}")),
        "called": calls.iter().map(|c| c.hook.clone()).collect::<Vec<_>>()});
    let called: Vec<&str> = calls.iter().map(|c| c.hook.as_str()).collect();
    r.check(json!(called) == v["called"], "not exactly the authentication of this client identifier prefix ran", || json!(called));
    r.check(got.is_ok() == v["ok"].as_bool().unwrap(), "the request was accepted or refused against the verdict", || json!(null));
    for call in &calls {
        r.check(call.object == object, "the authentication saw another request object", || json!([call.object, object]));
        let want = (s("ind") != "direct").then(|| jwt.clone());
        r.check(call.jwt == want, "the authentication saw another JWT", || json!([call.jwt, want]));
        if let Some(p) = &call.prefix {
            r.check(p == prefix, "the authentication was told another prefix", || json!([p, prefix]));
        }
    }
    if let Ok(o) = got {
        let o = serde_json::to_value(&o).unwrap();
        r.check(o == object, "another request object came out", || json!([o, object]));
    }
    r
}

// ---------------------------------------------------------------------------- P08
pub fn resolve(v: &Value, _seed: u64) -> Ran {
    let mut r = Ran::new();
    let c = &v["c"];
    let s = |k: &str| c[k].as_str().unwrap();
    let inner = (s("inner") != "none").then(|| s("inner").to_string());
    let outer = inner.as_ref().and_then(|i| match s("outer") {
        "none" => None,
        "same" => Some(i.clone()),
        "redirect" => Some("redirect_uri:https://v.example/cb".into()),
        "other" if i.starts_with("redirect_uri:") => Some("redirect_uri:https://evil.example/cb".into()),
        "other" if i.contains(':') => Some("x509_san_dns:evil.example".into()),
        "other" => Some("client-2".into()),
        "bare" => i.split_once(':').map(|x| x.1.to_string()),
        "prefixed" => Some(format!("x509_hash:{i}")),
        "empty" => Some(String::new()),
        "escaped" => Some(i.replace("e", "%65")),
        "prefix" => Some(i[..i.len() - 1].into()),
        "longer" => Some(format!("{i}x")),
        "case" => Some(i.to_uppercase()),
        end if end.starts_with('+') => Some(format!("{i}{}", &end[1..])),
        _ => Some(format!("{i} ")),
    });
    let mut object = json!({"response_type": "vp_token", "response_mode": "direct_post",
        "response_uri": "https://v.example/r?a=1&b=2", "nonce": "n+1 %"});
    if s("body") == "nononce" {
        object.as_object_mut().unwrap().remove("nonce");
    }
    if let (Some(i), true) = (&inner, s("ind") != "direct") {
        object["client_id"] = json!(i);
    }
    let mut header = json!({"alg": "ES256"});
    match s("typ") {
        "NONE" => {}
        "NUMBER" => header["typ"] = json!(7),
        "LIST" => header["typ"] = json!(["oauth-authz-req+jwt"]),
        t => header["typ"] = json!(t),
    }
    let good = mk_jwt(&header, &object);
    let parts: Vec<&str> = good.split('.').collect();
    let raw = |b: &str| BASE64_URL_SAFE_NO_PAD.encode(b);
    let jwt = match s("jwt") {
        "ok" => good.clone(),
        "twoparts" => format!("{}.{}", parts[0], parts[1]),
        "nosig" => format!("{}.{}.", parts[0], parts[1]),
        "newline" => format!("{good}\n"),
        "space" => format!(" {good}"),
        "bom" => format!("\u{feff}{good}"),
        "quoted" => format!("\"{good}\""),
        "nul" => format!("{good}\0"),
        "fourparts" => format!("{good}.{}", parts[2]),
        "headerb64" => format!("{}!.{}.{}", parts[0], parts[1], parts[2]),
        "headerjson" => format!("{}.{}.{}", raw("{\"alg\":"), parts[1], parts[2]),
        "headerlist" => format!("{}.{}.{}", raw("[\"oauth-authz-req+jwt\"]"), parts[1], parts[2]),
        "bodyb64" => format!("{}.{}!.{}", parts[0], parts[1], parts[2]),
        "bodyjson" => format!("{}.{}.{}", parts[0], raw("{\"nonce\":"), parts[2]),
        "bodylist" => format!("{}.{}.{}", parts[0], raw("[1]"), parts[2]),
        _ => String::new(),
    };
    let at = match s("ref") {
        "plain" => "https://v.example/req/1",
        "ampersand" => "https://v.example/req/1?k=v&",
        "emptyquery" => "https://v.example/req/1?",
        "port" => "http://127.0.0.1:3000/",
        "user" => "https://u:p@v.example/req/1/",
        "escapes" => "https://v.example/a%2Fb/%C3%A9;x=1/%2e?%26=%3D&&+",
        _ => "https://v.example/req/1?k=v%20w&x=1",
    };
    let at: Url = at.parse().unwrap();
    let mut pairs: Vec<(String, String)> = vec![];
    if let Some(o) = &outer {
        pairs.push(("client_id".into(), o.clone()));
    }
    let ind = s("ind");
    if ind == "value" || ind == "both" {
        pairs.push(("request".into(), jwt.clone()));
    }
    if ind == "reference" || ind == "both" {
        pairs.push(("request_uri".into(), at.to_string()));
    }
    if let Some((k, x)) = s("more").split_once('=') {
        // First or last, it makes no difference.
        pairs.insert(if k.len() % 2 == 0 { 0 } else { pairs.len() }, (k.into(), x.into()));
    }
    if ind == "direct" {
        for (k, x) in object.as_object().unwrap() {
            pairs.push((k.clone(), x.as_str().unwrap().into()));
        }
        if let Some(o) = &outer {
            object["client_id"] = json!(o);
        }
        if let Some((k, x)) = s("more").split_once('=') {
            object[k] = json!(x);
        }
    }
    let query = if s("esc") == "form" {
        serde_urlencoded::to_string(&pairs).unwrap()
    } else {
        let sparse = |t: &str| -> String {
            t.bytes().map(|b| if b.is_ascii_alphanumeric() || b"-._~!$'()*,;:@/?".contains(&b) { (b as char).to_string() } else { format!("%{b:02x}") }).collect()
        };
        pairs.iter().map(|(k, x)| format!("{}={}", sparse(k), sparse(x))).collect::<Vec<_>>().join("&")
    };
    let end = s("end");
    let opaque = end == "openid4vp:";
    let here = match (s("at"), opaque) {
        ("same", _) | ("noquery", _) | ("infragment", _) | ("fragment", _) => end.to_string(),
        ("otherhost", true) => "openid4vp://evil.example".into(),
        ("otherpath", true) => "openid4vp:authorize".into(),
        ("scheme", true) => "haip:".into(),
        ("scheme", false) => end.replace("https:", "http:").replace("wallet:", "walle:"),
        ("otherhost", _) => end.replace("w.example", "evil.example"),
        ("hostsuffix", _) => end.replace("w.example", "w.example.evil.example"),
        ("hostprefix", _) => end.replace("w.example", "evil.w.example"),
        ("otherport", _) => {
            if end.contains(":8443") { end.replace(":8443", "") } else { end.replace("w.example", "w.example:444") }
        }
        ("userinfo", _) => end.replace("w.example", "user@w.example"),
        ("otherpath", _) => end.replace("/a", "/x"),
        ("pathprefix", _) => end[..end.len() - 1].to_string(),
        ("pathslash", _) => format!("{end}/"),
        ("pathcase", _) => end.replace("/a", "/A"),
        x => panic!("unknown {x:?}"),
    };
    let url = match s("at") {
        "noquery" => here,
        "infragment" => format!("{here}#{query}"),
        "fragment" => format!("{here}?{query}#frag"),
        _ => format!("{here}?{query}"),
    };
    let url: Url = url.parse().unwrap();
    let mut all: Vec<&str> = PREFIXES.to_vec();
    all.push("");
    let w = SpyWallet::new(
        wallet_metadata(json!({"authorization_endpoint": end, "client_id_prefixes_supported": all})),
        s("hook") == "accept",
    );
    *w.http.reply.lock().unwrap() = match s("http") {
        "neterror" => None,
        "notutf8" => Some((200, [jwt.as_bytes(), &[0xff]].concat())),
        "204" => Some((204, vec![])),
        n => Some((n.parse().unwrap(), jwt.clone().into_bytes())),
    };
    *w.http.headers.lock().unwrap() = headers(s("ctype"));
    let got = block(w.validate_request(url.clone()));
    let calls = w.calls.into_inner().unwrap();
    let fetched = w.http.seen.into_inner().unwrap();
    r.seen = json!({"url": url, "ok": got.is_ok(), "error": got.as_ref().err().map(|e| format!("{e:#}")), "fetched": fetched.len(), "hooks": calls.len()});
    let ok = v["ok"].as_bool().unwrap() && !(v["open"] == true && got.is_err());
    r.check(got.is_ok() == ok, if ok { "a proper request was refused" } else { "an improper request was accepted" }, || json!(url));
    let max = v["fetched"].as_u64().unwrap() as usize;
    r.check(fetched.len() <= max && (!ok || fetched.len() == max), "wrong number of fetches", || json!(fetched.len()));
    for f in &fetched {
        r.check(f.method() == "GET" && f.uri().to_string() == at.as_str() && f.body().is_empty(), "the request was fetched otherwise than by GET from its request_uri",
            || json!([f.method().as_str(), f.uri().to_string()]));
        r.check(f.headers().get("Prefer").is_some_and(|p| p == "OID4VP-1.0.0"), "the protocol version was not announced", || json!(null));
    }
    let shown = v["shown"].as_str().unwrap();
    r.check(calls.len() <= (shown != "-") as usize && (!ok || calls.len() == 1), "the wrong number of authentications ran", || json!(calls.len()));
    for call in &calls {
        let want = (shown == "jwt").then(|| jwt.clone());
        r.check(call.jwt == want, "the authentication saw another JWT than the one received", || json!([call.jwt, want]));
        r.check(call.object == object, "the authentication saw another request object than the one received", || json!([call.object, object]));
    }
    if let (Ok(o), true) = (&got, ok) {
        let o = serde_json::to_value(o).unwrap();
        r.check(o == object, "another request object came out", || json!([o, object]));
    }
    r
}

// ---------------------------------------------------------------------------- P13
fn list(v: &Value) -> Option<Value> {
    match v["s"].as_str().unwrap() {
        "-" => None,
        "bad" => Some(json!("A128GCM ECDH-ES")),
        "items" => Some(json!(["A128GCM", "ECDH-ES", 1])),
        _ => Some(v["l"].clone()),
    }
}

pub fn encrypt(v: &Value, _seed: u64) -> Ran {
    let mut r = Ran::new();
    let c = &v["c"];
    let s = |k: &str| c[k].as_str().unwrap();
    let member = |x: &Value| match x.as_str().unwrap() {
        "-" => None,
        "#" => Some(json!(1)),
        s => Some(json!(s)),
    };
    let keys: Vec<Value> = c["keys"].as_array().unwrap().iter().map(|k| {
        let mut o = json!({"kty": "EC", "crv": "P-256", "x": "f83OJ3D2xF1Bg8vub9tLe1gHMzV76e8Tus9uPHvRVEU", "y": "x_FEzRu9m36HLN_tue659LNpXW6pCyStikYjKIWI5a0"});
        match s("kty") {
            "EC" => {}
            "OKP" => o = json!({"kty": "OKP", "crv": "X25519", "x": "hSDwCYkwp1R0i33ctD73Wg2_Og0mOBr066SpjqqbTmo"}),
            "RSA" => o = json!({"kty": "RSA", "n": "sXchDaQebHnPiGvyDOAT4saGEUetSyo9MKLOoWFsueri23bOdgWp4Dy1Wl", "e": "AQAB"}),
            "oct" => o = json!({"kty": "oct", "k": "AAAA"}),
            "ops" => o["key_ops"] = json!(["deriveKey", "encrypt"]),
            "named" => (o["kid"], o["x5t"], o["enc"]) = (json!("enc"), json!("enc"), json!("A128GCM")),
            _ => o = json!({}),
        }
        for m in ["use", "alg"] {
            if let Some(x) = member(&k[m]) {
                o[m] = x;
            }
        }
        o
    }).collect();
    let mut meta = json!({"vp_formats_supported": {}});
    match s("jwks") {
        "ok" => meta["jwks"] = json!({"keys": keys}),
        "bad" => meta["jwks"] = json!(keys),
        "nokeys" => meta["jwks"] = json!({}),
        "-null" => meta["jwks"] = Value::Null,
        "badkey" => meta["jwks"] = json!({"keys": ["not a key", keys]}),
        "string" => meta["jwks"] = json!(json!({"keys": keys}).to_string()),
        _ => {}
    }
    if let Some(e) = list(&c["enc"]) {
        meta["encrypted_response_enc_values_supported"] = e;
    }
    let mut object = json!({"client_id": s("who"), "response_type": "vp_token", "response_mode": s("mode"), "nonce": "n"});
    if s("mode").starts_with("direct_post") {
        object["response_uri"] = json!("https://v.example/r");
    }
    match s("meta") {
        "ok" => object["client_metadata"] = meta,
        "bad" => object["client_metadata"] = json!(meta.to_string()),
        "-null" => object["client_metadata"] = Value::Null,
        "list" => object["client_metadata"] = json!([meta]),
        _ => {}
    }
    let md = wallet_metadata(json!({
        "client_id_prefixes_supported": ["pre-registered", "redirect_uri", "x509_san_dns", "x509_hash", "decentralized_identifier",
                                         "verifier_attestation", "openid_federation", "custom"],
        "authorization_encryption_alg_values_supported": list(&c["walg"]),
        "authorization_encryption_enc_values_supported": list(&c["wenc"]),
    }));
    let ok = v["ok"].as_bool().unwrap();
    let w = SpyWallet::new(md, true);
    let typ = good_header();
    let ind = match s("how") {
        "direct" => RequestIndirection::Direct(serde_json::from_value(object.clone()).unwrap()),
        "value" => RequestIndirection::ByValue { request: mk_jwt(&typ, &object) },
        _ => {
            *w.http.reply.lock().unwrap() = Some((200, mk_jwt(&typ, &object).into_bytes()));
            RequestIndirection::ByReference { request_uri: "https://v.example/req".parse().unwrap() }
        }
    };
    let got = block(AuthorizationRequest { client_id: Some(s("who").into()), request_indirection: ind }.validate(&w));
    r.seen = json!({"ok": got.is_ok(), "error": got.as_ref().err().map(|e| format!("{e:#}"))});
    r.check(got.is_ok() == ok, if ok { "a request the wallet can answer was refused" } else { "a request was accepted that the wallet cannot answer" },
        || json!(got.err().map(|e| format!("{e:#}"))));
    r
}

// ---------------------------------------------------------------------------- P12
fn text(s: &str) -> String {
    match s {
        "@long" => "0123456789abcdef".repeat(300),
        "@unicode" => "\u{e9}\u{1f600}\u{0}\u{2028}e\u{301} \"\\".into(),
        "@longuri" => format!("https://v.example/{}", "r/".repeat(2000)),
        s => s.into(),
    }
}

fn wrong(s: &str) -> Option<Value> {
    Some(match s {
        "-" => return None,
        "#number" => json!(5),
        "#null" => Value::Null,
        "#list" => json!(["direct_post"]),
        "#object" => json!({"a": "vp_token"}),
        "#bool" => json!(true),
        s => json!(text(s)),
    })
}

pub fn object(v: &Value, _seed: u64) -> Ran {
    let mut r = Ran::new();
    let c = &v["c"];
    let s = |k: &str| c[k].as_str().unwrap();
    let mut o = Map::new();
    for (k, f) in [("client_id", "cid"), ("response_mode", "mode"), ("response_uri", "ruri"), ("redirect_uri", "redir"),
        ("response_type", "type"), ("nonce", "nonce"), ("state", "state")]
    {
        if let Some(x) = wrong(s(f)) {
            o.insert(k.into(), x);
        }
    }
    let formats = json!({"mso_mdoc": {"issuerauth_alg_values": [-7]}, "jwt_vc_json": {"alg_values": ["ES256"]}});
    let meta = match s("meta") {
        "ok" => Some(json!({"vp_formats_supported": formats, "x": 1})),
        "noformats" => Some(json!({"x": 1})),
        "badformats" => Some(json!({"vp_formats_supported": ["mso_mdoc"]})),
        "empty" => Some(json!({})),
        s => wrong(s),
    };
    let query = match s("query") {
        "ok" => Some(json!({"credentials": [{"id": "a", "format": "mso_mdoc", "meta": {"doctype_value": "d"}}]})),
        "bad" => Some(json!({"credentials": [{"format": "mso_mdoc"}]})),
        s => wrong(s),
    };
    meta.clone().map(|x| o.insert("client_metadata".into(), x));
    query.clone().map(|x| o.insert("dcql_query".into(), x));
    if s("extra") != "-" {
        o.insert("x_extra".into(), json!({"deep": [1, {"er": null}]}));
        o.insert("expected_origins".into(), json!(["https://a.example"]));
    }
    let o = Value::Object(o);
    let ok = v["ok"].as_bool().unwrap();
    let got = serde_json::from_value::<AuthorizationRequestObject>(o.clone());
    r.seen = json!({"ok": got.is_ok(), "error": got.as_ref().err().map(|e| e.to_string())});
    r.check(got.is_ok() == ok, if ok { "a well-formed request object was refused" } else { "a malformed request object was accepted" }, || o.clone());
    let (Ok(got), true) = (got, ok) else { return r };
    let back = serde_json::to_value(&got).unwrap();
    r.check(back == o, "the request object changed in passing", || json!([back, o]));
    let mode = match v["mode"].as_str().unwrap() {
        "direct_post" => ResponseMode::DirectPost,
        "direct_post.jwt" => ResponseMode::DirectPostJwt,
        "dc_api" => ResponseMode::DcApi,
        _ => ResponseMode::DcApiJwt,
    };
    r.check(*got.response_mode() == mode, "wrong response mode", || json!(format!("{:?}", got.response_mode())));
    r.check(got.response_mode().to_string() == v["mode"] && got.response_mode().is_jarm().ok() == Some(v["mode"].as_str().unwrap().ends_with(".jwt")),
        "the response mode shows as another, or as encrypted when it is not", || json!(got.response_mode().to_string()));
    let ty = match s("type") {
        "vp_token" => ResponseType::VpToken,
        "vp_token id_token" => ResponseType::VpTokenIdToken,
        t => ResponseType::Unsupported(text(t)),
    };
    r.check(*got.response_type() == ty, "wrong response type", || json!(format!("{:?}", got.response_type())));
    r.check(String::from(got.response_type().clone()) == text(s("type")), "the response type is written as another", || json!(format!("{:?}", got.response_type())));
    let idt = match v["idtoken"].as_str().unwrap() {
        "no" => Some(false),
        "yes" => Some(true),
        _ => None,
    };
    r.check(got.is_id_token_requested() == idt, "wrong idea of whether an ID token is requested", || json!(got.is_id_token_requested()));
    r.check(got.nonce().as_str() == text(s("nonce")), "wrong nonce", || json!(got.nonce().as_str()));
    let cid = (s("cid") != "-").then(|| text(s("cid")));
    r.check(got.client_id().map(|c| c.0.clone()) == cid, "wrong client identifier", || json!(null));
    let p = v["prefix"].as_str().unwrap();
    let p = (p != "NONE").then_some(p);
    r.check(got.client_id_scheme().map(|c| c.0.as_str()) == p, "wrong client identifier prefix", || json!(got.client_id_scheme().map(|c| c.0.clone())));
    if v["mode"].as_str().unwrap().starts_with("direct_post") {
        r.check(*got.return_uri() == text(s("ruri")).parse::<url::Url>().unwrap(), "the response would go elsewhere", || json!(got.return_uri()));
    }
    let st = got.state();
    let good = match wrong(s("state")) {
        None => st.is_none(),
        Some(Value::String(x)) => matches!(&st, Some(Ok(y)) if y.0 == x),
        Some(_) => matches!(&st, Some(Err(_))),
    };
    r.check(good, "wrong state", || json!(format!("{st:?}")));
    let cm = got.client_metadata();
    let good = match v["meta"].as_str().unwrap() {
        "ok" => matches!(&cm, Ok(m) if Some(Value::from(m.clone())) == meta),
        _ => cm.is_err(),
    };
    r.check(good, "wrong client metadata", || json!(format!("{cm:?}")));
    let f = got.vp_formats();
    let good = match v["formats"].as_str().unwrap() {
        "ok" => matches!(&f, Ok(f) if serde_json::to_value(Value::try_from(f.clone()).unwrap()).unwrap() == formats),
        _ => f.is_err(),
    };
    r.check(good, "wrong formats", || json!(format!("{f:?}")));
    let q = got.dcql_query();
    let good = match v["query"].as_str().unwrap() {
        "none" => q.is_none(),
        "err" => matches!(&q, Some(Err(_))),
        _ => matches!(&q, Some(Ok(q)) if Some(serde_json::to_value(q).unwrap()) == query),
    };
    r.check(good, "wrong query", || json!(format!("{q:?}")));
    // Read again, after what was written, and from text.
    let again = serde_json::from_str::<AuthorizationRequestObject>(&back.to_string());
    let good = matches!(&again, Ok(a) if a.return_uri() == got.return_uri() && a.nonce().as_str() == got.nonce().as_str()
        && a.response_mode() == got.response_mode() && a.client_id().map(|c| &c.0) == got.client_id().map(|c| &c.0) && serde_json::to_value(a).unwrap() == back);
    r.check(good, "reading the same request object again gives another", || json!(format!("{again:?}")));
    r
}
