//! Whatever arrives gets an answer: Garble.tla (P28). Nonces: Nonce.tla (P27).
use crate::{
    auth::{jwk_of, p256_sign, pool, Table},
    fake::*,
    util::{block, Ran},
    wallet::SpyWallet,
};
use base64::prelude::*;
use openid4vp::{
    core::{
        authorization_request::{
            parameters::{ClientMetadata, Nonce},
            verification::{did, verifier::P256Verifier, x509_hash, x509_san},
            AuthorizationRequest, AuthorizationRequestObject, RequestIndirection,
        },
        dcql_query::DcqlQuery,
        iso_18013_7::{get_encryption_jwk_thumbprint, DcApiHandover, Handover, SessionTranscript},
        metadata::{
            parameters::wallet::{AuthorizationEncryptionAlgValuesSupported, ClientIdPrefixesSupported, RequestObjectSigningAlgValuesSupported},
            WalletMetadata,
        },
        response::{parameters::VpToken, AuthorizationResponse, UnencodedAuthorizationResponse},
    },
    verifier::session::Status,
    wallet::Wallet,
};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use std::sync::Mutex;
use url::Url;

const DID: &str = "did:example:v";

fn client(kind: &str) -> String {
    match kind {
        "did" => format!("decentralized_identifier:{DID}"),
        "x509" => "x509_san_dns:v.example".into(),
        _ => "client-1".into(),
    }
}
fn object(cid: &str) -> Value {
    json!({"client_id": cid, "response_type": "vp_token", "response_mode": "direct_post", "response_uri": "https://v.example/r", "nonce": "n", "state": "s"})
}
fn cert() -> String {
    BASE64_STANDARD.encode(&pool().certs["good"])
}
fn header() -> Value {
    json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "kid": format!("{DID}#k1"), "x5c": [cert()]})
}
fn sign(head: &[u8], body: &[u8]) -> [String; 3] {
    let (h, b) = (BASE64_URL_SAFE_NO_PAD.encode(head), BASE64_URL_SAFE_NO_PAD.encode(body));
    let s = p256_sign(&pool().keys["A"])(format!("{h}.{b}").as_bytes());
    [h, b, BASE64_URL_SAFE_NO_PAD.encode(s)]
}

/// The bytes a piece stands for.
fn piece(kind: &str, p: &str) -> Vec<u8> {
    for (how, f) in [
        ("@half ", (|b: &[u8]| b[..b.len() / 2].to_vec()) as fn(&[u8]) -> Vec<u8>),
        ("@firstchar ", |b| b[..b.len().min(1)].to_vec()),
        ("@lastchar ", |b| b[b.len().saturating_sub(1)..].to_vec()),
        ("@upper ", |b| b.to_ascii_uppercase()),
    ] {
        if let Some(rest) = p.strip_prefix(how) {
            return f(&piece(kind, rest));
        }
    }
    // Before its last byte (the closing quote), or in place of all between its first and its last.
    for (how, keep) in [("@within ", true), ("@instead ", false)] {
        if let Some((atom, rest)) = p.strip_prefix(how).and_then(|p| p.split_once(' ')) {
            let (b, a) = (piece(kind, rest), piece(kind, atom));
            let last = b.len().saturating_sub(1);
            let first = if keep { last } else { last.min(1) };
            return [&b[..first], &a[..], &b[last..]].concat();
        }
    }
    let Some(name) = p.strip_prefix('@').or_else(|| p.strip_prefix("\"@")) else { return p.into() };
    if let Some(name) = p.strip_prefix('"').and_then(|p| p.strip_suffix('"')) {
        return [b"\"", &piece(kind, name)[..], b"\""].concat();
    }
    let cbor = kind == "cbor";
    if let Some(i) = name.strip_prefix("der").and_then(|i| i.parse::<usize>().ok()) {
        let der = &pool().certs["good"];
        return der[der.len() * (i - 1) / 8..der.len() * i / 8].to_vec();
    }
    let jwk = || serde_json::to_value(jwk_of(&pool().keys["B"])).unwrap();
    let text = match name {
        "header" | "payload" | "signature" => {
            static M: Mutex<std::collections::BTreeMap<String, [String; 3]>> = Mutex::new(std::collections::BTreeMap::new());
            let mut m = M.lock().unwrap();
            let cid = client(kind);
            let j = m.entry(cid.clone()).or_insert_with(|| sign(&serde_json::to_vec(&header()).unwrap(), &serde_json::to_vec(&object(&cid)).unwrap()));
            j[["header", "payload", "signature"].iter().position(|n| *n == name).unwrap()].clone()
        }
        "cert" => cert(),
        "x" | "y" => jwk()[name].as_str().unwrap().into(),
        "83" => return vec![0x83],
        "82" => return vec![0x82],
        "f6" => return vec![0xf6],
        "5820" => return vec![0x58, 0x20],
        "hash" => return (0..32).collect(),
        "redirectname" => return [&[0x71], &b"OpenID4VPHandover"[..]].concat(),
        "dcapiname" => return [&[0x76], &b"OpenID4VPDCAPIHandover"[..]].concat(),
        "ff" => return vec![0xff],
        "80" => return vec![0x80],
        "7f" => return vec![0x7f],
        "deep" if cbor => return vec![0x81; 5000],
        "deepobject" if cbor => return vec![0x9f; 5000],
        "big" if cbor => return [&[0x5b], &[0xff; 8][..]].concat(),
        "long" if cbor => return [&[0x9b], &[0x7f; 8][..]].concat(),
        "nines" if cbor => return [&[0x7b], &[0x7f; 8][..]].concat(),
        "nul" => "\0".into(),
        "e-acute" => "é".into(),
        "quote" => "\"".into(),
        "backslash" => "\\".into(),
        "emoji" => "😀".into(),
        "deep" => "[".repeat(3000),
        "deepobject" => "{\"a\":".repeat(3000),
        "bom" => "\u{feff}".into(),
        "surrogate" => "\\ud800".into(),
        "escape" => "\\u0000".into(),
        "newline" => "\r\n".into(),
        "combining" => "e\u{301}".into(),
        "nines" => "9".repeat(400),
        "big" => "-9223372036854775809".into(),
        "emptytext" => "\"\"".into(),
        "long" => "a".repeat(20000),
        // Cut at an even number of bytes, or at an odd one, and a character is cut.
        "evencut" => format!("a{}", "é".repeat(5000)),
        "oddcut" => "é".repeat(5000),
        x => panic!("unknown piece {x}"),
    };
    text.into_bytes()
}

fn reads<T: serde::de::DeserializeOwned + serde::Serialize>(b: &[u8]) -> Option<T> {
    let x: T = serde_json::from_slice(b).ok()?;
    let _ = serde_json::to_vec(&x);
    Some(x)
}

fn looked_into(o: &AuthorizationRequestObject) {
    let _ = (o.client_id(), o.client_id_scheme(), o.return_uri(), o.nonce().as_str().len(), o.is_id_token_requested());
    let _ = (o.state(), o.client_metadata(), o.dcql_query(), o.vp_formats());
    let _ = format!("{o:?}{}{:?}", o.response_mode(), o.response_type());
    let _ = serde_json::to_vec(o);
    encrypted(o);
}

fn encrypted(o: &AuthorizationRequestObject) -> bool {
    let named = get_encryption_jwk_thumbprint(o).is_some();
    #[cfg(feature = "jwe")]
    {
        let made = openid4vp::core::jwe::build_encrypted_response(o, &VpToken::new(), None).is_ok();
        return named && made;
    }
    #[cfg(not(feature = "jwe"))]
    named
}

fn metadata() -> WalletMetadata {
    wallet_metadata(json!({
        "client_id_prefixes_supported": ["pre-registered", "redirect_uri", "x509_san_dns", "x509_hash", "decentralized_identifier",
                                         "verifier_attestation", "openid_federation", "custom", ""],
        "request_object_signing_alg_values_supported": ["ES256"],
    }))
}

fn judged(o: &AuthorizationRequestObject, jwt: &str) -> (bool, bool, bool) {
    let md = metadata();
    let t = Table { kid: Some(format!("{DID}#k1")), key: Some(jwk_of(&pool().keys["A"])), asked: Mutex::default() };
    let d = block(did::verify_with_resolver(&md, o, jwt.into(), None, &t)).is_ok();
    let s = x509_san::validate::<P256Verifier>(&md, o, jwt.into(), None).is_ok();
    let h = x509_hash::validate::<P256Verifier>(&md, o, jwt.into(), None).is_ok();
    (d, s, h)
}

fn typed(cid: &str) -> Option<AuthorizationRequestObject> {
    serde_json::from_value(object(cid)).ok()
}

fn asked(how: RequestIndirection, cid: Option<String>, body: &[u8]) -> bool {
    asked_with(how, cid, body, 200)
}
fn asked_with(how: RequestIndirection, cid: Option<String>, body: &[u8], status: u16) -> bool {
    let w = SpyWallet::new(metadata(), true);
    *w.http.reply.lock().unwrap() = Some((status, body.to_vec()));
    match block(AuthorizationRequest { client_id: cid, request_indirection: how }.validate(&w)) {
        Ok(o) => {
            looked_into(&o);
            true
        }
        Err(e) => {
            let _ = format!("{e:#}{e:?}");
            false
        }
    }
}

/// Delivers one message; whether it was taken.
fn deliver(kind: &str, b: &[u8]) -> bool {
    let text = String::from_utf8_lossy(b).to_string();
    let uri: Url = "https://v.example/req".parse().unwrap();
    match kind {
        "form" => {
            let got = AuthorizationResponse::from_x_www_form_urlencoded(b);
            match &got {
                Ok(AuthorizationResponse::Unencoded(u)) => drop(u.clone().into_x_www_form_urlencoded()),
                Ok(AuthorizationResponse::Jwt(j)) => drop(j.clone().into_x_www_form_urlencoded()),
                Err(e) => drop(format!("{e:#}")),
            }
            got.is_ok()
        }
        "url" => {
            let endpoint: Url = "openid4vp:".parse().unwrap();
            let query = text.split_once('?').map_or("", |x| x.1);
            let _ = AuthorizationRequest::from_query_params(query);
            let Ok(url) = text.parse::<Url>() else { return false };
            let [h, p, s] = ["header", "payload", "signature"].map(|x| piece("jwt", &format!("@{x}")));
            let good = [&h[..], b".", &p, b".", &s].concat();
            match AuthorizationRequest::from_url(url.clone(), &endpoint) {
                Ok(r) => {
                    let _ = r.clone().to_url(endpoint.clone());
                    let _ = format!("{r:?}");
                }
                Err(e) => drop(format!("{e:#}")),
            }
            let w = SpyWallet::new(metadata(), true);
            *w.http.reply.lock().unwrap() = Some((200, good));
            block(w.validate_request(url)).is_ok()
        }
        "jwt" => asked(RequestIndirection::ByValue { request: text }, Some("client-1".into()), b""),
        "fetched" => {
            let with = |status| asked_with(RequestIndirection::ByReference { request_uri: uri.clone() }, Some("client-1".into()), b, status);
            let failing = with(404) | with(500) | with(302);
            with(200) && !failing
        }
        "did" => judged(&typed(&client("did")).unwrap(), &text).0,
        "x509" => {
            let hash = format!("x509_hash:{}", BASE64_URL_SAFE_NO_PAD.encode(Sha256::digest(&pool().certs["good"])));
            let (_, san, _) = judged(&typed(&client("x509")).unwrap(), &text);
            let (_, _, h) = judged(&typed(&hash).unwrap(), &text);
            san && h
        }
        "hdr" => {
            let all = ["did", "x509", "jwt"].map(|k| {
                let cid = client(k);
                let jwt = sign(b, &serde_json::to_vec(&object(&cid)).unwrap()).join(".");
                let (d, s, _) = judged(&typed(&cid).unwrap(), &jwt);
                match k {
                    "did" => d,
                    "x509" => s,
                    _ => asked(RequestIndirection::ByValue { request: jwt }, Some(cid), b""),
                }
            });
            all.iter().all(|x| *x)
        }
        "body" => {
            let jwt = sign(&serde_json::to_vec(&header()).unwrap(), b).join(".");
            if let Some(o) = reads::<AuthorizationRequestObject>(b) {
                looked_into(&o);
                judged(&o, &jwt);
            }
            asked(RequestIndirection::ByValue { request: jwt.clone() }, Some("client-1".into()), b"")
                && asked(RequestIndirection::ByReference { request_uri: uri }, Some("client-1".into()), jwt.as_bytes())
        }
        "cid" => {
            let Some(o) = typed(&text) else { return false };
            let jwt = sign(&serde_json::to_vec(&header()).unwrap(), &serde_json::to_vec(&object(&text)).unwrap()).join(".");
            judged(&o, &jwt);
            asked(RequestIndirection::Direct(o.into()), None, b"") && asked(RequestIndirection::ByValue { request: jwt }, Some(text), b"")
        }
        "cert" => {
            let head = json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "x5c": [BASE64_STANDARD.encode(b)]});
            let with = |cid: &str| (typed(cid).unwrap(), sign(&serde_json::to_vec(&head).unwrap(), &serde_json::to_vec(&object(cid)).unwrap()).join("."));
            let (o, jwt) = with("x509_san_dns:v.example");
            let san = judged(&o, &jwt).1;
            let (o, jwt) = with(&format!("x509_hash:{}", BASE64_URL_SAFE_NO_PAD.encode(Sha256::digest(b))));
            san && judged(&o, &jwt).2
        }
        "dcql" => {
            let q = reads::<DcqlQuery>(b);
            let whole = [&serde_json::to_vec(&object("client-1")).unwrap()[..serde_json::to_vec(&object("client-1")).unwrap().len() - 1], b",\"dcql_query\":", b, b"}"].concat();
            if let Some(o) = reads::<AuthorizationRequestObject>(&whole) {
                looked_into(&o);
            }
            let Some(q) = q else { return false };
            let _ = format!("{q:?}");
            for c in q.credentials() {
                let _ = (c.id(), c.format(), c.meta(), c.claim_sets(), c.trusted_authorities(), c.multiple(), c.require_cryptographic_holder_binding());
                for x in c.claims().into_iter().flat_map(|c| c.iter()) {
                    let _ = (x.id(), x.path(), x.values(), x.intent_to_retain(), x.namespace(), x.element_identifier(), x.claim_name());
                }
            }
            for s in q.credential_sets().into_iter().flat_map(|s| s.iter()) {
                let _ = (s.options(), s.is_required());
            }
            true
        }
        "wallet" => {
            let Some(mut m) = reads::<WalletMetadata>(b) else { return false };
            let _ = (m.get::<ClientIdPrefixesSupported>(), m.get::<RequestObjectSigningAlgValuesSupported>(), m.get::<AuthorizationEncryptionAlgValuesSupported>());
            let _ = (m.authorization_endpoint(), m.vp_formats_supported());
            for (mode, cid) in [("direct_post", "client-1"), ("direct_post.jwt", "x509_san_dns:v.example"), ("direct_post", "decentralized_identifier:did:example:v")] {
                let mut o = object(cid);
                o["response_mode"] = json!(mode);
                o["client_metadata"] = json!({"jwks": {"keys": [{"kty": "EC", "crv": "P-256", "x": "AA", "y": "AA", "use": "enc", "alg": "ECDH-ES"}]}});
                let jwt = sign(&serde_json::to_vec(&header()).unwrap(), &serde_json::to_vec(&o).unwrap()).join(".");
                let w = SpyWallet::new(m.clone(), true);
                let r = AuthorizationRequest { client_id: Some(cid.into()), request_indirection: RequestIndirection::ByValue { request: jwt.clone() } };
                let _ = block(r.validate(&w)).is_ok();
                let o: AuthorizationRequestObject = serde_json::from_value(o).unwrap();
                let t = Table { kid: Some(format!("{DID}#k1")), key: Some(jwk_of(&pool().keys["A"])), asked: Mutex::default() };
                let _ = block(did::verify_with_resolver(&m, &o, jwt.clone(), None, &t)).is_ok();
                let _ = x509_san::validate::<P256Verifier>(&m, &o, jwt, None).is_ok();
            }
            let _ = m.add_client_id_prefixes_supported(&[]);
            let _ = format!("{m:?}");
            true
        }
        "keys" => {
            let mut whole = object("client-1");
            whole["response_mode"] = json!("direct_post.jwt");
            let whole = serde_json::to_vec(&whole).unwrap();
            let whole = [&whole[..whole.len() - 1], b",\"client_metadata\":", b, b"}"].concat();
            let Some(o) = reads::<AuthorizationRequestObject>(&whole) else { return false };
            if let Ok(m) = o.client_metadata() {
                let m: ClientMetadata = m;
                let _ = m.jwks().map(|j| j.map(|j| j.keys.len()).is_ok());
                let _ = serde_json::to_vec(&m.0);
            }
            looked_into(&o);
            let jwt = sign(&serde_json::to_vec(&header()).unwrap(), &whole).join(".");
            let taken = asked(RequestIndirection::ByValue { request: jwt }, Some("client-1".into()), b"");
            encrypted(&o) && taken
        }
        "status" => reads::<Status>(b).is_some_and(|s| {
            let _ = format!("{s:?}");
            s == s.clone()
        }),
        "reply" => {
            let with = |status: u16| {
                let w = SpyWallet::new(metadata(), true);
                *w.http.reply.lock().unwrap() = Some((status, b.to_vec()));
                let r = AuthorizationResponse::Unencoded(UnencodedAuthorizationResponse { vp_token: VpToken::new(), state: None });
                let got = block(w.submit_response(typed("client-1").unwrap(), r));
                let _ = format!("{got:?}");
                got
            };
            let failing = with(400).is_ok() | with(503).is_ok();
            matches!(with(200), Ok(Some(_))) && !failing
        }
        "token" => reads::<VpToken>(b).is_some_and(|t| {
            let _ = format!("{t:?}");
            t.get("a").is_some() || t.is_empty() || t.get("a").is_none()
        }),
        _ => {
            let h = ciborium::from_reader::<SessionTranscript<Handover>, _>(b).map(|t| t.to_cbor_bytes().is_ok());
            let d = ciborium::from_reader::<SessionTranscript<DcApiHandover>, _>(b).map(|t| t.to_cbor_bytes().is_ok());
            let _ = ciborium::from_reader::<Handover, _>(b).map(|t| t.to_cbor_bytes().is_ok());
            h.is_ok() != d.is_ok()
        }
    }
}

pub fn garble(v: &Value, _seed: u64) -> Ran {
    let mut r = Ran::new();
    r.runs = 3;
    let kind = v["kind"].as_str().unwrap();
    let bytes = |k: &str| -> Vec<u8> { v[k].as_array().unwrap().iter().flat_map(|p| piece(kind, p.as_str().unwrap())).collect() };
    let (msg, proper) = (bytes("msg"), bytes("proper"));
    let same = msg == proper;
    let shown = || json!(String::from_utf8_lossy(&msg[..msg.len().min(3000)]));
    let first = deliver(kind, &msg);
    r.seen = json!({"taken": first});
    // Edits may happen to leave the text as it was.
    let may: Vec<&str> = if same { vec!["taken"] } else { v["answers"].as_array().unwrap().iter().map(|a| a.as_str().unwrap()).collect() };
    r.check(may.contains(&if first { "taken" } else { "refused" }), if first { "a message spoilt after it was signed is taken" } else { "a proper message is refused" }, shown);
    r.check(deliver(kind, &msg) == first, "the same message gets another answer", shown);
    r.check(deliver(kind, &proper), "a proper message is refused after a spoilt one", shown);
    r
}

// ---------------------------------------------------------------------------- P27
/// A generator that counts what is taken from it.
#[derive(Clone)]
struct Tape {
    rng: rand::rngs::StdRng,
    bits: u64,
}
impl Tape {
    fn new(seed: u64) -> Self {
        Tape { rng: rand::SeedableRng::seed_from_u64(seed), bits: 0 }
    }
}
impl rand::RngCore for Tape {
    fn next_u32(&mut self) -> u32 {
        self.bits += 32;
        self.rng.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.bits += 64;
        self.rng.next_u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        self.bits += 8 * dest.len() as u64;
        self.rng.fill_bytes(dest)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

pub fn nonce(v: &Value, seed: u64) -> Ran {
    let mut r = Ran::new();
    let seeded = |s: &str| Tape::new(seed.wrapping_mul(2) + (s == "two") as u64);
    let mut gens = [seeded("one"), seeded("two")];
    let which = |g: &Value| (g == "b") as usize;
    let mut drawn: Vec<String> = vec![];
    for op in v["ops"].as_array().unwrap() {
        let g = which(&op["g"]);
        match op["op"].as_str().unwrap() {
            "copy" => gens[which(&op["s"])] = gens[g].clone(),
            "restart" => gens[g] = seeded(op["s"].as_str().unwrap()),
            _ => {
                let n = op["n"].as_u64().unwrap() as usize;
                let before = gens[g].bits;
                let got = Nonce::random(&mut gens[g], n);
                let text = got.as_str().to_string();
                // What cannot be told apart from the generator's output cannot have come from less of it.
                let took = gens[g].bits - before;
                r.check(took >= (5 * n as u64).min(128), "a nonce was made from too little randomness", || json!({"length": n, "bits": took}));
                r.check(text.len() == n && text.bytes().all(|b| b.is_ascii_alphanumeric()), "a nonce of another length or alphabet", || json!([n, text]));
                // However it travels it stays the same.
                let json: Value = got.clone().into();
                r.check(json == json!(text) && got.to_string() == text && Nonce::try_from(json.clone()).is_ok_and(|x| x.as_str() == text)
                    && Nonce::from(text.clone()).as_str() == text && Nonce::from(text.as_str()).as_str() == text, "a nonce changed on its way", || json!([json, text]));
                drawn.push(text);
            }
        }
    }
    for (i, said) in v["said"].as_array().unwrap().iter().enumerate() {
        let of = |k: &str| said[k].as_array().unwrap().iter().map(|j| &drawn[j.as_u64().unwrap() as usize - 1]).collect::<Vec<_>>();
        r.check(of("same").iter().all(|x| **x == drawn[i]), "a nonce does not come from the generator given", || json!(drawn));
        r.check(of("other").iter().all(|x| **x != drawn[i]), "a nonce was used before", || json!(drawn));
    }
    // Every symbol at every place, and no two alike, over many draws.
    if drawn.len() == 1 && drawn[0].len() >= 16 && v["ops"].as_array().unwrap().len() == 1 {
        let n = drawn[0].len();
        let g = &mut gens[0];
        let many: Vec<String> = (0..4000).map(|_| Nonce::random(g, n).as_str().into()).collect();
        r.runs += many.len();
        let set: std::collections::BTreeSet<_> = many.iter().collect();
        r.check(set.len() == many.len(), "a nonce comes again", || json!(n));
        for at in [0, n / 2, n - 1] {
            let seen: std::collections::BTreeSet<_> = many.iter().map(|t| t.as_bytes()[at]).collect();
            r.check(seen.len() >= 60, "nonces are made from few symbols", || json!([at, seen]));
        }
        // No place is told by another one.
        let m = n.min(66);
        let place = |i: usize| if i < m / 2 { i } else { n - m + i };
        for i in 0..m {
            for j in i + 1..m {
                let (a, b) = (place(i), place(j));
                let alike = many[..300].iter().filter(|t| t.as_bytes()[a] == t.as_bytes()[b]).count();
                r.check(alike < 60, "one place of a nonce tells another", || json!([n, a, b, alike]));
            }
        }
    }
    r.seen = json!(drawn);
    r
}

/// An application that logs all the library says: what is logged is spelt out.
struct Log;
struct Spell;
impl tracing::field::Visit for Spell {
    fn record_debug(&mut self, _: &tracing::field::Field, value: &dyn std::fmt::Debug) {
        std::hint::black_box(format!("{value:?}"));
    }
}
impl tracing::Subscriber for Log {
    fn enabled(&self, m: &tracing::Metadata<'_>) -> bool {
        m.target().starts_with("openid4vp")
    }
    fn new_span(&self, a: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        a.record(&mut Spell);
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, values: &tracing::span::Record<'_>) {
        values.record(&mut Spell);
    }
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, event: &tracing::Event<'_>) {
        event.record(&mut Spell);
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}
pub fn log_everything() {
    tracing::subscriber::set_global_default(Log).expect("the only one");
}
