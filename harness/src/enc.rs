//! Encrypted responses: EncKey.tla, JweBuild.tla (P18).
use crate::util::Ran;
use openid4vp::core::{
    authorization_request::AuthorizationRequestObject,
    iso_18013_7::{compute_jwk_thumbprint, get_encryption_jwk_thumbprint},
};
use serde_json::{json, Map, Value};
use sha2::{Digest, Sha256};

/// A key; every one of different material.
fn jwk(k: &Value, at: usize) -> Value {
    let name = k["name"].as_str().unwrap();
    let mut m = Map::new();
    for f in ["kty", "crv", "use", "alg", "kid"] {
        if k["key"][f] != "-" {
            m.insert(f.into(), k["key"][f].clone());
        }
    }
    if let Some(id) = m.get_mut("kid") {
        if id != "" {
            *id = json!(format!("{}-{at}", id.as_str().unwrap()));
        }
    }
    for f in match m["kty"].as_str() { Some("RSA") => &["n", "e"][..], Some("OKP") => &["x"], _ => &["x", "y"] } {
        m.insert(f.to_string(), json!(format!("{name}-{at}-{f}")));
    }
    Value::Object(m)
}
/// RFC 7638, independently of the library.
fn thumb(k: &Value) -> [u8; 32] {
    let t = if k["kty"] == "RSA" {
        format!("{{\"e\":{},\"kty\":\"RSA\",\"n\":{}}}", k["e"], k["n"])
    } else if k["kty"] == "OKP" {
        format!("{{\"crv\":{},\"kty\":\"OKP\",\"x\":{}}}", k["crv"], k["x"])
    } else {
        format!("{{\"crv\":{},\"kty\":\"EC\",\"x\":{},\"y\":{}}}", k["crv"], k["x"], k["y"])
    };
    Sha256::digest(t).into()
}

fn request(c: &Value, keys: &[Value]) -> Value {
    let s = |k: &str| c[k].as_str().unwrap();
    let mut meta = json!({"vp_formats_supported": {}});
    match s("meta") {
        "nojwks" => {}
        "jwksstring" => meta["jwks"] = json!("keys"),
        "jwkslist" => meta["jwks"] = json!(keys),
        "keysobject" => meta["jwks"] = json!({"keys": {"0": keys.first()}}),
        _ => meta["jwks"] = json!({"keys": keys}),
    }
    match s("enc") {
        "-" => {}
        "none" => meta["encrypted_response_enc_values_supported"] = json!([]),
        "string" => meta["encrypted_response_enc_values_supported"] = json!("A128GCM"),
        "number" => meta["encrypted_response_enc_values_supported"] = json!(["A128GCM", 7]),
        l => meta["encrypted_response_enc_values_supported"] = json!(l.split(',').collect::<Vec<_>>()),
    }
    let mut o = json!({"client_id": "client-1", "response_type": "vp_token", "nonce": "n", "response_mode": s("mode")});
    if s("mode").starts_with("direct") {
        o["response_uri"] = json!("https://v.example/r");
    }
    match s("meta") {
        "-" => {}
        "string" => o["client_metadata"] = json!("meta"),
        _ => o["client_metadata"] = meta,
    }
    o
}

/// The key named by the session transcript, and the key encrypted to.
pub fn enckey(v: &Value, _seed: u64) -> Ran {
    let mut r = Ran::new();
    let c = &v["c"];
    let keys: Vec<Value> = v["keys"].as_array().unwrap().iter().enumerate().map(|(i, k)| jwk(k, i)).collect();
    let chosen = v["keys"].as_array().unwrap().iter().position(|k| k["name"] == v["sel"]).map(|i| &keys[i]);
    let object = request(c, &keys);
    let Ok(req) = serde_json::from_value::<AuthorizationRequestObject>(object.clone()) else {
        // Metadata that cannot even be read may already be refused with the request.
        r.check(v["ok"] == json!(false), "a proper request is refused", || object);
        return r;
    };
    let got = get_encryption_jwk_thumbprint(&req);
    r.seen = json!({"thumbprint": got});
    if let Some(k) = chosen {
        r.check(got == Some(thumb(k)), "the transcript names another key than the one encrypted to",
            || json!({"keys": keys, "encrypted_to": k, "named": keys.iter().find(|k| Some(thumb(k)) == got)}));
        r.check(compute_jwk_thumbprint(k).ok() == Some(thumb(k)), "thumbprint", || k.clone());
    } else if let Some(t) = got {
        // Nothing to encrypt to: whatever is named, it is not a key for signatures or one made up.
        r.check(keys.iter().any(|k| thumb(k) == t && k["use"] != "sig"), "a key for signatures is named", || json!(keys));
    }
    #[cfg(feature = "jwe")]
    jwe::encrypt(&mut r, v, &req, chosen);
    r
}

#[cfg(feature = "jwe")]
pub mod jwe {
    use super::*;
    use base64::prelude::*;
    use openid4vp::core::{
        authorization_request::parameters::State,
        jwe::{build_encrypted_response, find_encryption_jwk, JweBuilder},
        response::{
            parameters::{VpToken, VpTokenItem},
            AuthorizationResponse,
        },
    };

    /// What the stand-in for josekit was given: header, recipient, payload.
    fn open(jwe: &str) -> Option<(Value, Value, Value)> {
        let p: Vec<Option<Value>> = jwe.split('.')
            .map(|p| BASE64_URL_SAFE_NO_PAD.decode(p).ok().and_then(|b| serde_json::from_slice(&b).ok()))
            .collect();
        match &p[..] {
            [Some(h), Some(k), _, Some(b), _] => Some((h.clone(), k.clone(), b.clone())),
            _ => None,
        }
    }

    fn check(r: &mut Ran, jwe: &str, header: Value, key: &Value, payload: Value) {
        let Some((mut h, k, b)) = open(jwe) else { return r.fail("not a JWE", json!(jwe)) };
        h.as_object_mut().unwrap().remove("typ"); // optional
        r.check(h == header, "another header", || json!([h, header]));
        r.check(["kty", "crv", "x", "y"].iter().all(|f| k[f] == key[f]), "encrypted to another key", || json!([k, key]));
        r.check(b == payload, "another payload", || json!([b, payload]));
    }

    pub fn encrypt(r: &mut Ran, v: &Value, req: &AuthorizationRequestObject, chosen: Option<&Value>) {
        let c = &v["c"];
        let s = |k: &str| c[k].as_str().unwrap();
        let st = |x: &str| VpTokenItem::String(x.into());
        let mut t = VpToken::new();
        match s("token") {
            "one" => t.insert("pid", vec![st("a~b~c")]),
            "many" => {
                t.insert("pid", vec![st("a"), st("b"), st("a")]);
                t.insert("mdl", vec![st("é\"&")]);
            }
            "objects" => t.insert("pid", vec![VpTokenItem::JsonObject(json!({"a": [1, null, {"b": "c"}]}).as_object().unwrap().clone()), st("x")]),
            _ => {}
        }
        let state = (s("state") != "-").then(|| State(s("state").into()));
        let got = build_encrypted_response(req, &t, state.as_ref());
        r.runs += 1;
        let want = v["ok"] == json!(true);
        r.check(got.is_ok() == want, if want { "a response that can be encrypted is not" } else { "a response is encrypted nevertheless" },
            || json!(got.as_ref().err().map(|e| e.to_string())));
        let (Ok(got), true) = (got, want) else { return };
        let AuthorizationResponse::Jwt(j) = got else { return r.fail("the response is not encrypted", json!(null)) };
        let key = chosen.unwrap();
        let mut header = json!({"alg": "ECDH-ES", "enc": v["enc"]});
        if let Some(k) = key.get("kid") {
            header["kid"] = k.clone();
        }
        let mut payload = json!({"vp_token": t});
        if let Some(s) = state {
            payload["state"] = json!(s.0);
        }
        check(r, &j.response, header, key, payload);
    }

    pub fn build(v: &Value, _seed: u64) -> Ran {
        let mut r = Ran::new();
        let key = |n: &str| {
            let mut k = json!({"kty": "EC", "crv": "P-256", "x": format!("x-{n}"), "y": format!("y-{n}"), "alg": "ECDH-ES", "use": "enc"});
            match n {
                "kid" => k["kid"] = json!("key-kid"),
                "sig" => k["use"] = json!("sig"),
                _ => {}
            }
            k
        };
        let payload = |n: &str| match n {
            "list" => json!(["a"]),
            "empty" => json!({}),
            "object" => json!({"vp_token": {"pid": ["a"]}, "state": "s"}),
            _ => json!({"x": [1, {"y": null}], "": "é"}),
        };
        let mut b = JweBuilder::new();
        for call in v["calls"].as_array().unwrap() {
            let a = call[1].as_str().unwrap();
            b = match call[0].as_str().unwrap() {
                "payload" => b.payload(payload(a)),
                "key" => b.recipient_key(find_encryption_jwk([key(a).as_object().unwrap()].into_iter()).unwrap().jwk),
                "keyjson" => b.recipient_key_json(&key(a)).unwrap(),
                "alg" => b.alg(a),
                "enc" => b.enc(a),
                _ => b.kid(a),
            };
        }
        let got = b.build();
        let want = v["ok"] == json!(true);
        r.seen = json!(got.is_ok());
        r.check(got.is_ok() == want, if want { "a complete builder fails" } else { "an incomplete or unsupported one builds" }, || v["now"].clone());
        if let (Ok(jwe), true) = (got, want) {
            let n = |k: &str| v["now"][k].as_str().unwrap();
            let mut header = json!({"alg": "ECDH-ES", "enc": if n("enc") == "-" { "A128GCM" } else { n("enc") }});
            if n("kid") != "-" {
                header["kid"] = json!(n("kid"));
            } else if n("key") == "kid" {
                header["kid"] = json!("key-kid");
            }
            check(&mut r, &jwe, header, &key(n("key")), payload(n("payload")));
        }
        r
    }
}
