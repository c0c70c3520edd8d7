//! Client authentication: AuthDid.tla (P09), AuthX509.tla (P10, P11), Client.tla (P22).
use crate::{
    fake::*,
    util::{block, Ran},
};
use anyhow::Result;
use base64::prelude::*;
use openid4vp::core::{
    authorization_request::{
        verification::{did, verifier::P256Verifier, x509_hash, x509_san},
        AuthorizationRequestObject,
    },
    metadata::WalletMetadata,
};
use openid4vp::verifier::{
    client::{Client, DIDClient, X509HashClient, X509SanDnsClient},
    request_signer::{P256Signer, RequestSigner},
};
use p256::{
    ecdsa::{signature::{Signer, Verifier}, Signature, SigningKey},
    pkcs8::DecodePrivateKey,
};
use rcgen::{CertificateParams, DnType, KeyPair, SanType};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use ssi_claims::{jws::JwsSigner, ProofValidationError};
use ssi_jwk::{JWKResolver, JWK};
use std::{
    borrow::Cow,
    collections::BTreeMap,
    sync::{Arc, Mutex, OnceLock},
};
use x509_cert::{
    der::{Decode, Encode},
    Certificate,
};

// ---------------------------------------------------------------------------- keys and certificates
pub struct Pool {
    pub keys: BTreeMap<&'static str, SigningKey>,
    /// DER by name
    pub certs: BTreeMap<&'static str, Vec<u8>>,
    pub roots: BTreeMap<&'static str, Vec<u8>>,
    pub ed: JWK,
    pub ed2: JWK,
}

pub fn pool() -> &'static Pool {
    static P: OnceLock<Pool> = OnceLock::new();
    P.get_or_init(|| {
        let kp: BTreeMap<&'static str, KeyPair> =
            ["A", "B", "E", "CA", "ECA"].into_iter().map(|n| (n, KeyPair::generate().unwrap())).collect();
        let p384 = KeyPair::generate_for(&rcgen::PKCS_ECDSA_P384_SHA384).unwrap();
        let keys = kp.iter().map(|(n, k)| (*n, SigningKey::from_pkcs8_der(&k.serialize_der()).unwrap())).collect();
        let ca_cert = |name: &str, key: &KeyPair| {
            let mut p = CertificateParams::new(vec![]).unwrap();
            p.distinguished_name.push(DnType::CommonName, name);
            p.is_ca = rcgen::IsCa::Ca(rcgen::BasicConstraints::Unconstrained);
            p.self_signed(key).unwrap()
        };
        let (ca, eca) = (ca_cert("Root", &kp["CA"]), ca_cert("Evil root", &kp["ECA"]));
        let dns = |n: &str| SanType::DnsName(n.try_into().unwrap());
        let uri = |n: &str| SanType::URI(n.try_into().unwrap());
        let mail = |n: &str| SanType::Rfc822Name(n.try_into().unwrap());
        let mut certs = BTreeMap::new();
        let mut add = |name: &'static str, cn: &str, sans: Vec<SanType>, key: &KeyPair, evil: bool| {
            let mut p = CertificateParams::new(vec![]).unwrap();
            p.distinguished_name.push(DnType::CommonName, cn);
            p.subject_alt_names = sans;
            let c = if evil { p.signed_by(key, &eca, &kp["ECA"]) } else { p.signed_by(key, &ca, &kp["CA"]) };
            certs.insert(name, c.unwrap().der().to_vec());
        };
        let a = &kp["A"];
        add("good", "good", vec![dns("v.example")], a, false);
        add("multi", "multi", vec![dns("other.example"), dns("v.example")], a, false);
        add("mixed", "mixed", vec![mail("a@other.example"), uri("https://other.example"), dns("v.example")], a, false);
        add("uri", "uri", vec![uri("v.example")], a, false);
        add("email", "email", vec![mail("v.example")], a, false);
        add("urioth", "urioth", vec![uri("v.example"), dns("other.example")], a, false);
        add("cn", "v.example", vec![], a, false);
        add("wild", "wild", vec![dns("*.example")], a, false);
        add("sub", "sub", vec![dns("a.v.example")], a, false);
        add("longer", "longer", vec![dns("v.example.evil")], a, false);
        add("shorter", "shorter", vec![dns("v.exampl"), dns("example")], a, false);
        add("upper", "upper", vec![dns("V.EXAMPLE")], a, false);
        add("p384", "p384", vec![dns("v.example")], &p384, false);
        add("twin", "good", vec![dns("v.example")], &kp["E"], true);
        add("evil", "evil", vec![dns("evil.example")], &kp["E"], true);
        add("last", "last", (1..40).map(|i| dns(&format!("h{i}.example"))).chain([dns("v.example")]).collect(), a, false);
        add("nul", "nul", vec![dns("v.example\0.evil")], a, false);
        add("idn", "idn", vec![dns("xn--bcher-kva.example")], a, false);
        add("ip", "ip", vec![SanType::IpAddress([10, 0, 0, 1].into())], a, false);
        add("dot", "dot", vec![dns("v.example.")], a, false);
        add("list", "list", vec![dns("evil.example,v.example"), dns("x v.example")], a, false);
        add("deep", "deep", (0..30).map(|i| uri(&format!("https://u{i}.example"))).chain([dns("v.example")]).collect(), a, false);
        let long = format!("{}.example", ["a".repeat(60), "b".repeat(60), "c".repeat(60)].join("."));
        add("long", "long", vec![dns(&long)], a, false);
        certs.insert("ca", ca.der().to_vec());
        let roots = [("ca", ca.der().to_vec()), ("evilca", eca.der().to_vec())].into_iter().collect();
        Pool { keys, certs, roots, ed: JWK::generate_ed25519().unwrap(), ed2: JWK::generate_ed25519().unwrap() }
    })
}

pub fn jwk_of(k: &SigningKey) -> JWK {
    let pk: p256::PublicKey = k.verifying_key().into();
    serde_json::from_str(&pk.to_jwk_string()).unwrap()
}

fn algs(v: &Value) -> Value {
    match v["s"].as_str().unwrap() {
        "-" => Value::Null,
        "bad" => json!("ES256"),
        _ => v["l"].clone(),
    }
}

fn body(cid: Option<&str>, size: &str) -> (Value, AuthorizationRequestObject) {
    let mut o = json!({"response_type": "vp_token", "response_mode": "direct_post", "response_uri": "https://v.example/r",
        "nonce": "n-0S6_WzA2Mj", "state": "s"});
    if let Some(c) = cid {
        o["client_id"] = json!(c);
    }
    if size == "big" {
        o["zz"] = json!("z".repeat(100_000));
    }
    (o.clone(), serde_json::from_value(o).unwrap())
}

/// A JWT signed (or not) as told.
fn mk(c: &Value, header: Value, body: &Value, sign: impl Fn(&[u8]) -> Vec<u8>) -> String {
    let s = |k: &str| c[k].as_str().unwrap();
    let raw = |b: &str| BASE64_URL_SAFE_NO_PAD.encode(b);
    let h = match s("jwt") {
        "headerb64" => format!("{}!", b64(&header)),
        "headerjson" => raw("{\"alg\":\"ES256\""),
        "headerlist" => raw("[\"ES256\"]"),
        _ => b64(&header),
    };
    let (b, mut altered) = (b64(body), body.clone());
    match altered["zz"].as_str().map(|z| format!("{}!", &z[1..])) {
        Some(z) => altered["zz"] = json!(z),
        None => altered["state"] = json!("t"),
    }
    let mut other = header.clone();
    other["cty"] = json!("x");
    let over = |h: &str, b: &str| sign(format!("{h}.{b}").as_bytes());
    let valid = over(&h, &b);
    let enc = |x: &[u8]| BASE64_URL_SAFE_NO_PAD.encode(x);
    let sig = match s("sig") {
        "valid" => enc(&valid),
        "body" => enc(&over(&h, &b64(&altered))),
        "header" => enc(&over(&b64(&other), &b)),
        "flip" => {
            let mut x = valid.clone();
            x[20] ^= 1;
            enc(&x)
        }
        "garbage" => enc(&[7u8; 64]),
        "empty" => String::new(),
        "truncated" => enc(&valid[..63]),
        "twice" => enc(&[&valid[..], &valid[..]].concat()),
        "zero" => enc(&[0u8; 64]),
        "padded" => format!("{}==", enc(&valid)),
        "extended" => enc(&[&valid[..], &[0]].concat()),
        "der" => enc(Signature::from_slice(&valid).unwrap().to_der().as_bytes()),
        _ => format!("{}!", enc(&valid)),
    };
    match s("jwt") {
        "twoparts" => format!("{h}.{b}"),
        "fourparts" => format!("{h}.{b}.{sig}.{sig}"),
        "empty" => String::new(),
        _ => format!("{h}.{b}.{sig}"),
    }
}

pub fn p256_sign(k: &SigningKey) -> impl Fn(&[u8]) -> Vec<u8> + '_ {
    |m| {
        let s: Signature = k.sign(m);
        s.to_vec()
    }
}

fn claimed(c: &Value, prefix: &str, value: &str) -> Option<String> {
    match c["cform"].as_str().unwrap() {
        "-" => None,
        "raw" => Some(value.into()),
        "prefixed" => Some(format!("{prefix}:{value}")),
        "double" => Some(format!("{prefix}:{prefix}:{value}")),
        "case" => Some(format!("{}:{value}", prefix.to_uppercase())),
        _ if prefix == "x509_san_dns" => Some(format!("x509_hash:{value}")),
        _ => Some(format!("x509_san_dns:{value}")),
    }
}

// ---------------------------------------------------------------------------- P09
pub struct Table {
    pub kid: Option<String>,
    pub key: Option<JWK>,
    pub asked: Mutex<Vec<Option<String>>>,
}
impl JWKResolver for Table {
    async fn fetch_public_jwk(&'_ self, key_id: Option<&str>) -> Result<Cow<'_, JWK>, ProofValidationError> {
        self.asked.lock().unwrap().push(key_id.map(String::from));
        match &self.key {
            Some(k) if key_id == self.kid.as_deref() => Ok(Cow::Borrowed(k)),
            _ => Err(ProofValidationError::UnknownKey),
        }
    }
}

pub fn did_auth(v: &Value, _seed: u64) -> Ran {
    let mut r = Ran::new();
    let (c, p) = (&v["c"], pool());
    let s = |k: &str| c[k].as_str().unwrap();
    let mut header = json!({"typ": "oauth-authz-req+jwt"});
    match s("alg") {
        "-" => {}
        "#" => header["alg"] = json!(256),
        a => header["alg"] = json!(a),
    }
    let kid = match s("kform") {
        "frag" => json!(format!("{}#k1", s("kdid"))),
        "nofrag" => json!(s("kdid")),
        "emptyfrag" => json!(format!("{}#", s("kdid"))),
        "#" => json!(1),
        "word" => json!("none"),
        "list" => json!([format!("{}#k1", s("kdid"))]),
        _ => Value::Null,
    };
    if !kid.is_null() || s("kform") == "null" {
        header["kid"] = kid.clone();
    }
    let public = |own: bool| match (own, s("key") == "Ed25519") {
        (true, true) => p.ed.to_public(),
        (true, false) => jwk_of(&p.keys["A"]),
        (false, true) => p.ed2.to_public(),
        (false, false) => jwk_of(&p.keys["B"]),
    };
    match s("hdr") {
        "jwk" => header["jwk"] = json!(public(true)),
        "jwkother" => header["jwk"] = json!(public(false)),
        "jku" => {
            header["jku"] = json!("https://evil.example/keys");
            header["x5u"] = json!("https://evil.example/chain");
        }
        "x5c" => header["x5c"] = json!([BASE64_STANDARD.encode(&p.certs["good"])]),
        "kids" => {
            header["KID"] = json!("did:example:verifier#k1");
            header["kid "] = json!("did:example:evil#k1");
            header["Alg"] = json!("none");
        }
        "claims" => {
            header["iss"] = json!("did:example:verifier");
            header["client_id"] = json!("decentralized_identifier:did:example:verifier");
            header["trusted"] = json!(true);
        }
        _ => {}
    }
    let cid = claimed(c, "decentralized_identifier", s("cdid"));
    let (object, typed) = body(cid.as_deref(), s("size"));
    let ed = s("key") == "Ed25519";
    let jwt = mk(c, header, &object, |m| {
        if ed {
            ssi_claims::jws::sign_bytes(ssi_jwk::Algorithm::EdDSA, m, &p.ed).unwrap()
        } else {
            p256_sign(&p.keys["A"])(m)
        }
    });
    let resolver = Table {
        kid: kid.as_str().map(String::from),
        key: match (s("knows"), ed) {
            ("fail", _) => None,
            ("right", true) | ("otherkind", false) => Some(p.ed.to_public()),
            ("right", false) | ("otherkind", true) => Some(jwk_of(&p.keys["A"])),
            (_, true) => Some(p.ed2.to_public()),
            (_, false) => Some(jwk_of(&p.keys["B"])),
        },
        asked: Mutex::default(),
    };
    let md = wallet_metadata(json!({"request_object_signing_alg_values_supported": algs(&c["walgs"])}));
    let trusted: Option<Vec<String>> = (c["trust"]["s"] == "ok").then(|| serde_json::from_value(c["trust"]["l"].clone()).unwrap());
    let got = block(did::verify_with_resolver(&md, &typed, jwt.clone(), trusted.as_deref(), &resolver));
    let asked = resolver.asked.into_inner().unwrap();
    let ok = v["ok"].as_bool().unwrap();
    r.seen = json!({"ok": got.is_ok(), "error": got.as_ref().err().map(|e| format!("{e:#}")), "asked": asked});
    r.check(got.is_ok() == ok, if ok { "a properly signed request was refused" } else { "a request was accepted that its client did not sign" }, || json!(jwt));
    let max = v["asked"].as_u64().unwrap() as usize;
    // How often the key is looked up is not our business; what is looked up, and for whom, is.
    r.check(max > 0 || asked.is_empty() || ok, "a key was looked up for a DID that is not the client's or not trusted", || json!(asked));
    r.check(!(ok && max > 0) || !asked.is_empty(), "accepted without looking up a key", || json!(asked));
    r.check(asked.iter().all(|a| a.as_deref() == kid.as_str()), "another key was looked up than the one named", || json!(asked));
    r
}

// ---------------------------------------------------------------------------- P10, P11
/// A verifier of the wallet's own, which remembers what it is asked.
#[derive(Clone, Default)]
struct Seen {
    how: String,
    keys: Vec<(Vec<u8>, String)>,
    asked: Vec<(Vec<u8>, Vec<u8>)>,
}
thread_local!(static SPY: std::cell::RefCell<Seen> = std::cell::RefCell::default());
struct Spy;
impl openid4vp::core::authorization_request::verification::verifier::Verifier for Spy {
    fn from_spki(spki: x509_cert::spki::SubjectPublicKeyInfoRef<'_>, algorithm: String) -> Result<Self> {
        SPY.with(|s| {
            let mut s = s.borrow_mut();
            s.keys.push((spki.to_der()?, algorithm));
            if s.how == "nokey" { Err(crate::util::fault("verifier")) } else { Ok(Spy) }
        })
    }
    fn verify(&self, payload: &[u8], signature: &[u8]) -> Result<()> {
        SPY.with(|s| {
            let mut s = s.borrow_mut();
            s.asked.push((payload.into(), signature.into()));
            if s.how == "yes" { Ok(()) } else { Err(crate::util::fault("verifier")) }
        })
    }
}

pub fn x509_auth(v: &Value, _seed: u64) -> Ran {
    let mut r = Ran::new();
    let (c, p) = (&v["c"], pool());
    let s = |k: &str| c[k].as_str().unwrap();
    let kind = v["kind"].as_str().unwrap();
    let san = kind == "x509_san_dns";
    let mut header = json!({"typ": "oauth-authz-req+jwt"});
    match s("alg") {
        "-" => {}
        "#" => header["alg"] = json!(256),
        a => header["alg"] = json!(a),
    }
    let pem = |n: &str| BASE64_STANDARD.encode(&p.certs[n]);
    let leaf = pem(s("first"));
    let mut chain = match s("x5c") {
        "nopad" => json!([leaf.trim_end_matches('=')]),
        "number" => json!([1]),
        "null" => json!([null]),
        "nested" => json!([[leaf]]),
        "badb64" => json!([format!("!{leaf}")]),
        "badder" => json!([BASE64_STANDARD.encode(&p.certs[s("first")][..40])]),
        "emptystring" => json!([""]),
        "spaced" => json!([format!("{}\n {}", &leaf[..64], &leaf[64..])]),
        "pem" => json!([format!("-----BEGIN CERTIFICATE-----\n{leaf}\n-----END CERTIFICATE-----\n")]),
        _ => json!([leaf]),
    };
    match s("rest") {
        "-" => {}
        "many" => (0..12).for_each(|i| chain.as_array_mut().unwrap().push(json!(pem(["good", "evil", "ca"][i % 3])))),
        x => chain.as_array_mut().unwrap().push(json!(pem(x))),
    }
    match s("x5c") {
        "-" => {}
        "string" => header["x5c"] = json!(leaf),
        "empty" => header["x5c"] = json!([]),
        _ => header["x5c"] = chain,
    }
    match s("hdr") {
        "kid" => header["kid"] = json!("did:example:verifier#k1"),
        "jwk" => header["jwk"] = json!(jwk_of(&p.keys[s("signer")])),
        "jku" => {
            header["jku"] = json!("https://v.example/keys");
            header["x5u"] = json!("https://v.example/chain");
        }
        "x5t" => {
            header["x5t#S256"] = json!(BASE64_URL_SAFE_NO_PAD.encode(Sha256::digest(&p.certs["good"])));
            header["X5C"] = json!([pem("good")]);
        }
        "claims" => {
            header["iss"] = json!("v.example");
            header["client_id"] = json!(format!("{kind}:v.example"));
            header["Alg"] = json!("none");
            header["trusted"] = json!(true);
        }
        _ => {}
    }
    let sha = |b: &[u8]| Sha256::digest(b).to_vec();
    let value = if san {
        s("cid").replace("@nul", "\0")
    } else if s("cid").is_empty() {
        String::new()
    } else {
        let (how, which) = s("cid").split_once(':').unwrap();
        let der = &p.certs[which];
        let h = BASE64_URL_SAFE_NO_PAD.encode(sha(der));
        let parsed = Certificate::from_der(der).unwrap();
        match how {
            "hash" => h,
            "padded" => format!("{h}="),
            "std" => BASE64_STANDARD.encode(sha(der)),
            "hex" => sha(der).iter().map(|b| format!("{b:02x}")).collect(),
            "trunc" => h[..h.len() - 1].into(),
            "longer" => format!("{h}A"),
            "upper" => h.to_uppercase(),
            "md5" => h[..22].into(),
            "sha512" => BASE64_URL_SAFE_NO_PAD.encode(sha2::Sha512::digest(der)),
            "pem" => BASE64_URL_SAFE_NO_PAD.encode(sha(BASE64_STANDARD.encode(der).as_bytes())),
            "spki" => BASE64_URL_SAFE_NO_PAD.encode(sha(&parsed.tbs_certificate.subject_public_key_info.to_der().unwrap())),
            _ => BASE64_URL_SAFE_NO_PAD.encode(sha(&parsed.tbs_certificate.to_der().unwrap())),
        }
    };
    let cid = claimed(c, kind, &value);
    let (object, typed) = body(cid.as_deref(), s("size"));
    let jwt = mk(c, header, &object, p256_sign(&p.keys[s("signer")]));
    let md = wallet_metadata(json!({"request_object_signing_alg_values_supported": algs(&c["walgs"])}));
    let roots: Option<Vec<Certificate>> = match s("roots") {
        "all" => None,
        x => Some(x.split('+').map(|n| Certificate::from_der(&p.roots[n]).unwrap()).collect()),
    };
    let own = s("ver") != "p256";
    let f: fn(&WalletMetadata, &AuthorizationRequestObject, String, Option<&[Certificate]>) -> Result<()> = match (san, own) {
        (true, false) => x509_san::validate::<P256Verifier>,
        (false, false) => x509_hash::validate::<P256Verifier>,
        (true, true) => x509_san::validate::<Spy>,
        (false, true) => x509_hash::validate::<Spy>,
    };
    SPY.with(|x| *x.borrow_mut() = Seen { how: s("ver").into(), ..Seen::default() });
    let got = f(&md, &typed, jwt.clone(), roots.as_deref());
    let ok = v["ok"].as_bool().unwrap();
    if own {
        // The wallet's verifier is asked about the leaf's key, the named algorithm, and what was signed, as it was sent.
        let seen = SPY.with(|x| x.borrow().clone());
        let spki = Certificate::from_der(&p.certs[s("first")]).unwrap().tbs_certificate.subject_public_key_info.to_der().unwrap();
        r.check(seen.keys.iter().all(|(k, a)| *k == spki && a == s("alg")), "the verifier was given another key or algorithm", || json!(seen.keys.iter().map(|x| &x.1).collect::<Vec<_>>()));
        let (msg, sig) = jwt.rsplit_once('.').unwrap_or_default();
        let sig = BASE64_URL_SAFE_NO_PAD.decode(sig).ok();
        r.check(seen.asked.iter().all(|(m, x)| m == msg.as_bytes() && Some(x) == sig.as_ref()), "the verifier was asked about something else than was sent", || json!(jwt));
        r.check(got.is_err() || !seen.asked.is_empty(), "accepted without asking the verifier", || json!(jwt));
    }
    r.seen = json!({"ok": got.is_ok(), "error": got.as_ref().err().map(|e| format!("{e:#}")), "cid": cid});
    if v["onlyroot"] == true && got.is_ok() {
        // Accepted although the chain leads to none of the trusted roots.
        r.known = Some("trusted-roots-ignored");
    } else {
        r.check(got.is_ok() == ok, if ok { "a properly signed request was refused" } else { "a request was accepted that its client did not sign" }, || json!(jwt));
    }
    r
}

// ---------------------------------------------------------------------------- P22
/// A signer that fails where it is told to.
#[derive(Debug)]
struct Moody {
    jwk: bool,
    alg: String,
    sign: Mutex<Vec<String>>,
}
/// Bytes that are no signature, but what the signer gave.
fn odd(how: &str, payload: &[u8]) -> Vec<u8> {
    match how {
        "odd" => (0..=255).chain([0, 0, 10, 61]).collect(),
        "der" => Signature::from_slice(&p256_sign(&pool().keys["A"])(payload)).unwrap().to_der().as_bytes().to_vec(),
        "zeros" => vec![0; 64],
        "one" => vec![7],
        _ => vec![],
    }
}
#[async_trait::async_trait]
impl RequestSigner for Moody {
    type Error = anyhow::Error;
    fn alg(&self) -> Result<String> {
        match self.alg.as_str() {
            "ok" => Ok("ES256".into()),
            "fail" => return Err(crate::util::fault("signer")),
            other => Ok(other.into()),
        }
    }
    fn jwk(&self) -> Result<JWK> {
        if self.jwk { Ok(jwk_of(&pool().keys["A"])) } else { Err(crate::util::fault("signer")) }
    }
    async fn sign(&self, payload: &[u8]) -> Vec<u8> {
        self.try_sign(payload).await.unwrap_or_default()
    }
    async fn try_sign(&self, payload: &[u8]) -> Result<Vec<u8>> {
        let mut s = self.sign.lock().unwrap();
        let how = if s.is_empty() { "ok".to_string() } else { s.remove(0) };
        match how.as_str() {
            "ok" => Ok(p256_sign(&pool().keys["A"])(payload)),
            "fail" => return Err(crate::util::fault("signer")),
            how => Ok(odd(how, payload)),
        }
    }
}

pub fn client(v: &Value, _seed: u64) -> Ran {
    let mut r = Ran::new();
    let (c, p) = (&v["c"], pool());
    let s = |k: &str| c[k].as_str().unwrap();
    let signer: Arc<dyn RequestSigner<Error = anyhow::Error> + Send + Sync> = if s("signer") == "own" {
        Arc::new(Moody { jwk: s("jwk") == "ok", alg: s("alg").into(), sign: Mutex::new(vec![s("sign1").into(), s("sign2").into()]) })
    } else {
        let lib = P256Signer::new(p.keys["A"].clone()).unwrap();
        r.check(*lib.jwk() == jwk_of(&p.keys["A"]), "the signer names another key", || json!(lib.jwk()));
        r.check(RequestSigner::jwk(&lib).ok() == Some(jwk_of(&p.keys["A"])), "the signer names another key", || json!(lib.jwk()));
        // As a signer of credentials and presentations.
        let info = block(lib.fetch_info());
        r.check(info.as_ref().is_ok_and(|i| i.algorithm == ssi_jwk::Algorithm::ES256), "the signer names another algorithm", || json!(null));
        let fits = |b: &[u8], m: &[u8]| Signature::from_slice(b).is_ok_and(|x| p.keys["A"].verifying_key().verify(m, &x).is_ok());
        for m in [&b""[..], b"x", &[0u8; 5000]] {
            r.runs += 1;
            r.check(block(lib.sign_bytes(m)).is_ok_and(|b| fits(&b, m)), "the signature does not fit", || json!(m.len()));
            r.check(fits(&block(RequestSigner::sign(&lib, m)), m), "the signature does not fit", || json!(m.len()));
        }
        Arc::new(lib)
    };
    let tokens = |x: &str| {
        x.replace("@long", &format!("did:example:{}", "v".repeat(3000)))
            .replace("@name", &format!("{}.example", ["a".repeat(60), "b".repeat(60), "c".repeat(60)].join(".")))
    };
    let vm = &tokens(v["vm"].as_str().unwrap());
    let mut names = vec![];
    if s("leaf") != "-" {
        names.push(s("leaf"));
        if s("rest") != "-" {
            names.extend(s("rest").split('+'));
        }
    }
    let chain: Vec<Certificate> = names.iter().map(|n| Certificate::from_der(&p.certs[n]).unwrap()).collect();
    let resolver = Table {
        kid: Some(vm.clone()),
        key: match s("knows") {
            "right" => Some(jwk_of(&p.keys["A"])),
            "other" => Some(jwk_of(&p.keys["B"])),
            // Another key, under the very name.
            "otherkid" => Some(JWK { key_id: Some(vm.clone()), ..jwk_of(&p.keys["B"]) }),
            "private" => serde_json::from_str(&p256::SecretKey::from(&p.keys["B"]).to_jwk_string()).ok(),
            "otherkind" => Some(p.ed.to_public()),
            _ => None,
        },
        asked: Mutex::default(),
    };
    let kind = s("kind");
    let made: Result<Arc<dyn Client>> = match kind {
        "decentralized_identifier" => block(DIDClient::new(vm.clone(), signer, &resolver)).map(|c| Arc::new(c) as _),
        "x509_san_dns" => X509SanDnsClient::new(chain, signer).map(|c| Arc::new(c) as _),
        _ => X509HashClient::new(chain, signer).map(|c| Arc::new(c) as _),
    };
    let want = v["id"].as_str().unwrap();
    r.seen = json!({"made": made.is_ok(), "error": made.as_ref().err().map(|e| format!("{e:#}"))});
    r.check(made.is_ok() == (want != "ERR"), if want == "ERR" { "an identity was assumed without what proves it" } else { "a proper identity was refused" }, || json!(null));
    let (Ok(client), true) = (made, want != "ERR") else { return r };
    let want = match want.strip_suffix(":HASH") {
        Some(k) => format!("{k}:{}", BASE64_URL_SAFE_NO_PAD.encode(Sha256::digest(&p.certs[s("leaf")]))),
        None => tokens(want),
    };
    r.check(client.id().0 == want, "wrong client identifier", || json!([client.id().0, want]));
    r.check(client.prefix().0 == kind, "wrong client identifier prefix", || json!(client.prefix().0));
    let mut object = json!({"response_type": "vp_token", "response_mode": "direct_post", "response_uri": "https://v.example/r",
        "nonce": "n", "client_id": client.id().0});
    match s("body") {
        "rich" => {
            object["client_metadata"] = json!({"client_name": "Prüfer \"x\" \u{1F600}\u{0}/+=", "n": [1, -2.5, null, {"a": {"b": []}}]});
            object["state"] = json!("~".repeat(3000));
        }
        // What it signs is the caller's business.
        "other" => object["client_id"] = json!("someone-else"),
        "noid" => drop(object.as_object_mut().unwrap().remove("client_id")),
        "nulls" => {
            (object["x"], object["y"], object["z"], object["w"], object["v"]) = (Value::Null, json!(""), json!({}), json!([]), json!(false));
            object["client_metadata"] = json!({"client_name": null, "vp_formats_supported": {}});
        }
        "big" => {
            for i in 0..300 {
                object[format!("x-{i:04}/\u{7f}\u{20ac}")] = json!([i, "\u{2028}<>&'\\", 1.5e300, {"": null}]);
            }
        }
        _ => {}
    }
    let typed: AuthorizationRequestObject = serde_json::from_value(object.clone()).unwrap();
    for (i, good) in v["jwts"].as_array().unwrap().iter().enumerate() {
        r.runs += 1;
        let got = block(client.generate_request_object_jwt(&typed));
        let gave = good.as_str().unwrap();
        let good = gave != "fail";
        r.check(got.is_ok() == good, if good { "a request could not be signed" } else { "a request was issued although signing it failed" },
            || json!([i, got.as_ref().map_err(|e| format!("{e:#}"))]));
        let (Ok(jwt), true) = (got, good) else { continue };
        let parts: Vec<&str> = jwt.split('.').collect();
        r.check(parts.len() == 3, "not a JWT", || json!(jwt));
        if parts.len() != 3 {
            continue;
        }
        let h = header(&jwt).unwrap_or_default();
        let alg = if s("alg") == "ok" { "ES256" } else { s("alg") };
        r.check(h["alg"] == alg && h["typ"] == "oauth-authz-req+jwt", "wrong JWT header", || h.clone());
        if kind == "decentralized_identifier" {
            r.check(h["kid"] == **vm, "the header does not name the verification method", || h.clone());
        } else {
            let want: Vec<String> = names.iter().map(|n| BASE64_STANDARD.encode(&p.certs[n])).collect();
            r.check(h["x5c"] == json!(want), "the header does not carry the certificate chain", || h.clone());
        }
        r.check(payload(&jwt) == Some(object.clone()), "another request was signed", || json!(payload(&jwt)));
        if gave != "ok" {
            r.check(BASE64_URL_SAFE_NO_PAD.decode(parts[2]).ok() == Some(odd(gave, format!("{}.{}", parts[0], parts[1]).as_bytes())), "another signature than the signer's", || json!(jwt));
            continue;
        }
        let sig = BASE64_URL_SAFE_NO_PAD.decode(parts[2]).ok().and_then(|b| Signature::from_slice(&b).ok());
        let msg = format!("{}.{}", parts[0], parts[1]);
        r.check(sig.is_some_and(|s| p.keys["A"].verifying_key().verify(msg.as_bytes(), &s).is_ok()), "the signature does not fit", || json!(jwt));
        if alg != "ES256" {
            continue;
        }
        // The wallet's own validator for this kind of client accepts it.
        let md = wallet_metadata(json!({"request_object_signing_alg_values_supported": ["ES256"]}));
        let accepted = match kind {
            "decentralized_identifier" => block(did::verify_with_resolver(&md, &typed, jwt.clone(), None, &resolver)),
            "x509_san_dns" => x509_san::validate::<P256Verifier>(&md, &typed, jwt.clone(), None),
            _ => x509_hash::validate::<P256Verifier>(&md, &typed, jwt.clone(), None),
        };
        r.check(accepted.is_ok() == !["other", "noid"].contains(&s("body")), "the wallet's validator disagrees with the client", || json!(accepted.err().map(|e| format!("{e:#}"))));
    }
    r
}
