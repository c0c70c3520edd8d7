//! Session transcripts: Handover.tla, Transcript.tla, Thumbprint.tla (P17).
use crate::util::Ran;
use ciborium::Value as Cbor;
use openid4vp::core::iso_18013_7::*;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Map, Value};
use sha2::{Digest, Sha256};

/// The bytes a sequence of runs stands for.
fn bytes(v: &Value) -> Vec<u8> {
    let mut out = vec![];
    for r in v.as_array().unwrap() {
        let u: Vec<u8> = r["u"].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect();
        for _ in 0..r["n"].as_u64().unwrap() {
            out.extend(&u);
        }
    }
    out
}
fn text(v: &Value) -> String {
    String::from_utf8(bytes(v)).unwrap()
}
fn ser<T: Serialize>(t: &T) -> Vec<u8> {
    let mut b = vec![];
    ciborium::into_writer(t, &mut b).unwrap();
    b
}

fn both<H: Serialize + DeserializeOwned + PartialEq + Clone, O: DeserializeOwned>(r: &mut Ran, h: H, hash: &[u8], own: Vec<u8>, head: &[u8]) {
    let mut want = head.to_vec();
    want.extend(hash);
    r.check(own == want, "the handover's bytes", || json!([own, want]));
    r.check(ser(&h) == want, "the handover serialises to other bytes", || json!([ser(&h), want]));
    let t = SessionTranscript::new(h.clone());
    let mut full = vec![0x83, 0xf6, 0xf6];
    full.extend(&want);
    r.check(t.to_cbor_bytes().ok().as_ref() == Some(&full), "the transcript's bytes", || json!([t.to_cbor_bytes().ok(), full]));
    r.check(ser(&t) == full, "the transcript serialises to other bytes", || json!([ser(&t), full]));
    r.check(t.handover() == &h, "the transcript holds another handover", || json!(null));
    let back: Result<H, _> = ciborium::from_reader(&want[..]);
    r.check(back.ok().as_ref() == Some(&h), "the handover does not read back", || json!(want));
    let back: Result<SessionTranscript<H>, _> = ciborium::from_reader(&full[..]);
    r.check(back.is_ok_and(|b| b == t), "the transcript does not read back", || json!(full));
    r.check(ciborium::from_reader::<O, _>(&want[..]).is_err(), "a handover is read as one of the other kind", || json!(want));
    r.check(ciborium::from_reader::<SessionTranscript<O>, _>(&full[..]).is_err(), "a transcript is read as one of the other kind", || json!(full));
}

pub fn handover(v: &Value, _seed: u64) -> Ran {
    let mut r = Ran::new();
    let c = &v["c"];
    let (who, nonce, uri) = (text(&c["who"]), text(&c["nonce"]), text(&c["uri"]));
    let thumb = (c["thumb"]["some"] == json!(true)).then(|| bytes(&c["thumb"]["b"]));
    let hash: [u8; 32] = Sha256::digest(bytes(&v["info"])).into();
    let head = bytes(&v["hdr"]);
    if c["kind"] == "redirect" {
        let Ok(h) = Handover::new(&who, &nonce, thumb.as_deref(), &uri) else {
            r.fail("no handover", json!(null));
            return r;
        };
        r.check(h.handover_info_hash() == hash, "the handover is bound to other parameters", || json!([h.handover_info_hash(), hash]));
        let own = h.to_cbor_bytes().unwrap_or_default();
        both::<_, DcApiHandover>(&mut r, h, &hash, own, &head);
    } else {
        let Ok(h) = DcApiHandover::new(&who, &nonce, thumb.as_deref()) else {
            r.fail("no handover", json!(null));
            return r;
        };
        r.check(h.handover_info_hash() == hash, "the handover is bound to other parameters", || json!([h.handover_info_hash(), hash]));
        let own = h.to_cbor_bytes().unwrap_or_default();
        both::<_, Handover>(&mut r, h, &hash, own, &head);
    }
    r.seen = json!({"hash": hash});
    r
}

pub fn transcript(v: &Value, _seed: u64) -> Ran {
    let mut r = Ran::new();
    let c = &v["c"];
    let s = |k: &str| c[k].as_str().unwrap();
    let hash: Vec<u8> = match s("hash") {
        "zero" => vec![0; 32],
        "ff" => vec![255; 32],
        _ => (0..32).collect(),
    };
    let mut items = vec![match s("name") {
        "!number" => Cbor::Integer(7.into()),
        "!null" => Cbor::Null,
        "!bytes" => Cbor::Bytes(b"\xff\xfe".to_vec()),
        "!array" => Cbor::Array(vec![]),
        n => Cbor::Text(n.into()),
    }];
    match s("hash") {
        "!number" => items.push(Cbor::Integer(7.into())),
        "!null" => items.push(Cbor::Null),
        "!map" => items.push(Cbor::Map(vec![])),
        "!missing" => {}
        _ => items.push(Cbor::Bytes(hash.clone())),
    }
    let mut whole = Cbor::Array(items);
    if s("outer") == "transcript" {
        let x = |k: &str| match s(k) {
            "number" => Cbor::Integer(0.into()),
            "text" => Cbor::Text("null".into()),
            "bytes" => Cbor::Bytes(vec![0xf6]),
            _ => Cbor::Null,
        };
        let mut l = vec![x("first"), x("second")];
        match s("third") {
            "handover" => l.push(whole),
            "null" => l.push(Cbor::Null),
            "text" => l.push(Cbor::Text("OpenID4VPHandover".into())),
            "emptyarray" => l.push(Cbor::Array(vec![])),
            _ => {}
        }
        whole = Cbor::Array(l);
    }
    let enc = match (s("shape"), whole) {
        ("array", w) => ser(&w),
        ("truncated", w) => {
            let mut b = ser(&w);
            b.pop();
            b
        }
        ("map", Cbor::Array(l)) => ser(&Cbor::Map(l.into_iter().enumerate().map(|(i, x)| (Cbor::Integer(i.into()), x)).collect())),
        ("number", _) => ser(&Cbor::Integer(2.into())),
        ("null", _) => ser(&Cbor::Null),
        ("text", _) => ser(&Cbor::Text("OpenID4VPHandover".into())),
        _ => ser(&Cbor::Array(vec![])),
    };
    let own = |h: &[u8], kind: &str| {
        let mut b = ser(&Cbor::Array(vec![Cbor::Text(kind.into()), Cbor::Bytes(h.to_vec())]));
        if s("outer") == "transcript" {
            b.splice(0..0, [0x83, 0xf6, 0xf6]);
        }
        b
    };
    let got: Option<(Vec<u8>, Vec<u8>)> = match (s("kind"), s("outer")) {
        ("redirect", "handover") => ciborium::from_reader::<Handover, _>(&enc[..]).ok().map(|h| (h.handover_info_hash().to_vec(), ser(&h))),
        ("redirect", _) => ciborium::from_reader::<SessionTranscript, _>(&enc[..]).ok().map(|t| (t.handover().handover_info_hash().to_vec(), t.to_cbor_bytes().unwrap())),
        (_, "handover") => ciborium::from_reader::<DcApiHandover, _>(&enc[..]).ok().map(|h| (h.handover_info_hash().to_vec(), ser(&h))),
        _ => ciborium::from_reader::<SessionTranscript<DcApiHandover>, _>(&enc[..]).ok().map(|t| (t.handover().handover_info_hash().to_vec(), t.to_cbor_bytes().unwrap())),
    };
    let want = v["ok"] == json!(true);
    r.seen = json!(got.is_some());
    r.check(got.is_some() == want, if want { "a proper one is refused" } else { "an improper one is accepted" }, || json!(enc));
    if let (Some((h, b)), true) = (got, want) {
        r.check(h == hash, "another hash is read", || json!(h));
        let w = own(&hash, if s("kind") == "redirect" { "OpenID4VPHandover" } else { "OpenID4VPDCAPIHandover" });
        r.check(b == w, "it is written back otherwise", || json!([b, w]));
    }
    r
}

pub fn thumbprint(v: &Value, _seed: u64) -> Ran {
    let mut r = Ran::new();
    let c = &v["c"];
    let s = |k: &str| c[k].as_str().unwrap();
    let tokens = |t: &str| t.replace("@long", &"kCk".repeat(700)).replace("@unicode", "é😀 \u{20ac}");
    let mut members = vec![];
    for k in ["crv", "e", "kty", "n", "x", "y"] {
        match s(k) {
            "-" => {}
            "#" => members.push(format!("\"{k}\":17")),
            "null" => members.push(format!("\"{k}\":null")),
            t => members.push(format!("{}:{}", json!(k), json!(tokens(t)))),
        }
    }
    match s("extra") {
        "common" => members.extend(["\"use\":\"enc\"", "\"alg\":\"ECDH-ES\"", "\"kid\":\"1\""].map(String::from)),
        "private" => members.extend(["\"d\":\"secret\"", "\"p\":\"q\"", "\"key_ops\":[]"].map(String::from)),
        "odd" => members.extend(["\"CRV\":\"P-521\"", "\"X\":\"no\"", "\"\":\"\"", "\"jwk\":{\"kty\":\"RSA\"}"].map(String::from)),
        _ => {}
    }
    if s("order") == "reverse" {
        members.reverse();
    }
    let jwk: Map<String, Value> = serde_json::from_str(&format!("{{{}}}", members.join(","))).unwrap();
    let got = compute_jwk_thumbprint(&Value::Object(jwk.clone())).ok();
    let want = match v["res"].as_str().unwrap() {
        "ERR" => None,
        t => Some(<[u8; 32]>::from(Sha256::digest(tokens(t).as_bytes()))),
    };
    r.seen = json!(got);
    r.check(got == want, "another thumbprint", || json!({"jwk": jwk, "got": got, "want": want}));
    r
}
