//! A vp_token being put together: VpToken.tla (P25).
use crate::util::Ran;
use openid4vp::core::{
    object::UntypedObject,
    response::parameters::{VpToken, VpTokenItem},
};
use serde_json::{json, Value};
use ssi_claims::vc::{v1, v2, AnyJsonPresentation};

fn id(x: &str) -> &str {
    static L: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    match x {
        "long" => L.get_or_init(|| "an-id_".repeat(200)),
        "dotted" => "a.b[0]/c~1 ",
        "unicode" => "é id",
        "quote" => "a\"b\\c",
        "control" => "a\u{0}\n\tb",
        "combining" => "e\u{301}\u{1f600}",
        x => x,
    }
}

fn presentation(v2: bool) -> Value {
    let context = if v2 { "https://www.w3.org/ns/credentials/v2" } else { "https://www.w3.org/2018/credentials/v1" };
    json!({"@context": [context], "type": ["VerifiablePresentation"], "holder": "did:example:h", "id": "urn:x:1"})
}

/// A presentation with credentials in it.
fn holding(v2: bool) -> Value {
    let mut p = presentation(v2);
    let mut c = json!({"@context": p["@context"], "type": ["VerifiableCredential", "X"], "issuer": "did:example:i", "credentialSubject": {"id": "did:example:s", "a": {"é": [1, true, "x"]}}});
    c[if v2 { "validFrom" } else { "issuanceDate" }] = json!("2024-01-01T00:00:00Z");
    p["verifiableCredential"] = json!([c.clone(), c]);
    p
}

fn data_integrity() -> Value {
    let mut p = presentation(true);
    p["proof"] = json!({"type": "DataIntegrityProof", "cryptosuite": "ecdsa-rdfc-2019", "created": "2024-01-01T00:00:00Z",
        "verificationMethod": "did:example:h#0", "proofPurpose": "assertionMethod", "proofValue": "z3FXQ"});
    p
}

/// The item a token of the specification stands for, and its JSON.
fn item(t: &str) -> (VpTokenItem, Value) {
    let of = |v: Value| match v.clone() {
        Value::Object(m) => (VpTokenItem::JsonObject(m), v),
        Value::String(s) => (VpTokenItem::from(s), v),
        _ => unreachable!(),
    };
    // What a presentation type writes is up to it; the item is that.
    fn made<T: serde::Serialize + serde::de::DeserializeOwned + Into<VpTokenItem> + Clone>(v: Value) -> (VpTokenItem, Value) {
        let p: T = serde_json::from_value(v).expect("a presentation");
        let j = serde_json::to_value(p.clone()).expect("its JSON");
        (p.into(), j)
    }
    match t {
        "t:jwt" => of(json!("eyJhbGciOiJub25lIn0.e30.")),
        "t:empty" => of(json!("")),
        "t:unicode" => of(json!("Ünï😀\u{0}\"\\")),
        "t:object" => of(json!("{\"a\":[1]}")),
        "t:list" => of(json!("[\"a\"]")),
        "t:null" => of(json!("null")),
        "t:long" => of(json!("eyJ.".repeat(30000))),
        "t:padded" => of(json!(" \teyJ.e30.x==\r\n")),
        "t:sdjwt" => of(json!("eyJ.e30.sig~WyJhIiwiYiJd~~eyJ.e30.kb")),
        "t:mdoc" => of(json!("o2d2ZXJzaW9uYzEuMGlkb2N1bWVudHOB_-8=")),
        "t:number" => of(json!("-1.50e3")),
        "o:long" => of((0..300).map(|i| (format!("k{i}"), json!("v".repeat(i)))).collect::<serde_json::Map<_, _>>().into()),
        "o:deep" => of((0..60).fold(json!({"x": null}), |a, i| if i % 2 == 0 { json!({"a": a}) } else { json!({"a": [a]}) })),
        "o:order" => of(json!({"z": 1, "y": {"b": 1, "a": 2}, "a": "2", "Z": 0})),
        "t:quoted" => of(json!("\"a\"")),
        "o:empty" => of(json!({})),
        "o:simple" => of(json!({"type": "VerifiablePresentation"})),
        "o:nested" => of(json!({"b": {"a": [{"é": null}]}, "a": [[], {}], "": true})),
        "o:numbers" => of(json!({"n": [0, -1, 1.5, 9007199254740993u64, u64::MAX, i64::MIN]})),
        "m:v1" => made::<v1::JsonPresentation>(presentation(false)),
        "m:v2" => made::<v2::syntax::JsonPresentation>(presentation(true)),
        "m:any1" => made::<AnyJsonPresentation>(presentation(false)),
        "m:any2" => made::<AnyJsonPresentation>(presentation(true)),
        "m:v2s" => made::<v2::syntax::JsonPresentation<v2::syntax::SpecializedJsonCredential<json_syntax::Object>>>(holding(true)),
        "m:v1c" => made::<v1::JsonPresentation>(holding(false)),
        "m:v2c" => made::<v2::syntax::JsonPresentation>(holding(true)),
        "m:any2c" => made::<AnyJsonPresentation>(holding(true)),
        "m:di" => {
            let p: ssi_claims::data_integrity::AnyDataIntegrity = serde_json::from_value(data_integrity()).expect("a presentation");
            let j = serde_json::to_value(&p).expect("its JSON");
            (p.into(), j)
        }
        t => panic!("item {t}"),
    }
}
fn list(l: &Value) -> (Vec<VpTokenItem>, Value) {
    let (a, b): (Vec<_>, Vec<_>) = l.as_array().unwrap().iter().map(|t| item(t.as_str().unwrap())).unzip();
    (a, json!(b))
}

fn look(r: &mut Ran, t: &VpToken, view: &Value, at: &Value) {
    let mut want = json!({});
    for (i, l) in view.as_object().unwrap() {
        let got = t.get(id(i));
        if *l == json!(["-"]) {
            r.check(got.is_none(), "presentations appear under an id", || json!([at, i, serde_json::to_value(got).ok()]));
            continue;
        }
        let (items, j) = list(l);
        r.check(got == Some(&items), "the presentations under an id differ", || json!([at, i, serde_json::to_value(got).ok(), j]));
        want[id(i)] = j;
    }
    for near in [" a", "a ", "aa", "b", "\u{0}", "/a", "$.a", "A "] {
        r.check(t.get(near).is_none(), "presentations appear under an id never used", || json!([at, near]));
    }
    let n = want.as_object().unwrap().len();
    r.check(t.len() == n && t.is_empty() == (n == 0), "the number of queries answered differs", || json!([at, t.len(), n]));
    let all: Value = t.iter().map(|(k, v)| (k.clone(), serde_json::to_value(v).unwrap())).collect::<serde_json::Map<_, _>>().into();
    r.check(all == want && t.iter().count() == n, "iterating gives something else", || json!([at, all, want]));
    r.check(serde_json::to_value(t).ok() == Some(want.clone()), "the JSON differs", || json!([at, serde_json::to_value(t).ok(), want]));
    r.check(Value::from(t.clone()) == want, "the JSON value differs", || json!([at, want]));
}

pub fn token(v: &Value, _seed: u64) -> Ran {
    let mut r = Ran::new();
    let s = &v["start"];
    let mut t = match s["how"].as_str().unwrap() {
        "new" => VpToken::new(),
        "default" => VpToken::default(),
        _ => VpToken::with_credential(id(s["id"].as_str().unwrap()), list(&s["l"]).0),
    };
    for (i, h) in v["hist"].as_array().unwrap().iter().enumerate() {
        let at = json!([i, h["op"]]);
        let before = t.clone();
        match h["op"].as_str().unwrap() {
            "insert" => t.insert(id(h["id"].as_str().unwrap()), list(&h["l"]).0),
            op => {
                let read = match op {
                    "text" => serde_json::to_string(&t).ok().and_then(|x| serde_json::from_str(&x).ok()),
                    "value" => VpToken::try_from(Value::from(t.clone())).ok(),
                    _ => {
                        let mut o = UntypedObject::default();
                        o.insert(t.clone());
                        let o: UntypedObject = serde_json::from_value(serde_json::to_value(&o).unwrap()).unwrap();
                        o.get::<VpToken>().and_then(|x| x.ok())
                    }
                };
                match read {
                    Some(x) => {
                        r.check(x == before, "the token reads back as another", || json!([at]));
                        t = x;
                    }
                    None => r.fail("the token does not read back", at.clone()),
                }
            }
        }
        look(&mut r, &t, &h["view"], &at);
    }
    r.seen = serde_json::to_value(&t).unwrap_or_default();
    r
}
