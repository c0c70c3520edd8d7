//! Typed parameters and wallet metadata: Params.tla, Metadata.tla (P19).
use crate::util::Ran;
use openid4vp::core::{
    authorization_request::parameters::*,
    credential_format::{ClaimFormatDesignation, ClaimFormatPayload},
    dcql_query::DcqlQuery,
    metadata::{
        parameters::{
            verifier::{EncryptedResponseEncValuesSupported, JWKs, VpFormats},
            wallet::*,
        },
        WalletMetadata,
    },
    object::{TypedParameter, UntypedObject},
    response::parameters::{IdToken, VpToken},
};
use serde_json::{json, Map, Value};

/// The JSON a token of Params.tla stands for.
fn value(t: &str) -> Value {
    if let Some(text) = t.strip_prefix("t:") {
        return json!(match text {
            "empty" => "",
            "plain" => "some text",
            "unicode" => "Ünï😀 \u{0}\u{7f}",
            "escapes" => "a\"b\\c\n%20+&=",
            "url" => "https://host.example/path",
            "urlquery" => "https://host.example:8443/p/a?x=1&y=%20z#frag",
            "scheme" => "openid4vp://authorize",
            "jwt" => "eyJhbGciOiJub25lIn0.e30.",
            "json" => "{\"a\": [1]}",
            "jsonlist" => "[\"a\"]",
            "padded" => " \tsome text \n",
            "long" => return json!("0123456789abcdef".repeat(1000)),
            s => s,
        });
    }
    let key = |k: &str| json!({"kty": "EC", "crv": "P-256", "x": k, "y": "y", "extra": [1, null]});
    match t {
        "null" => Value::Null,
        "true" => json!(true),
        "0" => json!(0),
        "1.5" => json!(1.5),
        "l:empty" => json!([]),
        "l:one" => json!(["ES256"]),
        "l:two" => json!(["vp_token", "x y"]),
        "l:twice" => json!(["a", "a", ""]),
        "l:prereg" => json!(["pre-registered"]),
        "l:a128gcm" => json!(["A128GCM"]),
        "l:mixedtexts" => json!(["z", "ä", "vp_token id_token", "A"]),
        "l:long" => (0..500).map(|i| json!(format!("item {}", i % 300))).collect(),
        "l:padded" => json!([" ES256", "ES256 ", "", " "]),
        "l:cases" => json!(["ES256", "es256", "Es256", "vp_token", "VP_TOKEN"]),
        "o:deep" => json!({"a": {"b": [1, 2.5, 1e300, 18446744073709551615u64, -9223372036854775808i64, null, {"c": [[[]]]}]}, "A": "", " ": " "}),
        "l:numbers" => json!([1, 2]),
        "l:textnumber" => json!(["a", 1]),
        "l:numbertext" => json!([1, "a"]),
        "l:null" => json!([null]),
        "l:lists" => json!([["a"]]),
        "l:objects" => json!([{"format": "jwt", "data": "x"}, {}]),
        "o:empty" => json!({}),
        "o:alg" => json!({"jwt_vc_json": {"alg_values": ["ES256", "EdDSA"]}}),
        "o:noalg" => json!({"jwt_vc_json": {"alg_values": []}}),
        "o:proof" => json!({"ldp_vc": {"proof_type_values": ["ecdsa-rdfc-2019"]}}),
        "o:algproof" => json!({"ldp_vc": {"proof_type_values": ["a"], "alg_values": ["b"]}}),
        "o:algextra" => json!({"jwt_vc_json": {"alg_values": ["ES256"], "more": 1}}),
        "o:algtext" => json!({"jwt_vc_json": {"alg_values": "ES256"}}),
        "o:mdoc" => json!({"mso_mdoc": {"issuerauth_alg_values": [-7, -9], "deviceauth_alg_values": [-7]}}),
        "o:sdjwt" => json!({"dc+sd-jwt": {"sd-jwt_alg_values": ["ES256"], "kb-jwt_alg_values": ["ES256"]}}),
        "o:unknown" => json!({"jwt_vp_json": {"alg_values": ["ES256"]}, "x": {"y": 1}, "": {}}),
        "o:several" => json!({"jwt_vc_json": {"alg_values": ["ES256"]}, "ldp_vc": {"proof_type_values": []}, "mso_mdoc": {}, "dc+sd-jwt": {"a": null}}),
        "o:keys" => json!({"keys": [key("1")]}),
        "o:keysnone" => json!({"keys": []}),
        "o:keysempty" => json!({"keys": [{}, key("1"), {}]}),
        "o:keystwo" => json!({"keys": [key("1"), key("2")]}),
        "o:keysobject" => json!({"keys": {"0": key("1")}}),
        "o:keystext" => json!({"keys": "k"}),
        "o:keysnumbers" => json!({"keys": [1]}),
        "o:keysnull" => json!({"keys": null}),
        "o:tok" => json!({"cred": ["eyJ.x.y"]}),
        "o:tokobj" => json!({"cred": [{"@context": ["a"], "n": 1.5}]}),
        "o:tokmany" => json!({"a": ["1", {"b": []}, ""], "b": ["2"], "ü": ["3"]}),
        "o:toknone" => json!({"a": []}),
        "o:toktext" => json!({"a": "x"}),
        "o:toknumber" => json!({"a": [1]}),
        "o:toknested" => json!({"a": [["x"]]}),
        "o:toknull" => json!({"a": [null]}),
        "o:tokbool" => json!({"a": [true]}),
        "o:dcql" => json!({"credentials": [{"id": "a", "format": "mso_mdoc", "meta": {"doctype_value": "d"}}]}),
        "o:dcqlnone" => json!({"credentials": []}),
        "o:dcqlbad" => json!({"credentials": [{"id": 5, "format": "mso_mdoc"}]}),
        t => panic!("value {t}"),
    }
}

/// An operation on a parameter of some type: gives its result as JSON and the object afterwards.
struct Ops {
    get: fn(&UntypedObject) -> Option<Result<Value, String>>,
    or_default: fn(&UntypedObject) -> Option<Result<Value, String>>,
    insert: fn(&mut UntypedObject, Value) -> Option<Result<Value, String>>,
    remove: fn(&mut UntypedObject) -> Option<Result<Value, String>>,
    key: &'static str,
}
fn back<T: TypedParameter>(x: anyhow::Result<T>) -> Result<Value, String> {
    match x {
        Ok(t) => Ok(t.try_into().map_err(|_| "cannot be written").unwrap()),
        Err(e) => Err(format!("{e:#}")),
    }
}
fn ops<T: TypedParameter>() -> Ops {
    Ops {
        get: |o| o.get::<T>().map(back),
        or_default: |_| panic!("no default"),
        insert: |o, v| {
            let t = T::try_from(v).expect("a proper value is refused");
            o.insert(t).map(back)
        },
        remove: |o| o.remove::<T>().map(back),
        key: T::KEY,
    }
}
fn ops_default<T: TypedParameter + Default>() -> Ops {
    Ops { or_default: |o| Some(back(o.get_or_default::<T>())), ..ops::<T>() }
}
/// A parameter of the library's user.
#[derive(Clone, Debug)]
struct Own(Value);
impl TypedParameter for Own {
    const KEY: &'static str = "own";
}
impl TryFrom<Value> for Own {
    type Error = anyhow::Error;
    fn try_from(v: Value) -> anyhow::Result<Self> {
        anyhow::ensure!(v != json!(true), "true");
        Ok(Own(v))
    }
}
impl TryFrom<Own> for Value {
    type Error = anyhow::Error;
    fn try_from(o: Own) -> anyhow::Result<Self> {
        anyhow::ensure!(o.0 != json!(true), "true");
        Ok(o.0)
    }
}

fn ops_of(p: &str) -> Ops {
    match p {
        "issuer" => ops::<Issuer>(),
        "authorization_endpoint" => ops::<AuthorizationEndpoint>(),
        "response_types_supported" => ops::<ResponseTypesSupported>(),
        "client_id_prefixes_supported" => ops_default::<ClientIdPrefixesSupported>(),
        "request_object_signing_alg_values_supported" => ops_default::<RequestObjectSigningAlgValuesSupported>(),
        "vp_formats_supported" => ops_default::<VpFormatsSupported>(),
        "client_vp_formats_supported" => ops::<VpFormats>(),
        "authorization_encryption_alg_values_supported" => ops::<AuthorizationEncryptionAlgValuesSupported>(),
        "authorization_encryption_enc_values_supported" => ops::<AuthorizationEncryptionEncValuesSupported>(),
        "jwks" => ops::<JWKs>(),
        "encrypted_response_enc_values_supported" => ops_default::<EncryptedResponseEncValuesSupported>(),
        "client_id" => ops::<ClientId>(),
        "client_metadata" => ops::<ClientMetadata>(),
        "nonce" => ops::<Nonce>(),
        "aud" => ops::<Audience>(),
        "redirect_uri" => ops::<RedirectUri>(),
        "response_uri" => ops::<ResponseUri>(),
        "response_mode" => Ops {
            get: |o| {
                let m = o.get::<ResponseMode>();
                if let Some(Ok(m)) = &m {
                    let text = serde_json::to_value(m).unwrap();
                    assert!(json!(m.to_string()) == text && ResponseMode::from(m.to_string()) == *m, "the response mode shows as another");
                    let known = ["direct_post", "direct_post.jwt", "dc_api", "dc_api.jwt"].iter().any(|k| text == *k);
                    assert!(m.is_jarm().ok() == known.then(|| m.to_string().ends_with(".jwt")), "wrong idea of whether the response is to be encrypted");
                }
                m.map(back)
            },
            ..ops_default::<ResponseMode>()
        },
        "response_type" => ops::<ResponseType>(),
        "state" => ops::<State>(),
        "expected_origins" => ops::<ExpectedOrigins>(),
        "transaction_data" => ops::<TransactionData>(),
        "verifier_info" => ops::<VerifierInfo>(),
        "request_uri_method" => ops_default::<RequestUriMethod>(),
        "id_token" => ops::<IdToken>(),
        "vp_token" => ops_default::<VpToken>(),
        "dcql_query" => ops::<DcqlQuery>(),
        "own" => Ops { insert: |o, v| o.insert(Own(v)).map(back), ..ops::<Own>() },
        p => panic!("parameter {p}"),
    }
}

pub fn params(v: &Value, _seed: u64) -> Ran {
    let mut r = Ran::new();
    let p = v["p"].as_str().unwrap();
    let name = p.strip_prefix("client_vp").map_or(p.to_string(), |r| format!("vp{r}"));
    let ops = ops_of(p);
    r.check(ops.key == name, "the parameter has another name", || json!([ops.key, name]));
    // Members around the one looked at, with names like it.
    let near = [format!("{name}_"), name[..name.len() - 1].to_string(), name.to_uppercase(), "zz".into(), "".into()];
    let full = |val: &str| {
        let mut m: Map<String, Value> = near.iter().map(|n| (n.clone(), json!({"n": [n, 1, null]}))).collect();
        if val != "-" {
            m.insert(name.clone(), value(val));
        }
        Value::Object(m)
    };
    let mut o: UntypedObject = serde_json::from_value(full(v["start"].as_str().unwrap())).expect("an object");
    let mut seen = Vec::new();
    for (i, h) in v["hist"].as_array().unwrap().iter().enumerate() {
        let got = match h["op"].as_str().unwrap() {
            "get" => (ops.get)(&o),
            "get_or_default" => (ops.or_default)(&o),
            "insert" => (ops.insert)(&mut o, value(h["arg"].as_str().unwrap())),
            "remove" => (ops.remove)(&mut o),
            "wire" => {
                let text = serde_json::to_string(&o).expect("written");
                o = serde_json::from_str(&text).expect("read back");
                None
            }
            op => panic!("{op}"),
        };
        let exp = h["result"].as_str().unwrap();
        let fine = match (exp, &got) {
            ("ok", _) => true,
            ("none", None) => true,
            ("err", Some(Err(_))) => true,
            ("none" | "err", _) => false,
            (x, Some(Ok(g))) => *g == value(x),
            _ => false,
        };
        r.check(fine, "the result differs", || json!({"step": i, "op": h, "got": format!("{got:?}")}));
        let now: Value = o.clone().into();
        let after = full(h["after"].as_str().unwrap());
        r.check(now == after, "the object differs", || json!({"step": i, "op": h, "got": now, "expected": after}));
        seen.push(json!(format!("{got:?}")));
    }
    r.seen = json!(seen);
    r
}

fn payload(x: &Value) -> Option<Value> {
    let l = &x["l"];
    Some(match x["kind"].as_str().unwrap() {
        "-" => return None,
        "alg" => json!({"alg_values": l}),
        "proof" => json!({"proof_type_values": l}),
        _ => json!({"sd-jwt_alg_values": l, "kb-jwt_alg_values": ["ES256"]}),
    })
}
fn formats(x: &Value) -> Value {
    x.as_object().unwrap().iter().filter_map(|(k, p)| Some((k.clone(), payload(p)?))).collect::<Map<_, _>>().into()
}
fn fresh(kind: &str) -> ClaimFormatPayload {
    match kind {
        "alg" => ClaimFormatPayload::AlgValues(vec![]),
        "proof" => ClaimFormatPayload::ProofTypeValues(vec![]),
        k => ClaimFormatPayload::Other(payload(&json!({"kind": k, "l": []})).unwrap()),
    }
}

/// The metadata as any reader of its JSON sees it.
fn look(r: &mut Ran, w: &WalletMetadata, view: &Value, endpoint: &str, extra: bool, at: Value) {
    let list = |k: &str| {
        let l = &view[k];
        (*l != json!(["-bad"])).then(|| l.clone())
    };
    let got = w.get_or_default::<RequestObjectSigningAlgValuesSupported>().ok().map(|x| json!(x.0));
    r.check(got == list("algs"), "algorithms", || json!([at, got, view]));
    let got = w.get_or_default::<ClientIdPrefixesSupported>().ok().map(|x| json!(x.0.iter().map(|p| p.0.clone()).collect::<Vec<_>>()));
    r.check(got == list("prefixes"), "prefixes", || json!([at, got, view]));
    let exp = formats(&view["formats"]);
    let got = serde_json::to_value(&w.vp_formats_supported().0).unwrap();
    r.check(got == exp, "formats", || json!([at, got, exp]));
    for (f, p) in view["formats"].as_object().unwrap() {
        let yes = w.vp_formats_supported().is_claim_format_supported(&ClaimFormatDesignation::from(f.as_str()));
        r.check(yes == (p["kind"] != "-"), "is_claim_format_supported", || json!([at, f, yes]));
    }
    r.check(w.authorization_endpoint().0.as_str() == endpoint, "endpoint", || json!([at, w.authorization_endpoint().0.as_str()]));
    // And what goes on the wire.
    let mut exp = json!({"authorization_endpoint": endpoint, "vp_formats_supported": exp});
    for (k, name) in [("algs", "request_object_signing_alg_values_supported"), ("prefixes", "client_id_prefixes_supported")] {
        match view[format!("raw{k}")].as_str().unwrap() {
            "bad" => exp[name] = json!("not a list"),
            "none" => {}
            _ => exp[name] = view[k].clone(),
        }
    }
    if extra {
        exp["issuer"] = json!("https://self-issued.me/v2");
        exp["unknown_member"] = json!([1, {"a": null}]);
    } else {
        exp["response_types_supported"] = json!(["vp_token"]);
    }
    let got = serde_json::to_value(w).unwrap();
    r.check(got == exp, "the JSON", || json!([at, got, exp]));
}

pub fn metadata(v: &Value, _seed: u64) -> Ran {
    let mut r = Ran::new();
    let how = v["how"].as_str().unwrap();
    let endpoint = if how == "static" { "openid4vp:" } else { "mdoc-openid4vp://authorize?a=b" };
    let mut o = json!({"issuer": "https://self-issued.me/v2", "unknown_member": [1, {"a": null}]});
    for (k, name) in [("algs", "request_object_signing_alg_values_supported"), ("prefixes", "client_id_prefixes_supported")] {
        if v[k] == json!(["-bad"]) {
            o[name] = json!("not a list");
        } else if v[k] != json!(["-absent"]) {
            o[name] = v[k].clone();
        }
    }
    let fmts = formats(&v["formats"]);
    let mut w = match how {
        "static" => WalletMetadata::openid4vp_scheme_static(),
        "new" => {
            // Whatever the rest says of them, the endpoint and formats given are those used.
            o["authorization_endpoint"] = json!("https://elsewhere.example/");
            o["vp_formats_supported"] = json!({"elsewhere": {}});
            WalletMetadata::new(
                AuthorizationEndpoint(endpoint.parse().unwrap()),
                VpFormatsSupported::try_from(fmts).expect("formats"),
                Some(serde_json::from_value(o).unwrap()),
            )
        }
        _ => {
            o["authorization_endpoint"] = json!(endpoint);
            o["vp_formats_supported"] = fmts;
            serde_json::from_value(o).expect("proper metadata is refused")
        }
    };
    let extra = how != "static";
    for (i, h) in v["hist"].as_array().unwrap().iter().enumerate() {
        let args: Vec<&str> = h["arg"].as_array().unwrap().iter().map(|a| a.as_str().unwrap()).collect();
        let fmt = |a: &str| ClaimFormatDesignation::from(a);
        let ok = match h["op"].as_str().unwrap() {
            "add_alg" => {
                let alg = match args[0] {
                    "ES256" => ssi_jwk::Algorithm::ES256,
                    "ES256K" => ssi_jwk::Algorithm::ES256K,
                    "RS256" => ssi_jwk::Algorithm::RS256,
                    _ => ssi_jwk::Algorithm::EdDSA,
                };
                w.add_request_object_signing_alg_values_supported(alg).is_ok()
            }
            "add_prefixes" => {
                let l: Vec<_> = args.iter().map(|a| ClientIdScheme(a.to_string())).collect();
                w.add_client_id_prefixes_supported(&l).is_ok()
            }
            "set_format" => {
                w.vp_formats_supported_mut().0.insert(fmt(args[0]), fresh(args[1]));
                true
            }
            "drop_format" => {
                w.vp_formats_supported_mut().0.remove(&fmt(args[0]));
                true
            }
            "fmt_add_alg" => {
                w.vp_formats_supported_mut().0.get_mut(&fmt(args[0])).unwrap().add_alg(args[1].into());
                true
            }
            "fmt_add_proof" => {
                w.vp_formats_supported_mut().0.get_mut(&fmt(args[0])).unwrap().add_proof_type(args[1].into());
                true
            }
            "wire" => {
                let text = serde_json::to_string(&w).expect("written");
                match serde_json::from_str(&text) {
                    Ok(x) => {
                        w = x;
                        true
                    }
                    Err(_) => false,
                }
            }
            op => panic!("{op}"),
        };
        r.check(json!(ok) == h["ok"], "success differs", || json!([i, h, ok]));
        look(&mut r, &w, &h["view"], endpoint, extra, json!([i, h["op"]]));
    }
    // The same formats as the verifier's library reads them.
    let last = &v["hist"].as_array().unwrap().last().unwrap()["view"]["formats"];
    let mut cm = Map::new();
    cm.insert("vp_formats_supported".into(), formats(last));
    let client = ClientMetadata::try_from(Value::Object(cm)).unwrap();
    let fs = client.vp_formats().expect("formats are refused");
    for (f, l) in v["support"].as_object().unwrap() {
        for x in ["ES256", "es256", "ES256 ", "ES384", "Ed25519", "ecdsa-rdfc-2019", "ES25", ""] {
            let exp = l.as_array().unwrap().contains(&json!(x));
            let got = fs.supports_security_method(&ClaimFormatDesignation::from(f.as_str()), &x.to_string());
            r.check(got == exp, "supports_security_method", || json!([f, x, got]));
        }
    }
    r.seen = serde_json::to_value(&w).unwrap();
    r
}

// ---------------------------------------------------------------------------- P26
fn format_name(n: &str) -> String {
    match n {
        "unicode" => "ﬁ-é😀".into(),
        "@long" => format!("mso_mdoc{}", "c".repeat(5000)),
        "@nul" => "mso_mdoc\0".into(),
        "@newline" => "dc+sd-jwt\n".into(),
        "@fullwidth" => "ｍso_mdoc".into(),
        n => n.into(),
    }
}
/// A JSON string in which every character is written as an escape.
fn escaped(s: &str) -> String {
    format!("\"{}\"", s.encode_utf16().map(|u| format!("\\u{u:04x}")).collect::<String>())
}
fn standard(d: &ClaimFormatDesignation) -> &'static str {
    match d {
        ClaimFormatDesignation::JwtVcJson => "jwt_vc_json",
        ClaimFormatDesignation::LdpVc => "ldp_vc",
        ClaimFormatDesignation::MsoMDoc => "mso_mdoc",
        ClaimFormatDesignation::DcSdJwt => "dc+sd-jwt",
        _ => "-",
    }
}
fn check_name(r: &mut Ran, d: &ClaimFormatDesignation, n: &str, is_standard: bool, how: &str) {
    let fine = match d {
        ClaimFormatDesignation::Other(o) => !is_standard && o == n,
        d => is_standard && standard(d) == n,
    };
    r.check(fine, "a name is read as another format", || json!([how, n, format!("{d:?}")]));
    let written = [d.to_string(), String::from(d.clone()), serde_json::to_value(d).ok().and_then(|v| v.as_str().map(String::from)).unwrap_or_default()];
    r.check(written.iter().all(|w| w == n), "a format is written under another name", || json!([how, n, written]));
}

pub fn formats_named(v: &Value, _seed: u64) -> Ran {
    use openid4vp::core::credential_format::{ClaimFormat, ClaimFormatMap};
    use openid4vp::core::dcql_query::DcqlCredentialQuery;
    let mut r = Ran::new();
    let via = v["via"].as_str().unwrap();
    let read = |n: &str| -> Option<ClaimFormatDesignation> {
        let query = || json!({"credentials": [{"id": "a", "format": n, "meta": {}}]});
        match via {
            "str" => Some(n.into()),
            "string" => Some(n.to_string().into()),
            "from_str" => n.parse().ok(),
            "borrowed" => Some(ClaimFormatDesignation::from_name(n.into())),
            "owned" => Some(ClaimFormatDesignation::from_name(n.to_string().into())),
            "json" => serde_json::from_value(json!(n)).ok(),
            "text" => serde_json::from_str(&json!(n).to_string()).ok(),
            "escaped" => serde_json::from_str(&escaped(n)).ok(),
            "reader" => serde_json::from_reader(json!(n).to_string().as_bytes()).ok(),
            "key" => {
                let m: ClaimFormatMap = serde_json::from_value(json!({n: {}})).ok()?;
                m.into_keys().next()
            }
            // Next to other formats, each with what it says.
            "keys" => {
                let others = ["jwt_vc_json", "ldp_vc", "mso_mdoc", "dc+sd-jwt", "x_another"];
                let mut o: Map<String, Value> = others.iter().map(|f| (f.to_string(), json!({"of": f}))).collect();
                o.insert(n.into(), json!({"of": n}));
                let size = o.len();
                let m: ClaimFormatMap = serde_json::from_str(&Value::Object(o.clone()).to_string()).ok()?;
                if m.len() != size || serde_json::to_value(&m).ok()? != Value::Object(o) {
                    return None;
                }
                m.into_iter().find(|(_, p)| serde_json::to_value(p).unwrap() == json!({"of": n})).map(|(k, _)| k)
            }
            "metadata" => {
                let w: WalletMetadata =
                    serde_json::from_value(json!({"authorization_endpoint": "openid4vp:", "vp_formats_supported": {n: {"alg_values": ["ES256"]}}})).ok()?;
                w.vp_formats_supported().0.keys().next().cloned()
            }
            "query" => {
                let q: DcqlQuery = serde_json::from_value(query()).ok()?;
                Some(q.credentials()[0].format().clone())
            }
            "querytext" => {
                let q: DcqlQuery = serde_json::from_str(&query().to_string()).ok()?;
                if serde_json::to_value(&q).ok()?["credentials"][0]["format"] != json!(n) {
                    return None;
                }
                Some(q.credentials()[0].format().clone())
            }
            _ => Some(DcqlCredentialQuery::new("a".to_string(), n.into()).format().clone()),
        }
    };
    if v["what"] == "name" {
        let (nx, ny) = (format_name(v["x"].as_str().unwrap()), format_name(v["y"].as_str().unwrap()));
        let (Some(x), Some(y)) = (read(&nx), read(&ny)) else {
            r.fail("a format name is refused or mistaken", json!([via, nx, ny]));
            return r;
        };
        r.seen = json!(format!("{x:?}"));
        check_name(&mut r, &x, &nx, v["standard"].as_bool().unwrap(), via);
        let same = v["same"].as_bool().unwrap();
        r.check((x == y) == same, "formats compare otherwise than their names", || json!([nx, ny]));
        let m: std::collections::HashMap<_, _> = [(x.clone(), 1)].into();
        r.check(m.contains_key(&y) == same, "formats are looked up otherwise than their names", || json!([nx, ny]));
        return r;
    }
    let name = format_name(v["claim"].as_str().unwrap());
    let says = match (name.as_str(), v["says"].as_str().unwrap()) {
        ("jwt_vc_json", "algs") => json!({"alg_values_supported": ["ES256", "EdDSA"]}),
        ("jwt_vc_json", "algsextra") => json!({"alg_values_supported": ["ES256", "es256", "", "ES256"]}),
        ("jwt_vc_json", _) => json!({"alg_values_supported": []}),
        (_, "proofs") => json!({"proof_type": ["ecdsa-rdfc-2019"]}),
        (_, "noproofs") => json!({"proof_type": []}),
        (_, "empty") => json!({}),
        (_, "scalar") => json!("ES256"),
        (_, "list") => json!(["ES256", 1]),
        (_, "nothing") => json!(null),
        _ => json!({"alg_values": ["ES256"], "n": [1, null]}),
    };
    let mut j = json!({&name: says});
    match v["says"].as_str().unwrap() {
        "more" => j["z_more"] = json!(1),
        "evenmore" => {
            j["z_more"] = json!([]);
            j["zz"] = json!({"alg_values_supported": ["ES256"]});
        }
        _ => {}
    }
    let got = match via {
        "json" => serde_json::from_value::<ClaimFormat>(j.clone()),
        "text" => serde_json::from_str(&j.to_string()),
        _ => serde_json::from_reader(j.to_string().as_bytes()),
    };
    match got {
        Ok(c) => {
            check_name(&mut r, &c.designation(), &name, v["cstandard"].as_bool().unwrap(), "claim");
            r.check(serde_json::to_value(&c).ok() == Some(j.clone()), "a claim format is written otherwise", || j.clone());
            let back = serde_json::to_string(&c).ok().and_then(|t| serde_json::from_str::<ClaimFormat>(&t).ok());
            r.check(back.as_ref() == Some(&c), "a claim format is read back otherwise", || j.clone());
            r.seen = json!(format!("{c:?}"));
        }
        Err(e) => r.fail("a claim format is refused", json!([j, e.to_string()])),
    }
    r
}
