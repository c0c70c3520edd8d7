//! DCQL queries: Dcql.tla (P16).
use crate::util::Ran;
use openid4vp::{
    core::{credential_format::ClaimFormatDesignation as Format, dcql_query::*},
    utils::NonEmptyVec,
};
use serde_json::{json, Map, Value};

fn odd(s: &str) -> String {
    match s {
        "@long" => "0123456789abcdef".repeat(200),
        "@unicode" => "\u{e9}\u{1f600}\u{0}e\u{301} \"\\".into(),
        s => s.into(),
    }
}
const MANY: usize = 300;

/// The JSON a tagged value stands for; None: absent.
fn val(x: &Value) -> Option<Value> {
    let v = x["v"].as_str().unwrap();
    Some(match x["t"].as_str().unwrap() {
        "s" => json!(odd(v)),
        "i" => json!(v.parse::<i64>().unwrap()),
        "b" => json!(v == "true"),
        "f" => json!(v.parse::<f64>().unwrap()),
        "n" => Value::Null,
        "l" => json!([]),
        "o" => json!({}),
        _ => return None,
    })
}
/// A list, or what stands in its place.
fn list(x: &Value, f: impl Fn(&Value) -> Value) -> Option<Value> {
    Some(match x["k"].as_str().unwrap() {
        "list" => x["l"].as_array().unwrap().iter().map(f).collect(),
        "string" => json!("a"),
        "object" => json!({"a": "b"}),
        "number" => json!(3),
        _ => return None,
    })
}
fn text(v: &Value) -> Value {
    match v.as_str().unwrap() {
        "!" => json!(5),
        s => json!(odd(s)),
    }
}
fn texts(v: &Value) -> Value {
    if *v == json!(["!!"]) {
        return json!("a");
    }
    v.as_array().unwrap().iter().map(text).collect()
}
fn put(m: &mut Map<String, Value>, k: &str, v: Option<Value>) {
    if let Some(v) = v {
        m.insert(k.into(), v);
    }
}

/// What each part may have, with a proper value.
fn own(part: &str) -> Value {
    match part {
        "query" => json!({"credentials": [{"id": "o", "format": "ldp_vc", "meta": {}}], "credential_sets": [{"options": [["o"]]}]}),
        "credential" => json!({"id": "o", "format": "ldp_vc", "meta": {}, "claims": [{"path": ["o"]}], "claim_sets": [["o"]], "multiple": true,
            "trusted_authorities": [{"type": "aki", "values": ["o"]}], "require_cryptographic_holder_binding": false}),
        "claim" => json!({"id": "o", "path": ["o"], "values": ["o"], "intent_to_retain": true}),
        "authority" => json!({"type": "aki", "values": ["o"]}),
        _ => json!({"options": [["o"]], "required": false}),
    }
}

/// Names close to those, with the same values.
fn like(part: &str) -> Value {
    let mut m = Map::new();
    for (k, v) in own(part).as_object().unwrap() {
        let words: Vec<&str> = k.split('_').collect();
        let capital = |w: &str| w[..1].to_uppercase() + &w[1..];
        let camel = words[0].to_string() + &words[1..].iter().map(|w| capital(w)).collect::<String>();
        let mut names = vec![k.to_uppercase(), capital(k), k.replace('_', "-"), camel, words.concat(), format!("{k}s"), format!(" {k}"), format!("{k} "),
            format!("allow_{k}"), format!("is_{k}"), format!("is{}", capital(k)), format!("{k}_value"), format!("{k}_values"), format!("{k}_type"),
            format!("{k}_id"), format!("{k}_raw"), format!("_{k}"), format!("{k}?"), format!("credential_{k}"), format!("{k}_query")];
        names.extend(k.strip_suffix('s').map(String::from));
        names.extend(words.last().filter(|_| words.len() > 1).map(|w| w.to_string()));
        names.extend((1..words.len()).map(|i| words[i..].join("_")));
        for (of, also) in [("meta", "metadata"), ("meta", "meta_data"), ("require_cryptographic_holder_binding", "require_holder_binding"),
            ("require_cryptographic_holder_binding", "cryptographic_holder_binding_required"), ("intent_to_retain", "retain"), ("path", "pointer"),
            ("type", "authority_type"), ("type", "kind"), ("trusted_authorities", "trusted_authority"), ("trusted_authorities", "trusted_issuers"),
            ("multiple", "allowMultiple"), ("multiple", "multi"), ("required", "purpose"), ("required", "optional"), ("required", "mandatory"),
            ("options", "choices"), ("id", "credential_query_id"), ("id", "identifier"), ("id", "name"), ("credentials", "credential_queries"),
            ("credentials", "input_descriptors"), ("format", "claim_format"), ("format", "vp_format"), ("claims", "fields"), ("values", "value")] {
            names.extend((of == k).then(|| also.to_string()));
        }
        m.extend(names.into_iter().filter(|n| own(part).get(n).is_none()).map(|n| (n, v.clone())));
    }
    Value::Object(m)
}

/// The JSON of the query, with or without members unknown to DCQL.
fn query(c: &Value, extra: &str) -> Value {
    let s = |k: &str| c[k].as_str().unwrap();
    let more = |m: &mut Map<String, Value>, part: &str| {
        let more = match extra {
            "unknown" => json!({"x_unknown": {"a": [1, "b"]}}),
            "like" => like(part),
            // What belongs to the other parts.
            "other" => ["query", "credential", "claim", "authority", "set"].iter().flat_map(|p| match own(p) {
                Value::Object(m) => m,
                _ => unreachable!(),
            }).filter(|(k, _)| own(part).get(k).is_none()).collect::<Map<_, _>>().into(),
            _ => json!({}),
        };
        m.extend(more.as_object().unwrap().clone());
    };
    let mut claim = Map::new();
    put(&mut claim, "id", val(&c["cid"]));
    put(&mut claim, "path", list(&c["path"], |e| val(e).unwrap()));
    put(&mut claim, "values", list(&c["values"], |e| val(e).unwrap()));
    put(&mut claim, "intent_to_retain", val(&c["retain"]));
    more(&mut claim, "claim");
    let claim = Value::Object(claim);
    let other = json!({"path": ["zz"]});
    let mut auth = Map::new();
    put(&mut auth, "type", val(&c["atype"]));
    put(&mut auth, "values", list(&c["avals"], text));
    more(&mut auth, "authority");
    let auth = Value::Object(auth);

    let mut cred = Map::new();
    put(&mut cred, "id", val(&c["id"]));
    put(&mut cred, "format", val(&c["format"]));
    put(&mut cred, "meta", match s("meta") {
        "empty" => Some(json!({})),
        "doctype" => Some(json!({"doctype_value": "org.iso.18013.5.1.mDL"})),
        "deep" => Some(json!({"vct_values": ["a", "b"], "n": {"m": [null, 1, -2, true, 1.5, {"z": ""}]}, "": "é\u{0}"})),
        "list" => Some(json!(["a"])),
        "string" => Some(json!("a")),
        "big" => Some((0..200).map(|i| (format!("k{i}"), json!([i, 18446744073709551615u64, -9223372036854775808i64, 1e300, odd("@long")])))
            .collect::<Map<_, _>>().into()),
        _ => None,
    });
    put(&mut cred, "claims", match s("claims") {
        "one" => Some(json!([claim])),
        "same" => Some(json!([claim, other, claim])),
        "twobefore" => Some(json!([claim, other])),
        "twoafter" => Some(json!([other, claim])),
        "many" => Some((0..MANY).map(|i| json!({"id": format!("z{i}"), "path": ["zz", i, null]})).chain([claim]).collect()),
        "empty" => Some(json!([])),
        "object" => Some(json!({"0": claim})),
        "string" => Some(json!("a")),
        "holdsnumber" => Some(json!([claim, 3])),
        _ => None,
    });
    put(&mut cred, "claim_sets", list(&c["csets"], texts));
    put(&mut cred, "trusted_authorities", match s("auths") {
        "one" => Some(json!([auth])),
        "same" => Some(json!([auth, auth])),
        "two" => Some(json!([{"type": "etsi_tl", "values": ["https://tl.example"]}, auth])),
        "many" => Some((0..MANY).map(|i| json!({"type": format!("t{i}"), "values": ["v", "v"]})).chain([auth]).collect()),
        "empty" => Some(json!([])),
        "object" => Some(json!({"0": auth})),
        "holdsstring" => Some(json!([auth, "a"])),
        _ => None,
    });
    put(&mut cred, "require_cryptographic_holder_binding", val(&c["bind"]));
    put(&mut cred, "multiple", val(&c["multi"]));
    more(&mut cred, "credential");
    let cred = Value::Object(cred);
    let other = json!({"id": "zz", "format": "ldp_vc", "meta": {}});

    let mut set = Map::new();
    put(&mut set, "options", list(&c["opts"], texts));
    put(&mut set, "required", val(&c["req"]));
    more(&mut set, "set");
    let set = Value::Object(set);
    let mut q = Map::new();
    put(&mut q, "credentials", match s("creds") {
        "one" => Some(json!([cred])),
        // The same twice, around another.
        "same" => Some(json!([cred, other, cred])),
        "twobefore" => Some(json!([cred, other])),
        "twoafter" => Some(json!([other, cred])),
        "many" => Some((0..MANY).map(|i| json!({"id": format!("zz{i}"), "format": "ldp_vc", "meta": {}})).chain([cred]).collect()),
        "empty" => Some(json!([])),
        "object" => Some(json!({"0": cred})),
        "string" => Some(json!("a")),
        "holdsnumber" => Some(json!([cred, 3])),
        "holdslist" => Some(json!([cred, []])),
        _ => None,
    });
    put(&mut q, "credential_sets", match s("sets") {
        "one" => Some(json!([set])),
        "same" => Some(json!([set, set])),
        "two" => Some(json!([{"options": [["zz"]], "required": true}, set])),
        "many" => Some((0..MANY).map(|i| json!({"options": [[format!("zz{i}")], []]})).chain([set]).collect()),
        "empty" => Some(json!([])),
        "object" => Some(json!({"0": set})),
        "holdsstring" => Some(json!([set, "a"])),
        _ => None,
    });
    more(&mut q, "query");
    Value::Object(q)
}

fn ne<T>(v: Vec<T>) -> NonEmptyVec<T> {
    NonEmptyVec::try_from(v).expect("not empty")
}
fn strings(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|x| odd(x.as_str().unwrap())).collect()
}
fn flag(x: &Value) -> Option<bool> {
    val(x).and_then(|v| v.as_bool())
}

fn format_of(name: &str) -> Format {
    match name {
        "mso_mdoc" => Format::MsoMDoc,
        "jwt_vc_json" => Format::JwtVcJson,
        "ldp_vc" => Format::LdpVc,
        "dc+sd-jwt" => Format::DcSdJwt,
        s => Format::Other(s.into()),
    }
}
fn authority(name: &str) -> TrustedAuthorityType {
    match name {
        "aki" => TrustedAuthorityType::Aki,
        "etsi_tl" => TrustedAuthorityType::EtsiTl,
        "openid_federation" => TrustedAuthorityType::OpenidFederation,
        s => TrustedAuthorityType::Other(s.into()),
    }
}

/// The same query made with constructors and setters (or, if `muts`, through mutable references).
fn made(c: &Value, muts: bool) -> DcqlQuery {
    let s = |k: &str| c[k].as_str().unwrap();
    let path: Vec<_> = c["path"]["l"].as_array().unwrap().iter().map(|e| match val(e).unwrap() {
        Value::String(s) => DcqlCredentialClaimsQueryPath::String(s),
        Value::Null => DcqlCredentialClaimsQueryPath::Null,
        n => DcqlCredentialClaimsQueryPath::Integer(n.as_u64().unwrap() as _),
    }).collect();
    let values: Option<Vec<_>> = (c["values"]["k"] == "list").then(|| {
        c["values"]["l"].as_array().unwrap().iter().map(|e| match val(e).unwrap() {
            Value::String(s) => DcqlCredentialClaimsQueryValue::String(s),
            Value::Bool(b) => DcqlCredentialClaimsQueryValue::Boolean(b),
            n => DcqlCredentialClaimsQueryValue::Integer(n.as_i64().unwrap() as _),
        }).collect()
    });
    let cid = val(&c["cid"]).map(|v| v.as_str().unwrap().to_string());
    let other = DcqlCredentialClaimsQuery::new(NonEmptyVec::new(DcqlCredentialClaimsQueryPath::String("zz".into())));
    let claim = || {
        let mut q;
        if muts {
            q = other.clone();
            *q.path_mut() = ne(path.clone());
            *q.id_mut() = cid.clone();
            *q.values_mut() = values.clone().map(ne);
            *q.intent_to_retain_mut() = flag(&c["retain"]);
        } else {
            q = DcqlCredentialClaimsQuery::new(NonEmptyVec::maybe_new(path.clone()).unwrap());
            q.set_id(Some("wrong".into()));
            q.set_id(cid.clone());
            q.set_values(Some(NonEmptyVec::new(DcqlCredentialClaimsQueryValue::Boolean(true))));
            q.set_values(values.clone().map(ne));
            q.set_intent_to_retain(Some(true));
            q.set_intent_to_retain(flag(&c["retain"]));
            q.set_path(ne(path.clone()));
        }
        q
    };
    let sets = |x: &Value| -> Option<NonEmptyVec<Vec<String>>> {
        (x["k"] == "list").then(|| ne(x["l"].as_array().unwrap().iter().map(strings).collect()))
    };
    let auth = || {
        let vs = strings(&c["avals"]["l"]);
        let t = authority(val(&c["atype"]).unwrap().as_str().unwrap());
        if muts {
            let mut a = TrustedAuthoritiesQuery::new(TrustedAuthorityType::Aki, NonEmptyVec::new("q".into()));
            a.set_authority_type(t);
            *a.values_mut() = NonEmptyVec::new(vs[0].clone());
            for v in &vs[1..] {
                a.values_mut().push(v.clone());
            }
            a
        } else {
            let mut a = TrustedAuthoritiesQuery::new(t, NonEmptyVec::new("q".into()));
            a.set_values(ne(vs));
            a
        }
    };
    let first = TrustedAuthoritiesQuery::new(TrustedAuthorityType::EtsiTl, NonEmptyVec::new("https://tl.example".into()));
    let claims = match s("claims") {
        "one" => Some(ne(vec![claim()])),
        "same" => Some(ne(vec![claim(), other.clone(), claim()])),
        "twobefore" => Some(ne(vec![claim(), other.clone()])),
        "twoafter" => Some(ne(vec![other.clone(), claim()])),
        "many" => Some(ne((0..MANY).map(|i| {
            let mut p = NonEmptyVec::new(DcqlCredentialClaimsQueryPath::String("zz".into()));
            p.push(DcqlCredentialClaimsQueryPath::Integer(i as _));
            p.push(DcqlCredentialClaimsQueryPath::Null);
            let mut q = DcqlCredentialClaimsQuery::new(p);
            q.set_id(Some(format!("z{i}")));
            q
        }).chain([claim()]).collect())),
        _ => None,
    };
    let auths = match s("auths") {
        "one" => Some(ne(vec![auth()])),
        "same" => Some(ne(vec![auth(), auth()])),
        "two" => Some(ne(vec![first, auth()])),
        "many" => Some(ne((0..MANY).map(|i| {
            TrustedAuthoritiesQuery::new(TrustedAuthorityType::Other(format!("t{i}")), ne(vec!["v".into(), "v".into()]))
        }).chain([auth()]).collect())),
        _ => None,
    };
    let meta = query(c, "-")["credentials"].as_array().unwrap().iter().find_map(|q| (!q["id"].as_str().unwrap().starts_with("zz")).then(|| q.get("meta").cloned()))
        .flatten().map(|m| m.as_object().unwrap().clone());
    let id = odd(c["id"]["v"].as_str().unwrap());
    let fmt = format_of(&odd(c["format"]["v"].as_str().unwrap()));
    let mut cred;
    if muts {
        cred = DcqlCredentialQuery::new("wrong".into(), Format::LdpVc);
        *cred.id_mut() = id;
        *cred.format_mut() = fmt;
        if let Some(m) = meta {
            cred.meta_mut().extend(m);
        }
        *cred.claims_mut() = claims;
        *cred.claim_sets_mut() = sets(&c["csets"]);
        *cred.trusted_authorities_mut() = auths;
    } else {
        cred = DcqlCredentialQuery::new("wrong".into(), Format::LdpVc);
        cred.set_id(id);
        cred.set_format(fmt);
        if let Some(m) = meta {
            cred.set_meta(m);
        }
        cred.set_claims(Some(NonEmptyVec::new(other.clone())));
        cred.set_claims(claims);
        cred.set_claim_sets(Some(NonEmptyVec::new(vec!["wrong".into()])));
        cred.set_claim_sets(sets(&c["csets"]));
        cred.set_trusted_authorities(Some(NonEmptyVec::new(TrustedAuthoritiesQuery::new(TrustedAuthorityType::Aki, NonEmptyVec::new("q".into())))));
        cred.set_trusted_authorities(auths);
        cred.set_require_cryptographic_holder_binding(Some(false));
        cred.set_multiple(Some(true));
    }
    cred.set_require_cryptographic_holder_binding(flag(&c["bind"]));
    cred.set_multiple(flag(&c["multi"]));
    let zz = DcqlCredentialQuery::new("zz".into(), Format::LdpVc);
    let creds = match s("creds") {
        "twobefore" => vec![cred, zz.clone()],
        "same" => vec![cred.clone(), zz.clone(), cred],
        "twoafter" => vec![zz.clone(), cred],
        "many" => (0..MANY).map(|i| DcqlCredentialQuery::new(format!("zz{i}"), Format::LdpVc)).chain([cred]).collect(),
        _ => vec![cred],
    };
    let set = || {
        let mut q = DcqlCredentialSetQuery::new(NonEmptyVec::new(vec!["wrong".into()]));
        if muts {
            *q.options_mut() = sets(&c["opts"]).unwrap();
            *q.required_mut() = flag(&c["req"]);
        } else {
            q.set_options(sets(&c["opts"]).unwrap());
            q.set_required(Some(false));
            q.set_required(flag(&c["req"]));
        }
        q
    };
    let csets = match s("sets") {
        "one" => Some(ne(vec![set()])),
        "same" => Some(ne(vec![set(), set()])),
        "two" => {
            let mut f = DcqlCredentialSetQuery::new(NonEmptyVec::new(vec!["zz".into()]));
            f.set_required(Some(true));
            Some(ne(vec![f, set()]))
        }
        "many" => Some(ne((0..MANY).map(|i| DcqlCredentialSetQuery::new(ne(vec![vec![format!("zz{i}")], vec![]]))).chain([set()]).collect())),
        _ => None,
    };
    let mut q = DcqlQuery::new(NonEmptyVec::new(zz));
    if muts {
        *q.credentials_mut() = ne(creds);
        *q.credential_sets_mut() = csets;
    } else {
        q.set_credentials(ne(creds));
        q.set_credential_sets(Some(NonEmptyVec::new(DcqlCredentialSetQuery::new(NonEmptyVec::new(vec!["wrong".into()])))));
        q.set_credential_sets(csets);
    }
    q
}

pub fn dcql(v: &Value, _seed: u64) -> Ran {
    let mut r = Ran::new();
    r.runs = 2;
    let c = &v["c"];
    let s = |k: &str| c[k].as_str().unwrap();
    let input = query(c, s("extra"));
    let parsed = DcqlQuery::try_from(input.clone());
    let again: Result<DcqlQuery, _> = serde_json::from_str(&input.to_string());
    r.check(parsed.is_ok() == again.is_ok(), "reading from text and from a value differ", || input.clone());
    r.seen = json!({"ok": parsed.is_ok()});
    let want = v["ok"] == json!(true);
    r.check(parsed.is_ok() == want, if want { "a proper query is refused" } else { "an improper query is accepted" }, || input.clone());
    let (Ok(q), true) = (parsed, want) else { return r };
    r.check(again.ok().as_ref() == Some(&q), "reading from text and from a value differ", || input.clone());
    // Back to the same JSON, less what it does not know, with meta always there.
    let mut want = query(c, "-");
    for x in want["credentials"].as_array_mut().unwrap() {
        x.as_object_mut().unwrap().entry("meta").or_insert(json!({}));
    }
    let out = serde_json::to_value(&q).unwrap();
    r.check(out == want, "the query does not serialise back", || json!([out, want]));
    r.check(Value::from(q.clone()) == want, "the query does not convert back", || json!([Value::from(q.clone()), want]));
    for muts in [false, true] {
        let m = made(c, muts);
        r.check(m == q, "setters make another query", || json!([m, want]));
        r.check(serde_json::to_value(&m).unwrap() == want, "what setters made serialises otherwise", || json!([m, want]));
    }
    // What the accessors say.
    let n = q.credentials().len();
    let place = |k: &str| match k {
        "twoafter" => 1,
        "many" => MANY,
        _ => 0,
    };
    let at = place(s("creds"));
    r.check(n == want["credentials"].as_array().unwrap().len(), "number of credentials", || json!(n));
    let (cred, j) = (&q.credentials()[at], &want["credentials"][at]);
    let said = &v["said"][0];
    r.check(cred.id() == j["id"], "id", || json!(cred.id()));
    r.check(*cred.format() == format_of(j["format"].as_str().unwrap()), "format", || json!(cred.format()));
    r.check(cred.format().to_string() == j["format"].as_str().unwrap(), "format name", || json!(cred.format().to_string()));
    r.check(String::from(cred.format().clone()) == j["format"].as_str().unwrap(), "format text", || json!(cred.format()));
    r.check(Format::from(j["format"].as_str().unwrap()) == *cred.format(), "format from text", || json!(cred.format()));
    r.check(Value::Object(cred.meta().clone()) == j["meta"], "meta", || json!(cred.meta()));
    r.check(cred.require_cryptographic_holder_binding() == said["bind"].as_bool().unwrap(), "holder binding", || json!(cred.require_cryptographic_holder_binding()));
    r.check(cred.require_cryptographic_holder_binding_raw() == flag(&c["bind"]), "raw holder binding", || json!(cred.require_cryptographic_holder_binding_raw()));
    r.check(cred.multiple() == said["multi"].as_bool().unwrap(), "multiple", || json!(cred.multiple()));
    r.check(cred.multiple_raw() == flag(&c["multi"]), "raw multiple", || json!(cred.multiple_raw()));
    r.check(serde_json::to_value(cred.claim_sets()).unwrap() == j.get("claim_sets").cloned().unwrap_or_default(), "claim sets", || json!(cred.claim_sets()));
    r.check(cred.claims().is_some() == (s("claims") != "-"), "claims", || json!(cred.claims()));
    if let Some(claims) = cred.claims() {
        let at = place(s("claims"));
        let (claim, j) = (&claims[at], &j["claims"][at]);
        let opt = |o: Option<&str>| json!(o.into_iter().collect::<Vec<_>>());
        let said: Map<_, _> = ["ns", "el", "name"].into_iter().map(|k| (k.to_string(), json!(strings(&said[k])))).collect();
        r.check(claim.id().map(|s| json!(s)) == j.get("id").cloned(), "claim id", || json!(claim.id()));
        r.check(json!(claim.path()) == j["path"], "path", || json!(claim.path()));
        r.check(claim.values().map(|v| json!(v)) == j.get("values").cloned(), "values", || json!(claim.values()));
        r.check(claim.intent_to_retain() == flag(&c["retain"]), "intent to retain", || json!(claim.intent_to_retain()));
        r.check(opt(claim.namespace()) == said["ns"], "namespace", || json!([claim.namespace(), claim.path()]));
        r.check(opt(claim.element_identifier()) == said["el"], "element identifier", || json!([claim.element_identifier(), claim.path()]));
        r.check(opt(claim.claim_name()) == said["name"], "claim name", || json!([claim.claim_name(), claim.path()]));
        r.seen["said"] = json!([claim.namespace(), claim.element_identifier(), claim.claim_name()]);
    }
    r.check(cred.trusted_authorities().is_some() == (s("auths") != "-"), "authorities", || json!(cred.trusted_authorities()));
    if let Some(a) = cred.trusted_authorities() {
        let i = a.len() - 1;
        let j = &j["trusted_authorities"][i];
        r.check(*a[i].authority_type() == authority(j["type"].as_str().unwrap()), "authority type", || json!(a[i].authority_type()));
        r.check(json!(a[i].values()) == j["values"], "authority values", || json!(a[i].values()));
    }
    r.check(q.credential_sets().is_some() == (s("sets") != "-"), "credential sets", || json!(q.credential_sets()));
    if let Some(sets) = q.credential_sets() {
        let i = sets.len() - 1;
        let j = &want["credential_sets"][i];
        r.check(json!(sets[i].options()) == j["options"], "options", || json!(sets[i].options()));
        r.check(sets[i].is_required() == said["req"].as_bool().unwrap(), "required", || json!(sets[i].is_required()));
        r.check(sets[i].required_raw() == flag(&c["req"]), "raw required", || json!(sets[i].required_raw()));
    }
    // Lists that are never empty.
    r.check(NonEmptyVec::<u8>::maybe_new(vec![]).is_none() && NonEmptyVec::<u8>::try_from(vec![]).is_err(), "an empty NonEmptyVec", || json!(null));
    r
}

/// Lists that are never empty: NonEmpty.tla.
pub fn nonempty(v: &Value, _seed: u64) -> Ran {
    let mut r = Ran::new();
    let from: Vec<String> = serde_json::from_value(v["from"].clone()).unwrap();
    let made: Option<NonEmptyVec<String>> = match v["how"].as_str().unwrap() {
        "new" => Some(NonEmptyVec::new(from[0].clone())),
        "maybe_new" => NonEmptyVec::maybe_new(from),
        "try_from" => NonEmptyVec::try_from(from).ok(),
        "json" => serde_json::from_value(v["from"].clone()).ok(),
        _ => Some(NonEmptyVec::default()),
    };
    r.seen = json!(made);
    let ok = v["ok"] == json!(true);
    r.check(made.is_some() == ok, if ok { "a list is refused" } else { "an empty list is made" }, || json!(made));
    let (Some(mut l), true) = (made, ok) else { return r };
    for e in v["push"].as_array().unwrap() {
        l.push(e.as_str().unwrap().into());
    }
    let want: Vec<String> = serde_json::from_value(v["list"].clone()).unwrap();
    r.check(l[..] == want[..], "the list differs", || json!(l));
    r.check(l.as_ref() == &want[..], "the slice differs", || json!(l));
    r.check((&l).into_iter().collect::<Vec<_>>() == want.iter().collect::<Vec<_>>(), "iterating differs", || json!(l));
    r.check(serde_json::to_value(&l).unwrap() == v["list"], "the JSON differs", || json!(l));
    r.check(l.clone().into_iter().collect::<Vec<_>>() == want, "consuming differs", || json!(l));
    r.check(Vec::from(l.clone()) == want && l.clone().into_inner() == want, "the inner list differs", || json!(l));
    r
}
