//! Responses and requests on the wire: Submit.tla (P14), FormEncode.tla and FormDecode.tla (P15), UrlCodec.tla (P23).
use crate::{
    fake::*,
    util::{block, Ran},
    wallet::SpyWallet,
};
use openid4vp::{
    core::{
        authorization_request::{AuthorizationRequest, AuthorizationRequestObject, RequestIndirection},
        object::UntypedObject,
        response::{
            parameters::{State, VpToken, VpTokenItem},
            AuthorizationResponse, JwtAuthorizationResponse, UnencodedAuthorizationResponse,
        },
    },
    wallet::Wallet,
};
use serde_json::{json, Map, Value};
use url::Url;

/// The text a sequence of symbols stands for.
fn text(v: &Value) -> String {
    v.as_array().unwrap().iter().map(|s| sym(s.as_str().unwrap())).collect()
}
/// Longer than any buffer or limit one might think of for a parameter, with what needs escaping in it.
const BIG: &str = {
    const B: [u8; 9000] = {
        let mut b = [b'x'; 9000];
        let mut i = 0;
        while i < 9000 {
            b[i] = b"0a +&=%/~"[i % 9];
            i += 1;
        }
        b
    };
    match std::str::from_utf8(&B) {
        Ok(s) => s,
        Err(_) => "",
    }
};
fn sym(s: &str) -> &str {
    match s {
        "sp" => " ", "plus" => "+", "pct" => "%", "amp" => "&", "eq" => "=", "semi" => ";", "quot" => "\"", "apos" => "'",
        "bsl" => "\\", "slash" => "/", "nl" => "\n", "cr" => "\r", "nul" => "\0", "tab" => "\t", "hash" => "#", "quest" => "?",
        "tilde" => "~", "star" => "*", "dot" => ".", "minus" => "-", "under" => "_", "lbrace" => "{", "lbrack" => "[",
        "comma" => ",", "colon" => ":", "e2" => "é", "e3" => "日", "e4" => "😀", "comb" => "\u{301}", "bom" => "\u{feff}",
        "del" => "\u{7f}",
        "big" => BIG,
        s => s,
    }
}

/// application/x-www-form-urlencoded, decoded independently of the library.
pub fn form_pairs(s: &[u8]) -> Option<Vec<(String, String)>> {
    let hex = |b: u8| (b as char).to_digit(16).map(|d| d as u8);
    let one = |s: &[u8]| {
        let (mut out, mut i) = (vec![], 0);
        while i < s.len() {
            match (s[i], s.get(i + 1).copied().and_then(hex), s.get(i + 2).copied().and_then(hex)) {
                (b'+', ..) => out.push(b' '),
                (b'%', Some(a), Some(b)) => {
                    out.push(a * 16 + b);
                    i += 2;
                }
                (b, ..) => out.push(b),
            }
            i += 1;
        }
        String::from_utf8(out).ok()
    };
    s.split(|b| *b == b'&')
        .filter(|p| !p.is_empty())
        .map(|p| match p.iter().position(|b| *b == b'=') {
            Some(i) => Some((one(&p[..i])?, one(&p[i + 1..])?)),
            None => Some((one(p)?, String::new())),
        })
        .collect()
}

fn untyped(v: Value) -> UntypedObject {
    serde_json::from_value(v).unwrap()
}

fn obj(v: Value) -> VpTokenItem {
    VpTokenItem::JsonObject(v.as_object().unwrap().clone())
}
fn st(s: impl Into<String>) -> VpTokenItem {
    VpTokenItem::String(s.into())
}

/// What an implementation-independent reader finds in an encoded response.
fn check_form(r: &mut Ran, form: &[u8], token: &Value, state: Option<&str>, jwt: Option<&str>) {
    let Some(mut pairs) = form_pairs(form) else {
        return r.fail("the response is not a form of UTF-8 texts", json!(String::from_utf8_lossy(form)));
    };
    pairs.sort();
    let mut want = vec![];
    if let Some(j) = jwt {
        want.push(("response".to_string(), j.to_string()));
    } else {
        if let Some(s) = state {
            want.push(("state".into(), s.into()));
        }
        match pairs.pop() {
            Some((k, t)) if k == "vp_token" => {
                let t: Option<Value> = serde_json::from_str(&t).ok();
                r.check(t.as_ref() == Some(token), "the form carries another vp_token", || json!([t, token]));
            }
            p => r.fail("the form carries no vp_token", json!(p)),
        }
    }
    r.check(pairs == want, "the form carries other members", || json!([pairs, want]));
}

// ---------------------------------------------------------------------------- P14
pub fn submit(v: &Value, _seed: u64) -> Ran {
    let mut r = Ran::new();
    let c = &v["c"];
    let s = |k: &str| c[k].as_str().unwrap();
    let mut object = json!({"client_id": "client-1", "response_type": "vp_token", "nonce": "n"});
    if s("mode") != "-" {
        object["response_mode"] = json!(s("mode"));
    }
    if !s("mode").starts_with("dc_api") {
        object["response_uri"] = json!(s("uri"));
    }
    if s("rstate") != "-" {
        object["state"] = json!(s("rstate"));
    }
    let request: AuthorizationRequestObject = serde_json::from_value(object).unwrap();
    let mut t = VpToken::new();
    match s("token") {
        "one" => t.insert("pid", vec![st("a~b~c")]),
        "many" => {
            t.insert("pid", vec![st("a"), st("b"), st("a")]);
            t.insert("mdl", vec![st("c")]);
        }
        "empty" => {}
        "huge" => t.insert("pid", vec![st(&"0123456789abcdef+/= &".repeat(20_000))]),
        "sixty" => (0..60).for_each(|i| t.insert(format!("id-{i}"), (0..i % 4).map(|j| st(&format!("p{i}.{j}"))).collect())),
        "nested" => t.insert("n", vec![obj(json!({"a": [[[{"b": {"c": [1, 2.25, -3, true, {}, []]}}]]], "": ""}))]),
        "noitems" => t.insert("pid", vec![]),
        "objects" => t.insert("ldp", vec![obj(json!({"@context": ["https://www.w3.org/2018/credentials/v1"], "n": 1.5, "x": null})), st("s")]),
        _ => t.insert("p+i d&=%", vec![st("ä +&=%26\"\\\u{0}"), st("")]),
    }
    let token = serde_json::to_value(&t).unwrap();
    let odd = |x: &str| match x {
        "@long" => "0123456789abcdef".repeat(600),
        "@unicode" => "\u{e9}\u{1f600}\u{0}\u{2028} \"\\".to_string(),
        x => x.to_string(),
    };
    let (state_text, jwt_text) = (odd(s("state")), odd(s("jwt")));
    let state = (s("state") != "-").then_some(state_text.as_str());
    let response = if s("kind") == "jwt" {
        AuthorizationResponse::Jwt(JwtAuthorizationResponse { response: jwt_text.clone() })
    } else {
        AuthorizationResponse::Unencoded(match state {
            Some(x) => UnencodedAuthorizationResponse::with_state(t, State(x.into())),
            None => UnencodedAuthorizationResponse::new(t),
        })
    };
    const NEXT: &str = "https://v.example/done?id=1&x=a%20b#f";
    let long = format!("https://v.example/done?code={}", "x".repeat(9000));
    let reply: Vec<u8> = match s("reply") {
        "none" => vec![],
        "blank" => b" \r\n\t ".to_vec(),
        "redirect" => json!({"redirect_uri": NEXT}).to_string().into_bytes(),
        "redirectcustom" => b"{\"redirect_uri\":\"custom:x\"}".to_vec(),
        "redirectextra" => format!("\n {{\"a\":[1,{{}}],\"redirect_uri\":{:?},\"z\":null}} \n", NEXT).into_bytes(),
        "redirectlong" => json!({"redirect_uri": long}).to_string().into_bytes(),
        "redirectunicode" => "{\"redirect_uri\":\"https://v.example/\\u00e9?\\u20ac=\u{1f600}\"}".as_bytes().to_vec(),
        "padded" => format!("{}{}{}", " \n".repeat(40_000), json!({"redirect_uri": NEXT}), " ".repeat(10_000)).into_bytes(),
        "redirectother" => b"{\"redirect_uri\":\"https://elsewhere.example:444/next\"}".to_vec(),
        "redirectapp" => b"{\"redirect_uri\":\"com.example.app://back/home?x=1\"}".to_vec(),
        "redirecthttp" => b"{\"redirect_uri\":\"http://localhost:8080/next\"}".to_vec(),
        "bool" => b"true".to_vec(),
        "deep" => format!("{{\"a\":{}{}}}", "[".repeat(100), "]".repeat(100)).into_bytes(),
        "utf16" => "{}".encode_utf16().flat_map(|u| u.to_le_bytes()).collect(),
        "empty" => b"{}".to_vec(),
        "other" => b"{\"Redirect_uri\":\"https://evil.example\",\"redirect_url\":\"https://evil.example\",\"redirectUri\":\"https://evil.example\",\"location\":\"https://evil.example\"}".to_vec(),
        "number" => b"{\"redirect_uri\":5}".to_vec(),
        "null" => b"{\"redirect_uri\":null}".to_vec(),
        "relative" => b"{\"redirect_uri\":\"/done\"}".to_vec(),
        "emptyuri" => b"{\"redirect_uri\":\"\"}".to_vec(),
        "listofone" => br#"[{"redirect_uri":"https://evil.example"}]"#.to_vec(),
        "listoftwo" => br#"[{"a":1},{"redirect_uri":"https://evil.example"}]"#.to_vec(),
        "quoted" => br#""{\"redirect_uri\":\"https://evil.example\"}""#.to_vec(),
        "list" => b"[\"redirect_uri\",\"https://evil.example\"]".to_vec(),
        "string" => b"\"https://evil.example\"".to_vec(),
        "badjson" => b"redirect_uri=https://evil.example".to_vec(),
        "truncated" => b"{\"redirect_uri\":\"https://v.example/done\"".to_vec(),
        "trailing" => b"{\"redirect_uri\":\"https://v.example/done\"}}".to_vec(),
        "html" => b"<html>ok</html>".to_vec(),
        "nested" => b"{\"data\":{\"redirect_uri\":\"https://evil.example\"}}".to_vec(),
        _ => b"{\"redirect_uri\":\"https://v.example/\xff\"}".to_vec(),
    };
    let w = SpyWallet::new(wallet_metadata(json!({})), true);
    *w.http.reply.lock().unwrap() = match s("http") {
        "neterror" => None,
        n => Some((n.parse().unwrap(), reply)),
    };
    *w.http.headers.lock().unwrap() = crate::wallet::headers(s("ctype"));
    let got = block(w.submit_response(request, response));
    let sent = w.http.seen.into_inner().unwrap();
    r.seen = json!({"got": got.as_ref().map(|u| u.as_ref().map(|u| u.to_string())).map_err(|e| format!("{e:#}")), "sent": sent.len()});
    match v["res"].as_str().unwrap() {
        "err" => r.check(got.is_err(), "a failed delivery was reported as a success", || json!(null)),
        "none" => r.check(matches!(got, Ok(None)), "expected success without a redirect", || json!(null)),
        _ => {
            let want = match s("reply") {
                "redirectcustom" => "custom:x",
                "redirectlong" => &long,
                "redirectother" => "https://elsewhere.example:444/next",
                "redirectapp" => "com.example.app://back/home?x=1",
                "redirecthttp" => "http://localhost:8080/next",
                "redirectunicode" => "https://v.example/%C3%A9?%E2%82%AC=%F0%9F%98%80",
                _ => NEXT,
            };
            r.check(matches!(&got, Ok(Some(u)) if u.as_str() == want), "expected the verifier's redirect", || json!(want));
        }
    }
    r.check(sent.len() as u64 == v["sent"].as_u64().unwrap(), "the response was not sent exactly as often as it should be", || json!(sent.len()));
    for q in &sent {
        let uri: Option<Url> = q.uri().to_string().parse().ok();
        r.check(uri == s("uri").parse().ok(), "the response was sent elsewhere", || json!(q.uri().to_string()));
        r.check(q.method() == "POST", "the response was not POSTed", || json!(q.method().as_str()));
        r.check(q.headers().get("content-type").is_some_and(|p| p == "application/x-www-form-urlencoded"), "wrong content type", || json!(null));
        r.check(q.headers().get("Prefer").is_some_and(|p| p == "OID4VP-1.0.0"), "the protocol version was not announced", || json!(null));
        check_form(&mut r, q.body(), &token, state, (s("kind") == "jwt").then_some(jwt_text.as_str()));
    }
    r
}

// ---------------------------------------------------------------------------- P15
pub fn form_encode(v: &Value, _seed: u64) -> Ran {
    let mut r = Ran::new();
    let c = &v["c"];
    let s = |k: &str| c[k].as_str().unwrap();
    let (id, pres, member) = (text(&c["id"]), text(&c["pres"]), text(&c["member"]));
    let state = (c["state"] != json!(["-"])).then(|| text(&c["state"]));
    if s("kind") == "jwt" {
        let jwt = text(&c["jwt"]);
        let form = match (JwtAuthorizationResponse { response: jwt.clone() }).into_x_www_form_urlencoded() {
            Ok(f) => f,
            Err(e) => {
                r.fail("a response could not be encoded", json!(format!("{e:#}")));
                return r;
            }
        };
        check_form(&mut r, form.as_bytes(), &Value::Null, None, Some(&jwt));
        let got = AuthorizationResponse::from_x_www_form_urlencoded(form.as_bytes());
        r.seen = json!({"form": form});
        r.check(matches!(&got, Ok(AuthorizationResponse::Jwt(j)) if j.response == jwt), "another response came back", || json!([form, format!("{got:?}")]));
        let any = AuthorizationResponse::Jwt(JwtAuthorizationResponse { response: jwt.clone() });
        let any: Result<AuthorizationResponse, _> = serde_json::to_value(any).and_then(serde_json::from_value);
        r.check(matches!(&any, Ok(AuthorizationResponse::Jwt(j)) if j.response == jwt), "another response came back from JSON", || json!(format!("{any:?}")));
        return r;
    }
    let mut m = Map::new();
    m.insert(member.clone(), json!(pres));
    let mut t = VpToken::new();
    match s("shape") {
        "none" => {}
        "noitems" => t.insert(id, vec![]),
        "one" => t.insert(id, vec![st(pres)]),
        "two" => t.insert(id, vec![st(pres.clone()), st("x"), st(pres)]),
        "object" => t.insert(id, vec![VpTokenItem::JsonObject(m)]),
        "mixed" => t.insert(id, vec![VpTokenItem::JsonObject(m), st(pres), VpTokenItem::JsonObject(Map::new())]),
        "twoids" => {
            t.insert(format!("{id}1"), vec![st(pres)]);
            t.insert(id, vec![VpTokenItem::JsonObject(m)]);
        }
        "many" => t.insert(id, (0..300).map(|i| if i % 3 == 0 { VpTokenItem::JsonObject(m.clone()) } else { st(format!("{pres}{i}")) }).collect()),
        "manyids" => (0..300).for_each(|i| t.insert(format!("{id}{i}"), vec![st(pres.clone())])),
        _ => t.insert(id, vec![obj(json!({member: [{"n": [0, -1, 1.5, 1e300, 9007199254740993u64, true, null, pres]}, []]}))]),
    }
    let token = serde_json::to_value(&t).unwrap();
    let resp = match &state {
        Some(x) => UnencodedAuthorizationResponse::with_state(t.clone(), State(x.clone())),
        None => UnencodedAuthorizationResponse::new(t.clone()),
    };
    // Through JSON, as the encrypted response's payload.
    let json = serde_json::to_value(&resp).unwrap();
    let mut want = json!({"vp_token": token});
    if let Some(x) = &state {
        want["state"] = json!(x);
    }
    r.check(json == want, "the response's JSON is not its vp_token and state", || json!([json, want]));
    let back = UnencodedAuthorizationResponse::try_from(untyped(json.clone()));
    r.check(matches!(&back, Ok(b) if b.vp_token == t && b.state.as_ref().map(|s| &s.0) == state.as_ref()), "another response came back from JSON",
        || json!(format!("{back:?}")));
    let any: Result<AuthorizationResponse, _> = serde_json::to_value(AuthorizationResponse::Unencoded(resp.clone())).and_then(serde_json::from_value);
    r.check(matches!(&any, Ok(AuthorizationResponse::Unencoded(b)) if b.vp_token == t && b.state.as_ref().map(|s| &s.0) == state.as_ref()),
        "another response came back from JSON", || json!(format!("{any:?}")));
    let form = match resp.into_x_www_form_urlencoded() {
        Ok(f) => f,
        Err(e) => {
            r.fail("a response could not be encoded", json!(format!("{e:#}")));
            return r;
        }
    };
    r.seen = json!({"form": form});
    check_form(&mut r, form.as_bytes(), &token, state.as_deref(), None);
    let got = AuthorizationResponse::from_x_www_form_urlencoded(form.as_bytes());
    r.check(matches!(&got, Ok(AuthorizationResponse::Unencoded(u)) if u.vp_token == t && u.state.as_ref().map(|s| &s.0) == state.as_ref()
        && *u.vp_token() == t && u.state().map(|s| &s.0) == state.as_ref()),
        "another response came back", || json!([form, format!("{got:?}")]));
    r
}

fn atom(s: &str) -> Option<&'static str> {
    Some(match s {
        "T.one" => r#"{"pid":["a b+c"]}"#,
        "T.two" => r#"{"pid":["a","b"],"mdl":["c"]}"#,
        "T.empty" => "{}",
        "T.noitems" => r#"{"pid":[]}"#,
        "T.object" => r#" {"ldp" : [ {"a":[1,null,{"b":"&="}]}, "s" ] } "#,
        "T.unicode" => r#"{"\u0070ïd":["日\ud83d\ude00%26"]}"#,
        "F.list" => r#"["a"]"#,
        "F.string" => r#""a.b.c""#,
        "F.stringitem" => r#"{"pid":"a"}"#,
        "F.number" => r#"{"pid":[1]}"#,
        "F.null" => r#"{"pid":[null]}"#,
        "F.listitem" => r#"{"pid":[["a"]]}"#,
        "F.truncated" => r#"{"pid":["a"]"#,
        "F.trailing" => r#"{"pid":["a"]} x"#,
        "F.notjson" => "a.b.c",
        "F.quoted" => r#""{\"pid\":[\"a\"]}""#,
        "F.quotes" => r#""{"pid":["a"]}""#,
        "F.b64" => "eyJwaWQiOlsiYSJdfQ",
        "F.null2" => "null",
        "F.bom" => "\u{feff}{\"pid\":[\"a\"]}",
        "F.comma" => r#"{"pid":["a"],}"#,
        "F.single" => "{'pid':['a']}",
        "F.comment" => r#"{"pid":["a"]}//x"#,
        "F.nbsp" => "\u{a0}{\"pid\":[\"a\"]}",
        "F.twice" => r#"{"pid":["a"]}{"pid":["a"]}"#,
        "F.numbermap" => r#"{"pid":{"0":"a"}}"#,
        _ => return None,
    })
}

pub fn form_decode(v: &Value, _seed: u64) -> Ran {
    let mut r = Ran::new();
    let esc = |s: &str| -> String { s.bytes().map(|b| if b.is_ascii_alphanumeric() { (b as char).to_string() } else { format!("%{b:02X}") }).collect() };
    let raw = |v: &Value| -> String {
        v.as_array().unwrap().iter().map(|s| s.as_str().unwrap()).map(|s| atom(s).map_or(s.to_string(), esc)).collect()
    };
    // Decoded texts: numbers are escaped bytes.
    let dec = |v: &[Value]| -> String {
        let mut b: Vec<u8> = vec![];
        for s in v.iter().map(|s| s.as_str().unwrap()) {
            match (atom(s), s.parse::<u8>()) {
                (Some(a), _) => b.extend(a.bytes()),
                // A single digit is itself; an escaped byte has at least two (see Texts).
                (_, Ok(n)) if s.len() > 1 => b.push(n),
                _ => b.extend(s.bytes()),
            }
        }
        String::from_utf8(b).unwrap()
    };
    let f = &v["form"];
    let pairs: Vec<String> = f["pairs"].as_array().unwrap().iter().map(|p| format!("{}={}", raw(&p["name"]), raw(&p["val"]))).collect();
    let mut form = pairs.join(f["join"].as_str().unwrap());
    if f["lead"] == true {
        form = format!("&{form}");
    }
    if f["trail"] == true {
        form.push('&');
    }
    let got = AuthorizationResponse::from_x_www_form_urlencoded(form.as_bytes());
    let (kind, detail) = match &got {
        Err(_) => ("err", json!(null)),
        Ok(AuthorizationResponse::Jwt(j)) => ("jwt", json!(j.response)),
        Ok(AuthorizationResponse::Unencoded(u)) => ("plain", json!({"vp_token": u.vp_token, "state": u.state.as_ref().map(|s| &s.0)})),
    };
    r.seen = json!({"form": form, "kind": kind, "detail": detail});
    let res = &v["res"];
    r.check(kind == res["kind"], "a form was taken for something else than it is", || json!([form, kind, res["kind"]]));
    if kind == "jwt" && res["kind"] == "jwt" {
        let want = dec(res["jwt"].as_array().unwrap());
        r.check(detail == want, "another JWT was read from the form", || json!([form, detail, want]));
    }
    if kind == "plain" && res["kind"] == "plain" {
        let st = res["state"].as_array().unwrap();
        let want: Value = serde_json::from_str(atom(res["token"].as_str().unwrap()).unwrap()).unwrap();
        let state = (st[0] == "+").then(|| dec(&st[1..]));
        r.check(detail == json!({"vp_token": want, "state": state}), "another response was read from the form", || json!([form, detail, want, state]));
    }
    r
}

// ---------------------------------------------------------------------------- P23
pub fn url_codec(v: &Value, _seed: u64) -> Ran {
    let mut r = Ran::new();
    let c = &v["c"];
    let s = |k: &str| c[k].as_str().unwrap();
    let client_id = (c["cid"] != json!(["-"])).then(|| text(&c["cid"]));
    let mut want: Vec<(String, String)> = vec![];
    if let Some(x) = &client_id {
        want.push(("client_id".into(), x.clone()));
    }
    let request_indirection = match s("ind") {
        "value" => {
            want.push(("request".into(), text(&c["jwt"])));
            RequestIndirection::ByValue { request: text(&c["jwt"]) }
        }
        "reference" => {
            want.push(("request_uri".into(), s("uri").parse::<Url>().unwrap().into()));
            RequestIndirection::ByReference { request_uri: s("uri").parse().unwrap() }
        }
        _ => {
            let mut m = Map::new();
            m.insert(text(&c["pname"]), json!(text(&c["pval"])));
            if s("more") != "none" {
                m.insert("nonce".into(), json!("n-+ %"));
                m.insert("dcql_query".into(), json!("{\"credentials\":[{\"id\":\"a\"}]}"));
            }
            match s("more") {
                "list" => drop(m.insert("client_metadata".into(), json!(["x"]))),
                "object" => drop(m.insert("client_metadata".into(), json!({"vp_formats_supported": {}}))),
                _ => {}
            }
            want.extend(m.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap_or_default().to_string())));
            RequestIndirection::Direct(untyped(Value::Object(m)))
        }
    };
    let ar = AuthorizationRequest { client_id: client_id.clone(), request_indirection };
    let end: Url = s("end").parse().unwrap();
    let url = ar.clone().to_url(end.clone());
    r.seen = json!({"url": url.as_ref().ok()});
    if v["res"] == "err" {
        r.check(url.is_err(), "a request that does not fit in a URL was mangled", || json!(url.ok()));
        return r;
    }
    let Ok(url) = url else {
        r.fail("a request could not be put in a URL", json!(url.err().map(|e| format!("{e:#}"))));
        return r;
    };
    let mut bare = url.clone();
    bare.set_query(None);
    r.check(bare == end, "the URL does not lead to the wallet's endpoint", || json!(url));
    let mut pairs = form_pairs(url.query().unwrap_or_default().as_bytes()).unwrap_or_default();
    pairs.sort();
    want.sort();
    r.check(pairs == want, "the URL carries other parameters", || json!([url, want]));
    let same = |x: &AuthorizationRequest| x.client_id == client_id && x.request_indirection == ar.request_indirection;
    // As a string, through whatever opens it.
    let again: Url = url.as_str().parse().unwrap();
    let got = AuthorizationRequest::from_url(again, &end);
    r.check(matches!(&got, Ok(x) if same(x)), "another request came back", || json!([url, format!("{got:?}")]));
    let got = AuthorizationRequest::from_query_params(url.query().unwrap_or_default());
    r.check(matches!(&got, Ok(x) if same(x)), "another request came back from the query", || json!([url, format!("{got:?}")]));
    r
}
