//! The library's own HTTP client against a server on the loopback interface: HttpClient.tla (P24);
//! and the status on its way to the front end: StatusWire.tla (P20).
use crate::util::Ran;
use http::Request;
use openid4vp::{
    core::util::{AsyncHttpClient, ReqwestClient},
    verifier::session::{Outcome, Status},
};
use serde_json::{json, Value};
use std::{
    cmp::Ordering,
    io::{Read, Write},
    net::{TcpListener, TcpStream},
    sync::{atomic::AtomicU32, mpsc, OnceLock},
    time::Duration,
};

/// What the server found on the connection.
#[derive(Debug, Default, Clone)]
struct Asked {
    line: String,
    headers: Vec<(String, String)>,
    body: Vec<u8>,
}

fn read_request(s: &mut TcpStream) -> Option<Asked> {
    let (mut buf, mut one) = (vec![], [0u8; 4096]);
    let head = loop {
        if let Some(i) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
            break i;
        }
        match s.read(&mut one) {
            Ok(n) if n > 0 => buf.extend(&one[..n]),
            _ => return None,
        }
    };
    let text = String::from_utf8_lossy(&buf[..head]).to_string();
    let mut lines = text.split("\r\n");
    let line = lines.next()?.to_string();
    let headers: Vec<(String, String)> =
        lines.filter_map(|l| l.split_once(':')).map(|(k, v)| (k.to_lowercase(), v.trim().to_string())).collect();
    let mut body = buf[head + 4..].to_vec();
    let find = |n: &str| headers.iter().find(|h| h.0 == n).map(|h| h.1.clone());
    if let Some(n) = find("content-length").and_then(|n| n.parse::<usize>().ok()) {
        while body.len() < n {
            match s.read(&mut one) {
                Ok(k) if k > 0 => body.extend(&one[..k]),
                _ => return None,
            }
        }
    } else if find("transfer-encoding").is_some() {
        // Chunked: read to the last chunk, then take the chunks apart.
        while !body.ends_with(b"0\r\n\r\n") {
            match s.read(&mut one) {
                Ok(k) if k > 0 => body.extend(&one[..k]),
                _ => return None,
            }
        }
        let (mut out, mut i) = (vec![], 0);
        loop {
            let e = i + body[i..].windows(2).position(|w| w == b"\r\n")?;
            let n = usize::from_str_radix(std::str::from_utf8(&body[i..e]).ok()?, 16).ok()?;
            if n == 0 {
                break;
            }
            out.extend(&body[e + 2..e + 2 + n]);
            i = e + 2 + n + 2;
        }
        body = out;
    }
    Some(Asked { line, headers, body })
}

fn bytes(kind: &str) -> Vec<u8> {
    match kind {
        "empty" => vec![],
        "text" => b"plain text\r\n\r\nwith lines".to_vec(),
        "form" => b"vp_token=%7B%7D&state=a+b".to_vec(),
        "json" => br#"{"redirect_uri": "https://v.example/\u00e9"}"#.to_vec(),
        "bom" => b"\xef\xbb\xbf{}".to_vec(),
        "zeros" => vec![0; 4096],
        "byte" => vec![b'{'],
        "latin1" => vec![0x63, 0x61, 0x66, 0xe9],
        "binary" => (0..=255u8).cycle().take(700).collect(),
        "large" => (0..300_000u32).map(|i| (i % 251) as u8).collect(),
        "huge" => (0..3_000_000u32).map(|i| (i % 249) as u8).collect(),
        k => panic!("{k}"),
    }
}
fn headers(kind: &str) -> Vec<(&'static str, &'static str)> {
    match kind {
        "-" => vec![],
        "prefer" => vec![("prefer", "OID4VP-1.0.0")],
        "form" => vec![("prefer", "OID4VP-1.0.0"), ("content-type", "application/x-www-form-urlencoded")],
        "custom" => vec![("x-custom", "a, b; c=\"d\""), ("authorization", "Bearer x.y.z")],
        "twice" => vec![("x-many", "one"), ("x-many", "two")],
        "json" => vec![("content-type", "application/json")],
        "accept" => vec![("accept", "application/jwt;q=0.5, */*"), ("user-agent", "x/1"), ("accept-encoding", "identity")],
        "cookie" => vec![("set-cookie", "a=b; Path=/"), ("set-cookie", "c=d"), ("content-type", "text/html; charset=ISO-8859-1")],
        "empty" => vec![("x-empty", ""), ("x-full", "y")],
        "latin1" => vec![("x-name", "caf\u{e9}"), ("x-after", "z")],
        "long" => {
            static L: OnceLock<String> = OnceLock::new();
            vec![("x-long", L.get_or_init(|| "long ".repeat(900) + "end"))]
        }
        "many" => {
            static M: OnceLock<Vec<String>> = OnceLock::new();
            M.get_or_init(|| (0..40).map(|i| format!("x-{i}")).collect()).iter().map(|n| (n.as_str(), "value")).collect()
        }
        k => panic!("{k}"),
    }
}

fn serve(l: TcpListener, c: Value, tx: mpsc::Sender<Option<Asked>>) {
    let s = |k: &str| c[k].as_str().unwrap();
    let Ok((mut conn, _)) = l.accept() else { return };
    let _ = conn.set_read_timeout(Some(Duration::from_secs(20)));
    let _ = tx.send(read_request(&mut conn));
    if s("fault") == "silent" {
        return;
    }
    if s("fault") == "garbage" {
        let _ = conn.write_all(b"this is not HTTP\r\n\r\n");
        return;
    }
    let body = bytes(s("rbody"));
    let mut head = format!("HTTP/1.1 {} Whatever\r\n", s("status"));
    for (k, v) in headers(s("rheader")) {
        head += &format!("{k}: {v}\r\n");
    }
    let cut = s("fault") == "cut";
    let mut out = vec![];
    match s("framing") {
        "chunked" => {
            head += "transfer-encoding: chunked\r\nconnection: close\r\n\r\n";
            for part in body.chunks(1000) {
                out.extend(format!("{:x}\r\n", part.len()).as_bytes());
                out.extend(part);
                out.extend(b"\r\n");
            }
            if s("fault") != "cutchunk" {
                out.extend(b"0\r\n\r\n");
            }
        }
        "close" => {
            head += "connection: close\r\n\r\n";
            out = body;
        }
        _ => {
            if s("status") != "204" {
                head += &format!("content-length: {}\r\n", body.len());
            }
            head += "connection: close\r\n\r\n";
            out = body;
        }
    }
    if cut {
        out.truncate(out.len() / 2);
    }
    if s("framing") == "slow" {
        std::thread::sleep(Duration::from_millis(1200));
    }
    let _ = conn.write_all(head.as_bytes());
    if s("framing") == "split" {
        let at = out.len() / 3;
        let _ = conn.flush();
        std::thread::sleep(Duration::from_millis(2));
        let _ = conn.write_all(&out[..at]);
        let _ = conn.flush();
        std::thread::sleep(Duration::from_millis(2));
        let _ = conn.write_all(&out[at..]);
    } else {
        let _ = conn.write_all(&out);
    }
    let _ = conn.flush();
    let _ = conn.shutdown(std::net::Shutdown::Write);
    // Let the client hang up first, so that what was written is not torn away.
    let _ = conn.set_read_timeout(Some(Duration::from_secs(5)));
    let _ = conn.read(&mut [0u8; 64]);
}

/// Whether the loopback interface can be used at all.
pub fn ready() -> bool {
    // A proxy in the environment would get between the client and the server.
    for v in ["http_proxy", "HTTP_PROXY", "https_proxy", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"] {
        std::env::remove_var(v);
    }
    let Ok(l) = TcpListener::bind("127.0.0.1:0") else { return false };
    TcpStream::connect(l.local_addr().unwrap()).is_ok() && TcpStream::connect("127.0.0.1:1").is_err()
}

thread_local! {
    static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    static CLIENT: ReqwestClient = ReqwestClient::new().unwrap();
}

/// Ports that were used rest for a while: a new address each time, so that there are always free ones.
fn listen() -> Option<TcpListener> {
    static N: AtomicU32 = AtomicU32::new(0);
    for i in 0..100 {
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let a = std::net::Ipv4Addr::new(127, 1 + (n / 200 % 200) as u8, (n / 40000) as u8, 1 + (n % 200) as u8);
        if let Ok(l) = TcpListener::bind((a, 0)).or_else(|_| TcpListener::bind("127.0.0.1:0")) {
            return Some(l);
        }
        std::thread::sleep(Duration::from_millis(10 * i));
    }
    None
}

pub fn http_client(v: &Value, _seed: u64) -> Ran {
    let mut r = Ran::new();
    let c = &v["c"];
    let s = |k: &str| c[k].as_str().unwrap();
    let (tx, rx) = mpsc::channel();
    let (mut at, mut server) = ("127.0.0.1:1".to_string(), None);
    if s("fault") != "refused" {
        let Some(l) = listen() else {
            r.seen = json!("no port to listen on");
            return r;
        };
        at = l.local_addr().unwrap().to_string();
        let c = c.clone();
        server = Some(std::thread::spawn(move || serve(l, c, tx)));
    }
    let path = s("path").replace("@long", &format!("/{}?x={}", "p".repeat(3000), "q%20".repeat(500)));
    let mut b = Request::builder().method(s("method")).uri(format!("http://{at}{path}"));
    for (k, h) in headers(s("header")) {
        b = b.header(k, h);
    }
    let request = b.body(bytes(s("body"))).unwrap();
    let got = RT.with(|rt| {
        CLIENT.with(|cl| rt.block_on(async { tokio::time::timeout(Duration::from_secs(60), cl.execute(request)).await }))
    });
    let Ok(got) = got else {
        r.fail("no answer within a minute", json!(null));
        return r;
    };
    let ok = v["ok"] == json!(true);
    r.seen = json!({"ok": got.is_ok(), "error": got.as_ref().err().map(|e| format!("{e:#}"))});
    r.check(got.is_ok() == ok, if ok { "a whole answer was refused" } else { "an answer was made up" }, || r_seen(&got));
    if v["sent"] == json!(true) {
        let asked = rx.recv_timeout(Duration::from_secs(30)).ok().flatten();
        match asked {
            None => r.fail("the request did not arrive", json!(null)),
            Some(a) => {
                let want = format!("{} {path} HTTP/1.1", s("method"));
                r.check(a.line == want, "another request arrived", || json!([a.line, want]));
                for (k, _) in headers(s("header")) {
                    let want: Vec<&str> = headers(s("header")).iter().filter(|h| h.0 == k).map(|h| h.1).collect();
                    let have: Vec<&str> = a.headers.iter().filter(|h| h.0 == k).map(|h| h.1.as_str()).collect();
                    r.check(have == want, "a header was lost or changed", || json!([k, have, want]));
                }
                r.check(a.body == bytes(s("body")), "another body arrived", || json!([a.body.len()]));
            }
        }
    }
    if let (Ok(resp), true) = (&got, ok) {
        r.check(resp.status().as_str() == s("status"), "another status", || json!(resp.status().as_str()));
        for (k, _) in headers(s("rheader")) {
            let want: Vec<&str> = headers(s("rheader")).iter().filter(|h| h.0 == k).map(|h| h.1).collect();
            let have: Vec<String> = resp.headers().get_all(k).iter().map(|h| String::from_utf8_lossy(h.as_bytes()).into()).collect();
            r.check(have == want, "a response header was lost or changed", || json!([k, have, want]));
        }
        r.check(*resp.body() == bytes(s("rbody")), "another response body", || json!([resp.body().len(), bytes(s("rbody")).len()]));
    }
    drop(got);
    if let Some(t) = server {
        let _ = t.join();
    }
    r
}
fn r_seen(got: &anyhow::Result<http::Response<Vec<u8>>>) -> Value {
    match got {
        Ok(x) => json!({"status": x.status().as_u16(), "bytes": x.body().len()}),
        Err(e) => json!(format!("{e:#}")),
    }
}

// ---------------------------------------------------------------------------- P20
fn text(c: &str) -> &str {
    static L: OnceLock<String> = OnceLock::new();
    match c {
        "long" => L.get_or_init(|| "the reason ".repeat(5000)),
        "padded" => " \t a\r\n ",
        "quote" => "a \"b\" \\ \n",
        "unicode" => "Ünï😀\u{0}",
        c => c,
    }
}
fn info(c: &str) -> Value {
    match c {
        "null" => Value::Null,
        "false" => json!(false),
        "zero" => json!(0),
        "float" => json!(-2.5),
        "text" => json!("Success"),
        "list" => json!([1, [], "x"]),
        "large" => json!((0..500).map(|i| json!({"k": "v".repeat(i)})).collect::<Vec<_>>()),
        "status" => json!({"Complete": {"Failure": {"reason": "x"}}}),
        "zerolist" => json!([0, 0]),
        "emptytext" => json!(""),
        "emptyobject" => json!({}),
        "emptylist" => json!([]),
        "true" => json!(true),
        "unicode" => json!("Ünï😀\u{0}e\u{301}"),
        "reason" => json!({"reason": "x", "cause": "y", "info": null}),
        "escapes" => json!({"a\"b\\": "\n\u{2028}</script>"}),
        "numbers" => json!([u64::MAX, i64::MIN, 9007199254740993u64, 0.1, 1e300, -0.0]),
        "object" => json!({"info": {"reason": "x"}, "": null}),
        _ => json!({"a": {"b": {"c": [{"d": "é"}]}}}),
    }
}
fn status(x: &Value) -> Status {
    let c = x["content"].as_str().unwrap();
    match (x["kind"].as_str().unwrap(), x["outcome"].as_str().unwrap()) {
        ("SentRequestByReference", _) => Status::SentRequestByReference,
        ("SentRequest", _) => Status::SentRequest,
        ("ReceivedResponse", _) => Status::ReceivedResponse,
        (_, "Error") => Status::Complete(Outcome::Error { cause: text(c).into() }),
        (_, "Failure") => Status::Complete(Outcome::Failure { reason: text(c).into() }),
        _ => Status::Complete(Outcome::Success { info: info(c) }),
    }
}
/// The JSON of a status.
fn wire(x: &Value) -> Value {
    let c = x["content"].as_str().unwrap();
    match (x["kind"].as_str().unwrap(), x["outcome"].as_str().unwrap()) {
        (k, "-") => json!(k),
        (_, "Error") => json!({"Complete": {"Error": {"cause": text(c)}}}),
        (_, "Failure") => json!({"Complete": {"Failure": {"reason": text(c)}}}),
        _ => json!({"Complete": {"Success": {"info": info(c)}}}),
    }
}
/// Content and all, which equality of outcomes does not look at.
fn same(a: &Status, b: &Status) -> bool {
    match (a, b) {
        (Status::SentRequestByReference, Status::SentRequestByReference)
        | (Status::SentRequest, Status::SentRequest)
        | (Status::ReceivedResponse, Status::ReceivedResponse) => true,
        (Status::Complete(Outcome::Error { cause: x }), Status::Complete(Outcome::Error { cause: y })) => x == y,
        (Status::Complete(Outcome::Failure { reason: x }), Status::Complete(Outcome::Failure { reason: y })) => x == y,
        (Status::Complete(Outcome::Success { info: x }), Status::Complete(Outcome::Success { info: y })) => x == y,
        _ => false,
    }
}

/// The words of a name, apart.
fn apart(name: &str, by: &str) -> String {
    name.char_indices().map(|(i, c)| if i > 0 && c.is_uppercase() { format!("{by}{c}") } else { c.to_string() }).collect()
}

pub fn status_wire(v: &Value, _seed: u64) -> Ran {
    let mut r = Ran::new();
    let (x, y, z) = (status(&v["x"]), status(&v["y"]), status(&v["z"]));
    let json = serde_json::to_string(&x).expect("written");
    r.seen = json!(json);
    match serde_json::from_str::<Status>(&json) {
        Ok(b) => r.check(same(&x, &b), "the status reads back as another", || json!([json, format!("{b:?}")])),
        Err(e) => r.fail("the status does not read back", json!([json, e.to_string()])),
    }
    // A front end need not be written in Rust, or be as new as the server.
    let shape = wire(&v["x"]);
    r.check(serde_json::to_value(&x).ok() == Some(shape.clone()), "the status is written otherwise", || json!([json, shape]));
    r.check(serde_json::from_value(shape.clone()).is_ok_and(|b: Status| same(&x, &b)), "a written status is not read", || shape.clone());
    if v["spoilt"] != "-" {
        let mut bad = shape.clone();
        let text = shape.to_string();
        let renamed = |k: &str, to: &str| serde_json::from_str(&text.replacen(&format!("\"{k}\""), &format!("\"{to}\""), 1)).unwrap();
        let kind = v["x"]["kind"].as_str().unwrap();
        let outcome = v["x"]["outcome"].as_str().unwrap();
        match v["spoilt"].as_str().unwrap() {
            "lower" => bad = renamed(kind, &kind.to_lowercase()),
            "upper" => bad = renamed(kind, &kind.to_uppercase()),
            "snake" => bad = renamed(kind, &apart(kind, "_").to_lowercase()),
            "kebab" => bad = renamed(kind, &apart(kind, "-").to_lowercase()),
            "screaming" => bad = renamed(kind, &apart(kind, "_").to_uppercase()),
            "spaced" => bad = renamed(kind, &apart(kind, " ")),
            "camel" => bad = renamed(kind, &(kind[..1].to_lowercase() + &kind[1..])),
            "index" => bad = renamed(kind, "0"),
            "lowoutcome" => bad = renamed(outcome, &outcome.to_lowercase()),
            "upoutcome" => bad = renamed(outcome, &outcome.to_uppercase()),
            "outcomeindex" => bad = renamed(outcome, "0"),
            "asreason" => bad["Complete"][outcome] = json!({"reason": "x"}),
            "ascause" => bad["Complete"][outcome] = json!({"cause": "x"}),
            "asinfo" => bad["Complete"][outcome] = json!({"info": "x"}),
            "asmessage" => bad["Complete"][outcome] = json!({"message": "x"}),
            "another" => bad = renamed(kind, "Cancelled"),
            "list" => bad = json!([shape]),
            "text" => bad = json!(text),
            "number" => bad = json!(2),
            "twice" => bad = json!({"SentRequest": null, "Complete": {"Failure": {"reason": "x"}}}),
            "member" => bad = json!({"status": shape}),
            "nocontent" => bad["Complete"][outcome] = json!({}),
            "otheroutcome" => bad = renamed(outcome, "Cancelled"),
            "nooutcome" => bad = json!("Complete"),
            "flat" => bad["Complete"] = json!(outcome),
            "renamed" => bad["Complete"][outcome] = json!({"detail": "x"}),
            "contentnumber" => bad["Complete"][outcome] = json!({"cause": 5, "reason": 5}),
            _ => bad["Complete"][outcome] = json!({"cause": null, "reason": null}),
        }
        let got: Result<Status, _> = serde_json::from_value(bad.clone());
        r.check(got.is_err(), "what is no status is read as one", || json!([bad, format!("{got:?}")]));
        let got: Result<Status, _> = serde_json::from_str(&bad.to_string());
        r.check(got.is_err(), "what is no status is read as one", || json!([bad, format!("{got:?}")]));
    }
    // As a value too, and inside other JSON.
    let inside: Result<Vec<Status>, _> = serde_json::from_value(json!([x.clone(), y.clone()]));
    r.check(inside.is_ok_and(|l| l.len() == 2 && same(&l[0], &x) && same(&l[1], &y)), "statuses do not read back from a list", || json!(json));
    let ord = x.partial_cmp(&y);
    let fits = match v["xy"].as_str().unwrap() {
        "less" => ord == Some(Ordering::Less) && x != y,
        "greater" => ord == Some(Ordering::Greater) && x != y,
        _ => ord == Some(Ordering::Equal) && x == y,
    };
    r.check(fits, "statuses are out of order", || json!([format!("{x:?}"), format!("{y:?}"), format!("{ord:?}")]));
    r.check(!(x < y && y < z) || x < z, "the order is not transitive", || json!([format!("{x:?}"), format!("{y:?}"), format!("{z:?}")]));
    r.check(!(x < y && y < x), "the order is not an order", || json!([format!("{x:?}"), format!("{y:?}")]));
    r
}
