mod auth;
mod build;
mod codec;
mod dcql;
mod enc;
mod fake;
mod iso;
mod life;
mod linear;
mod net;
mod params;
mod protocol;
mod robust;
mod session;
mod token;
mod util;
mod wallet;

use serde_json::json;

fn main() {
    util::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let mode = args.get(1).cloned().unwrap_or_default();
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let out = opt("--out").expect("--out");
    util::OUT.set(out.clone()).unwrap();
    let vectors = opt("--in").map(|p| util::read_vectors(&p)).unwrap_or_default();
    let traces = opt("--traces");
    let run = |f: fn(&serde_json::Value, u64) -> util::Ran| util::run_all(&vectors, seed, traces.as_deref(), f);
    let res = match mode.as_str() {
        "session" => run(session::run),
        "life-P01" => run(|v, s| life::run(v, s, "P01")),
        "life-P02" => run(|v, s| life::run(v, s, "P02")),
        "life-P03" => run(|v, s| life::run(v, s, "P03")),
        "build" => run(|v, s| build::run(v, s, false)),
        "build-content" => run(|v, s| build::run(v, s, true)),
        "vp-token" => run(token::token),
        "formats" => run(params::formats_named),
        "setup" => run(build::setup),
        "dispatch" => run(wallet::dispatch),
        "resolve" => run(wallet::resolve),
        "encrypt" => run(wallet::encrypt),
        "object" => run(wallet::object),
        "did" => run(auth::did_auth),
        "x509" => run(auth::x509_auth),
        "client" => run(auth::client),
        "submit" => run(codec::submit),
        "form-encode" => run(codec::form_encode),
        "form-decode" => run(codec::form_decode),
        "dcql" => run(dcql::dcql),
        "handover" => run(iso::handover),
        "transcript" => run(iso::transcript),
        "thumbprint" => run(iso::thumbprint),
        "enckey" => run(enc::enckey),
        #[cfg(feature = "jwe")]
        "jwebuild" => run(enc::jwe::build),
        "params" => run(params::params),
        "metadata" => run(params::metadata),
        "protocol" => run(protocol::protocol),
        "nonempty" => run(dcql::nonempty),
        "status" => run(net::status_wire),
        "http" if !net::ready() => json!({"error": "the loopback interface cannot be used"}),
        "http" => run(net::http_client),
        "nonce" => run(robust::nonce),
        "garble" => {
            robust::log_everything();
            run(robust::garble)
        }
        "url" => run(codec::url_codec),
        "stress" => session::stress(opt("--rounds").and_then(|s| s.parse().ok()).unwrap_or(20)),
        "linear" => linear::record(opt("--rounds").and_then(|s| s.parse().ok()).unwrap_or(1000), seed),
        m => json!({"error": format!("unknown mode {m}")}),
    };
    std::fs::write(out, serde_json::to_string(&res).unwrap()).unwrap();
}
