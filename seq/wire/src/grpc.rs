//! C51: the OTLP gRPC exporters, against an HTTP/2 server on the loopback interface that speaks gRPC by hand.
use crate::client::rt;
use crate::http::{parse_env, stall, timeout_cases, Env, HEADER_VARS};
use crate::net::closed_port;
use crate::otlp::*;
use bmc::{ensure, family, product, serial, Family, Run};
use bytes::Bytes;
use http_body_util::{BodyExt, Full};
use opentelemetry_otlp::{Compression, ExportConfig, LogExporter, MetricExporter, Protocol, SpanExporter, WithExportConfig, WithTonicConfig};
use std::collections::BTreeMap;
use std::io::Read;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tonic::metadata::{BinaryMetadataValue, MetadataMap};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Reply {
    /// grpc-status, in the head of the response or after its message
    Status(i32, bool),
    /// accepted in part
    Partial,
    /// not a gRPC answer
    Http(u16),
    /// close the connection
    Close,
    Wait(u64),
}
#[derive(Clone, Debug)]
pub struct Call {
    pub path: String,
    pub headers: Vec<(String, String)>,
    pub message: Result<Bytes, String>,
    pub compressed: Option<String>,
}
pub struct GServer {
    pub port: u16,
    shared: Arc<Mutex<(Vec<Call>, Reply)>>,
    task: tokio::task::JoinHandle<()>,
}
impl GServer {
    pub fn start() -> GServer {
        GServer::at(0).expect("a loopback port")
    }
    pub fn at(port: u16) -> Option<GServer> {
        let l = std::net::TcpListener::bind(("127.0.0.1", port)).ok()?;
        l.set_nonblocking(true).ok()?;
        let port = l.local_addr().ok()?.port();
        let shared = Arc::new(Mutex::new((vec![], Reply::Status(0, false))));
        let s = shared.clone();
        let task = rt().spawn(async move {
            let l = tokio::net::TcpListener::from_std(l).unwrap();
            let mut conns = tokio::task::JoinSet::new();
            loop {
                let Ok((c, _)) = l.accept().await else { continue };
                let _ = c.set_nodelay(true);
                let s = s.clone();
                conns.spawn(async move {
                    let cut = Arc::new(tokio::sync::Notify::new());
                    let c2 = cut.clone();
                    let conn = hyper::server::conn::http2::Builder::new(hyper_util::rt::TokioExecutor::new()).serve_connection(
                        hyper_util::rt::TokioIo::new(c),
                        hyper::service::service_fn(move |r| answer(r, s.clone(), c2.clone())),
                    );
                    tokio::select! { _ = conn => {}, _ = cut.notified() => {} }
                });
            }
        });
        Some(GServer { port, shared, task })
    }
    pub fn url(&self) -> String {
        format!("http://127.0.0.1:{}", self.port)
    }
    pub fn reply(&self, r: Reply) {
        self.shared.lock().unwrap().1 = r;
    }
    pub fn take(&self) -> Vec<Call> {
        std::mem::take(&mut self.shared.lock().unwrap().0)
    }
}
impl Drop for GServer {
    fn drop(&mut self) {
        self.task.abort();
    }
}
type Out = Result<http::Response<http_body_util::combinators::BoxBody<Bytes, std::convert::Infallible>>, std::io::Error>;
async fn answer(r: http::Request<hyper::body::Incoming>, s: Arc<Mutex<(Vec<Call>, Reply)>>, cut: Arc<tokio::sync::Notify>) -> Out {
    let (p, body) = r.into_parts();
    let body = body.collect().await.map_err(std::io::Error::other)?.to_bytes();
    let get = |k: &str| p.headers.get(k).and_then(|v| v.to_str().ok()).map(String::from);
    let enc = get("grpc-encoding");
    let (compressed, message) = message(&body, enc.as_deref());
    let call = Call {
        path: format!("{} {}", p.method, p.uri.path()),
        headers: p.headers.iter().map(|(k, v)| (k.to_string(), String::from_utf8_lossy(v.as_bytes()).into_owned())).collect(),
        message,
        compressed: if compressed { enc } else { None },
    };
    let reply = {
        let mut g = s.lock().unwrap();
        g.0.push(call);
        g.1.clone()
    };
    let frame = |m: &[u8]| {
        let mut v = vec![0u8];
        v.extend((m.len() as u32).to_be_bytes());
        v.extend(m);
        Bytes::from(v)
    };
    let full = |m: &[u8], code: i32| {
        let mut t = http::HeaderMap::new();
        t.insert("grpc-status", code.into());
        t.insert("grpc-message", "said%20the server".parse().unwrap());
        let b = if code == 0 { frame(m) } else { Bytes::new() };
        Full::new(b).with_trailers(async move { Some(Ok(t)) }).boxed()
    };
    let head = || http::Response::builder().status(200).header("content-type", "application/grpc");
    Ok(match reply {
        Reply::Status(c, true) => head().header("grpc-status", c).body(Full::new(Bytes::new()).boxed()).unwrap(),
        Reply::Status(c, false) => head().body(full(b"", c)).unwrap(),
        // partial_success { rejected: 1, error_message: "no" }
        Reply::Partial => head().body(full(&[0x0a, 6, 0x08, 1, 0x12, 2, b'n', b'o'], 0)).unwrap(),
        Reply::Http(s) => http::Response::builder().status(s).body(Full::new(Bytes::from_static(b"text")).boxed()).unwrap(),
        Reply::Close => {
            cut.notify_one();
            std::future::pending::<()>().await;
            unreachable!()
        }
        Reply::Wait(ms) => {
            tokio::time::sleep(Duration::from_millis(ms)).await;
            head().body(full(b"", 0)).unwrap()
        }
    })
}
/// The one message of a unary call.
fn message(body: &[u8], enc: Option<&str>) -> (bool, Result<Bytes, String>) {
    if body.len() < 5 {
        return (false, Err(format!("a body of {} bytes", body.len())));
    }
    let n = u32::from_be_bytes(body[1..5].try_into().unwrap()) as usize;
    if body.len() != 5 + n {
        return (false, Err(format!("a message of {n} bytes in a body of {}", body.len())));
    }
    let b = &body[5..];
    match (body[0], enc) {
        (0, _) => (false, Ok(Bytes::copy_from_slice(b))),
        (1, Some("gzip")) => {
            let mut v = vec![];
            (true, flate2::read::GzDecoder::new(b).read_to_end(&mut v).map(|_| v.into()).map_err(|e| e.to_string()))
        }
        (1, Some("zstd")) => (true, zstd::decode_all(b).map(Bytes::from).map_err(|e| e.to_string())),
        o => (true, Err(format!("compression {o:?}"))),
    }
}
#[derive(Clone, Debug, Default)]
struct Conf {
    endpoint: Option<String>,
    timeout: Option<Duration>,
    metadata: Vec<MetadataMap>,
    compression: Option<Compression>,
    interceptor: bool,
    whole: bool,
}
fn build(sig: Signal, c: &Conf) -> Result<Exporter, String> {
    let _in = rt().enter();
    macro_rules! go { ($b:expr) => {{
        let mut b = $b.with_tonic();
        if c.whole {
            b = b.with_export_config(ExportConfig { endpoint: c.endpoint.clone(), protocol: Protocol::Grpc, timeout: c.timeout });
        } else {
            if let Some(e) = &c.endpoint {
                b = b.with_endpoint(e.clone());
            }
            if let Some(t) = c.timeout {
                b = b.with_timeout(t);
            }
        }
        for m in &c.metadata {
            b = b.with_metadata(m.clone());
        }
        if let Some(x) = c.compression {
            b = b.with_compression(x);
        }
        if c.interceptor {
            b = b.with_interceptor(|mut r: tonic::Request<()>| {
                // sees what was configured
                let seen = r.metadata().contains_key("k");
                r.metadata_mut().insert("added", if seen { "k".parse().unwrap() } else { "none".parse().unwrap() });
                Ok(r)
            });
        }
        b.build().map_err(|e| e.to_string())?
    }}; }
    Ok(match sig {
        Signal::Traces => Exporter::Traces(go!(SpanExporter::builder())),
        Signal::Logs => Exporter::Logs(go!(LogExporter::builder())),
        Signal::Metrics => Exporter::Metrics(go!(MetricExporter::builder())),
    })
}
fn run(e: &mut Exporter, n: u64) -> opentelemetry_sdk::error::OTelSdkResult {
    rt().block_on(e.run(n))
}
/// A transport that has just lost its connection may need a moment to notice: an export may then fail without a request,
/// but the exporter recovers.
fn run_after_loss(e: &mut Exporter, n: u64, srv: &GServer) -> (opentelemetry_sdk::error::OTelSdkResult, Vec<Call>) {
    for _ in 0..100 {
        let res = run(e, n);
        let got = srv.take();
        if res.is_ok() || !got.is_empty() {
            return (res, got);
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    (run(e, n), srv.take())
}
fn judge(c: &Call, sig: Signal, n: u64) -> Result<(), String> {
    judge_with(c, sig, n, 0)
}
fn judge_with(c: &Call, sig: Signal, n: u64, version: u64) -> Result<(), String> {
    let (pkg, svc) = match sig {
        Signal::Traces => ("trace", "TraceService"),
        Signal::Logs => ("logs", "LogsService"),
        Signal::Metrics => ("metrics", "MetricsService"),
    };
    let want = format!("POST /opentelemetry.proto.collector.{pkg}.v1.{svc}/Export");
    if c.path != want {
        return Err(format!("request {} instead of {want}", c.path));
    }
    body_with(sig, Protocol::Grpc, c.message.as_ref().map_err(|e| e.clone())?, n, version)
}
fn next(sig: Signal) -> Signal {
    SIGNALS[(SIGNALS.iter().position(|x| *x == sig).unwrap() + 1) % 3]
}
fn endpoints(r: &mut Run) {
    let s: Vec<GServer> = (0..4).map(|_| GServer::start()).collect();
    let default = GServer::at(4317);
    let url = |i: usize| s[i].url();
    let code = [None, Some(String::new()), Some(url(0)), Some(format!("{}/", url(0))), Some("bad uri".into())];
    let own = [None, Some(String::new()), Some(url(1))];
    let general = [None, Some(String::new()), Some(url(2)), Some(format!("{}/", url(2)))];
    let other = [None, Some(url(3))];
    for sig in SIGNALS {
        for whole in [false, true] {
            product(&[code.len(), own.len(), general.len(), other.len()], |ix| {
                let (c, o, g, w) = (&code[ix[0]], own[ix[1]].as_deref(), general[ix[2]].as_deref(), other[ix[3]].as_deref());
                r.case(|| format!("{sig:?} whole {whole}: endpoint in code: choice {}, {}: choice {}, OTEL_EXPORTER_OTLP_ENDPOINT: choice {}, {}: choice {}", ix[0], sig.var("ENDPOINT"), ix[1], ix[2], next(sig).var("ENDPOINT"), ix[3]), |obs| {
                    let _env = Env::set(&[(sig.var("ENDPOINT"), o), ("OTEL_EXPORTER_OTLP_ENDPOINT".into(), g), (next(sig).var("ENDPOINT"), w)]);
                    let e = build(sig, &Conf { endpoint: c.clone(), whole, ..Conf::default() });
                    if ix[0] == 4 {
                        ensure!(e.is_err(), "an invalid endpoint is accepted");
                        return Ok(());
                    }
                    let want = if ix[0] >= 2 {
                        0
                    } else if ix[1] == 2 {
                        1
                    } else if ix[2] >= 2 {
                        2
                    } else {
                        4
                    };
                    let mut e = e?;
                    for x in s.iter().chain(&default) {
                        x.take();
                    }
                    if want == 4 && default.is_none() {
                        return Ok(());
                    }
                    let res = run(&mut e, 0);
                    for (i, x) in s.iter().chain(&default).enumerate() {
                        let got = x.take();
                        ensure!(got.len() == (i == want) as usize, "server {i} received {} requests, server {want} was configured (0: code, 1: own variable, 2: general variable, 3: other signal's variable, 4: default); the export reports {res:?}", got.len());
                        for c in &got {
                            judge(c, sig, 0)?;
                        }
                    }
                    ensure!(res.is_ok(), "the export reports {res:?}");
                    obs.step(&want);
                    obs.outcome(&(sig, want));
                    Ok(())
                });
            });
        }
    }
}
fn map(l: &[(&'static str, &'static str)], bin: bool) -> MetadataMap {
    let mut m = MetadataMap::new();
    for (k, v) in l {
        m.append(*k, v.parse().unwrap());
    }
    if bin {
        m.insert_bin("raw-bin", BinaryMetadataValue::from_bytes(&[0, 255, 7]));
    }
    m
}
fn metadata(r: &mut Run) {
    type M = (Vec<&'static [(&'static str, &'static str)]>, bool);
    let code: Vec<M> = vec![
        (vec![], false),
        (vec![&[("k", "code")]], false),
        (vec![&[("k", "1"), ("k", "2")]], false),
        (vec![&[("k", "one"), ("l", "x")], &[("k", "two")]], false),
        (vec![&[("m", "")]], true),
    ];
    let vars: Vec<Option<&str>> = [None, Some("")].into_iter().chain(HEADER_VARS.into_iter().map(Some)).collect();
    let general: Vec<Option<&str>> = r.pick(vec![None, Some("k=gen,g=1"), Some("")], vars.iter().copied().chain([Some("k=gen,g=1")]).collect());
    let srv = GServer::start();
    for sig in SIGNALS {
        product(&[code.len(), vars.len(), general.len(), 2], |ix| {
            let (c, o, g, icpt) = (&code[ix[0]], vars[ix[1]], general[ix[2]], ix[3] == 1);
            r.case(|| format!("{sig:?}: metadata in code {c:?}, {} {o:?}, OTEL_EXPORTER_OTLP_HEADERS {g:?}, interceptor {icpt}", sig.var("HEADERS")), |obs| {
                let _env = Env::set(&[(sig.var("HEADERS"), o), ("OTEL_EXPORTER_OTLP_HEADERS".into(), g), (next(sig).var("HEADERS"), Some("wrong=1"))]);
                let mut e = build(sig, &Conf { endpoint: Some(srv.url()), metadata: c.0.iter().enumerate().map(|(i, l)| map(l, c.1 && i == 0)).collect(), interceptor: icpt, ..Conf::default() })?;
                // the allowed lists of values per key
                let mut want: BTreeMap<String, Vec<Vec<String>>> = BTreeMap::new();
                for l in &c.0 {
                    let mut set: BTreeMap<String, Vec<String>> = BTreeMap::new();
                    for (k, v) in l.iter() {
                        set.entry(k.to_string()).or_default().push(v.to_string());
                    }
                    want.extend(set.into_iter().map(|(k, v)| (k, vec![v])));
                }
                if c.1 {
                    want.insert("raw-bin".into(), vec![vec!["AP8H".into()]]);
                }
                let env = o.filter(|s| !s.is_empty()).or(g.filter(|s| !s.is_empty())).unwrap_or("");
                for (k, v) in parse_env(env) {
                    let l = want.entry(k).or_default();
                    if env == "k=1,k=2" {
                        // a key may have several values
                        l.push(vec!["1".into(), "2".into()]);
                    }
                    l.push(v);
                }
                want.remove("user-agent");
                if icpt {
                    want.insert("added".into(), vec![vec![if want.contains_key("k") { "k".into() } else { "none".into() }]]);
                }
                srv.take();
                for n in 0..2 {
                    run(&mut e, n).map_err(|e| format!("export failed: {e}"))?;
                    let got = srv.take();
                    ensure!(got.len() == 1, "{} requests", got.len());
                    judge(&got[0], sig, n)?;
                    for (k, v) in &want {
                        let have: Vec<_> = got[0].headers.iter().filter(|h| h.0 == *k).map(|h| h.1.clone()).collect();
                        ensure!(v.contains(&have), "metadata {k}: sent {have:?}, expected one of {v:?}");
                    }
                    for h in &got[0].headers {
                        let known = ["te", "content-type", "user-agent", "grpc-timeout", "grpc-encoding", "grpc-accept-encoding"].contains(&h.0.as_str());
                        ensure!(known || want.contains_key(&h.0), "unexpected metadata {h:?}");
                    }
                    obs.step(&format!("{want:?}"));
                }
                obs.outcome(&(sig, &want));
                Ok(())
            });
        });
    }
}
fn compression(r: &mut Run) {
    let code = [None, Some(Compression::Gzip), Some(Compression::Zstd)];
    let vars = [None, Some(""), Some("gzip"), Some("zstd"), Some("brotli")];
    let srv = GServer::start();
    for sig in SIGNALS {
        product(&[code.len(), vars.len(), vars.len(), vars.len()], |ix| {
            let (c, o, g, w) = (code[ix[0]], vars[ix[1]], vars[ix[2]], vars[ix[3]]);
            r.case(|| format!("{sig:?}: compression in code {c:?}, {} {o:?}, OTEL_EXPORTER_OTLP_COMPRESSION {g:?}, {} {w:?}", sig.var("COMPRESSION"), next(sig).var("COMPRESSION")), |obs| {
                let _env = Env::set(&[(sig.var("COMPRESSION"), o), ("OTEL_EXPORTER_OTLP_COMPRESSION".into(), g), (next(sig).var("COMPRESSION"), w)]);
                let e = build(sig, &Conf { endpoint: Some(srv.url()), compression: c, ..Conf::default() });
                let want = match c {
                    Some(Compression::Gzip) => Some("gzip"),
                    Some(_) => Some("zstd"),
                    None => o.filter(|s| !s.is_empty()).or(g.filter(|s| !s.is_empty())),
                };
                if want == Some("brotli") {
                    ensure!(e.is_err(), "an unknown compression is accepted");
                    return Ok(());
                }
                let mut e = e?;
                srv.take();
                for n in 0..2 {
                    run(&mut e, n).map_err(|e| format!("export failed: {e}"))?;
                    let got = srv.take();
                    ensure!(got.len() == 1, "{} requests", got.len());
                    judge(&got[0], sig, n)?;
                    ensure!(got[0].compressed.as_deref() == want, "compression {:?} instead of {want:?}", got[0].compressed);
                }
                obs.step(&(sig, want));
                obs.outcome(&(sig, want));
                Ok(())
            });
        });
    }
}
fn answers(r: &mut Run) {
    let mut all: Vec<Reply> = vec![Reply::Partial, Reply::Close];
    all.extend((0..=16).map(|c| Reply::Status(c, false)));
    all.extend((1..=16).map(|c| Reply::Status(c, true)));
    all.extend([400, 401, 403, 404, 429, 500, 502, 503, 504].map(Reply::Http));
    for sig in SIGNALS {
        let srv = GServer::start();
        for c in [None, Some(Compression::Gzip), Some(Compression::Zstd)] {
            r.all_sequences(&all, r.pick(1, 2), |q| format!("{sig:?} compression {c:?}: the server answers {q:?}"), |q, o| {
                let mut e = build(sig, &Conf { endpoint: Some(srv.url()), compression: c, ..Conf::default() })?;
                for (n, a) in q.iter().enumerate() {
                    srv.take();
                    srv.reply(a.clone());
                    let (res, got) = if n > 0 && q[n - 1] == Reply::Close { run_after_loss(&mut e, n as u64, &srv) } else { (run(&mut e, n as u64), srv.take()) };
                    ensure!(got.len() == 1, "export {n}: {} requests, the export reports {res:?}", got.len());
                    judge(&got[0], sig, n as u64)?;
                    let ok = matches!(a, Reply::Status(0, _) | Reply::Partial);
                    ensure!(res.is_ok() == ok, "export {n}: the export reports {res:?}");
                    o.step(&(sig, a));
                }
                o.outcome(&(sig, q));
                Ok(())
            });
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Accepted,
    Refused,
    Lost,
    Shutdown,
    /// the exporter is given another resource
    Resource,
}
fn histories(r: &mut Run) {
    for sig in SIGNALS {
        let srv = GServer::start();
        r.all_sequences(&[Op::Accepted, Op::Refused, Op::Lost, Op::Shutdown, Op::Resource], r.pick(4, 6), |q| format!("{sig:?} {q:?}"), |q, o| {
            let mut e = build(sig, &Conf { endpoint: Some(srv.url()), ..Conf::default() })?;
            srv.take();
            let (mut down, mut version, mut lost) = (false, 0, false);
            for (i, op) in q.iter().enumerate() {
                let n = i as u64;
                srv.reply(match op {
                    Op::Refused => Reply::Status(14, false),
                    Op::Lost => Reply::Close,
                    _ => Reply::Status(0, false),
                });
                if *op == Op::Shutdown {
                    let res = e.shutdown();
                    ensure!(down || res.is_ok(), "operation {i}: shutdown reports {res:?}");
                    ensure!(srv.take().is_empty(), "operation {i}: shutdown sends a request");
                    down = true;
                } else if *op == Op::Resource {
                    version += 1;
                    e.set_resource(version);
                    ensure!(srv.take().is_empty(), "operation {i}: a new resource sends a request");
                } else {
                    let (res, got) = if !down && lost { run_after_loss(&mut e, n, &srv) } else { (run(&mut e, n), srv.take()) };
                    if down {
                        ensure!(got.is_empty(), "operation {i}: a request after shutdown");
                        ensure!(res.is_err(), "operation {i}: export after shutdown reports success");
                    } else {
                        ensure!(got.len() == 1, "operation {i}: {} requests, the export reports {res:?}", got.len());
                        judge_with(&got[0], sig, n, version).map_err(|e| format!("operation {i}: {e}"))?;
                        ensure!(res.is_ok() == (*op == Op::Accepted), "operation {i}: the export reports {res:?}");
                        lost = *op == Op::Lost;
                    }
                }
                o.step(&(sig, down, i, op));
            }
            o.outcome(&(sig, q));
            Ok(())
        });
        r.case(|| format!("{sig:?}: nothing listens on the endpoint"), |_| {
            let (_held, port) = closed_port();
            let mut e = build(sig, &Conf { endpoint: Some(format!("http://127.0.0.1:{port}")), ..Conf::default() })?;
            for _ in 0..2 {
                ensure!(run(&mut e, 0).is_err(), "the export reports success");
            }
            Ok(())
        });
    }
}
fn timeouts(r: &mut Run) {
    let thorough = r.thorough;
    for sig in SIGNALS {
        r.case(|| format!("{sig:?}: every combination of timeouts set in code, in {} and in OTEL_EXPORTER_OTLP_TIMEOUT", sig.var("TIMEOUT")), |o| {
            let mut es = vec![];
            for (i, (code, own, general, eff)) in timeout_cases().into_iter().enumerate() {
                let _env = Env::set(&[(sig.var("TIMEOUT"), own), ("OTEL_EXPORTER_OTLP_TIMEOUT".into(), general), (next(sig).var("TIMEOUT"), Some("7"))]);
                let srv = GServer::start();
                srv.reply(Reply::Wait(stall(thorough, eff).0));
                let e = build(sig, &Conf { endpoint: Some(srv.url()), timeout: code.map(Duration::from_millis), whole: i % 2 == 1, ..Conf::default() })?;
                es.push(((code, own, general, eff), e, srv));
            }
            let res: Vec<_> = std::thread::scope(|s| {
                let hs: Vec<_> = es.iter_mut().map(|(c, e, _)| {
                    s.spawn(move || {
                        let t = Instant::now();
                        (*c, run(e, 0), t.elapsed())
                    })
                }).collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            for (c, res, took) in res {
                let (wait, ok) = stall(thorough, c.3);
                ensure!(res.is_ok() == ok, "in code {:?}, own variable {:?}, general variable {:?}: the server stalls for {wait} ms, after {took:?} the export reports {res:?}", c.0, c.1, c.2);
                o.step(&(sig, c));
                o.outcome(&(sig, c.3));
            }
            Ok(())
        });
    }
}
pub fn families() -> Vec<Family> {
    vec![
        serial("C51", "otlp-grpc-endpoints", endpoints),
        serial("C51", "otlp-grpc-metadata", metadata),
        serial("C51", "otlp-grpc-compression", compression),
        family("C51", "otlp-grpc-answers", answers),
        family("C51", "otlp-grpc-histories", histories),
        serial("C51", "otlp-grpc-timeouts", timeouts),
    ]
}
