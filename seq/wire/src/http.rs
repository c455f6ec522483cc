//! C46: the OTLP HTTP exporters, with a client that records requests and gives scripted answers, and with the built-in
//! blocking client against a server on the loopback interface.
use crate::common::*;
use crate::otlp::*;
use bmc::{ensure, family, product, serial, Family, Run};
use opentelemetry_otlp::{ExportConfig, LogExporter, MetricExporter, Protocol, SpanExporter, WithExportConfig, WithHttpConfig};
use std::collections::{BTreeMap, HashMap};
use crate::net::*;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Conf {
    pub sig: Signal,
    pub proto: Protocol,
    pub endpoint: Option<String>,
    pub timeout: Option<Duration>,
    pub headers: Option<Vec<(&'static str, &'static str)>>,
    /// set everything through one ExportConfig
    pub whole: bool,
}
impl Conf {
    pub fn new(sig: Signal) -> Conf {
        Conf { sig, proto: Protocol::HttpBinary, endpoint: None, timeout: None, headers: None, whole: false }
    }
}
pub fn build(c: &Conf, client: Option<Fake>) -> Result<Exporter, String> {
    macro_rules! go { ($b:expr) => {{
        let mut b = $b.with_http();
        if c.whole {
            b = b.with_export_config(ExportConfig { endpoint: c.endpoint.clone(), protocol: c.proto, timeout: c.timeout });
        } else {
            b = b.with_protocol(c.proto);
            if let Some(e) = &c.endpoint {
                b = b.with_endpoint(e.clone());
            }
            if let Some(t) = c.timeout {
                b = b.with_timeout(t);
            }
        }
        if let Some(h) = &c.headers {
            for (k, v) in h {
                b = b.with_headers(HashMap::from([(k.to_string(), v.to_string())]));
            }
        }
        if let Some(f) = client {
            b = b.with_http_client(f);
        }
        b.build().map_err(|e| e.to_string())?
    }}; }
    Ok(match c.sig {
        Signal::Traces => Exporter::Traces(go!(SpanExporter::builder())),
        Signal::Logs => Exporter::Logs(go!(LogExporter::builder())),
        Signal::Metrics => Exporter::Metrics(go!(MetricExporter::builder())),
    })
}
/// Sets environment variables for the duration of a case.
pub struct Env(Vec<String>);
impl Env {
    pub fn set(vars: &[(String, Option<&str>)]) -> Env {
        for (k, v) in vars {
            match v {
                Some(v) => std::env::set_var(k, v),
                None => std::env::remove_var(k),
            }
        }
        Env(vars.iter().map(|x| x.0.clone()).collect())
    }
}
impl Drop for Env {
    fn drop(&mut self) {
        for k in &self.0 {
            std::env::remove_var(k);
        }
    }
}
fn one(e: &mut Exporter, f: &Fake, n: u64) -> Result<Sent, String> {
    export(e, n).map_err(|e| format!("export failed: {e}"))?;
    let mut s = f.take();
    if s.len() != 1 {
        return Err(format!("{} requests for one export", s.len()));
    }
    Ok(s.remove(0))
}
fn uri(s: &str) -> String {
    s.parse::<http::Uri>().map(|u| u.to_string()).unwrap_or_else(|_| format!("unparsable {s}"))
}

fn endpoints(r: &mut Run) {
    let code = [None, Some(""), Some("http://code:1"), Some("http://code:1/x/y"), Some("https://code/z/"), Some("bad uri")];
    let own = [None, Some(""), Some("http://own:2"), Some("http://own:2/p/"), Some("-*/*-/*-//-/-/invalid-uri")];
    let general = [None, Some(""), Some("http://gen:3"), Some("http://gen:3/"), Some("https://gen:3/a/b/")];
    let other = [None, Some("http://wrong:9/")];
    for sig in SIGNALS {
        let wrong = SIGNALS[(SIGNALS.iter().position(|x| *x == sig).unwrap() + 1) % 3];
        for proto in [Protocol::HttpBinary, Protocol::HttpJson] {
            for whole in [false, true] {
                product(&[code.len(), own.len(), general.len(), other.len()], |ix| {
                    let (c, o, g, w) = (code[ix[0]], own[ix[1]], general[ix[2]], other[ix[3]]);
                    r.case(
                        || format!("{sig:?} {proto:?} whole {whole}: code {c:?} {} {o:?} OTEL_EXPORTER_OTLP_ENDPOINT {g:?} {} {w:?}", sig.var("ENDPOINT"), wrong.var("ENDPOINT")),
                        |obs| {
                            let set = |v: Option<&'static str>| v.filter(|s| !s.is_empty());
                            let _env = Env::set(&[(sig.var("ENDPOINT"), o), ("OTEL_EXPORTER_OTLP_ENDPOINT".into(), g), (wrong.var("ENDPOINT"), w)]);
                            let want = if let Some(c) = set(c) {
                                c.to_string()
                            } else if let Some(o) = set(o).filter(|s| !s.starts_with('-')) {
                                o.to_string()
                            } else if let Some(g) = set(g) {
                                format!("{}{}", g.trim_end_matches('/'), sig.path())
                            } else {
                                format!("http://localhost:4318{}", sig.path())
                            };
                            let f = Fake::new();
                            let conf = Conf { endpoint: c.map(String::from), whole, proto, ..Conf::new(sig) };
                            let e = build(&conf, Some(f.clone()));
                            if want == "bad uri" {
                                ensure!(e.is_err(), "an invalid endpoint is accepted");
                                return Ok(());
                            }
                            let sent = one(&mut e?, &f, 0)?;
                            ensure!(sent.uri == uri(&want), "request sent to {} instead of {}", sent.uri, uri(&want));
                            judge_request(&sent, sig, proto, 0)?;
                            obs.step(&want);
                            obs.outcome(&(sig, &want));
                            Ok(())
                        },
                    );
                });
            }
        }
    }
}
fn judge_request(s: &Sent, sig: Signal, p: Protocol, n: u64) -> Result<(), String> {
    judge_with(s, sig, p, n, 0)
}
fn judge_with(s: &Sent, sig: Signal, p: Protocol, n: u64, version: u64) -> Result<(), String> {
    if s.method != "POST" {
        return Err(format!("method {}", s.method));
    }
    let want = if p == Protocol::HttpJson { "application/json" } else { "application/x-protobuf" };
    let ct: Vec<_> = s.headers.iter().filter(|h| h.0 == "content-type").map(|h| h.1.as_str()).collect();
    if ct != [want] {
        return Err(format!("content type {ct:?} instead of {want}"));
    }
    body_with(sig, p, &s.body, n, version)
}

/// What a header variable means: pairs separated by commas, percent-encoded values.
pub fn parse_env(v: &str) -> Vec<(String, Vec<String>)> {
    let mut out: Vec<(String, Vec<String>)> = vec![];
    for part in v.split(',') {
        let Some((k, val)) = part.split_once('=') else { continue };
        let (k, val) = (k.trim().to_ascii_lowercase(), val.trim());
        if k.is_empty() || val.is_empty() || k.contains(' ') {
            continue;
        }
        let b = val.as_bytes();
        let mut bytes = vec![];
        let mut i = 0;
        let mut ok = true;
        while i < b.len() {
            if b[i] == b'%' {
                let h = |j: usize| b.get(j).and_then(|c| (*c as char).to_digit(16));
                match (h(i + 1), h(i + 2)) {
                    (Some(a), Some(c)) => bytes.push((a * 16 + c) as u8),
                    _ => ok = false,
                }
                i += 3;
            } else {
                bytes.push(b[i]);
                i += 1;
            }
        }
        let text = match String::from_utf8(bytes) {
            Ok(t) if ok => t,
            _ => val.to_string(),
        };
        // not a header value
        if text.bytes().any(|c| (c < 32 && c != b'\t') || c == 127) {
            continue;
        }
        out.retain(|x| x.0 != k);
        out.push((k, vec![text]));
    }
    out
}
pub const HEADER_VARS: [&str; 14] = [
    "k=env", "K=upper", "k=a%20b%2Cc,x=1", " k = v , bad, =v, y=, z=1=2 ", "k=%zz", "k=%+9", "k=1,k=2", "user-agent=env", "k=%C3%A9", "k=%FF", "k=%0A,x=2", "a b=1,x=3", ",,", "k=100%",
];
fn headers(r: &mut Run) {
    let code: Vec<Option<Vec<(&'static str, &'static str)>>> = vec![
        None,
        Some(vec![("k", "code")]),
        Some(vec![("K", "one"), ("k", "two")]),
        Some(vec![("user-agent", "mine")]),
        Some(vec![("USER-AGENT", "mine"), ("z", "")]),
        Some(vec![("bad name", "v"), ("q", "bad\nvalue"), ("ok", "v")]),
    ];
    let vars: Vec<Option<&str>> = [None, Some("")].into_iter().chain(HEADER_VARS.into_iter().map(Some)).collect();
    let general: Vec<Option<&str>> = r.pick(vec![None, Some("k=gen,g=1"), Some("")], vars.iter().copied().chain([Some("k=gen,g=1")]).collect());
    for sig in SIGNALS {
        product(&[code.len(), vars.len(), general.len()], |ix| {
            let (c, o, g) = (&code[ix[0]], vars[ix[1]], general[ix[2]]);
            r.case(
                || format!("{sig:?}: headers in code {c:?}, {} {o:?}, OTEL_EXPORTER_OTLP_HEADERS {g:?}", sig.var("HEADERS")),
                |obs| {
                    let wrong = SIGNALS[(SIGNALS.iter().position(|x| *x == sig).unwrap() + 1) % 3];
                    let _env = Env::set(&[(sig.var("HEADERS"), o), ("OTEL_EXPORTER_OTLP_HEADERS".into(), g), (wrong.var("HEADERS"), Some("wrong=1"))]);
                    let f = Fake::new();
                    let mut e = build(&Conf { headers: c.clone(), ..Conf::new(sig) }, Some(f.clone()))?;
                    // allowed values per header
                    let mut want: BTreeMap<String, Vec<String>> = BTreeMap::new();
                    for (k, v) in c.iter().flatten() {
                        if !k.contains(' ') && !v.contains('\n') {
                            want.insert(k.to_ascii_lowercase(), vec![v.to_string()]);
                        }
                    }
                    let env = o.filter(|s| !s.is_empty()).or(g.filter(|s| !s.is_empty())).unwrap_or("");
                    for (k, v) in parse_env(env) {
                        // which of the two wins when both are set is not documented
                        want.entry(k).or_default().extend(v);
                    }
                    for n in 0..2 {
                        let sent = one(&mut e, &f, n)?;
                        judge_request(&sent, sig, Protocol::HttpBinary, n)?;
                        let mut rest = sent.headers.clone();
                        rest.retain(|h| h.0 != "content-type");
                        let agents: Vec<_> = rest.iter().filter(|h| h.0 == "user-agent").map(|h| h.1.clone()).collect();
                        if !want.contains_key("user-agent") {
                            ensure!(agents.len() == 1 && agents[0].starts_with("OTel OTLP Exporter Rust/"), "user agent {agents:?}");
                            rest.retain(|h| h.0 != "user-agent");
                        }
                        for (k, v) in &want {
                            // a default user agent may stay or be overridden by the environment
                            let got: Vec<_> = rest.iter().filter(|h| h.0 == *k).map(|h| h.1.clone()).collect();
                            let default_kept = k == "user-agent" && !c.iter().flatten().any(|x| x.0.eq_ignore_ascii_case(k)) && got.len() == 1 && got[0].starts_with("OTel OTLP");
                            ensure!(default_kept || (got.len() == 1 && v.contains(&got[0])), "header {k}: sent {got:?}, expected one of {v:?}");
                        }
                        for h in &rest {
                            ensure!(want.contains_key(&h.0), "unexpected header {h:?}");
                        }
                        obs.step(&format!("{want:?}"));
                    }
                    obs.outcome(&(sig, &want));
                    Ok(())
                },
            );
        });
    }
}
fn answers(r: &mut Run) {
    let mut all = vec![Answer::Lost];
    all.extend((100..=999).map(Answer::Status));
    for sig in SIGNALS {
        for proto in [Protocol::HttpBinary, Protocol::HttpJson] {
            for a in &all {
                r.case(|| format!("{sig:?} {proto:?}: the server answers {a:?}"), |o| {
                    let f = Fake::new();
                    f.answer(a.clone());
                    let mut e = build(&Conf { proto, ..Conf::new(sig) }, Some(f.clone()))?;
                    let res = export(&mut e, 1);
                    let sent = f.take();
                    ensure!(sent.len() == 1, "{} requests for one export", sent.len());
                    judge_request(&sent[0], sig, proto, 1)?;
                    let ok = matches!(a, Answer::Status(200..=299));
                    ensure!(res.is_ok() == ok, "the export reports {res:?}");
                    o.step(&(sig, a));
                    o.outcome(&(sig, ok));
                    Ok(())
                });
            }
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Accepted,
    Refused,
    Lost,
    Shutdown,
    /// the exporter is given another resource
    Resource,
}
fn histories(r: &mut Run) {
    for sig in SIGNALS {
        for proto in [Protocol::HttpBinary, Protocol::HttpJson] {
            r.all_sequences(&[Op::Accepted, Op::Refused, Op::Lost, Op::Shutdown, Op::Resource], r.pick(5, 7), |q| format!("{sig:?} {proto:?} {q:?}"), |q, o| {
                let f = Fake::new();
                let mut e = build(&Conf { proto, ..Conf::new(sig) }, Some(f.clone()))?;
                let (mut down, mut version) = (false, 0);
                for (i, op) in q.iter().enumerate() {
                    let n = i as u64;
                    f.answer(match op {
                        Op::Refused => Answer::Status(503),
                        Op::Lost => Answer::Lost,
                        _ => Answer::Status(200),
                    });
                    if *op == Op::Shutdown {
                        let res = e.shutdown();
                        ensure!(down || res.is_ok(), "operation {i}: shutdown reports {res:?}");
                        ensure!(f.take().is_empty(), "operation {i}: shutdown sends a request");
                        down = true;
                    } else if *op == Op::Resource {
                        version += 1;
                        e.set_resource(version);
                        ensure!(f.take().is_empty(), "operation {i}: a new resource sends a request");
                    } else {
                        let res = export(&mut e, n);
                        let sent = f.take();
                        if down {
                            ensure!(sent.is_empty(), "operation {i}: a request after shutdown");
                            ensure!(res.is_err(), "operation {i}: export after shutdown reports success");
                        } else {
                            ensure!(sent.len() == 1, "operation {i}: {} requests", sent.len());
                            judge_with(&sent[0], sig, proto, n, version).map_err(|e| format!("operation {i}: {e}"))?;
                            ensure!(res.is_ok() == (*op == Op::Accepted), "operation {i}: the export reports {res:?}");
                        }
                    }
                    o.step(&(sig, down, i, op));
                }
                o.outcome(&(sig, q));
                Ok(())
            });
        }
    }
}
/// The client the exporter builds for itself, against a server on the loopback interface.
fn built_in(r: &mut Run) {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    enum A {
        Full(u16),
        Close,
        PartHead,
        Refused,
    }
    let all = [A::Full(200), A::Full(202), A::Full(400), A::Full(429), A::Full(503), A::Close, A::PartHead, A::Refused];
    for sig in SIGNALS {
        for proto in [Protocol::HttpBinary, Protocol::HttpJson] {
            let srv = Server::start();
            let (_held, closed) = closed_port();
            r.all_sequences(&all, r.pick(2, 3), |q| format!("{sig:?} {proto:?} {q:?}"), |q, o| {
                let conf = |port: u16| Conf { proto, endpoint: Some(format!("http://127.0.0.1:{port}/x{}", sig.path())), headers: Some(vec![("k", "v")]), ..Conf::new(sig) };
                let (mut e, mut dead) = (build(&conf(srv.port), None)?, build(&conf(closed), None)?);
                for (i, a) in q.iter().enumerate() {
                    let n = i as u64;
                    srv.take();
                    srv.reply(match a {
                        A::Full(s) => Reply::Full { status: *s, headers: vec![], body: vec![], chunked: false },
                        A::Close => Reply::Close,
                        A::PartHead => Reply::PartHead,
                        A::Refused => Reply::status(200),
                    });
                    let res = export(if *a == A::Refused { &mut dead } else { &mut e }, n);
                    let sent = srv.take();
                    ensure!(res.is_ok() == matches!(a, A::Full(200..=299)), "export {i}: the server answers {a:?}, the export reports {res:?}");
                    ensure!(sent.len() == (*a != A::Refused) as usize, "export {i}: {} requests", sent.len());
                    for s in &sent {
                        judge_request(s, sig, proto, n).map_err(|e| format!("export {i}: {e}"))?;
                        ensure!(s.uri == format!("/x{}", sig.path()), "export {i}: path {}", s.uri);
                        ensure!(s.headers.iter().any(|h| h.0 == "k" && h.1 == "v"), "export {i}: header k is missing");
                    }
                    o.step(&(sig, a, i));
                }
                o.outcome(&(sig, q));
                Ok(())
            });
        }
    }
}
/// Which timeout holds: the one set in code, the signal's variable, the general variable, ten seconds.
pub const SHORT: u64 = 200;
pub const LONG: u64 = 60_000;
pub const DEFAULT: u64 = 10_000;
pub fn timeout_cases() -> Vec<(Option<u64>, Option<&'static str>, Option<&'static str>, u64)> {
    let mut out = vec![];
    for code in [None, Some(SHORT), Some(LONG)] {
        for own in [None, Some("200"), Some("60000"), Some("soon"), Some("")] {
            for general in [None, Some("200"), Some("60000"), Some("-1")] {
                let eff = code.or(own.and_then(|v| v.parse().ok())).or(general.and_then(|v| v.parse().ok())).unwrap_or(DEFAULT);
                out.push((code, own, general, eff));
            }
        }
    }
    out
}
/// How long the server stalls for an exporter with this timeout, and whether the export then succeeds.
pub fn stall(thorough: bool, eff: u64) -> (u64, bool) {
    match (thorough, eff) {
        (_, SHORT) => (8_000, false),
        (true, DEFAULT) => (15_000, false),
        (true, _) => (12_000, true),
        _ => (1_000, true),
    }
}
fn timeouts(r: &mut Run) {
    let thorough = r.thorough;
    for sig in SIGNALS {
        r.case(|| format!("{sig:?}: every combination of timeouts set in code, in {} and in OTEL_EXPORTER_OTLP_TIMEOUT", sig.var("TIMEOUT")), |o| {
            let wrong = SIGNALS[(SIGNALS.iter().position(|x| *x == sig).unwrap() + 1) % 3];
            let srv = Server::start();
            let mut es = vec![];
            for (i, (code, own, general, eff)) in timeout_cases().into_iter().enumerate() {
                let _env = Env::set(&[(sig.var("TIMEOUT"), own), ("OTEL_EXPORTER_OTLP_TIMEOUT".into(), general), (wrong.var("TIMEOUT"), Some("7"))]);
                srv.reply_at(&format!("/{i}"), Reply::Wait(stall(thorough, eff).0, Stall::Nothing));
                es.push(((code, own, general, eff), build(&Conf { endpoint: Some(format!("http://127.0.0.1:{}/{i}", srv.port)), timeout: code.map(Duration::from_millis), whole: i % 2 == 1, ..Conf::new(sig) }, None)?));
            }
            let res: Vec<_> = std::thread::scope(|s| {
                let hs: Vec<_> = es.iter_mut().map(|(c, e)| {
                    s.spawn(move || {
                        let t = Instant::now();
                        (*c, export(e, 0), t.elapsed())
                    })
                }).collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            for (c, res, took) in res {
                let (wait, ok) = stall(thorough, c.3);
                ensure!(res.is_ok() == ok, "in code {:?}, own variable {:?}, general variable {:?}: the server stalls for {wait} ms, after {took:?} the export reports {res:?}", c.0, c.1, c.2);
                o.step(&(sig, c));
                o.outcome(&(sig, c.3));
            }
            Ok(())
        });
    }
}
pub fn families() -> Vec<Family> {
    vec![
        serial("C46", "otlp-http-endpoints", endpoints),
        serial("C46", "otlp-http-headers", headers),
        family("C46", "otlp-http-answers", answers),
        family("C46", "otlp-http-histories", histories),
        family("C46", "otlp-http-built-in-client", built_in),
        serial("C46", "otlp-http-timeouts", timeouts),
    ]
}
