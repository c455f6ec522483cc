//! C48: what the Zipkin exporter posts.
use crate::client::rt;
use crate::common::*;
use crate::http::{stall, Env, DEFAULT, LONG, SHORT};
use crate::net::{Reply, Server, Stall};
use crate::spans::{base, changes, cx};
use bmc::{ensure, family, product, serial, Family, Obs, Run, R};
use opentelemetry::trace::{Event, Span as _, SpanId, SpanKind, Status, TraceContextExt, Tracer, TracerProvider as _};
use opentelemetry::{Array, Context, KeyValue, Value};
use opentelemetry_sdk::trace::{SdkTracerProvider, SpanData, SpanExporter};
use opentelemetry_sdk::Resource;
use opentelemetry_zipkin::ZipkinExporter;
use serde_json::Value as J;
use std::cell::RefCell;
use std::net::SocketAddr;
use std::time::{Duration, Instant, SystemTime, UNIX_EPOCH};

const URL: &str = "http://127.0.0.1:9411/api/v2/spans";
fn micros(t: SystemTime) -> u64 {
    t.duration_since(UNIX_EPOCH).unwrap().as_micros() as u64
}
/// A tag is a string; this is how each attribute value reads.
fn tag_ok(v: &Value, tag: &str) -> bool {
    let floats = |a: f64, b: &str| b.parse::<f64>().is_ok_and(|b| b.to_bits() == a.to_bits() || (a.is_nan() && b.is_nan()));
    let parts = |n: usize| -> Option<Vec<String>> {
        let inner = tag.strip_prefix('[')?.strip_suffix(']')?;
        if n == 0 {
            return inner.trim().is_empty().then(Vec::new);
        }
        let p: Vec<String> = inner.split(',').map(|x| x.trim().to_string()).collect();
        (p.len() == n).then_some(p)
    };
    match v {
        Value::Bool(b) => tag == b.to_string(),
        Value::I64(i) => tag == i.to_string(),
        Value::F64(x) => floats(*x, tag),
        Value::String(s) => tag == s.as_str(),
        Value::Array(Array::Bool(l)) => parts(l.len()).is_some_and(|p| p.iter().zip(l).all(|(p, b)| *p == b.to_string())),
        Value::Array(Array::I64(l)) => parts(l.len()).is_some_and(|p| p.iter().zip(l).all(|(p, b)| *p == b.to_string())),
        Value::Array(Array::F64(l)) => parts(l.len()).is_some_and(|p| p.iter().zip(l).all(|(p, b)| floats(*b, p))),
        Value::Array(Array::String(l)) => serde_json::from_str::<Vec<String>>(tag).is_ok_and(|p| p.len() == l.len() && p.iter().zip(l).all(|(p, b)| p == b.as_str())),
        _ => false,
    }
}
/// What the local endpoint of every span says.
#[derive(Clone, Debug, Default, PartialEq)]
struct Local {
    service: Option<String>,
    addr: Option<SocketAddr>,
}
fn judge(z: &J, d: &SpanData, local: &Local) -> Result<(), String> {
    let z = z.as_object().ok_or("not an object")?;
    let text = |k: &str| z.get(k).filter(|x| !x.is_null());
    let known = ["traceId", "parentId", "id", "kind", "name", "timestamp", "duration", "localEndpoint", "annotations", "tags", "debug", "shared"];
    if let Some(k) = z.keys().find(|k| !known.contains(&k.as_str())) {
        return Err(format!("unknown field {k}"));
    }
    let field = |k: &str, want: Option<J>| if text(k) == want.as_ref() { Ok(()) } else { Err(format!("{k} is {:?} instead of {want:?}", z.get(k))) };
    field("traceId", Some(format!("{:032x}", u128::from_be_bytes(d.span_context.trace_id().to_bytes())).into()))?;
    field("id", Some(format!("{:016x}", u64::from_be_bytes(d.span_context.span_id().to_bytes())).into()))?;
    field("parentId", (d.parent_span_id != SpanId::INVALID).then(|| format!("{:016x}", u64::from_be_bytes(d.parent_span_id.to_bytes())).into()))?;
    field("name", Some(d.name.to_string().into()))?;
    let own_kind = d.attributes.iter().any(|a| a.key.as_str() == "span.kind");
    let kind = match d.span_kind {
        SpanKind::Internal => None,
        _ if own_kind => None,
        SpanKind::Client => Some("CLIENT"),
        SpanKind::Server => Some("SERVER"),
        SpanKind::Producer => Some("PRODUCER"),
        SpanKind::Consumer => Some("CONSUMER"),
    };
    field("kind", kind.map(J::from))?;
    field("timestamp", Some(micros(d.start_time).into()))?;
    let dur = d.end_time.duration_since(d.start_time).map_or(0, |t| t.as_micros() as u64);
    // a span shorter than a microsecond has no exact representation
    if dur > 0 || !matches!(text("duration").map(|x| x.as_u64()), None | Some(Some(0 | 1))) {
        field("duration", Some(dur.into()))?;
    }
    for k in ["debug", "shared"] {
        if !matches!(text(k), None | Some(J::Bool(false))) {
            return Err(format!("{k} is {:?}", z.get(k)));
        }
    }
    let mut end = serde_json::Map::new();
    if let Some(s) = &local.service {
        end.insert("serviceName".into(), s.clone().into());
    }
    if let Some(a) = local.addr {
        end.insert(if a.is_ipv4() { "ipv4" } else { "ipv6" }.into(), a.ip().to_string().into());
        end.insert("port".into(), a.port().into());
    }
    if text("localEndpoint").and_then(|x| x.as_object()).cloned().unwrap_or_default() != end {
        return Err(format!("localEndpoint is {:?} instead of {end:?}", z.get("localEndpoint")));
    }
    let none = vec![];
    let notes = text("annotations").and_then(|x| x.as_array()).unwrap_or(&none);
    let want: Vec<J> = d.events.events.iter().map(|e| serde_json::json!({"timestamp": micros(e.timestamp), "value": e.name})).collect();
    if *notes != want {
        return Err(format!("annotations are {notes:?} instead of {want:?}"));
    }
    let empty = serde_json::Map::new();
    let mut tags = text("tags").and_then(|x| x.as_object()).unwrap_or(&empty).clone();
    let mut tag = |k: &str, ok: &dyn Fn(&str) -> bool, optional: bool| match tags.remove(k) {
        Some(J::String(s)) if ok(&s) => Ok(()),
        None if optional => Ok(()),
        x => Err(format!("tag {k:?} is {x:?}")),
    };
    let sc = &d.instrumentation_scope;
    tag("otel.library.name", &|s| s == sc.name(), sc.name().is_empty())?;
    if let Some(v) = sc.version() {
        tag("otel.library.version", &|s| s == v, false)?;
    }
    match &d.status {
        Status::Unset => {}
        Status::Ok => tag("otel.status_code", &|s| s == "OK", false)?,
        Status::Error { description } => {
            tag("otel.status_code", &|s| s == "ERROR", false)?;
            tag("error", &|s| s == description, false)?;
        }
    }
    // the error tag speaks of the status only
    let mut seen = std::collections::HashSet::new();
    for a in d.attributes.iter().rev().filter(|a| a.key.as_str() != "error") {
        if seen.insert(a.key.clone()) {
            tag(a.key.as_str(), &|s| tag_ok(&a.value, s), false).map_err(|e| format!("{e} for the value {:?}", a.value))?;
        }
    }
    if !tags.is_empty() {
        return Err(format!("unexpected tags {tags:?}"));
    }
    Ok(())
}
fn judge_body(body: &[u8], batch: &[SpanData], local: &Local) -> Result<(), String> {
    let j: J = serde_json::from_slice(body).map_err(|e| e.to_string())?;
    let l = j.as_array().ok_or("not a list")?;
    if l.len() != batch.len() {
        return Err(format!("{} spans instead of {}", l.len(), batch.len()));
    }
    l.iter().zip(batch).try_for_each(|(z, d)| judge(z, d, local).map_err(|e| format!("span {}: {e}", d.name)))
}
fn posted(f: &Fake, url: &str) -> Result<bytes::Bytes, String> {
    let mut s = f.take();
    if s.len() != 1 {
        return Err(format!("{} requests for one batch", s.len()));
    }
    let s = s.remove(0);
    if s.method != "POST" || s.uri != url {
        return Err(format!("{} {}", s.method, s.uri));
    }
    let types: Vec<_> = s.headers.iter().filter(|h| h.0 == "content-type").map(|h| h.1.split(';').next().unwrap().trim()).collect();
    if types != ["application/json"] {
        return Err(format!("headers {:?}", s.headers));
    }
    Ok(s.body)
}
thread_local!(static PLAIN: RefCell<Option<(Fake, ZipkinExporter)>> = const { RefCell::new(None) });
/// Building an exporter builds its default HTTP client first, which is slow: one per thread.
fn plain<T>(f: impl FnOnce(&Fake, &ZipkinExporter) -> T) -> T {
    PLAIN.with(|p| {
        let mut p = p.borrow_mut();
        let (c, e) = p.get_or_insert_with(|| {
            let c = Fake::new();
            (c.clone(), ZipkinExporter::builder().with_http_client(c).build().expect("an exporter"))
        });
        f(c, e)
    })
}
fn check(batch: &[SpanData], o: &mut Obs) -> R {
    plain(|c, e| {
        c.take();
        c.answer(Answer::Status(202));
        ready(e.export(batch.to_vec())).map_err(|e| format!("export failed: {e}"))?;
        if batch.is_empty() && c.0.lock().unwrap().0.is_empty() {
            return Ok(());
        }
        judge_body(&posted(c, URL)?, batch, &Local::default())
    })?;
    for d in batch {
        o.step(&format!("{d:?}"));
    }
    o.outcome(&batch);
    Ok(())
}
/// Changes that only this exporter treats in a special way.
fn special() -> Vec<Vec<Box<dyn Fn(&mut SpanData)>>> {
    let lists: Vec<Vec<KeyValue>> = vec![
        vec![KeyValue::new("error", "mine")],
        vec![KeyValue::new("error", false), KeyValue::new("k", 1)],
        vec![KeyValue::new("span.kind", "mine")],
        vec![KeyValue::new("a", 1), KeyValue::new("span.kind", 7), KeyValue::new("error", 1.5), KeyValue::new("z", "z")],
        vec![KeyValue::new("Error", "x"), KeyValue::new("errors", "y"), KeyValue::new("", "z")],
    ];
    let mut out: Vec<Vec<Box<dyn Fn(&mut SpanData)>>> = vec![];
    out.push(lists.into_iter().map(|l| -> Box<dyn Fn(&mut SpanData)> { Box::new(move |d| d.attributes = l.clone()) }).collect());
    let base_t = 1_700_000_000_123_456_000u64;
    let spans: [(u64, u64); 9] = [(0, 999), (0, 1000), (0, 1999), (999, 1000), (1, 1_000_001), (500, 3_600_000_000_000), (999, 2_000), (5, 5), (10_000, 0)];
    out.push(spans.into_iter().map(|(a, b)| -> Box<dyn Fn(&mut SpanData)> {
        Box::new(move |d| {
            d.start_time = at(base_t + a);
            d.end_time = at(base_t + b);
        })
    }).collect());
    let times: [u64; 4] = [999, 1000, 1999, 1_700_000_000_999_999_999];
    out.push((0..=4usize).map(|n| -> Box<dyn Fn(&mut SpanData)> {
        Box::new(move |d| d.events.events = (0..n).map(|i| Event::new(["first", "", "first", "f\u{e9}\"\n"][i], at(times[i]), vec![KeyValue::new("x", 1)], i as u32)).collect())
    }).collect());
    out
}
fn fields(r: &mut Run) {
    let mut ch = changes();
    ch.extend(special());
    for k in 0..=r.pick(3, 4) {
        for set in bmc::subsets(ch.len()).into_iter().filter(|x| x.len() == k) {
            let dims: Vec<usize> = set.iter().map(|&i| ch[i].len()).collect();
            product(&dims, |ix| {
                if !r.go() {
                    return;
                }
                let mut d = base();
                for (j, &fi) in set.iter().enumerate() {
                    ch[fi][ix[j]](&mut d);
                }
                r.case(|| format!("{d:?}"), |o| check(&[d.clone()], o));
            });
        }
    }
}
fn batches(r: &mut Run) {
    let kinds: Vec<SpanData> = scopes().into_iter().enumerate().map(|(i, sc)| {
        let mut d = base();
        d.instrumentation_scope = sc;
        d.name = format!("s{i}").into();
        d.span_kind = [SpanKind::Internal, SpanKind::Client, SpanKind::Server][i % 3].clone();
        d.status = [Status::Unset, Status::error("e"), Status::Ok][i % 3].clone();
        d
    }).collect();
    let depth = r.pick(5, 7);
    let idx: Vec<usize> = (0..kinds.len()).collect();
    for n in 0..=depth {
        r.sequences(&idx, n, |q| format!("batch {q:?}"), |q, o| {
            let batch: Vec<SpanData> = q.iter().enumerate().map(|(i, &k)| {
                let mut d = kinds[k].clone();
                d.span_context = cx(1 + (i as u128 % 2), 1 + i as u64 / 2, 1, false, &[]);
                d
            }).collect();
            check(&batch, o)
        });
    }
}
fn answers(r: &mut Run) {
    let one = |a: &Answer, c: &Fake, e: &ZipkinExporter| -> R {
        c.take();
        c.answer(a.clone());
        let res = ready(e.export(vec![base()]));
        judge_body(&posted(c, URL)?, &[base()], &Local::default())?;
        match a {
            Answer::Status(s) => ensure!(res.is_ok() == (*s < 400), "answer {a:?} gives {res:?}"),
            Answer::Lost => ensure!(res.is_err(), "answer {a:?} gives {res:?}"),
        }
        Ok(())
    };
    let all: Vec<Answer> = (200..300).chain(400..600).map(Answer::Status).chain([Answer::Lost]).collect();
    for a in &all {
        r.case(|| format!("{a:?}"), |o| {
            plain(|c, e| one(a, c, e))?;
            o.step(a);
            o.outcome(a);
            Ok(())
        });
    }
    let few = [Answer::Status(200), Answer::Status(202), Answer::Status(400), Answer::Status(404), Answer::Status(429), Answer::Status(500), Answer::Status(503), Answer::Lost];
    r.all_sequences(&few, r.pick(4, 6), |q| format!("{q:?}"), |q, o| {
        plain(|c, e| q.iter().try_for_each(|a| one(a, c, e)))?;
        o.step(&q.to_vec());
        o.outcome(&q);
        Ok(())
    });
}
/// The endpoint in code, in the environment and by default.
fn endpoints(r: &mut Run) {
    let urls = ["http://h:1/p", "http://127.0.0.1:9/a/b?c=d", "https://h/", "h:80"];
    let bad = ["", "not a uri", "http://h h"];
    let all: Vec<Option<&'static str>> = [None].into_iter().chain(urls.into_iter().chain(bad).map(Some)).collect();
    product(&[all.len(), all.len(), 2], |ix| {
        let (code, env, other) = (all[ix[0]], all[ix[1]], ix[2] == 1);
        r.case(|| format!("in code {code:?}, OTEL_EXPORTER_ZIPKIN_ENDPOINT {env:?}, OTLP variable set {other}"), |o| {
            let _env = Env::set(&[("OTEL_EXPORTER_ZIPKIN_ENDPOINT".into(), env), ("OTEL_EXPORTER_OTLP_ENDPOINT".into(), other.then_some("http://wrong:1"))]);
            let c = Fake::new();
            let mut b = ZipkinExporter::builder();
            if let Some(x) = code {
                b = b.with_collector_endpoint(x);
            }
            let want = code.or(env.filter(|e| !e.is_empty())).unwrap_or(URL);
            match b.with_http_client(c.clone()).build() {
                Err(e) => ensure!(bad.contains(&want), "building with {want} failed: {e}"),
                Ok(e) => {
                    ensure!(!bad.contains(&want), "built with the endpoint {want:?}");
                    drop(_env);
                    ready(e.export(vec![base()])).map_err(|e| format!("export failed: {e}"))?;
                    judge_body(&posted(&c, &want.parse::<::http::Uri>().unwrap().to_string())?, &[base()], &Local::default())?;
                }
            }
            o.step(&want);
            o.outcome(&(code, env));
            Ok(())
        });
    });
}
/// Service name and address; through the exporter's own interface and through a provider.
fn local(r: &mut Run) {
    let addrs: Vec<Option<SocketAddr>> = vec![None, Some("1.2.3.4:5".parse().unwrap()), Some("0.0.0.0:0".parse().unwrap()), Some("[::1]:65535".parse().unwrap()), Some("[2001:db8::7]:80".parse().unwrap())];
    let names: Vec<Option<&'static str>> = vec![None, Some("shop"), Some("sh\u{f6}p \"1\"")];
    for (addr, name) in addrs.iter().flat_map(|a| names.iter().map(move |n| (*a, *n))) {
        for more in [false, true] {
            r.case(|| format!("address {addr:?}, service name {name:?}, other resource attributes {more}, spans of every kind through a provider"), |o| {
                let c = Fake::new();
                let mut b = ZipkinExporter::builder().with_http_client(c.clone());
                if let Some(a) = addr {
                    b = b.with_service_address(a);
                }
                let mut res = Resource::builder_empty();
                if more {
                    res = res.with_attributes([KeyValue::new("service", "x"), KeyValue::new("service.version", "9"), KeyValue::new("host.name", "y")]);
                }
                if let Some(n) = name {
                    res = res.with_service_name(n);
                }
                let p = SdkTracerProvider::builder().with_simple_exporter(b.build().map_err(|e| e.to_string())?).with_resource(res.build()).build();
                let t = p.tracer("lib");
                let parent = cx(5, 6, 1, true, &[]);
                for (i, k) in [SpanKind::Internal, SpanKind::Client, SpanKind::Server, SpanKind::Producer, SpanKind::Consumer].into_iter().enumerate() {
                    let pc = if i % 2 == 1 { Context::new().with_remote_span_context(parent.clone()) } else { Context::new() };
                    let mut s = t.span_builder("op").with_kind(k.clone()).with_start_time(at(1_000_000)).with_end_time(at(3_000_000)).start_with_context(&t, &pc);
                    let sc = s.span_context().clone();
                    s.set_attribute(KeyValue::new("k", 1));
                    s.add_event_with_timestamp("e", at(2_000_000), vec![]);
                    s.set_status(Status::error("bad"));
                    s.end_with_timestamp(at(3_000_000));
                    let mut d = base();
                    d.span_context = sc;
                    d.parent_span_id = if i % 2 == 1 { parent.span_id() } else { SpanId::INVALID };
                    d.span_kind = k;
                    d.name = "op".into();
                    d.start_time = at(1_000_000);
                    d.end_time = at(3_000_000);
                    d.attributes = vec![KeyValue::new("k", 1)];
                    d.events.events = vec![Event::new("e", at(2_000_000), vec![], 0)];
                    d.status = Status::error("bad");
                    judge_body(&posted(&c, URL)?, &[d], &Local { service: name.map(String::from), addr })?;
                    o.step(&(i, name, addr));
                }
                o.outcome(&(name, addr));
                Ok(())
            });
        }
    }
}
/// The built-in client against a server, with the timeout of the environment.
fn built_in(r: &mut Run) {
    let thorough = r.thorough;
    r.case(|| "every timeout of the environment".into(), |o| {
        let srv = Server::start();
        let cases: [(Option<&'static str>, u64); 6] = [(None, DEFAULT), (Some("200"), SHORT), (Some("60000"), LONG), (Some(""), DEFAULT), (Some("soon"), DEFAULT), (Some("-1"), DEFAULT)];
        let mut es = vec![];
        for (i, (v, eff)) in cases.into_iter().enumerate() {
            let _env = Env::set(&[("OTEL_EXPORTER_ZIPKIN_TIMEOUT".into(), v), ("OTEL_EXPORTER_OTLP_TIMEOUT".into(), Some("7"))]);
            srv.reply_at(&format!("/{i}"), Reply::Wait(stall(thorough, eff).0, Stall::Nothing));
            es.push((v, eff, ZipkinExporter::builder().with_collector_endpoint(format!("http://127.0.0.1:{}/{i}", srv.port)).build().map_err(|e| e.to_string())?));
        }
        let res: Vec<_> = std::thread::scope(|s| {
            let hs: Vec<_> = es.iter().map(|(v, eff, e)| {
                s.spawn(move || {
                    let t = Instant::now();
                    (*v, *eff, ready(e.export(vec![base()])), t.elapsed())
                })
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (v, eff, res, took) in res {
            let (wait, ok) = stall(thorough, eff);
            ensure!(res.is_ok() == ok, "OTEL_EXPORTER_ZIPKIN_TIMEOUT {v:?}: the server stalls for {wait} ms, after {took:?} the export reports {res:?}");
            o.step(&v);
            o.outcome(&(v, eff));
        }
        Ok(())
    });
    for (name, reply, ok) in [("200", Reply::status(200), true), ("202", Reply::status(202), true), ("400", Reply::status(400), false), ("500", Reply::status(500), false), ("the connection closes", Reply::Close, false)] {
        for kind in ["blocking", "hyper"] {
            r.case(|| format!("{kind} client, answer {name}, then 202"), |o| {
                let srv = Server::start();
                let mut b = ZipkinExporter::builder().with_collector_endpoint(format!("http://127.0.0.1:{}/z", srv.port));
                if kind == "hyper" {
                    b = b.with_http_client(opentelemetry_http::hyper::HyperClient::with_default_connector(Duration::from_secs(15), None));
                }
                let e = b.build().map_err(|e| e.to_string())?;
                let go = || if kind == "hyper" { rt().block_on(e.export(vec![base()])) } else { ready(e.export(vec![base()])) };
                for (reply, ok) in [(reply.clone(), ok), (Reply::status(202), true)] {
                    srv.reply(reply.clone());
                    let res = go();
                    ensure!(res.is_ok() == ok, "{reply:?} gives {res:?}");
                    let s = srv.take();
                    // a client may repeat a request whose connection was closed without an answer
                    ensure!(s.len() == 1 || (reply == Reply::Close && !s.is_empty()), "{} requests", s.len());
                    judge_body(&s[0].body, &[base()], &Local::default())?;
                    o.step(&(kind, name));
                }
                o.outcome(&(kind, name));
                Ok(())
            });
        }
    }
}
pub fn families() -> Vec<Family> {
    vec![
        family("C48", "zipkin-fields", fields),
        family("C48", "zipkin-batches", batches),
        family("C48", "zipkin-answers", answers),
        serial("C48", "zipkin-endpoints", endpoints),
        family("C48", "zipkin-local-endpoint", local),
        serial("C48", "zipkin-built-in-client", built_in),
    ]
}
