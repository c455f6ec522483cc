//! C44: what the OTLP log request says about a batch of log records.
use crate::common::*;
use crate::spans::cx;
use crate::tree::{self, *};
use bmc::{ensure, family, product, Family, Obs, Run, R};
use opentelemetry::logs::{AnyValue, LogRecord as _, Logger as _, LoggerProvider as _, Severity};
use opentelemetry::trace::{SpanId, TraceFlags, TraceId};
use opentelemetry::{InstrumentationScope, Key};
use opentelemetry_otlp::{Protocol, WithExportConfig, WithHttpConfig};
use opentelemetry_proto::tonic::collector::logs::v1::ExportLogsServiceRequest;
use opentelemetry_proto::tonic::logs::v1::{LogRecord, ResourceLogs};
use opentelemetry_proto::transform::common::tonic::ResourceAttributesWithSchema;
use opentelemetry_proto::transform::logs::tonic::group_logs_by_resource_and_scope;
use opentelemetry_sdk::logs::{LogBatch, LogExporter as _, SdkLogRecord, SdkLoggerProvider};
use opentelemetry_sdk::Resource;
use prost::Message;
use std::collections::{HashMap, HashSet};

/// The harness's own description of a record, from which both the real record and the expectation are made.
#[derive(Clone, Debug)]
pub struct Rec {
    pub time: Option<u64>,
    pub observed: Option<u64>,
    pub event: Option<&'static str>,
    pub target: Option<&'static str>,
    pub text: Option<&'static str>,
    pub severity: Option<u8>,
    pub body: Option<AnyValue>,
    pub attrs: Vec<(&'static str, AnyValue)>,
    pub ids: Option<(u128, u64, Option<u8>)>,
    pub scope: InstrumentationScope,
}
pub const SEVERITIES: [Severity; 24] = {
    use Severity::*;
    [
        Trace, Trace2, Trace3, Trace4, Debug, Debug2, Debug3, Debug4, Info, Info2, Info3, Info4, Warn, Warn2, Warn3, Warn4, Error, Error2, Error3, Error4, Fatal,
        Fatal2, Fatal3, Fatal4,
    ]
};
fn base() -> Rec {
    Rec {
        time: Some(TIMES[0]),
        observed: Some(TIMES[0] + 9),
        event: None,
        target: None,
        text: Some("INFO"),
        severity: Some(9),
        body: Some("body".into()),
        attrs: vec![("base", "b".into())],
        ids: None,
        scope: scopes()[0].clone(),
    }
}
pub fn record(d: &Rec) -> SdkLogRecord {
    thread_local!(static P: SdkLoggerProvider = SdkLoggerProvider::builder().with_simple_exporter(opentelemetry_sdk::logs::InMemoryLogExporter::default()).build());
    let mut r = P.with(|p| p.logger("harness").create_log_record());
    if let Some(t) = d.time {
        r.set_timestamp(at(t));
    }
    if let Some(t) = d.observed {
        r.set_observed_timestamp(at(t));
    }
    if let Some(e) = d.event {
        r.set_event_name(e);
    }
    if let Some(t) = d.target {
        r.set_target(t);
    }
    if let Some(t) = d.text {
        r.set_severity_text(t);
    }
    if let Some(n) = d.severity {
        r.set_severity_number(SEVERITIES[n as usize - 1]);
    }
    if let Some(b) = &d.body {
        r.set_body(b.clone());
    }
    for (k, v) in &d.attrs {
        r.add_attribute(*k, v.clone());
    }
    if let Some((t, sp, f)) = d.ids {
        r.set_trace_context(TraceId::from(t), SpanId::from(sp), f.map(TraceFlags::new));
    }
    r
}
pub fn any_log(v: &AnyValue) -> T {
    match v {
        AnyValue::Int(i) => msg(vec![("int_value", some_n(i))]),
        AnyValue::Double(x) => msg(vec![("double_value", float(*x))]),
        AnyValue::String(x) => msg(vec![("string_value", some_s(x.as_str()))]),
        AnyValue::Boolean(b) => msg(vec![("bool_value", some_n(b))]),
        AnyValue::Bytes(b) => msg(vec![("bytes_value", some_s(&hex(b)))]),
        AnyValue::ListAny(l) => msg(vec![("array_value", msg(vec![("values", list(l.iter().map(any_log).collect()))]))]),
        AnyValue::Map(m) => {
            let mut l: Vec<T> = m.iter().map(|(k, v)| kv(k.as_str(), any_log(v))).collect();
            l.sort();
            msg(vec![("kvlist_value", msg(vec![("values", list(l))]))])
        }
        _ => unreachable!(),
    }
}
/// The entries of a map have no order.
pub fn canon(t: &T) -> T {
    match t {
        T::L(l) => T::L(l.iter().map(canon).collect()),
        T::M(m) => T::M(
            m.iter()
                .map(|(k, v)| {
                    let mut v = canon(v);
                    if *k == "kvlist_value" {
                        if let T::M(f) = &mut v {
                            for (_, x) in f.iter_mut() {
                                if let T::L(l) = x {
                                    l.sort();
                                }
                            }
                        }
                    }
                    (*k, v)
                })
                .collect(),
        ),
        o => o.clone(),
    }
}
fn expected(d: &Rec) -> T {
    msg(vec![
        ("time_unix_nano", n(d.time.unwrap_or(0))),
        ("observed_time_unix_nano", n(d.observed.unwrap_or(0))),
        ("severity_number", n(d.severity.unwrap_or(0))),
        ("severity_text", s(d.text.unwrap_or(""))),
        ("body", d.body.as_ref().map(any_log).unwrap_or(T::N)),
        ("attributes", list(d.attrs.iter().map(|(k, v)| kv(k, any_log(v))).collect())),
        ("event_name", s(d.event.unwrap_or(""))),
        ("trace_id", d.ids.map(|x| bytes(&x.0.to_be_bytes())).unwrap_or(T::N)),
        ("span_id", d.ids.map(|x| bytes(&x.1.to_be_bytes())).unwrap_or(T::N)),
        ("flags", n(d.ids.and_then(|x| x.2).unwrap_or(0))),
    ])
}
fn wanted(batch: &[Rec]) -> Vec<(T, T, T)> {
    batch
        .iter()
        .map(|d| {
            let sc = match d.target {
                Some(t) => sub(vec![("name", s(t))]),
                None => scope_t(&d.scope),
            };
            (sc, s(d.scope.schema_url().unwrap_or("")), expected(d))
        })
        .collect()
}
pub fn judge(how: &str, req: tree::D, batch: &[Rec], res: &Resource) -> Result<(), String> {
    let t = canon(&req.map_err(|e| format!("{how}: the request does not decode: {e}"))?);
    let f = flatten(&t, ["resource_logs", "scope_logs", "log_records"], res).map_err(|e| format!("{how}: {e}"))?;
    let keys: HashSet<_> = batch.iter().map(|d| (d.target, &d.scope)).collect();
    if f.groups.len() > keys.len() {
        return Err(format!("{how}: {} groups for {} scopes", f.groups.len(), keys.len()));
    }
    same_items(f.items, wanted(batch)).map_err(|e| format!("{how}: {e}"))
}
/// A batch of two records of different scopes.
pub fn sample(n: u64) -> Vec<(Rec, SdkLogRecord)> {
    (0..2)
        .map(|i| {
            let d = Rec { ids: Some((1 + n as u128, 1 + i, None)), scope: scopes()[i as usize].clone(), ..base() };
            let r = record(&d);
            (d, r)
        })
        .collect()
}
fn exported(batch: LogBatch<'_>, res: &Resource, p: Protocol) -> Result<bytes::Bytes, String> {
    let c = Fake::new();
    let mut e = opentelemetry_otlp::LogExporter::builder().with_http().with_http_client(c.clone()).with_protocol(p).build().map_err(|e| e.to_string())?;
    e.set_resource(res);
    ready(e.export(batch)).map_err(|e| format!("export failed: {e}"))?;
    let mut r = c.take();
    if r.len() != 1 {
        return Err(format!("{} requests", r.len()));
    }
    Ok(r.remove(0).body)
}
fn check(batch: &[Rec], res: &Resource, o: &mut Obs) -> R {
    let attrs = ResourceAttributesWithSchema::from(res);
    let recs: Vec<SdkLogRecord> = batch.iter().map(record).collect();
    let pairs: Vec<_> = recs.iter().zip(batch).map(|(r, d)| (r, &d.scope)).collect();
    let req = ExportLogsServiceRequest { resource_logs: group_logs_by_resource_and_scope(LogBatch::new(&pairs), &attrs) };
    judge("grouped", binary(logs_request(), &req.encode_to_vec()), batch, res)?;
    judge("protobuf", exported(LogBatch::new(&pairs), res, Protocol::HttpBinary).and_then(|b| binary(logs_request(), &b)), batch, res)?;
    judge("JSON", exported(LogBatch::new(&pairs), res, Protocol::HttpJson).and_then(|b| json_bytes(logs_request(), &b)), batch, res)?;
    if let [p] = &pairs[..] {
        let req = ExportLogsServiceRequest { resource_logs: vec![ResourceLogs::from((*p, &attrs))] };
        judge("single", binary(logs_request(), &req.encode_to_vec()), batch, res)?;
        let one = canon(&binary(log_record(), &LogRecord::from(p.0).encode_to_vec())?);
        ensure!(one == expected(&batch[0]), "record alone: {}", one.diff(&expected(&batch[0])));
    }
    for d in batch {
        o.step(&expected(d));
    }
    o.outcome(&(wanted(batch), resource_t(res).show()));
    Ok(())
}
pub fn any_values(depth: usize) -> Vec<AnyValue> {
    let mut all: Vec<AnyValue> = vec![
        "v".into(), "".into(), "h\u{e9}\u{1F600}\"\n".into(), AnyValue::Int(0), AnyValue::Int(i64::MIN), AnyValue::Int(i64::MAX), AnyValue::Double(0.0),
        AnyValue::Double(-2.5), AnyValue::Double(0.1), AnyValue::Double(f64::MAX), AnyValue::Double(f64::NAN), AnyValue::Double(f64::NEG_INFINITY),
        AnyValue::Double(f64::INFINITY), AnyValue::Boolean(true), AnyValue::Boolean(false), AnyValue::Bytes(Box::default()), AnyValue::Bytes(Box::new(vec![0])),
        AnyValue::Bytes(Box::new(vec![255, 0, 1])), AnyValue::Bytes(Box::new((0..=255).collect())),
    ];
    let mut last = all.clone();
    let map = |l: Vec<(&'static str, AnyValue)>| AnyValue::Map(Box::new(l.into_iter().map(|(k, v)| (Key::from(k), v)).collect::<HashMap<_, _>>()));
    for _ in 0..depth {
        let mut next = vec![AnyValue::ListAny(Box::default()), AnyValue::Map(Box::default())];
        for v in &last {
            next.push(AnyValue::ListAny(Box::new(vec![v.clone()])));
            next.push(map(vec![("k", v.clone())]));
        }
        next.push(AnyValue::ListAny(Box::new(last.clone())));
        next.push(map(vec![("k", last[0].clone()), ("l", last[last.len() - 1].clone()), ("", AnyValue::Int(3))]));
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}
fn changes(depth: usize) -> Vec<Vec<Box<dyn Fn(&mut Rec)>>> {
    let mut out: Vec<Vec<Box<dyn Fn(&mut Rec)>>> = vec![];
    macro_rules! field { ($($v:expr),* => |$d:ident, $x:ident| $body:expr) => {{
        let mut l: Vec<Box<dyn Fn(&mut Rec)>> = vec![];
        for x in $($v)* { l.push(Box::new(move |$d: &mut Rec| { let $x = &x; $body; })); }
        out.push(l);
    }}; }
    let times = || [None, Some(TIMES[1]), Some(TIMES[2]), Some(TIMES[3]), Some(TIMES[4])];
    field!(times() => |d, x| d.time = *x);
    field!(times() => |d, x| d.observed = *x);
    field!(["", "e\u{e9}vent"] => |d, x| d.event = Some(x));
    field!(["", "t", "lib", "lib2"] => |d, x| d.target = Some(x));
    field!([None, Some(""), Some("W\u{e9}")] => |d, x| d.text = *x);
    field!((0..=24).map(|n: u8| Some(n).filter(|n| *n > 0)) => |d, x| d.severity = *x);
    field!(any_values(depth).into_iter().map(Some).chain([None]) => |d, x| d.body = x.clone());
    field!(any_values(depth).into_iter().map(|v| vec![("k", v)]).chain([
        vec![],
        vec![("", 1.into())],
        vec![("k", 1.into()), ("k", 2.into()), ("a", "x".into())],
        any_values(0).into_iter().map(|v| ("many", v)).collect(),
    ]) => |d, x| d.attrs = x.clone());
    field!([None, Some(0), Some(1), Some(255)] => |d, x| d.ids = Some((1, 2, *x)));
    field!([Some((0, 0, None)), Some((u128::MAX, u64::MAX, Some(1))), Some((1 << 127, 1, None)), Some((0x0102030405060708090a0b0c0d0e0f10, 0x1112131415161718, Some(3)))] => |d, x| d.ids = *x);
    field!(scopes() => |d, x| d.scope = x.clone());
    out
}
fn combos(r: &mut Run, check: fn(&[Rec], &Resource, &mut Obs) -> R) {
    let res = resources();
    for k in 0..=r.pick(2, 3) {
        let ch = changes(if k == 3 { 0 } else { 2 });
        for set in bmc::subsets(ch.len()).into_iter().filter(|x| x.len() == k) {
            let dims: Vec<usize> = set.iter().map(|&i| ch[i].len()).collect();
            product(&dims, |ix| {
                if !r.go() {
                    return;
                }
                let mut d = base();
                for (j, &fi) in set.iter().enumerate() {
                    ch[fi][ix[j]](&mut d);
                }
                let res = &res[(set.iter().sum::<usize>() + ix.iter().sum::<usize>()) % res.len()];
                r.case(|| format!("{d:?}"), |o| check(&[d.clone()], res, o));
            });
        }
    }
}
fn fields(r: &mut Run) {
    combos(r, check);
}
/// C56: requests of the same records, read back from JSON.
pub fn read_back(r: &mut Run) {
    combos(r, |batch, res, o| {
        let mut l = batch.to_vec();
        l.push(base());
        let recs: Vec<SdkLogRecord> = l.iter().map(record).collect();
        let pairs: Vec<_> = recs.iter().zip(&l).map(|(r, d)| (r, &d.scope)).collect();
        crate::back::back(&ExportLogsServiceRequest { resource_logs: group_logs_by_resource_and_scope(LogBatch::new(&pairs), &ResourceAttributesWithSchema::from(res)) }, o)
    });
}
fn nested(r: &mut Run) {
    let res = resources();
    for v in any_values(r.pick(4, 7)) {
        r.case(|| format!("{v:?}"), |o| check(&[Rec { body: Some(v.clone()), attrs: vec![("n", v.clone())], ..base() }], &res[0], o));
    }
}
fn batches(r: &mut Run) {
    let res = resources();
    let mut kinds = vec![];
    for sc in scopes() {
        kinds.push((sc.clone(), None));
    }
    let sc = scopes();
    kinds.extend([(sc[0].clone(), Some("t")), (sc[6].clone(), Some("t")), (sc[0].clone(), Some("u")), (sc[1].clone(), Some("lib")), (sc[0].clone(), Some(""))]);
    for rs in &res {
        for n in 0..=r.pick(4, 5) {
            let m = if n > 4 { 7 } else { kinds.len() };
            // with and without targets
            let idx: Vec<usize> = (0..kinds.len()).filter(|i| n <= 4 || [0, 2, 3, 4, 7, 8, 10].contains(i)).collect();
            assert_eq!(idx.len(), m);
            r.sequences(&idx, n, |q| format!("scopes and targets {:?} resource {rs:?}", q.iter().map(|&i| &kinds[i]).collect::<Vec<_>>()), |q, o| {
                let batch: Vec<Rec> = q
                    .iter()
                    .enumerate()
                    .map(|(i, &k)| Rec { scope: kinds[k].0.clone(), target: kinds[k].1, attrs: vec![], ids: Some((1, 1 + i as u64 / 2, None)), ..base() })
                    .collect();
                check(&batch, rs, o)
            });
        }
    }
}
/// The same through a logger and a processor, where the SDK adds the ids of the active span and the observed time.
fn emitted(r: &mut Run) {
    use opentelemetry::trace::TraceContextExt;
    use opentelemetry::Context;
    for sc in scopes() {
        for active in [false, true] {
            for own in [false, true] {
                for target in [None, Some("t")] {
                    for n in 1..=r.pick(2, 3) {
                        r.case(
                            || format!("{sc:?} span active {active}, ids set {own}, target {target:?}, {n} records"),
                            |o| {
                                let c = Fake::new();
                                let e = opentelemetry_otlp::LogExporter::builder().with_http().with_http_client(c.clone()).with_protocol(Protocol::HttpBinary).build().unwrap();
                                let res = resources().remove(2);
                                let p = SdkLoggerProvider::builder().with_resource(res.clone()).with_simple_exporter(e).build();
                                let logger = p.logger_with_scope(sc.clone());
                                let _g = active.then(|| Context::new().with_remote_span_context(cx(77, 88, 1, true, &[])).attach());
                                for i in 0..n {
                                    let d = Rec { target, observed: None, ids: own.then_some((5, 6 + i as u128 as u64, Some(0))), scope: sc.clone(), ..base() };
                                    let mut rec = logger.create_log_record();
                                    rec.set_timestamp(at(d.time.unwrap()));
                                    rec.set_severity_text(d.text.unwrap());
                                    rec.set_severity_number(SEVERITIES[8]);
                                    rec.set_body("body".into());
                                    rec.add_attribute("base", "b");
                                    if let Some(t) = target {
                                        rec.set_target(t);
                                    }
                                    if let Some((t, sp, f)) = d.ids {
                                        rec.set_trace_context(TraceId::from(t), SpanId::from(sp), f.map(TraceFlags::new));
                                    }
                                    logger.emit(rec);
                                    let mut sent = c.take();
                                    ensure!(sent.len() == 1, "{} requests for one record", sent.len());
                                    let t = binary(logs_request(), &sent.remove(0).body)?;
                                    let f = flatten(&t, ["resource_logs", "scope_logs", "log_records"], &res)?;
                                    ensure!(f.items.len() == 1, "{} records for one", f.items.len());
                                    let (scope, schema, item) = &f.items[0];
                                    let T::S(obs) = item.get("observed_time_unix_nano") else { return Err("no observed time".into()) };
                                    let want = Rec { observed: Some(obs.parse().map_err(|_| "observed time")?), ids: d.ids.or(active.then_some((77, 88, Some(1)))), ..d };
                                    same_items(vec![(scope.clone(), schema.clone(), item.clone())], wanted(&[want]))?;
                                    o.step(&(i, active, own));
                                    o.outcome(&(active, own, target));
                                }
                                Ok(())
                            },
                        );
                    }
                }
            }
        }
    }
}
pub fn families() -> Vec<Family> {
    vec![
        family("C44", "otlp-log-fields", fields),
        family("C44", "otlp-log-nested-values", nested),
        family("C44", "otlp-log-batches", batches),
        family("C44", "otlp-log-emitted", emitted),
    ]
}
