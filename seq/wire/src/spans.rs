//! C43: what the OTLP trace request says about a batch of spans.
use crate::common::*;
use crate::tree::{self, *};
use bmc::{ensure, family, product, Family, Obs, Run, R};
use opentelemetry::trace::{Event, Link, SpanContext, SpanId, SpanKind, Status, TraceFlags, TraceId, TraceState};
use opentelemetry::KeyValue;
use opentelemetry_otlp::{Protocol, WithExportConfig, WithHttpConfig};
use opentelemetry_proto::tonic::collector::trace::v1::ExportTraceServiceRequest;
use opentelemetry_proto::tonic::trace::v1::{ResourceSpans, Span};
use opentelemetry_proto::tonic::tracez::v1::{ErrorData, LatencyData, RunningData};
use opentelemetry_proto::transform::common::tonic::ResourceAttributesWithSchema;
use opentelemetry_proto::transform::trace::tonic::group_spans_by_resource_and_scope;
use opentelemetry_sdk::trace::{SpanData, SpanEvents, SpanExporter as _, SpanLinks};
use opentelemetry_sdk::Resource;
use prost::Message;
use std::collections::HashSet;

pub fn cx(trace: u128, span: u64, flags: u8, remote: bool, state: &[(&str, &str)]) -> SpanContext {
    let st = if state.is_empty() { TraceState::default() } else { TraceState::from_key_value(state.iter().copied()).unwrap() };
    SpanContext::new(TraceId::from(trace), SpanId::from(span), TraceFlags::new(flags), remote, st)
}
pub fn base() -> SpanData {
    SpanData {
        span_context: cx(0x0102030405060708090a0b0c0d0e0f10, 0x1112131415161718, 1, false, &[]),
        parent_span_id: SpanId::from(0x2122232425262728),
        span_kind: SpanKind::Server,
        name: "base".into(),
        start_time: at(TIMES[0]),
        end_time: at(TIMES[0] + 5),
        attributes: vec![KeyValue::new("base", "b")],
        dropped_attributes_count: 0,
        events: SpanEvents::default(),
        links: SpanLinks::default(),
        status: Status::Unset,
        instrumentation_scope: scopes()[0].clone(),
    }
}
fn state_text(c: &SpanContext) -> String {
    c.trace_state().header()
}
/// Written from the protocol definition.
pub fn expected(d: &SpanData) -> T {
    let c = &d.span_context;
    let kind = match d.span_kind {
        SpanKind::Internal => 1,
        SpanKind::Server => 2,
        SpanKind::Client => 3,
        SpanKind::Producer => 4,
        SpanKind::Consumer => 5,
    };
    let status = match &d.status {
        Status::Unset => T::N,
        Status::Ok => sub(vec![("code", n(1))]),
        Status::Error { description } => sub(vec![("code", n(2)), ("message", s(description))]),
    };
    let nanos = |t: std::time::SystemTime| n(t.duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos());
    msg(vec![
        ("trace_id", bytes(&c.trace_id().to_bytes())),
        ("span_id", bytes(&c.span_id().to_bytes())),
        ("trace_state", s(&state_text(c))),
        ("parent_span_id", if d.parent_span_id == SpanId::INVALID { T::N } else { bytes(&d.parent_span_id.to_bytes()) }),
        ("name", s(&d.name)),
        ("kind", n(kind)),
        ("start_time_unix_nano", nanos(d.start_time)),
        ("end_time_unix_nano", nanos(d.end_time)),
        ("attributes", attrs(&d.attributes)),
        ("dropped_attributes_count", n(d.dropped_attributes_count)),
        (
            "events",
            list(
                d.events.events.iter().map(|e| msg(vec![
                    ("time_unix_nano", nanos(e.timestamp)), ("name", s(&e.name)), ("attributes", attrs(&e.attributes)), ("dropped_attributes_count", n(e.dropped_attributes_count)),
                ])).collect(),
            ),
        ),
        ("dropped_events_count", n(d.events.dropped_count)),
        (
            "links",
            list(
                d.links.links.iter().map(|l| msg(vec![
                    ("trace_id", bytes(&l.span_context.trace_id().to_bytes())), ("span_id", bytes(&l.span_context.span_id().to_bytes())),
                    ("trace_state", s(&state_text(&l.span_context))), ("attributes", attrs(&l.attributes)),
                    ("dropped_attributes_count", n(l.dropped_attributes_count)), ("flags", n(l.span_context.trace_flags().to_u8())),
                ])).collect(),
            ),
        ),
        ("dropped_links_count", n(d.links.dropped_count)),
        ("status", status),
        ("flags", n(c.trace_flags().to_u8())),
    ])
}
pub fn wanted(batch: &[SpanData]) -> Vec<(T, T, T)> {
    batch.iter().map(|d| (scope_t(&d.instrumentation_scope), s(d.instrumentation_scope.schema_url().unwrap_or("")), expected(d))).collect()
}
pub fn judge(how: &str, req: tree::D, batch: &[SpanData], res: &Resource) -> Result<(), String> {
    let t = req.map_err(|e| format!("{how}: the request does not decode: {e}"))?;
    let f = flatten(&t, ["resource_spans", "scope_spans", "spans"], res).map_err(|e| format!("{how}: {e}"))?;
    let set: HashSet<_> = f.groups.iter().collect();
    if set.len() != f.groups.len() {
        return Err(format!("{how}: the spans of one scope are not grouped together"));
    }
    same_items(f.items, wanted(batch)).map_err(|e| format!("{how}: {e}"))
}
/// A batch of two spans of different scopes.
pub fn sample(n: u64) -> Vec<SpanData> {
    let mut l = vec![base(), base()];
    for (i, d) in l.iter_mut().enumerate() {
        d.span_context = cx(1 + n as u128, 1 + i as u64, 1, false, &[]);
        d.instrumentation_scope = scopes()[i].clone();
    }
    l
}
fn exported(batch: &[SpanData], res: &Resource, p: Protocol) -> Result<bytes::Bytes, String> {
    let c = Fake::new();
    let mut e = opentelemetry_otlp::SpanExporter::builder().with_http().with_http_client(c.clone()).with_protocol(p).build().map_err(|e| e.to_string())?;
    e.set_resource(res);
    ready(e.export(batch.to_vec())).map_err(|e| format!("export failed: {e}"))?;
    let mut r = c.take();
    if r.len() != 1 {
        return Err(format!("{} requests", r.len()));
    }
    Ok(r.remove(0).body)
}
fn check(batch: &[SpanData], res: &Resource, o: &mut Obs) -> R {
    let attrs = ResourceAttributesWithSchema::from(res);
    let req = ExportTraceServiceRequest { resource_spans: group_spans_by_resource_and_scope(batch.to_vec(), &attrs) };
    judge("grouped", binary(trace_request(), &req.encode_to_vec()), batch, res)?;
    judge("protobuf", exported(batch, res, Protocol::HttpBinary).and_then(|b| binary(trace_request(), &b)), batch, res)?;
    judge("JSON", exported(batch, res, Protocol::HttpJson).and_then(|b| json_bytes(trace_request(), &b)), batch, res)?;
    if let [d] = batch {
        let req = ExportTraceServiceRequest { resource_spans: vec![ResourceSpans::new(d.clone(), &attrs)] };
        judge("single", binary(trace_request(), &req.encode_to_vec()), batch, res)?;
        let one = binary(span(), &Span::from(d.clone()).encode_to_vec())?;
        ensure!(one == expected(d), "span alone: {}", one.diff(&expected(d)));
        zpages(d)?;
    }
    for d in batch {
        o.step(&expected(d));
    }
    o.outcome(&(wanted(batch), resource_t(res).show()));
    Ok(())
}
/// The entries of z-pages say what the span says, as far as they have a place for it.
fn zpages(d: &SpanData) -> R {
    let whole = expected(d);
    let mut all = vec![
        ("latency entry", latency_data(), LatencyData::from(d.clone()).encode_to_vec()),
        ("running entry", running_data(), RunningData::from(d.clone()).encode_to_vec()),
    ];
    if matches!(d.status, Status::Error { .. }) {
        all.push(("error entry", error_data(), ErrorData::from(d.clone()).encode_to_vec()));
    }
    for (what, schema, b) in all {
        let got = binary(schema, &b)?;
        for f in schema {
            let (x, y) = (got.get(f.name()), whole.get(f.name()));
            // no parent may be said with a parent of zeros
            let none = f.name() == "parent_span_id" && *y == T::N && *x == bytes(&[0; 8]);
            ensure!(x == y || none, "{what}: {}: {}", f.name(), x.diff(y));
        }
    }
    Ok(())
}
fn links(l: Vec<Link>, dropped: u32) -> SpanLinks {
    let mut x = SpanLinks::default();
    x.links = l;
    x.dropped_count = dropped;
    x
}
fn events(l: Vec<Event>, dropped: u32) -> SpanEvents {
    let mut x = SpanEvents::default();
    x.events = l;
    x.dropped_count = dropped;
    x
}
/// Every way in which one field differs from the base span, grouped by field.
pub fn changes() -> Vec<Vec<Box<dyn Fn(&mut SpanData)>>> {
    let mut out: Vec<Vec<Box<dyn Fn(&mut SpanData)>>> = vec![];
    macro_rules! field { ($($v:expr),* => |$d:ident, $x:ident| $body:expr) => {{
        let mut l: Vec<Box<dyn Fn(&mut SpanData)>> = vec![];
        for x in $($v)* { l.push(Box::new(move |$d: &mut SpanData| { let $x = &x; $body; })); }
        out.push(l);
    }}; }
    field!([(1, 1, 0), (u128::MAX, u64::MAX, 255), (1 << 127, 1 << 63, 2), (7, 9, 3)] => |d, x| d.span_context = cx(x.0, x.1, x.2, false, &[]));
    field!([vec![("a", "1")], vec![("b", "2"), ("a", "1")], vec![("t@v", "x y")]] => |d, x| d.span_context = cx(3, 4, 1, true, x));
    field!([0, 1, u64::MAX, 1 << 56] => |d, x| d.parent_span_id = SpanId::from(*x));
    field!([SpanKind::Internal, SpanKind::Client, SpanKind::Producer, SpanKind::Consumer] => |d, x| d.span_kind = x.clone());
    field!(["", "n\u{e9}\u{1F600}\"", "a\u{0}b"] => |d, x| d.name = (*x).into());
    field!(TIMES => |d, x| d.start_time = at(*x));
    field!(TIMES => |d, x| d.end_time = at(*x));
    field!(attr_lists() => |d, x| d.attributes = x.clone());
    field!([1, u32::MAX] => |d, x| d.dropped_attributes_count = *x);
    field!(attr_lists() => |d, x| d.events = events(vec![Event::new("e", at(5), x.clone(), 3)], 0));
    field!([0u32, 1, u32::MAX] => |d, x| d.events = events(vec![Event::new("", at(0), vec![], *x), Event::new("second", at(u64::MAX), vec![KeyValue::new("z", 1.5)], 0)], *x));
    field!([1u32, u32::MAX] => |d, x| d.events = events(vec![], *x));
    field!(attr_lists() => |d, x| d.links = links(vec![Link::new(cx(5, 6, 1, true, &[]), x.clone(), 4)], 0));
    field!([0u32, 1, u32::MAX] => |d, x| d.links = links(vec![Link::new(cx(0, 0, 0, false, &[]), vec![], *x), Link::new(cx(u128::MAX, 1, 255, true, &[("k", "v"), ("l", "w")]), vec![KeyValue::new("z", 1)], 1)], *x));
    field!([1u32, u32::MAX] => |d, x| d.links = links(vec![], *x));
    field!([Status::Ok, Status::error(""), Status::error("bad \u{e9}"), Status::Error { description: String::from("owned").into() }] => |d, x| d.status = x.clone());
    field!(scopes() => |d, x| d.instrumentation_scope = x.clone());
    out
}
/// All combinations of `k` changed fields.
fn combos(r: &mut Run, k: usize, check: fn(&[SpanData], &Resource, &mut Obs) -> R) {
    let ch = changes();
    let res = resources();
    let sets: Vec<Vec<usize>> = bmc::subsets(ch.len()).into_iter().filter(|x| x.len() == k).collect();
    for set in sets {
        let dims: Vec<usize> = set.iter().map(|&i| ch[i].len()).collect();
        product(&dims, |ix| {
            if !r.go() {
                return;
            }
            let mut d = base();
            for (j, &fi) in set.iter().enumerate() {
                ch[fi][ix[j]](&mut d);
            }
            let res = &res[(set.iter().sum::<usize>() + ix.iter().sum::<usize>()) % res.len()];
            r.case(|| format!("{d:?}"), |o| check(&[d.clone()], res, o));
        });
    }
}
fn fields(r: &mut Run) {
    for k in 0..=r.pick(2, 3) {
        combos(r, k, check);
    }
}
/// C56: requests of the same spans, read back from JSON.
pub fn read_back(r: &mut Run) {
    for k in 0..=r.pick(2, 3) {
        combos(r, k, |batch, res, o| {
            let mut l = batch.to_vec();
            l.push(base());
            crate::back::back(&ExportTraceServiceRequest { resource_spans: group_spans_by_resource_and_scope(l, &ResourceAttributesWithSchema::from(res)) }, o)
        });
    }
}
fn batches(r: &mut Run) {
    let res = resources();
    let mut kinds: Vec<SpanData> = vec![];
    for (i, sc) in scopes().into_iter().enumerate() {
        let mut d = base();
        d.instrumentation_scope = sc;
        d.name = format!("s{i}").into();
        kinds.push(d);
    }
    let depth = r.pick(4, 6);
    for rs in &res {
        for n in 0..=depth {
            let kinds = if n > 4 { &kinds[..5] } else { &kinds[..] };
            let idx: Vec<usize> = (0..kinds.len()).collect();
            r.sequences(&idx, n, |q| format!("scopes {q:?} resource {rs:?}"), |q, o| {
                let batch: Vec<SpanData> = q
                    .iter()
                    .enumerate()
                    .map(|(i, &k)| {
                        let mut d = kinds[k].clone();
                        // equal spans may occur twice
                        d.span_context = cx(1, 1 + (i as u64) / 2, 1, false, &[]);
                        d
                    })
                    .collect();
                check(&batch, rs, o)
            });
        }
    }
}
pub fn families() -> Vec<Family> {
    vec![family("C43", "otlp-span-fields", fields), family("C43", "otlp-span-batches", batches)]
}
