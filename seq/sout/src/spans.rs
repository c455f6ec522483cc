use crate::*;
use opentelemetry::trace::{Event, Link, SpanContext, SpanId, SpanKind, Status, TraceFlags, TraceId, TraceState};
use opentelemetry_sdk::trace::{SpanData, SpanEvents, SpanExporter as _, SpanLinks};
use opentelemetry_stdout::SpanExporter;

const KINDS: [SpanKind; 5] = [SpanKind::Client, SpanKind::Server, SpanKind::Producer, SpanKind::Consumer, SpanKind::Internal];
fn context(f: &mut Fresh, sampled: bool) -> SpanContext {
    SpanContext::new(
        TraceId::from_bytes(((0xabcd_u128) << 100 | f.num() as u128).to_be_bytes()),
        SpanId::from_bytes((0xcdef << 40 | f.num()).to_be_bytes()),
        if sampled { TraceFlags::SAMPLED } else { TraceFlags::default() },
        false,
        TraceState::default(),
    )
}
#[derive(Clone, Copy, Debug)]
struct Shape {
    scope: usize,
    kind: usize,
    parent: bool,
    status: usize,
    attrs: usize,
    events: usize,
    event_attrs: usize,
    links: usize,
    link_attrs: usize,
}
const PLAIN: Shape = Shape { scope: 0, kind: 0, parent: true, status: 0, attrs: 0, events: 0, event_attrs: 0, links: 0, link_attrs: 0 };
fn span(f: &mut Fresh, s: Shape) -> SpanData {
    let mut events = SpanEvents::default();
    for k in 0..s.events {
        let n = if k == 0 { s.event_attrs } else { 1 };
        events.events.push(Event::new(f.word(), f.time(), f.attrs(n), 0));
    }
    let mut links = SpanLinks::default();
    for k in 0..s.links {
        let n = if k == 0 { s.link_attrs } else { 1 };
        links.links.push(Link::new(context(f, k == 0), f.attrs(n), 0));
    }
    SpanData {
        span_context: context(f, s.kind % 2 == 0),
        parent_span_id: if s.parent { context(f, true).span_id() } else { SpanId::INVALID },
        span_kind: KINDS[s.kind].clone(),
        name: f.word().into(),
        start_time: f.time(),
        end_time: f.time(),
        attributes: f.attrs(s.attrs),
        dropped_attributes_count: 0,
        events,
        links,
        status: match s.status {
            0 => Status::Unset,
            1 => Status::Ok,
            _ => Status::error(f.word()),
        },
        instrumentation_scope: f.scope(s.scope),
    }
}
fn want(w: &mut Want, s: &SpanData) {
    w.scope(&s.instrumentation_scope);
    w.one(&s.name);
    w.one(s.span_context.trace_id());
    w.one(s.span_context.span_id());
    w.any(s.parent_span_id);
    w.any(format!("{:?}", s.span_kind));
    w.one(stamp(s.start_time));
    w.one(stamp(s.end_time));
    match &s.status {
        Status::Unset => w.any("Unset"),
        Status::Ok => w.any("Ok"),
        Status::Error { description } => {
            w.any("Error");
            w.one(description);
        }
    }
    w.attrs(&s.attributes);
    for e in s.events.iter() {
        w.one(&e.name);
        w.one(stamp(e.timestamp));
        w.attrs(&e.attributes);
    }
    for l in s.links.iter() {
        w.one(l.span_context.trace_id());
        w.one(l.span_context.span_id());
        w.attrs(&l.attributes);
    }
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Export(usize),
    Resource(usize),
    Shutdown,
}
use Op::*;
fn history(r: &mut Run) {
    let d = r.pick(4, 6);
    let shape = Shape { attrs: 2, events: 1, event_attrs: 1, links: 1, link_attrs: 1, scope: 1, ..PLAIN };
    let ops = [Export(0), Export(1), Export(2), Resource(1), Resource(2), Shutdown];
    r.all_sequences(&ops, d, |s| format!("spans {s:?}"), |s, o| {
        let mut f = Fresh::default();
        let mut e = SpanExporter::default();
        let mut res = f.resource(0);
        e.set_resource(&res);
        let (mut first, mut down) = (true, false);
        for op in s {
            match *op {
                Resource(k) => {
                    res = f.resource(k);
                    e.set_resource(&res);
                }
                Shutdown => {
                    e.shutdown().map_err(|e| e.to_string())?;
                    down = true;
                }
                Export(n) => {
                    let batch: Vec<SpanData> = (0..n).map(|_| span(&mut f, shape)).collect();
                    let mut w = Want::default();
                    if first {
                        want_resource(&mut w, &res);
                    }
                    batch.iter().for_each(|s| want(&mut w, s));
                    let (got, out) = printed(|| now(e.export(batch)));
                    if down {
                        ensure!(got.is_err(), "an export after shutdown succeeded");
                        same!(out, "", "printed after shutdown");
                    } else {
                        got.map_err(|e| e.to_string())?;
                        w.judge(&out)?;
                        first = false;
                    }
                }
            }
            o.step(&(first, down));
        }
        o.outcome(&(first, down, s.len()));
        Ok(())
    });
}
fn content(r: &mut Run) {
    let th = r.thorough;
    let shapes = {
        let mut v = vec![];
        let n = |q, t| if th { t } else { q };
        product(&[8, n(2, 5), 2, 3, n(2, 6), 3, 3, 3, 3], |i| {
            v.push(Shape { scope: i[0], kind: i[1], parent: i[2] == 1, status: i[3], attrs: if th { i[4] } else { i[4] * 5 }, events: i[5], event_attrs: i[6], links: i[7], link_attrs: i[8] });
        });
        v.retain(|s| (s.events > 0 || s.event_attrs == 0) && (s.links > 0 || s.link_attrs == 0));
        v.extend((0..5).map(|kind| Shape { kind, ..PLAIN }));
        v.extend((0..6).map(|attrs| Shape { attrs, ..PLAIN }));
        v
    };
    let full = Shape { scope: 7, kind: 1, parent: true, status: 2, attrs: 5, events: 2, event_attrs: 2, links: 2, link_attrs: 2 };
    for s in shapes {
        r.case(|| format!("{s:?} between other spans"), |o| {
            let mut f = Fresh::default();
            let mut e = SpanExporter::default();
            let res = f.resource(2);
            e.set_resource(&res);
            let batch = vec![span(&mut f, PLAIN), span(&mut f, s), span(&mut f, full)];
            let mut w = Want::default();
            want_resource(&mut w, &res);
            batch.iter().for_each(|s| want(&mut w, s));
            let (got, out) = printed(|| now(e.export(batch)));
            got.map_err(|e| e.to_string())?;
            o.step(&w.0.len());
            o.outcome(&format!("{s:?}"));
            w.judge(&out)
        });
    }
}
pub fn families() -> Vec<Family> {
    vec![serial("C54", "stdout_spans.history", history), serial("C54", "stdout_spans.content", content)]
}
