//! C27: what an exported span contains.
use bmc::*;
use opentelemetry::global::{BoxedSpan, BoxedTracer};
use opentelemetry::trace::{
    Event, Link, SamplingDecision, SamplingResult, Span as _, SpanContext, SpanId, SpanKind, Status, TraceContextExt, TraceFlags, TraceId, TraceState, Tracer as _,
    TracerProvider as _,
};
use opentelemetry::{Array, Context, KeyValue, StringValue, Value};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::trace::{Sampler, SdkTracerProvider, ShouldSample, Span, SpanData, SpanLimits, SpanProcessor};
use std::sync::{Arc, Mutex};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

/// Records everything the SDK hands to a processor.
#[derive(Debug, Clone, Default)]
pub struct Sink {
    pub started: Arc<Mutex<Vec<(SpanContext, bool)>>>,
    pub ended: Arc<Mutex<Vec<SpanData>>>,
}
impl Sink {
    pub fn take(&self) -> Vec<SpanData> {
        std::mem::take(&mut *self.ended.lock().unwrap())
    }
}
impl SpanProcessor for Sink {
    fn on_start(&self, span: &mut Span, _cx: &Context) {
        self.started.lock().unwrap().push((span.span_context().clone(), span.is_recording()));
    }
    fn on_end(&self, span: SpanData) {
        self.ended.lock().unwrap().push(span);
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown(&self) -> OTelSdkResult {
        Ok(())
    }
}

/// Adds attributes, as samplers may.
#[derive(Debug, Clone)]
struct Attributing(usize, SamplingDecision);
impl ShouldSample for Attributing {
    fn should_sample(&self, _p: Option<&Context>, _t: TraceId, _n: &str, _k: &SpanKind, _a: &[KeyValue], _l: &[Link]) -> SamplingResult {
        SamplingResult {
            decision: self.1.clone(),
            attributes: (0..self.0).map(|i| KeyValue::new(format!("sampler{i}"), i as i64)).collect(),
            trace_state: TraceState::NONE,
        }
    }
}

pub fn at(s: u64) -> SystemTime {
    UNIX_EPOCH + Duration::new(1_000 + s, 7)
}
fn lsc(n: u64) -> SpanContext {
    SpanContext::new(TraceId::from(9000 + n as u128), SpanId::from(900 + n), TraceFlags::new(n as u8 & 1), n & 1 == 0, TraceState::from_key_value([("l", "1")]).unwrap())
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Op {
    Attr,
    SameAttr,
    Attrs3,
    Ev(usize),
    EvTs(usize),
    Link(usize),
    Ok_,
    ErrA,
    ErrB,
    Unset,
    Name,
    RecErr,
    End,
    EndTs,
}
use Op::*;
const ALL: [Op; 18] = [Attr, SameAttr, Attrs3, Ev(0), Ev(1), Ev(3), EvTs(2), Link(0), Link(1), Link(3), Ok_, ErrA, ErrB, Unset, Name, RecErr, End, EndTs];
const CORE: [Op; 11] = [Attr, Attrs3, Ev(2), EvTs(0), Link(2), Ok_, ErrA, Unset, Name, End, EndTs];
const FATE: [Op; 8] = [Ok_, ErrA, ErrB, Unset, Name, Attr, End, EndTs];

#[derive(Debug, Clone, PartialEq, Hash)]
struct MEvent {
    name: String,
    ts: Option<SystemTime>,
    attrs: Vec<String>,
    dropped: u32,
}
#[derive(Debug, Clone, PartialEq, Hash)]
struct MLink {
    sc: u64,
    attrs: Vec<String>,
    dropped: u32,
}
#[derive(Debug, Clone, PartialEq, Hash)]
struct M {
    name: String,
    kind: u8,
    attrs: Vec<String>,
    dropped: u32,
    events: Vec<MEvent>,
    dropped_events: u32,
    links: Vec<MLink>,
    dropped_links: u32,
    status: String,
    start: Option<SystemTime>,
    end: Option<SystemTime>,
    over: bool,
}
#[derive(Debug, Clone, Copy, Hash)]
struct Lim {
    attrs: usize,
    events: usize,
    links: usize,
    ev_attrs: usize,
    ln_attrs: usize,
}
const LIMS: [Lim; 5] = [
    Lim { attrs: 128, events: 128, links: 128, ev_attrs: 128, ln_attrs: 128 },
    Lim { attrs: 1, events: 1, links: 1, ev_attrs: 1, ln_attrs: 2 },
    Lim { attrs: 2, events: 2, links: 2, ev_attrs: 2, ln_attrs: 1 },
    Lim { attrs: 0, events: 0, links: 0, ev_attrs: 0, ln_attrs: 0 },
    Lim { attrs: 4, events: 3, links: 1, ev_attrs: 0, ln_attrs: 3 },
];
fn show(kv: &KeyValue) -> String {
    format!("{}={:?}", kv.key, kv.value)
}
/// Attribute values of every type.
fn val(n: u64) -> Value {
    match n % 8 {
        0 => Value::I64(n as i64 - 3),
        1 => Value::F64(n as f64 / 3.0),
        2 => Value::Bool(n % 16 == 2),
        3 => Value::String(format!("v{n}").into()),
        4 => Value::Array(Array::I64(vec![n as i64, i64::MIN])),
        5 => Value::Array(Array::F64(vec![0.5, -1.0])),
        6 => Value::Array(Array::Bool(vec![true])),
        _ => Value::Array(Array::String(vec![StringValue::from("x"), "".into()])),
    }
}
fn kvs(tag: &str, n: u64, count: usize) -> Vec<KeyValue> {
    (0..count as u64).map(|i| KeyValue::new(format!("{tag}{n}.{i}"), val(n + i))).collect()
}
fn shows(v: &[KeyValue]) -> Vec<String> {
    v.iter().map(show).collect()
}

impl M {
    fn attr(&mut self, l: &Lim, kv: &KeyValue) {
        if self.attrs.len() < l.attrs {
            self.attrs.push(show(kv));
        } else {
            self.dropped += 1;
        }
    }
    fn event(&mut self, l: &Lim, name: &str, ts: Option<SystemTime>, attrs: &[KeyValue]) {
        if self.events.len() < l.events {
            let keep = attrs.len().min(l.ev_attrs);
            self.events.push(MEvent { name: name.into(), ts, attrs: shows(&attrs[..keep]), dropped: (attrs.len() - keep) as u32 });
        } else {
            self.dropped_events += 1;
        }
    }
    fn link(&mut self, l: &Lim, sc: u64, attrs: &[KeyValue]) {
        if self.links.len() < l.links {
            let keep = attrs.len().min(l.ln_attrs);
            self.links.push(MLink { sc, attrs: shows(&attrs[..keep]), dropped: (attrs.len() - keep) as u32 });
        } else {
            self.dropped_links += 1;
        }
    }
    fn status(&mut self, s: &Status) {
        if self.status != "Ok" && *s != Status::Unset {
            self.status = format!("{s:?}");
        }
    }
    fn apply(&mut self, l: &Lim, op: Op, n: u64) {
        if self.over {
            return;
        }
        match op {
            Attr => self.attr(l, &KeyValue::new(format!("a{n}"), val(n))),
            SameAttr => self.attr(l, &KeyValue::new("same", n as i64)),
            Attrs3 => kvs("m", n, 3).iter().for_each(|kv| self.attr(l, kv)),
            Ev(c) => self.event(l, &format!("e{n}"), None, &kvs("e", n, c)),
            EvTs(c) => self.event(l, &format!("t{n}"), Some(at(n)), &kvs("t", n, c)),
            Link(c) => self.link(l, n, &kvs("l", n, c)),
            Ok_ => self.status(&Status::Ok),
            ErrA => self.status(&Status::error(format!("zz{n}"))),
            ErrB => self.status(&Status::error("")),
            Unset => self.status(&Status::Unset),
            Name => self.name = format!("name{n}"),
            RecErr => self.event(l, "exception", None, &[KeyValue::new("exception.message", format!("boom{n}"))]),
            End => self.over = true,
            EndTs => {
                self.over = true;
                self.end = Some(at(n + 100));
            }
        }
    }
}
#[derive(Debug)]
struct Boom(u64);
impl std::fmt::Display for Boom {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "boom{}", self.0)
    }
}
impl std::error::Error for Boom {}

/// The three ways an application holds a span.
enum H {
    Direct(Span),
    Boxed(BoxedSpan),
    Cx(Context),
}
macro_rules! each {
    ($h:expr, $s:ident => $e:expr) => {
        match $h {
            H::Direct($s) => $e,
            H::Boxed($s) => $e,
            H::Cx(cx) => {
                let $s = cx.span();
                $e
            }
        }
    };
}
fn apply(h: &mut H, op: Op, n: u64) {
    match op {
        Attr => each!(h, s => s.set_attribute(KeyValue::new(format!("a{n}"), val(n)))),
        SameAttr => each!(h, s => s.set_attribute(KeyValue::new("same", n as i64))),
        Attrs3 => {
            each!(h, s => { s.set_attributes(kvs("m", n, 3)); })
        }
        Ev(c) => each!(h, s => s.add_event(format!("e{n}"), kvs("e", n, c))),
        EvTs(c) => each!(h, s => { s.add_event_with_timestamp(format!("t{n}"), at(n), kvs("t", n, c)); }),
        Link(c) => match h {
            H::Direct(s) => s.add_link(lsc(n), kvs("l", n, c)),
            H::Boxed(s) => s.add_link(lsc(n), kvs("l", n, c)),
            H::Cx(_) => {} // a span in a context has no way to add a link
        },
        Ok_ => each!(h, s => s.set_status(Status::Ok)),
        ErrA => each!(h, s => s.set_status(Status::error(format!("zz{n}")))),
        ErrB => each!(h, s => s.set_status(Status::error(""))),
        Unset => each!(h, s => s.set_status(Status::Unset)),
        Name => each!(h, s => { s.update_name(format!("name{n}")); }),
        RecErr => each!(h, s => s.record_error(&Boom(n))),
        End => each!(h, s => s.end()),
        EndTs => each!(h, s => s.end_with_timestamp(at(n + 100))),
    }
}
fn recording(h: &H) -> bool {
    match h {
        H::Direct(s) => s.is_recording(),
        H::Boxed(s) => s.is_recording(),
        H::Cx(c) => c.span().is_recording(),
    }
}
fn context(h: &H) -> SpanContext {
    match h {
        H::Direct(s) => s.span_context().clone(),
        H::Boxed(s) => s.span_context().clone(),
        H::Cx(c) => c.span().span_context().clone(),
    }
}

fn kind_no(k: &SpanKind) -> u8 {
    match k {
        SpanKind::Internal => 0,
        SpanKind::Server => 1,
        SpanKind::Client => 2,
        SpanKind::Producer => 3,
        SpanKind::Consumer => 4,
    }
}
fn compare(d: &SpanData, m: &M, t0: SystemTime, t1: SystemTime, live: bool) -> R {
    same!(d.name.as_ref(), m.name.as_str(), "name");
    same!(kind_no(&d.span_kind), m.kind, "kind");
    same!(shows(&d.attributes), m.attrs, "attributes");
    same!(d.dropped_attributes_count, m.dropped, "dropped attributes");
    let ev: Vec<MEvent> = d
        .events
        .events
        .iter()
        .zip(m.events.iter().map(|e| e.ts).chain(std::iter::repeat(None)))
        .map(|(e, ts)| {
            let inside = e.timestamp >= t0 && e.timestamp <= t1;
            MEvent {
                name: e.name.to_string(),
                ts: if ts.is_none() && inside { None } else { Some(e.timestamp) },
                attrs: shows(&e.attributes),
                dropped: e.dropped_attributes_count,
            }
        })
        .collect();
    same!(ev, m.events, "events");
    same!(d.events.dropped_count, m.dropped_events, "dropped events");
    let ln: Vec<(SpanContext, Vec<String>, u32)> = d.links.links.iter().map(|l| (l.span_context.clone(), shows(&l.attributes), l.dropped_attributes_count)).collect();
    let wl: Vec<(SpanContext, Vec<String>, u32)> = m.links.iter().map(|l| (lsc(l.sc), l.attrs.clone(), l.dropped)).collect();
    same!(ln, wl, "links");
    same!(d.links.dropped_count, m.dropped_links, "dropped links");
    same!(format!("{:?}", d.status), m.status, "status");
    match m.start {
        Some(s) => same!(d.start_time, s, "start time"),
        None => ensure!(d.start_time >= t0 && d.start_time <= t1, "start time {:?} outside the operation", d.start_time),
    }
    if !live {
        match m.end {
            Some(s) => same!(d.end_time, s, "end time"),
            None => ensure!(d.end_time >= t0 && d.end_time <= t1, "end time {:?} outside the operation", d.end_time),
        }
        if m.start.is_none() && m.end.is_none() {
            ensure!(d.end_time >= d.start_time, "ends before it starts");
        }
    }
    Ok(())
}

fn provider(l: &Lim, sinks: &[Sink], sampler: impl ShouldSample + 'static, all_at_once: bool) -> SdkTracerProvider {
    let mut b = SdkTracerProvider::builder().with_sampler(sampler);
    if all_at_once {
        let mut s = SpanLimits::default();
        s.max_attributes_per_span = l.attrs as u32;
        s.max_events_per_span = l.events as u32;
        s.max_links_per_span = l.links as u32;
        s.max_attributes_per_event = l.ev_attrs as u32;
        s.max_attributes_per_link = l.ln_attrs as u32;
        b = b.with_span_limits(s);
    } else {
        b = b
            .with_max_attributes_per_span(l.attrs as u32)
            .with_max_events_per_span(l.events as u32)
            .with_max_links_per_span(l.links as u32)
            .with_max_attributes_per_event(l.ev_attrs as u32)
            .with_max_attributes_per_link(l.ln_attrs as u32);
    }
    for s in sinks {
        b = b.with_span_processor(s.clone());
    }
    b.build()
}

/// How the span is made before the operations.
#[derive(Debug, Clone, Copy, Hash)]
struct Init {
    attrs: usize,
    events: usize,
    links: usize,
    status: u8,
    kind: u8,
    start: bool,
    end: bool,
    sampler_attrs: usize,
}
const PLAIN: Init = Init { attrs: 0, events: 0, links: 0, status: 0, kind: 0, start: false, end: false, sampler_attrs: 0 };

struct Bench {
    lim: Lim,
    sinks: Vec<Sink>,
    p: SdkTracerProvider,
    sampler_attrs: usize,
}
fn bench(lim: Lim, nsinks: usize, sampler_attrs: usize) -> Bench {
    let sinks: Vec<Sink> = (0..nsinks).map(|_| Sink::default()).collect();
    let d = if sampler_attrs == 2 { SamplingDecision::RecordOnly } else { SamplingDecision::RecordAndSample };
    let p = provider(&lim, &sinks, Attributing(sampler_attrs, d), sampler_attrs == 0);
    Bench { lim, sinks, p, sampler_attrs }
}
fn run(b: &Bench, i: &Init, how: usize, ops: &[Op], o: &mut Obs) -> R {
    for s in &b.sinks {
        s.take();
        s.started.lock().unwrap().clear();
    }
    let t0 = opentelemetry::time::now();
    let tracer = b.p.tracer("t");
    let mut m = M {
        name: "first".into(), kind: i.kind, attrs: vec![], dropped: 0, events: vec![], dropped_events: 0, links: vec![], dropped_links: 0,
        status: "Unset".into(), start: i.start.then(|| at(0)), end: i.end.then(|| at(50)), over: false,
    };
    let mut sb = tracer.span_builder("first");
    if i.kind > 0 {
        sb = sb.with_kind([SpanKind::Internal, SpanKind::Server, SpanKind::Client, SpanKind::Producer, SpanKind::Consumer][i.kind as usize].clone());
    }
    if i.attrs > 0 {
        sb = sb.with_attributes(kvs("b", 0, i.attrs));
        kvs("b", 0, i.attrs).iter().for_each(|kv| m.attr(&b.lim, kv));
    }
    (0..b.sampler_attrs).for_each(|k| m.attr(&b.lim, &KeyValue::new(format!("sampler{k}"), k as i64)));
    if i.events > 0 {
        let ev: Vec<Event> = (0..i.events as u64).map(|k| Event::new(format!("be{k}"), at(k), kvs("be", k, k as usize), 0)).collect();
        for (k, e) in ev.iter().enumerate() {
            m.event(&b.lim, &format!("be{k}"), Some(at(k as u64)), &e.attributes);
        }
        sb = sb.with_events(ev);
    }
    if i.links > 0 {
        let ls: Vec<Link2> = (0..i.links as u64).map(|k| Link2::new(lsc(50 + k), kvs("bl", k, 2 - k.min(2) as usize), 0)).collect();
        for (k, l) in ls.iter().enumerate() {
            m.link(&b.lim, 50 + k as u64, &l.attributes);
        }
        sb = sb.with_links(ls);
    }
    if i.status > 0 {
        let s = [Status::Unset, Status::Ok, Status::error("built")][i.status as usize].clone();
        m.status = format!("{s:?}");
        sb = sb.with_status(s);
    }
    if i.start {
        sb = sb.with_start_time(at(0));
    }
    if i.end {
        sb = sb.with_end_time(at(50));
    }
    let mut h = match how {
        0 => H::Direct(sb.start_with_context(&tracer, &Context::new())),
        1 => H::Boxed(sb.start_with_context(&BoxedTracer::new(Box::new(tracer.clone())), &Context::new())),
        2 => H::Cx(Context::new().with_span(sb.start_with_context(&tracer, &Context::new()))),
        _ => H::Cx(Context::new().with_span(sb.start_with_context(&BoxedTracer::new(Box::new(tracer.clone())), &Context::new()))),
    };
    let sc = context(&h);
    ensure!(sc.is_valid(), "invalid span context");
    for s in &b.sinks {
        same!(*s.started.lock().unwrap(), vec![(sc.clone(), true)], "on_start calls");
    }
    let mut done = false;
    for (n, op) in ops.iter().enumerate() {
        same!(recording(&h), !m.over, "is_recording before step {n}");
        if !(matches!(op, Link(_)) && how >= 2) {
            m.apply(&b.lim, *op, n as u64 + 1);
        }
        if (*op == End || *op == EndTs) && !done {
            done = true;
            if *op == End {
                m.end = None;
            }
        }
        apply(&mut h, *op, n as u64 + 1);
        same!(context(&h), sc, "span context after step {n}");
        if let H::Direct(s) = &h {
            match s.exported_data() {
                Some(d) => {
                    ensure!(!m.over, "data after the end");
                    compare(&d, &m, t0, opentelemetry::time::now(), true).map_err(|f| format!("step {n} {op:?}: {}", f.msg))?;
                }
                None => ensure!(m.over, "no data before the end"),
            }
        }
        for s in &b.sinks {
            same!(s.ended.lock().unwrap().len(), done as usize, "spans handed over after step {n}");
        }
        o.step(&m);
    }
    drop(h);
    let t1 = opentelemetry::time::now();
    for s in &b.sinks {
        let got = s.take();
        same!(got.len(), 1, "spans handed over");
        same!(got[0].span_context, sc, "span context handed over");
        same!(got[0].parent_span_id, SpanId::INVALID, "parent");
        compare(&got[0], &m, t0, t1, false).map_err(|f| format!("exported: {}", f.msg))?;
    }
    same!(b.sinks[0].started.lock().unwrap().len(), 1, "on_start calls at the end");
    o.outcome(&(&m.name, m.attrs.len(), m.dropped, m.events.len(), m.dropped_events, m.links.len(), m.dropped_links, &m.status));
    Ok(())
}
use opentelemetry::trace::Link as Link2;

/// Every sequence of the full alphabet, every limit set, every kind of handle.
fn operations(r: &mut Run) {
    let d = 4;
    for lim in LIMS {
        let b = bench(lim, 1, 0);
        for how in 0..4 {
            r.sequences(&ALL, d, |s| format!("{lim:?} handle {how} {s:?}"), |s, o| run(&b, &PLAIN, how, s, o));
        }
    }
}
fn operations_deep(r: &mut Run) {
    let d = r.pick(5, 6);
    for (k, lim) in LIMS.into_iter().enumerate().take(3) {
        let b = bench(lim, 1 + k % 2, 0);
        r.sequences(&CORE, d, |s| format!("{lim:?} {s:?}"), |s, o| run(&b, &PLAIN, 0, s, o));
    }
}
/// Status, name and end, longer.
fn status_and_end(r: &mut Run) {
    let d = r.pick(6, 7);
    let b = bench(LIMS[0], 2, 0);
    for how in [0, 2] {
        let i = Init { start: how == 2, ..PLAIN };
        r.sequences(&FATE, d, |s| format!("handle {how} {s:?}"), |s, o| run(&b, &i, how, s, o));
    }
}
/// Everything a builder can carry, then operations.
fn built(r: &mut Run) {
    let al: &[Op] = &[Attrs3, Ev(2), Link(2), Ok_, ErrA, End, EndTs];
    let d = r.pick(2, 3);
    for lim in LIMS {
        for sa in 0..3 {
            let b = bench(lim, 1, sa);
            product(&[4, 4, 4, 3, 5, 2, 2], |x| {
                if r.thorough || x[4] == x[3] || (x[0] + x[1] + x[2]) % 4 == 3 && x[4] < 2 {
                    let i = Init { attrs: x[0], events: x[1], links: x[2], status: x[3] as u8, kind: x[4] as u8, start: x[5] == 1, end: x[6] == 1, sampler_attrs: sa };
                    for how in [0, 3] {
                        r.sequences(al, if how == 0 { d } else { 1 }, |s| format!("{lim:?} {i:?} handle {how} {s:?}"), |s, o| run(&b, &i, how, s, o));
                    }
                }
            });
        }
    }
}
/// Many items around the limits: counts are exact at every size.
fn many(r: &mut Run) {
    let top = r.pick(6, 9);
    for cap in 0..=top {
        for n in 0..=top + 3 {
            for pre in 0..=top.min(4) {
                let lim = Lim { attrs: cap, events: cap, links: cap, ev_attrs: cap, ln_attrs: cap };
                r.case(|| format!("limit {cap}, {pre} built in, {n} added"), |o| {
                    let b = bench(lim, 2, 0);
                    let i = Init { attrs: pre, events: pre, links: pre, ..PLAIN };
                    let ops: Vec<Op> = (0..n).flat_map(|k| [Attr, Ev(k), Link(k)]).collect();
                    run(&b, &i, 0, &ops, o)
                });
            }
        }
    }
    // the default limit is 128 of each
    for n in [126usize, 127, 128, 129, 130] {
        r.case(|| format!("default limits, {n} of each"), |o| {
            let b = Bench { lim: LIMS[0], sinks: vec![Sink::default()], p: SdkTracerProvider::default(), sampler_attrs: 0 };
            let p = SdkTracerProvider::builder().with_span_processor(b.sinks[0].clone()).build();
            let b = Bench { p, ..b };
            let mut ops: Vec<Op> = vec![Attr; n];
            ops.extend(vec![Ev(n); n]);
            ops.extend(vec![Link(n); n]);
            run(&b, &PLAIN, 0, &ops, o)
        });
    }
}
/// Spans that do not record: nothing has an effect, nothing is handed over.
fn not_recording(r: &mut Run) {
    let d = r.pick(3, 4);
    for why in 0..4 {
        for how in 0..3 {
            r.sequences(&ALL, d, |s| format!("{} handle {how} {s:?}", ["always_off", "shut down", "suppressed", "unsampled parent"][why]), |s, o| {
                let sink = Sink::default();
                let p = if why == 0 {
                    provider(&LIMS[0], &[sink.clone()], Sampler::AlwaysOff, true)
                } else {
                    provider(&LIMS[0], &[sink.clone()], Sampler::ParentBased(Box::new(Sampler::AlwaysOn)), true)
                };
                let tracer = p.tracer("t");
                let mut cx = Context::new();
                match why {
                    1 => {
                        p.shutdown().map_err(|e| format!("{e}"))?;
                    }
                    2 => cx = cx.with_telemetry_suppressed(),
                    3 => cx = cx.with_remote_span_context(SpanContext::new(TraceId::from(7u128), SpanId::from(8), TraceFlags::default(), true, TraceState::NONE)),
                    _ => {}
                }
                let sb = tracer.span_builder("first").with_attributes(kvs("b", 1, 2)).with_status(Status::Ok);
                let mut h = match how {
                    0 => H::Direct(sb.start_with_context(&tracer, &cx)),
                    1 => H::Boxed(sb.start_with_context(&BoxedTracer::new(Box::new(tracer.clone())), &cx)),
                    _ => H::Cx(cx.with_span(sb.start_with_context(&tracer, &cx))),
                };
                let sc = context(&h);
                ensure!(!sc.is_sampled(), "sampled");
                for (n, op) in s.iter().enumerate() {
                    ensure!(!recording(&h), "recording at step {n}");
                    apply(&mut h, *op, n as u64);
                    same!(context(&h), sc, "span context after step {n}");
                    if let H::Direct(s) = &h {
                        ensure!(s.exported_data().is_none(), "has data");
                    }
                    o.step(&(why, how, n));
                }
                drop(h);
                same!(sink.take().len(), 0, "spans handed over");
                Ok(())
            });
        }
    }
}
/// The provider is shut down at some point of the span's life: the span ends without reaching a processor.
fn shut_down_midway(r: &mut Run) {
    let al: &[Op] = &[Attr, Ev(1), Ok_, End, EndTs];
    let d = r.pick(4, 5);
    for k in 0..=d {
        r.sequences(al, d, |s| format!("{s:?} shutdown before step {k}"), |s, o| {
            let sink = Sink::default();
            let p = provider(&LIMS[0], &[sink.clone()], Sampler::AlwaysOn, true);
            let mut h = H::Direct(p.tracer("t").start_with_context("first", &Context::new()));
            let mut ended = false;
            for (n, op) in s.iter().enumerate() {
                if n == k {
                    p.shutdown().map_err(|e| format!("{e}"))?;
                }
                apply(&mut h, *op, n as u64);
                ended |= n < k && matches!(op, End | EndTs);
                same!(sink.ended.lock().unwrap().len(), ended as usize, "after step {n}");
                o.step(&(n, ended, k));
            }
            if k == d {
                p.shutdown().map_err(|e| format!("{e}"))?;
            }
            drop(h);
            same!(sink.take().len(), ended as usize, "at the end");
            Ok(())
        });
    }
}
pub fn families() -> Vec<Family> {
    vec![
        family("C27", "operations", operations),
        family("C27", "operations-deep", operations_deep),
        family("C27", "status-and-end", status_and_end),
        family("C27", "built", built),
        family("C27", "limits", many),
        family("C27", "not-recording", not_recording),
        family("C27", "shut-down-midway", shut_down_midway),
    ]
}
