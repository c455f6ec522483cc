//! C30: what a log record carries.
use crate::span::at;
use bmc::*;
use opentelemetry::logs::{AnyValue, LogRecord as _, Logger as _, LoggerProvider as _, Severity};
use opentelemetry::trace::{SpanContext, SpanId, TraceContextExt, TraceFlags, TraceId, TraceState};
use opentelemetry::{Context, InstrumentationScope, Key};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::logs::{BatchConfigBuilder, BatchLogProcessor, InMemoryLogExporter, LogProcessor, SdkLogRecord, SdkLoggerProvider, SimpleLogProcessor};
use std::sync::{Arc, Mutex};
use std::time::SystemTime;

#[derive(Debug, Clone, Default)]
struct Capture(Arc<Mutex<Vec<(SdkLogRecord, InstrumentationScope)>>>);
impl LogProcessor for Capture {
    fn emit(&self, r: &mut SdkLogRecord, s: &InstrumentationScope) {
        self.0.lock().unwrap().push((r.clone(), s.clone()));
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown(&self) -> OTelSdkResult {
        Ok(())
    }
    fn event_enabled(&self, _l: Severity, _t: &str, _n: Option<&str>) -> bool {
        false
    }
}
/// A processor that changes what it is given.
#[derive(Debug, Clone)]
struct Changing(u8);
impl LogProcessor for Changing {
    fn emit(&self, r: &mut SdkLogRecord, _s: &InstrumentationScope) {
        change(r, self.0);
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown(&self) -> OTelSdkResult {
        Ok(())
    }
    fn event_enabled(&self, l: Severity, t: &str, n: Option<&str>) -> bool {
        l >= Severity::Warn && t != "off" && n != Some("off")
    }
}
fn change(r: &mut SdkLogRecord, how: u8) {
    match how {
        0 => {}
        1 => r.add_attribute("added", 1),
        2 => {
            r.set_body("redacted".into());
            r.set_severity_number(Severity::Fatal4);
        }
        _ => r.set_trace_context(TraceId::from(1u128), SpanId::from(2), None),
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Op {
    Event,
    Target,
    TargetOwned,
    Time,
    Observed,
    SevText,
    Sev,
    Body(u8),
    Attr,
    Same,
    Attrs(usize),
    Trace(bool),
}
use Op::*;
const AL: [Op; 14] =
    [Event, Target, TargetOwned, Time, Observed, SevText, Sev, Body(0), Body(1), Attr, Same, Attrs(4), Trace(true), Trace(false)];

#[derive(Debug, Clone, PartialEq, Default)]
struct M {
    event: Option<String>,
    target: Option<String>,
    time: Option<SystemTime>,
    observed: Option<SystemTime>,
    sev_text: Option<String>,
    sev: Option<i32>,
    body: Option<AnyValue>,
    attrs: Vec<(Key, AnyValue)>,
    trace: Option<(TraceId, SpanId, Option<TraceFlags>)>,
}
pub fn value(n: u64) -> AnyValue {
    match n % 8 {
        0 => AnyValue::Int(n as i64 - 4),
        1 => AnyValue::Double(n as f64 / 7.0),
        2 => AnyValue::from("text"),
        3 => AnyValue::Boolean(n & 8 == 0),
        4 => AnyValue::Bytes(Box::new(vec![0, n as u8, 255])),
        5 => AnyValue::ListAny(Box::new(vec![AnyValue::Int(1), AnyValue::ListAny(Box::new(vec![AnyValue::from("in")]))])),
        6 => [("k", AnyValue::Int(2)), ("l", AnyValue::ListAny(Box::new(vec![])))].into_iter().collect(),
        _ => AnyValue::String(String::new().into()),
    }
}
const NAMES: [&str; 8] = ["n0", "n1", "n2", "n3", "n4", "n5", "n6", ""];
const SEVS: [Severity; 24] = {
    use Severity::*;
    [Trace, Trace2, Trace3, Trace4, Debug, Debug2, Debug3, Debug4, Info, Info2, Info3, Info4, Warn, Warn2, Warn3, Warn4, Error, Error2, Error3, Error4, Fatal, Fatal2, Fatal3, Fatal4]
};
fn apply(r: &mut SdkLogRecord, m: &mut M, op: Op, n: u64) {
    let name = NAMES[n as usize % 8];
    match op {
        Event => {
            r.set_event_name(name);
            m.event = Some(name.into());
        }
        Target => {
            r.set_target(name);
            m.target = Some(name.into());
        }
        TargetOwned => {
            r.set_target(format!("owned{n}"));
            m.target = Some(format!("owned{n}"));
        }
        Time => {
            r.set_timestamp(at(n));
            m.time = Some(at(n));
        }
        Observed => {
            r.set_observed_timestamp(at(n));
            m.observed = Some(at(n));
        }
        SevText => {
            r.set_severity_text(name);
            m.sev_text = Some(name.into());
        }
        Sev => {
            let s = SEVS[(n * 5 % 24) as usize];
            r.set_severity_number(s);
            m.sev = Some(s as i32);
        }
        Body(b) => {
            r.set_body(value(n * 3 + b as u64));
            m.body = Some(value(n * 3 + b as u64));
        }
        Attr => {
            r.add_attribute(format!("a{n}"), value(n));
            m.attrs.push((format!("a{n}").into(), value(n)));
        }
        Same => {
            r.add_attribute("same", n as i64);
            m.attrs.push(("same".into(), AnyValue::Int(n as i64)));
        }
        Attrs(c) => {
            let v: Vec<(Key, AnyValue)> = (0..c as u64).map(|i| (Key::from(format!("m{n}.{i}")), value(n + i))).collect();
            r.add_attributes(v.clone());
            m.attrs.extend(v);
        }
        Trace(f) => {
            let t = (TraceId::from(0x50 + n as u128), SpanId::from(0x60 + n), f.then_some(TraceFlags::new(n as u8 & 1)));
            r.set_trace_context(t.0, t.1, t.2);
            m.trace = Some(t);
        }
    }
}
fn read(r: &SdkLogRecord) -> M {
    M {
        event: r.event_name().map(|s| s.into()),
        target: r.target().map(|s| s.to_string()),
        time: r.timestamp(),
        observed: r.observed_timestamp(),
        sev_text: r.severity_text().map(|s| s.into()),
        sev: r.severity_number().map(|s| s as i32),
        body: r.body().cloned(),
        attrs: r.attributes_iter().cloned().collect(),
        trace: r.trace_context().map(|t| (t.trace_id, t.span_id, t.trace_flags)),
    }
}
/// How the record leaves: which context is current.
#[derive(Debug, Clone, Copy, PartialEq)]
enum Cx {
    Bare,
    Span(u8),
    Local,
    Suppressed,
}
struct Bench {
    first: Capture,
    second: Capture,
    how: u8,
    p: SdkLoggerProvider,
    simple: InMemoryLogExporter,
    scope: InstrumentationScope,
    spans: opentelemetry_sdk::trace::SdkTracerProvider,
}
fn bench(how: u8) -> Bench {
    let (first, second) = (Capture::default(), Capture::default());
    let simple = InMemoryLogExporter::default();
    let mut b = SdkLoggerProvider::builder().with_log_processor(first.clone()).with_log_processor(Changing(how)).with_log_processor(second.clone());
    b = b.with_log_processor(SimpleLogProcessor::new(simple.clone()));
    Bench {
        first, second, how, p: b.build(), simple, scope: InstrumentationScope::builder("lib").with_version("1").build(),
        spans: opentelemetry_sdk::trace::SdkTracerProvider::builder().build(),
    }
}
fn emit(b: &Bench, cx: Cx, ops: &[Op], o: &mut Obs) -> R {
    use opentelemetry::trace::{Tracer as _, TracerProvider as _};
    b.first.0.lock().unwrap().clear();
    b.second.0.lock().unwrap().clear();
    b.simple.reset();
    let l = b.p.logger_with_scope(b.scope.clone());
    let mut r = l.create_log_record();
    let mut m = M::default();
    same!(read(&r), m, "a new record");
    for (n, op) in ops.iter().enumerate() {
        apply(&mut r, &mut m, *op, n as u64 + 1);
        same!(read(&r), m, "after step {n} {op:?}");
        o.step(&format!("{:?}", (m.attrs.len(), &m.event, &m.target, m.sev, m.trace.is_some(), &m.body)));
    }
    let t0 = opentelemetry::time::now();
    let mut active = None;
    let _g = match cx {
        Cx::Bare => Context::new().attach(),
        Cx::Span(f) => {
            let sc = SpanContext::new(TraceId::from(0xa0u128), SpanId::from(0xb0), TraceFlags::new(f), f & 1 == 0, TraceState::NONE);
            active = Some(sc.clone());
            Context::new().with_remote_span_context(sc).attach()
        }
        Cx::Local => {
            let s = b.spans.tracer("t").start_with_context("s", &Context::new());
            let c = Context::new().with_span(s);
            active = Some(c.span().span_context().clone());
            c.attach()
        }
        Cx::Suppressed => Context::new().with_telemetry_suppressed().attach(),
    };
    ensure!(l.event_enabled(Severity::Error, "x", None) == (cx != Cx::Suppressed), "event_enabled");
    l.emit(r);
    drop(_g);
    let t1 = opentelemetry::time::now();
    if m.trace.is_none() {
        m.trace = active.map(|s| (s.trace_id(), s.span_id(), Some(s.trace_flags())));
    }
    let norm = |mut x: M| {
        if m.observed.is_none() {
            match x.observed {
                Some(t) if t >= t0 && t <= t1 => x.observed = None,
                _ => return M { event: Some(format!("observed time {:?} is not the time of the call", x.observed)), ..x },
            }
        }
        x
    };
    let mut after = m.clone();
    match b.how {
        1 => after.attrs.push(("added".into(), AnyValue::Int(1))),
        2 => {
            after.body = Some("redacted".into());
            after.sev = Some(Severity::Fatal4 as i32);
        }
        3 => after.trace = Some((TraceId::from(1u128), SpanId::from(2), None)),
        _ => {}
    }
    let want = (cx != Cx::Suppressed) as usize;
    let one = b.first.0.lock().unwrap().clone();
    let two = b.second.0.lock().unwrap().clone();
    let three = b.simple.get_emitted_logs().unwrap();
    same!((one.len(), two.len(), three.len()), (want, want, want), "records handed over");
    if want == 1 {
        same!(norm(read(&one[0].0)), m, "the first processor's record");
        same!(norm(read(&two[0].0)), after, "a later processor's record");
        same!(norm(read(&three[0].record)), after, "the exported record");
        same!(one[0].1, b.scope, "scope");
        same!(three[0].instrumentation, b.scope, "exported scope");
    }
    o.outcome(&(want, m.attrs.len(), m.trace.is_some()));
    Ok(())
}
fn setters(r: &mut Run) {
    let d = r.pick(4, 5);
    for (how, cx) in [(0, Cx::Bare), (1, Cx::Span(1)), (2, Cx::Span(0)), (3, Cx::Local), (0, Cx::Suppressed)] {
        let b = bench(how);
        r.sequences(&AL, d, |s| format!("{cx:?} changing {how} {s:?}"), |s, o| emit(&b, cx, s, o));
    }
}
/// Any number of attributes, however they are added.
fn attributes(r: &mut Run) {
    let al = [Attr, Attrs(0), Attrs(1), Attrs(2), Attrs(5), Attrs(7)];
    let d = r.pick(5, 7);
    for how in [0, 1] {
        let b = bench(how);
        r.all_sequences(&al, d, |s| format!("changing {how} {s:?}"), |s, o| emit(&b, Cx::Bare, s, o));
        for n in 0..r.pick(80, 600) {
            r.case(|| format!("{n} attributes"), |o| emit(&b, Cx::Bare, &vec![if n % 2 == 0 { Attr } else { Same }; n], o));
        }
    }
}
/// Every context and every change against short setter sequences.
fn contexts(r: &mut Run) {
    let d = r.pick(2, 3);
    for how in 0..4 {
        for cx in [Cx::Bare, Cx::Span(0), Cx::Span(1), Cx::Span(2), Cx::Span(255), Cx::Local, Cx::Suppressed] {
            let b = bench(how);
            r.all_sequences(&AL, d, |s| format!("{cx:?} changing {how} {s:?}"), |s, o| emit(&b, cx, s, o));
        }
    }
}
/// Several records in flight and through the batch processor: none takes another's content.
fn batches(r: &mut Run) {
    let al = [Attr, Attrs(5), Body(1), Trace(true), Target];
    let d = r.pick(4, 5);
    r.sequences(&al, d, |s| format!("{s:?}"), |s, o| {
        let first = Capture::default();
        let exp = InMemoryLogExporter::default();
        let c = BatchConfigBuilder::default().with_max_queue_size(64).with_max_export_batch_size(2).build();
        let p = SdkLoggerProvider::builder()
            .with_log_processor(BatchLogProcessor::builder(exp.clone()).with_batch_config(c).build())
            .with_log_processor(Changing(2))
            .with_log_processor(first.clone())
            .build();
        let l = p.logger("lib");
        let mut want = vec![];
        // record k gets the first k operations
        let mut rs: Vec<(SdkLogRecord, M)> = (0..=s.len()).map(|_| (l.create_log_record(), M::default())).collect();
        for (n, op) in s.iter().enumerate() {
            for (r, m) in rs.iter_mut().skip(n + 1) {
                apply(r, m, *op, n as u64);
            }
        }
        for (mut r, mut m) in rs {
            r.set_observed_timestamp(at(5));
            m.observed = Some(at(5));
            l.emit(r);
            want.push(m);
            o.step(&want.len());
        }
        p.force_flush().map_err(|e| format!("flush: {e}"))?;
        let got: Vec<M> = exp.get_emitted_logs().unwrap().iter().map(|x| read(&x.record)).collect();
        let _ = p.shutdown();
        same!(got, want, "records exported in batches");
        let later: Vec<Option<AnyValue>> = first.0.lock().unwrap().iter().map(|x| x.0.body().cloned()).collect();
        ensure!(later.iter().all(|b| *b == Some("redacted".into())), "a later processor misses an earlier one's change");
        Ok(())
    });
}
/// `event_enabled` is the disjunction of the processors' answers, and false under suppression.
fn enabled(r: &mut Run) {
    for n in 0..=3usize {
        for mask in 0..1usize << n {
            for sup in [false, true] {
                for lvl in SEVS {
                    r.case(|| format!("{n} processors, {mask:b} of them choosy, suppressed={sup}, {lvl:?}"), |o| {
                        let mut b = SdkLoggerProvider::builder();
                        for k in 0..n {
                            b = if mask >> k & 1 == 1 { b.with_log_processor(Changing(0)) } else { b.with_log_processor(Capture::default()) };
                        }
                        let p = b.build();
                        let l = p.logger("x");
                        let _g = if sup { Context::new().with_telemetry_suppressed() } else { Context::new() }.attach();
                        for t in ["off", "on"] {
                            for nm in [None, Some("off"), Some("on")] {
                                let want = !sup && mask != 0 && lvl >= Severity::Warn && t == "on" && nm != Some("off");
                                same!(l.event_enabled(lvl, t, nm), want, "target {t} name {nm:?}");
                                o.step(&(mask, want));
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
}
/// The severities of the log data model: numbers, names and order.
fn severities(r: &mut Run) {
    for (i, s) in SEVS.into_iter().enumerate() {
        for (j, t) in SEVS.into_iter().enumerate() {
            r.case(|| format!("{s:?} and {t:?}"), |o| {
                let base = ["TRACE", "DEBUG", "INFO", "WARN", "ERROR", "FATAL"][i / 4];
                let want = if i % 4 == 0 { base.to_string() } else { format!("{base}{}", i % 4 + 1) };
                same!(s.name(), want, "name");
                same!(s as i32, i as i32 + 1, "number");
                same!((s.cmp(&t), s.partial_cmp(&t), s == t), (i.cmp(&j), Some(i.cmp(&j)), i == j), "order");
                o.step(&(i, j));
                o.outcome(&(i, j));
                Ok(())
            });
        }
    }
}
pub fn families() -> Vec<Family> {
    vec![
        family("C30", "setters", setters),
        family("C30", "attributes", attributes),
        family("C30", "contexts", contexts),
        family("C30", "batches", batches),
        family("C30", "enabled", enabled),
        family("C30", "severities", severities),
    ]
}
