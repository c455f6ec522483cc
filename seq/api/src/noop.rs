//! C58: without an SDK the API does nothing, and passes on the context it was given.
use bmc::{ensure, family, product, same, Family, Run};
use opentelemetry::baggage::BaggageExt;
use opentelemetry::global::{self, BoxedTracer};
use opentelemetry::logs::NoopLoggerProvider;
use opentelemetry::logs::{AnyValue, LogRecord as _, Logger as _, LoggerProvider as _, Severity};
use opentelemetry::metrics::Meter;
use opentelemetry::propagation::TextMapPropagator;
use opentelemetry::trace::noop::{NoopTextMapPropagator, NoopTracer, NoopTracerProvider};
use opentelemetry::trace::{
    get_active_span, mark_span_as_active, Event, Link, SamplingDecision, SamplingResult, Span, SpanContext, SpanId, SpanKind, Status, TraceContextExt, TraceFlags, TraceId, TraceState,
    Tracer, TracerProvider as _,
};
use opentelemetry::{Context, ContextGuard, InstrumentationScope, KeyValue};
use opentelemetry_sdk::propagation::TraceContextPropagator;
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, UNIX_EPOCH};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// make a remote parent current: 0 sampled, 1 not, 2 with other flags, 3 invalid, 4 local
    Remote(u8),
    /// make a context with a value current
    Value,
    Suppress,
    /// start a span under the current context, with everything a builder can set or not
    Start(bool),
    /// start under an explicit context
    Under(u8),
    /// do everything to the last span, and to the current one
    Touch,
    Attach,
    InSpan,
    Detach,
    DropLast,
}
use Op::*;
const AL: [Op; 14] = [Remote(0), Remote(1), Remote(2), Remote(3), Remote(4), Value, Suppress, Start(false), Start(true), Under(0), Touch, Attach, InSpan, Detach];
const AL2: [Op; 8] = [Remote(0), Start(true), Under(1), Touch, Attach, InSpan, Detach, DropLast];
#[derive(Debug)]
struct V(#[allow(dead_code)] u8);

fn remote(n: u8) -> SpanContext {
    let (t, s, f, r) = [(0xabcu128 << 100, 1u64 << 63, 1, true), (5, 6, 0, true), (7, 8, 0xfe, true), (9, 0, 1, true), (11, 12, 1, false)][n as usize];
    SpanContext::new(TraceId::from(t), SpanId::from(s), TraceFlags::new(f), r, TraceState::from_key_value([("k", format!("v{n}"))]).unwrap())
}
/// The spans of all kinds of tracers there are without an SDK.
trait Tr {
    fn start(&self, rich: bool, cx: Option<&Context>) -> Box<dyn Sp>;
    fn in_span(&self, f: &mut dyn FnMut(Context));
}
trait Sp {
    fn context(&self) -> SpanContext;
    fn recording(&self) -> bool;
    fn touch(&mut self);
    fn attach(self: Box<Self>) -> ContextGuard;
}
impl<T: Tracer> Tr for T
where
    T::Span: Send + Sync + 'static,
{
    fn start(&self, rich: bool, cx: Option<&Context>) -> Box<dyn Sp> {
        let b = self.span_builder("s");
        let b = if !rich {
            b
        } else {
            b.with_kind(SpanKind::Client)
                .with_start_time(UNIX_EPOCH)
                .with_end_time(UNIX_EPOCH)
                .with_attributes([KeyValue::new("a", 1)])
                .with_events(vec![Event::with_name("e")])
                .with_links(vec![Link::with_context(remote(1))])
                .with_status(Status::error("x"))
                .with_sampling_result(SamplingResult { decision: SamplingDecision::RecordAndSample, attributes: vec![KeyValue::new("s", 1)], trace_state: TraceState::from_key_value([("z", "z")]).unwrap() })
        };
        match (cx, rich) {
            (None, false) => Box::new(Tracer::start(self, "s")),
            (None, true) => Box::new(b.start(self)),
            (Some(c), false) => Box::new(self.start_with_context("s", c)),
            (Some(c), true) => Box::new(b.start_with_context(self, c)),
        }
    }
    fn in_span(&self, f: &mut dyn FnMut(Context)) {
        Tracer::in_span(self, "i", f)
    }
}
#[derive(Debug)]
struct Boom;
impl std::fmt::Display for Boom {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("boom")
    }
}
impl std::error::Error for Boom {}
impl<S: Span + Send + Sync + 'static> Sp for S {
    fn context(&self) -> SpanContext {
        self.span_context().clone()
    }
    fn recording(&self) -> bool {
        self.is_recording()
    }
    fn touch(&mut self) {
        self.add_event("e", vec![KeyValue::new("k", 1)]);
        self.add_event_with_timestamp("e", UNIX_EPOCH, vec![]);
        self.set_attribute(KeyValue::new("k", "v"));
        self.set_attributes([KeyValue::new("l", true), KeyValue::new("l", false)]);
        self.set_status(Status::error("e"));
        self.update_name("n");
        self.add_link(remote(2), vec![]);
        self.record_error(&Boom);
        self.end_with_timestamp(UNIX_EPOCH + Duration::from_secs(1));
        self.end();
    }
    fn attach(self: Box<Self>) -> ContextGuard {
        mark_span_as_active(*self)
    }
}
fn tracer(n: usize) -> Box<dyn Tr> {
    match n {
        0 => Box::new(NoopTracer::new()),
        1 => Box::new(NoopTracerProvider::new().tracer("x")),
        2 => Box::new(BoxedTracer::new(Box::new(NoopTracer::new()))),
        3 => Box::new(global::tracer("x")),
        4 => Box::new(global::tracer_with_scope(InstrumentationScope::builder("x").with_version("1").build())),
        _ => Box::new(global::tracer_provider().tracer("x")),
    }
}
fn header(c: &SpanContext) -> Option<String> {
    let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
    let (t, s) = (c.trace_id().to_bytes(), c.span_id().to_bytes());
    (t != [0; 16] && s != [0; 8]).then(|| format!("00-{}-{}-{:02x}", hex(&t), hex(&s), c.trace_flags().to_u8() & 1))
}
fn traces(r: &mut Run) {
    for (al, depth) in [(&AL[..], r.pick(4, 5)), (&AL2[..], r.pick(5, 7))] {
        for t in 0..6 {
            for n in 1..=depth {
                r.sequences(al, n, |q| format!("tracer {t}: {q:?}"), |q, o| {
                    let tr = tracer(t);
                    // what should be current: the span context, and whether there is a span
                    let mut stack: Vec<(SpanContext, bool)> = vec![(SpanContext::NONE, false)];
                    let mut guards: Vec<ContextGuard> = vec![];
                    let mut loose: Vec<(Box<dyn Sp>, SpanContext)> = vec![];
                    for op in q {
                        let top = stack.last().unwrap().clone();
                        match *op {
                            Remote(n) => {
                                guards.push(Context::current().with_remote_span_context(remote(n)).attach());
                                stack.push((remote(n), true));
                            }
                            Value => {
                                guards.push(Context::current_with_value(V(1)).attach());
                                stack.push(top);
                            }
                            Suppress => {
                                guards.push(Context::enter_telemetry_suppressed_scope());
                                stack.push(top);
                            }
                            Start(rich) => loose.push((tr.start(rich, None), top.0)),
                            Under(0) => loose.push((tr.start(true, Some(&Context::new())), SpanContext::NONE)),
                            Under(_) => loose.push((tr.start(false, Some(&Context::new().with_remote_span_context(remote(1)))), remote(1))),
                            Touch => {
                                if let Some((s, _)) = loose.last_mut() {
                                    s.touch();
                                }
                                let cx = Context::current();
                                let s = cx.span();
                                s.add_event("e", vec![]);
                                s.set_attribute(KeyValue::new("k", 1));
                                s.set_status(Status::Ok);
                                s.update_name("n");
                                s.record_error(&Boom);
                                s.end();
                            }
                            Attach => {
                                if let Some((s, c)) = loose.pop() {
                                    guards.push(s.attach());
                                    stack.push((c, true));
                                }
                            }
                            InSpan => {
                                let (mut seen, mut runs) = (None, 0);
                                tr.in_span(&mut |cx| {
                                    runs += 1;
                                    let nested = tr.start(false, None).context();
                                    seen = Some((cx.span().span_context().clone(), cx.has_active_span(), cx.span().is_recording(), Context::current().span().span_context().clone(), nested));
                                });
                                same!((runs, seen), (1, Some((top.0.clone(), true, false, top.0.clone(), top.0))), "in_span");
                            }
                            Detach => {
                                if guards.pop().is_some() {
                                    stack.pop();
                                }
                            }
                            DropLast => {
                                loose.pop();
                            }
                        }
                        for (s, c) in &loose {
                            same!(s.context(), *c, "context of a span");
                            ensure!(!s.recording(), "a span is recording");
                        }
                        let (c, active) = stack.last().unwrap();
                        let cx = Context::current();
                        same!(cx.span().span_context().clone(), *c, "current span context");
                        same!(get_active_span(|s| s.span_context().clone()), *c, "context of the active span");
                        same!(cx.has_active_span(), *active, "whether there is a span");
                        ensure!(!cx.span().is_recording(), "the current span is recording");
                        let mut h: HashMap<String, String> = HashMap::new();
                        TraceContextPropagator::new().inject_context(&cx, &mut h);
                        same!(h.get("traceparent").cloned(), header(c), "what is sent on");
                        o.step(&(format!("{c:?}"), active, loose.len()));
                    }
                    o.outcome(&format!("{:?}", stack.last()));
                    while guards.pop().is_some() {}
                    Ok(())
                });
            }
        }
    }
}
fn meters() -> Vec<(&'static str, Meter)> {
    vec![
        ("meter", global::meter("m")),
        ("meter_with_scope", global::meter_with_scope(InstrumentationScope::builder("").build())),
        ("meter_provider", global::meter_provider().meter("m")),
    ]
}
fn metrics(r: &mut Run) {
    for name in ["m", "", "1 bad", "\u{e9}", "m"] {
        for which in 0..3 {
            macro_rules! sync { ($($make:ident $do:ident [$($v:expr),*];)*) => {$(
                r.case(|| format!("{} {name:?} of meter {which}", stringify!($make)), |o| {
                    let i = meters()[which].1.$make(name).with_description("d").with_unit("u").build();
                    let j = i.clone();
                    for v in [$($v),*] { i.$do(v, &[]); j.$do(v, &[KeyValue::new("k", "v"), KeyValue::new("k", f64::NAN)]); }
                    o.step(&(stringify!($make), name)); o.outcome(&stringify!($make)); Ok(())
                });
            )*}; }
            sync! {
                u64_counter add [0, 1, u64::MAX]; f64_counter add [0.0, -1.0, f64::NAN, f64::INFINITY]; i64_up_down_counter add [0, i64::MIN, i64::MAX];
                f64_up_down_counter add [0.0, f64::NAN]; u64_gauge record [0, u64::MAX]; f64_gauge record [f64::NAN]; i64_gauge record [i64::MIN];
                f64_histogram record [0.0, f64::NAN, f64::NEG_INFINITY]; u64_histogram record [0, u64::MAX];
            }
            macro_rules! observable { ($($make:ident $t:ty;)*) => {$(
                r.case(|| format!("{} {name:?} of meter {which}", stringify!($make)), |o| {
                    let (calls, held) = (Arc::new(AtomicUsize::new(0)), Arc::new(()));
                    let (c, l) = (calls.clone(), held.clone());
                    let i = meters()[which].1.$make(name).with_callback(move |x| { let _ = &l; c.fetch_add(1, SeqCst); x.observe(1 as $t, &[]); }).build();
                    drop(i.clone());
                    drop(i);
                    same!(calls.load(SeqCst), 0, "calls of the callback");
                    same!(Arc::strong_count(&held), 1, "the callback is kept");
                    o.step(&(stringify!($make), name)); o.outcome(&stringify!($make)); Ok(())
                });
            )*}; }
            observable! {
                u64_observable_counter u64; f64_observable_counter f64; i64_observable_up_down_counter i64; f64_observable_up_down_counter f64;
                u64_observable_gauge u64; i64_observable_gauge i64; f64_observable_gauge f64;
            }
        }
    }
}
fn logs(r: &mut Run) {
    for named in [false, true] {
        r.case(|| format!("logger, named {named}"), |o| {
            let p = NoopLoggerProvider::new();
            let l = if named { p.logger("x") } else { p.logger_with_scope(InstrumentationScope::builder("").build()) };
            for s in [Severity::Trace, Severity::Info, Severity::Fatal4] {
                ensure!(!l.event_enabled(s, "t", None) && !l.event_enabled(s, "", Some("n")), "{s:?} is enabled");
                let mut x = l.create_log_record();
                x.set_event_name("e");
                x.set_timestamp(UNIX_EPOCH);
                x.set_observed_timestamp(UNIX_EPOCH);
                x.set_severity_text("s");
                x.set_severity_number(s);
                x.set_body(AnyValue::from(1));
                x.add_attribute("k", "v");
                x.add_attributes([("k", "v"), ("l", "w")]);
                x.set_target("t");
                l.emit(x);
            }
            o.step(&named);
            o.outcome(&named);
            Ok(())
        });
    }
}
/// The propagator used when none is set writes nothing, and returns the context it is given.
fn propagator(r: &mut Run) {
    product(&[3, 3, 2, 2], |ix| {
        r.case(|| format!("{ix:?}"), |o| {
            let make = |n: usize, v: u8| match n {
                0 => Context::new(),
                1 => Context::new().with_value(V(v)).with_remote_span_context(remote(v)),
                _ => Context::new().with_baggage([KeyValue::new("b", v as i64)]),
            };
            let what = |c: &Context| (c.span().span_context().clone(), c.get::<V>().map(|v| v.0), format!("{:?}", c.baggage()));
            let (given, current) = (make(ix[0], 0), make(ix[1], 1));
            let _g = current.clone().attach();
            let mut carrier: HashMap<String, String> = HashMap::new();
            if ix[2] == 1 {
                carrier.insert("traceparent".into(), "00-4bf92f3577b34da6a3ce929d0e0e4736-00f067aa0ba902b7-01".into());
                carrier.insert("baggage".into(), "x=y".into());
            }
            let before = carrier.clone();
            let mut run = |p: &dyn TextMapPropagator| {
                p.inject_context(&given, &mut carrier);
                p.inject(&mut carrier);
                (what(&p.extract_with_context(&given, &carrier)), what(&p.extract(&carrier)), p.fields().count())
            };
            let got = if ix[3] == 0 { global::get_text_map_propagator(run) } else { run(&NoopTextMapPropagator::new()) };
            same!(got.0, what(&given), "extracted with a context");
            same!(got.1, what(&current), "extracted with the current context");
            same!(got.2, 0, "fields");
            same!(carrier, before, "carrier");
            o.step(&ix.to_vec());
            o.outcome(&format!("{got:?}"));
            Ok(())
        });
    });
}
pub fn families() -> Vec<Family> {
    vec![family("C58", "noop-traces", traces), family("C58", "noop-metrics", metrics), family("C58", "noop-logs", logs), family("C58", "noop-propagator", propagator)]
}
