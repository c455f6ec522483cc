//! C29: sampling decisions.
use crate::span::Sink;
use bmc::*;
use opentelemetry::trace::{
    Link, SamplingDecision, SamplingResult, Span as _, SpanContext, SpanId, SpanKind, TraceContextExt, TraceFlags, TraceId, TraceState, Tracer as _, TracerProvider as _,
};
use opentelemetry::{Context, KeyValue};
use opentelemetry_sdk::trace::{
    BatchConfigBuilder, BatchSpanProcessor, IdGenerator, InMemorySpanExporter, Sampler, SdkTracerProvider, ShouldSample, SimpleSpanProcessor,
};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};

/// A sampler of the application's own.
#[derive(Debug, Clone)]
struct Fixed(SamplingDecision);
impl ShouldSample for Fixed {
    fn should_sample(&self, _p: Option<&Context>, _t: TraceId, _n: &str, _k: &SpanKind, _a: &[KeyValue], _l: &[Link]) -> SamplingResult {
        SamplingResult { decision: self.0.clone(), attributes: vec![KeyValue::new("own", "attribute")], trace_state: TraceState::from_key_value([("own", "1")]).unwrap() }
    }
}
#[derive(Debug, Clone, PartialEq)]
enum S {
    On,
    Off,
    Ratio(f64),
    RecordOnly,
    Parent(Box<S>),
}
impl S {
    fn build(&self) -> Box<dyn ShouldSample> {
        match self {
            S::On => Box::new(Sampler::AlwaysOn),
            S::Off => Box::new(Sampler::AlwaysOff),
            S::Ratio(r) => Box::new(Sampler::TraceIdRatioBased(*r)),
            S::RecordOnly => Box::new(Fixed(SamplingDecision::RecordOnly)),
            S::Parent(s) => Box::new(Sampler::ParentBased(s.build())),
        }
    }
    /// `ratio` answers for the ratio sampler, whose rule is checked on its own.
    fn model(&self, parent: Option<bool>, ratio: &dyn Fn(f64) -> SamplingDecision) -> SamplingDecision {
        match self {
            S::On => SamplingDecision::RecordAndSample,
            S::Off => SamplingDecision::Drop,
            S::Ratio(r) => ratio(*r),
            S::RecordOnly => SamplingDecision::RecordOnly,
            S::Parent(s) => match parent {
                Some(true) => SamplingDecision::RecordAndSample,
                Some(false) => SamplingDecision::Drop,
                None => s.model(None, ratio),
            },
        }
    }
    /// the application's own sampler decides
    fn own(&self, parent: Option<bool>) -> bool {
        match self {
            S::RecordOnly => true,
            S::Parent(s) => parent.is_none() && s.own(None),
            _ => false,
        }
    }
}
fn samplers(depth: usize) -> Vec<S> {
    let mut v = vec![S::On, S::Off, S::RecordOnly];
    v.extend([f64::NEG_INFINITY, -1.0, -0.0, 0.0, 0.25, 0.5, 1.0 - f64::EPSILON, 1.0, 1.5, f64::INFINITY].map(S::Ratio));
    let mut last = v.clone();
    for _ in 0..depth {
        last = last.into_iter().map(|s| S::Parent(Box::new(s))).collect();
        v.extend(last.clone());
    }
    v
}
#[derive(Debug, Clone)]
struct Ids(Arc<Mutex<TraceId>>, Arc<AtomicU64>);
impl IdGenerator for Ids {
    fn new_trace_id(&self) -> TraceId {
        *self.0.lock().unwrap()
    }
    fn new_span_id(&self) -> SpanId {
        SpanId::from(self.1.fetch_add(1, SeqCst) + 1)
    }
}
#[derive(Debug, Clone, Copy, PartialEq)]
enum P {
    None,
    Remote(u8),
    Local(bool),
    LocalRecordOnly,
    Invalid(u8, bool),
}
fn trace_ids() -> Vec<TraceId> {
    let mut v = vec![];
    for hi in [0u64, 1, u64::MAX] {
        for lo in [1u64, 2, 1 << 61, 1 << 62, (1 << 62) + 1, 1 << 63, (1 << 63) + 1, (1u64 << 63) - 1, 3 << 62, u64::MAX, u64::MAX - 1] {
            v.push(TraceId::from((hi as u128) << 64 | lo as u128));
        }
    }
    v
}
fn ratio_of(r: f64, id: TraceId) -> SamplingDecision {
    Sampler::TraceIdRatioBased(r).should_sample(None, id, "", &SpanKind::Internal, &[], &[]).decision
}

/// Every sampler under every parent and trace id: recorded, exported and flagged as the sampler says.
fn parents(r: &mut Run) {
    let st = TraceState::from_key_value([("p", "q")]).unwrap();
    let depth = r.pick(3, 6);
    for s in samplers(depth) {
        let ids = Ids(Arc::new(Mutex::new(TraceId::INVALID)), Default::default());
        let sink = Sink::default();
        let exp = InMemorySpanExporter::default();
        let p = SdkTracerProvider::builder()
            .with_sampler(Boxed(s.build()))
            .with_id_generator(ids.clone())
            .with_span_processor(sink.clone())
            .with_span_processor(SimpleSpanProcessor::new(exp.clone()))
            .build();
        let t = p.tracer("t");
        // providers that make local parents
        let on = SdkTracerProvider::builder().with_sampler(Sampler::AlwaysOn).with_id_generator(ids.clone()).build().tracer("on");
        let off = SdkTracerProvider::builder().with_sampler(Sampler::AlwaysOff).with_id_generator(ids.clone()).build().tracer("off");
        let rec = SdkTracerProvider::builder().with_sampler(Fixed(SamplingDecision::RecordOnly)).with_id_generator(ids.clone()).build().tracer("rec");
        for id in trace_ids() {
            for par in [
                P::None, P::Remote(0), P::Remote(1), P::Remote(2), P::Remote(3), P::Remote(255), P::Local(true), P::Local(false), P::LocalRecordOnly, P::Invalid(0, false),
                P::Invalid(1, false), P::Invalid(2, false),
            ] {
                let st = st.clone();
                r.case(|| format!("{s:?} parent {par:?} trace id {id}"), |o| {
                    *ids.0.lock().unwrap() = id;
                    sink.take();
                    exp.reset();
                    let remote = |t: TraceId, sp: u64, f: u8| Context::new().with_remote_span_context(SpanContext::new(t, SpanId::from(sp), TraceFlags::new(f), true, st.clone()));
                    let cx = match par {
                        P::None => Context::new(),
                        P::Remote(f) => remote(id, 77, f),
                        P::Local(true) => Context::new().with_span(on.start_with_context("p", &Context::new())),
                        P::Local(false) => Context::new().with_span(off.start_with_context("p", &Context::new())),
                        P::LocalRecordOnly => Context::new().with_span(rec.start_with_context("p", &Context::new())),
                        P::Invalid(k, f) => remote(if k == 1 { id } else { TraceId::INVALID }, if k == 2 { 5 } else { 0 }, f as u8),
                    };
                    let known = match par {
                        P::None => None,
                        // a span without valid ids still decides for a parent-based sampler
                        P::Invalid(_, f) => Some(f),
                        P::Remote(f) => Some(f & 1 == 1),
                        P::Local(b) => Some(b),
                        P::LocalRecordOnly => Some(false),
                    };
                    let want = s.model(known, &|r| ratio_of(r, id));
                    let span = t.span_builder("child").start_with_context(&t, &cx);
                    let sc = span.span_context().clone();
                    same!(span.is_recording(), want != SamplingDecision::Drop, "is_recording");
                    same!(sc.is_sampled(), want == SamplingDecision::RecordAndSample, "sampled flag");
                    same!(sc.trace_id(), id, "trace id");
                    let wstate = if s.own(known) {
                        "own=1"
                    } else if matches!(par, P::Remote(_)) {
                        "p=q"
                    } else if par == P::LocalRecordOnly {
                        "own=1"
                    } else {
                        ""
                    };
                    if !matches!(par, P::Invalid(..)) {
                        same!(sc.trace_state().header(), wstate, "trace state");
                    }
                    drop(span);
                    let seen = sink.take();
                    same!(seen.len(), (want != SamplingDecision::Drop) as usize, "spans recorded");
                    for d in &seen {
                        same!(d.attributes, if s.own(known) { vec![KeyValue::new("own", "attribute")] } else { vec![] }, "attributes from the sampler");
                    }
                    let ex = exp.get_finished_spans().unwrap();
                    same!(ex.len(), (want == SamplingDecision::RecordAndSample) as usize, "spans exported");
                    o.step(&(format!("{s:?}"), format!("{par:?}"), format!("{want:?}")));
                    o.outcome(&(format!("{par:?}"), want));
                    Ok(())
                });
            }
        }
    }
}
/// `with_sampler` takes a sampler by value; this forwards to a boxed one.
#[derive(Debug, Clone)]
struct Boxed(Box<dyn ShouldSample>);
impl ShouldSample for Boxed {
    fn should_sample(&self, p: Option<&Context>, t: TraceId, n: &str, k: &SpanKind, a: &[KeyValue], l: &[Link]) -> SamplingResult {
        self.0.should_sample(p, t, n, k, a, l)
    }
}

/// Ids spread evenly over the whole range, whichever bits a sampler looks at.
fn weyl(i: u64) -> TraceId {
    const GOLDEN: u64 = 0x9E37_79B9_7F4A_7C15;
    let x = (i + 1).wrapping_mul(GOLDEN);
    TraceId::from((x.wrapping_add(GOLDEN / 3) as u128) << 64 | x as u128)
}
fn ratios() -> Vec<f64> {
    let mut v = vec![0.0, f64::MIN_POSITIVE, 1e-300, 1e-20, 1e-9, 1e-3, 1.0 / 3.0, 0.1, 0.9, 0.999, 1.0 - f64::EPSILON, 1.0];
    v.extend((0..=64).map(|k| k as f64 / 64.0));
    v.sort_by(f64::total_cmp);
    v.dedup();
    v
}
/// The share of ids sampled matches the ratio; never and always at the ends.
fn share(r: &mut Run) {
    let n = r.pick(1u64 << 17, 1 << 21);
    for ratio in ratios() {
        r.case(|| format!("ratio {ratio} over {n} ids"), |o| {
            let s = Sampler::TraceIdRatioBased(ratio);
            let mut hit = 0u64;
            for i in 0..n {
                let d = s.should_sample(None, weyl(i), "n", &SpanKind::Internal, &[], &[]).decision;
                ensure!(d != SamplingDecision::RecordOnly, "RecordOnly");
                hit += (d == SamplingDecision::RecordAndSample) as u64;
            }
            let got = hit as f64 / n as f64;
            ensure!((got - ratio).abs() < 24.0 / n as f64 + 1e-12, "{got} of the ids sampled at ratio {ratio}");
            o.step(&hit);
            o.outcome(&hit);
            Ok(())
        });
    }
}
/// An id sampled at one ratio is sampled at every higher one: all pairs of a dense list, for ids at every boundary.
fn monotonic(r: &mut Run) {
    let mut ids = trace_ids();
    ids.extend((0..r.pick(40_000, 400_000)).map(weyl));
    for b in 0..64 {
        for d in [0u64, 1] {
            ids.push(TraceId::from((1u128 << b) - d as u128 + (1u128 << 100)));
            ids.push(TraceId::from((!(1u64 << b)) as u128));
        }
    }
    for id in ids {
        r.case(|| format!("trace id {id}"), |o| {
            let lo = u64::from_be_bytes(id.to_bytes()[8..].try_into().unwrap());
            let mut rs = ratios();
            // the floats around the id's own position in the range
            for base in [lo as f64 / 2f64.powi(64), lo as f64 / 2f64.powi(64) * 2.0 % 1.0] {
                let (mut a, mut b) = (base, base);
                rs.push(base);
                for _ in 0..4 {
                    a = a.next_up();
                    b = b.next_down();
                    rs.extend([a, b]);
                }
            }
            rs.extend([-1.0, f64::NEG_INFINITY, -f64::MIN_POSITIVE, 1.0 + f64::EPSILON, 2.0, f64::INFINITY]);
            rs.sort_by(f64::total_cmp);
            let mut was = false;
            for ratio in rs {
                let now = ratio_of(ratio, id) == SamplingDecision::RecordAndSample;
                ensure!(!was || now, "sampled at a lower ratio but not at {ratio:e}");
                if ratio <= 0.0 {
                    ensure!(!now, "sampled at {ratio:e}");
                }
                if ratio >= 1.0 {
                    ensure!(now, "not sampled at {ratio:e}");
                }
                was = now;
                o.step(&(ratio.to_bits(), now));
            }
            Ok(())
        });
    }
}
/// The ratio sampler looks at nothing but the trace id.
fn only_the_id(r: &mut Run) {
    for i in 0..r.pick(2_000, 20_000) {
        let id = weyl(i);
        r.case(|| format!("trace id {id}"), |o| {
            for ratio in [0.1, 0.5, 0.75] {
                let want = ratio_of(ratio, id);
                let s = Sampler::TraceIdRatioBased(ratio);
                let sampled = Context::new().with_remote_span_context(SpanContext::new(id, SpanId::from(1), TraceFlags::SAMPLED, true, TraceState::NONE));
                let unsampled = Context::new().with_remote_span_context(SpanContext::new(id, SpanId::from(1), TraceFlags::default(), true, TraceState::NONE));
                for cx in [None, Some(&Context::new()), Some(&sampled), Some(&unsampled)] {
                    for name in ["", "a", "GET /"] {
                        for kind in [SpanKind::Internal, SpanKind::Server, SpanKind::Client] {
                            for attrs in [&[][..], &[KeyValue::new("sampling.priority", 1)]] {
                                for links in [&[][..], &[Link::new(sampled.span().span_context().clone(), vec![], 0)]] {
                                    let got = s.should_sample(cx, id, name, &kind, attrs, links);
                                    same!(got.decision, want, "ratio {ratio} with {cx:?} {name} {kind:?}");
                                    same!(got.attributes.len(), 0, "attributes");
                                    o.step(&(ratio.to_bits(), name));
                                }
                            }
                        }
                    }
                }
            }
            Ok(())
        });
    }
}
/// A builder's own sampling result is used as given.
fn presampled(r: &mut Run) {
    for s in samplers(1) {
        for d in [SamplingDecision::Drop, SamplingDecision::RecordOnly, SamplingDecision::RecordAndSample] {
            for parent in [None, Some(0u8), Some(1)] {
                r.case(|| format!("{s:?} overruled by {d:?}, parent {parent:?}"), |o| {
                    let sink = Sink::default();
                    let p = SdkTracerProvider::builder().with_sampler(Boxed(s.build())).with_span_processor(sink.clone()).build();
                    let t = p.tracer("t");
                    let cx = match parent {
                        None => Context::new(),
                        Some(f) => Context::new().with_remote_span_context(SpanContext::new(TraceId::from(3u128), SpanId::from(4), TraceFlags::new(f), true, TraceState::NONE)),
                    };
                    let res = SamplingResult { decision: d.clone(), attributes: vec![KeyValue::new("s", 1)], trace_state: TraceState::from_key_value([("x", "y")]).unwrap() };
                    let span = t.span_builder("n").with_attributes([KeyValue::new("b", 2)]).with_sampling_result(res).start_with_context(&t, &cx);
                    same!(span.is_recording(), d != SamplingDecision::Drop, "recording");
                    same!(span.span_context().is_sampled(), d == SamplingDecision::RecordAndSample, "sampled");
                    same!(span.span_context().trace_state().header(), "x=y", "trace state");
                    drop(span);
                    let got = sink.take();
                    same!(got.len(), (d != SamplingDecision::Drop) as usize, "recorded");
                    for g in got {
                        same!(g.attributes, vec![KeyValue::new("b", 2), KeyValue::new("s", 1)], "attributes");
                    }
                    o.step(&(format!("{s:?}{d:?}"), parent));
                    Ok(())
                });
            }
        }
    }
}
/// Exporters behind both processors see exactly the sampled spans, in every sequence of decisions.
fn exported(r: &mut Run) {
    use SamplingDecision::*;
    let al = [Drop, RecordOnly, RecordAndSample];
    let d = r.pick(3, 5);
    for batch in [false, true] {
        r.all_sequences(&al, d, |s| format!("{} {s:?}", if batch { "batch" } else { "simple" }), |s, o| {
            let exp = InMemorySpanExporter::default();
            let b = SdkTracerProvider::builder();
            let p = if batch {
                let c = BatchConfigBuilder::default().with_max_queue_size(16).with_max_export_batch_size(4).build();
                b.with_span_processor(BatchSpanProcessor::builder(exp.clone()).with_batch_config(c).build())
            } else {
                b.with_simple_exporter(exp.clone())
            }
            .build();
            let t = p.tracer("t");
            let mut want: HashMap<SpanId, bool> = HashMap::new();
            let mut only = vec![];
            for (i, d) in s.iter().enumerate() {
                let res = SamplingResult { decision: d.clone(), attributes: vec![], trace_state: TraceState::NONE };
                let span = t.span_builder(format!("s{i}")).with_sampling_result(res).start_with_context(&t, &Context::new());
                want.insert(span.span_context().span_id(), *d == RecordAndSample);
                if *d == RecordOnly {
                    only.push(span.span_context().span_id());
                }
                o.step(&(i, format!("{d:?}")));
            }
            p.force_flush().map_err(|e| format!("flush: {e}"))?;
            let got: Vec<SpanId> = exp.get_finished_spans().unwrap().iter().map(|d| d.span_context.span_id()).collect();
            let _ = p.shutdown();
            let sampled: Vec<&SpanId> = want.iter().filter(|x| *x.1).map(|x| x.0).collect();
            ensure!(sampled.iter().all(|s| got.contains(s)), "a sampled span is missing: {got:?} of {sampled:?}");
            ensure!(got.iter().all(|g| want[g] || only.contains(g)), "a dropped span was exported");
            let extra = got.iter().filter(|g| only.contains(g)).count();
            if extra > 0 && batch {
                return Err(keyed("batch-exports-record-only", format!("the batch span processor exported {extra} span(s) that are recorded but not sampled")));
            }
            same!(extra, 0, "spans recorded but not sampled that were exported");
            same!(got.len(), sampled.len(), "spans exported");
            Ok(())
        });
    }
}
pub fn families() -> Vec<Family> {
    vec![
        family("C29", "parents", parents),
        family("C29", "share", share),
        family("C29", "monotonic", monotonic),
        family("C29", "only-the-id", only_the_id),
        family("C29", "presampled", presampled),
        family("C29", "exported", exported),
    ]
}
