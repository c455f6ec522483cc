//! C41: configuration from the environment, judged by what the pipelines do.
use bmc::*;
use opentelemetry::logs::{LogRecord as _, Logger as _, LoggerProvider as _};
use opentelemetry::metrics::MeterProvider as _;
use opentelemetry::trace::{
    Span as _, SpanContext, SpanId, TraceContextExt, TraceFlags, TraceId, TraceState, Tracer as _, TracerProvider as _,
};
use opentelemetry::{Context, KeyValue};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::logs::{BatchLogProcessor, LogBatch, LogExporter, SdkLoggerProvider};
use opentelemetry_sdk::metrics::{data::ResourceMetrics, exporter::PushMetricExporter, periodic_reader_with_async_runtime, PeriodicReader, SdkMeterProvider, Temporality};
use opentelemetry_sdk::runtime::Tokio;
use opentelemetry_sdk::trace::{BatchSpanProcessor, IdGenerator, Sampler, SdkTracerProvider, SpanData, SpanExporter, SpanLimits};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

fn set(k: &str, v: Option<&str>) {
    match v {
        Some(v) => std::env::set_var(k, v),
        None => std::env::remove_var(k),
    }
}

// ---------------------------------------------------------------- span limits
fn limits(r: &mut Run) {
    let vars = ["OTEL_SPAN_ATTRIBUTE_COUNT_LIMIT", "OTEL_SPAN_EVENT_COUNT_LIMIT", "OTEL_SPAN_LINK_COUNT_LIMIT"];
    let vals = [
        None, Some(""), Some("0"), Some("1"), Some("3"), Some("128"), Some("200"), Some("-1"), Some("abc"), Some("4294967295"), Some("4294967296"), Some("1.5"), Some(" 3"), Some("3 "),
        Some("0x3"), Some("3abc"), Some("99999999999999999999999"),
    ];
    let some = [None, Some("0"), Some("2"), Some("x")];
    let parse = |v: Option<&str>| v.filter(|v| !v.is_empty() && v.bytes().all(|b| b.is_ascii_digit())).and_then(|v| v.parse::<u32>().ok()).unwrap_or(128);
    let mut combos: Vec<[Option<&str>; 3]> = vec![];
    for which in 0..3 {
        for v in vals {
            for o in some {
                let mut c = [o; 3];
                c[which] = v;
                combos.push(c);
            }
        }
    }
    if r.thorough {
        for a in vals {
            for b in vals {
                for c in vals {
                    combos.push([a, b, c]);
                }
            }
        }
    }
    for c in combos {
        for code in 0..6 {
            r.case(|| format!("{vars:?}={c:?} code={code}"), |o| {
                for (k, v) in vars.iter().zip(c) {
                    set(k, v);
                }
                let mut want: [u32; 3] = c.map(parse);
                let sink = crate::span::Sink::default();
                let mut b = SdkTracerProvider::builder().with_span_processor(sink.clone()).with_sampler(Sampler::AlwaysOn);
                match code {
                    1 => {
                        b = b.with_max_attributes_per_span(5);
                        want[0] = 5;
                    }
                    2 => {
                        b = b.with_max_events_per_span(6);
                        want[1] = 6;
                    }
                    3 => {
                        b = b.with_max_links_per_span(7);
                        want[2] = 7;
                    }
                    4 => {
                        b = b.with_max_attributes_per_span(0).with_max_events_per_span(0).with_max_links_per_span(0);
                        want = [0; 3];
                    }
                    5 => {
                        b = b.with_span_limits(SpanLimits { max_attributes_per_span: 4, max_events_per_span: 3, max_links_per_span: 2, ..Default::default() });
                        want = [4, 3, 2];
                    }
                    _ => (),
                }
                let p = b.build();
                let mut s = p.tracer("t").start("s");
                const N: usize = 210;
                for i in 0..N {
                    s.set_attribute(KeyValue::new(format!("k{i}"), 1));
                    s.add_event("e", vec![]);
                    s.add_link(SpanContext::new(TraceId::from(1u128), SpanId::from(1 + i as u64), TraceFlags::SAMPLED, false, TraceState::NONE), vec![]);
                }
                s.end();
                let d = sink.take();
                same!(d.len(), 1, "spans");
                let got = [d[0].attributes.len(), d[0].events.events.len(), d[0].links.links.len()];
                let cut = want.map(|w| (w as usize).min(N));
                same!(got, cut, "attributes, events and links kept");
                same!([d[0].dropped_attributes_count, d[0].events.dropped_count, d[0].links.dropped_count].map(|x| x as usize), cut.map(|x| N - x), "dropped");
                o.step(&want);
                o.outcome(&got);
                Ok(())
            });
        }
    }
    vars.iter().for_each(|k| set(k, None));
}

// ---------------------------------------------------------------- sampler
#[derive(Debug, Clone, Default)]
struct Ids(Arc<AtomicU64>);
pub fn trace_ids() -> Vec<u128> {
    let mut v: Vec<u128> = vec![];
    for b in [0u64, 1, (1 << 60) - 1, 1 << 60, (1 << 61) - 1, 1 << 61, (1 << 62) - 1, 1 << 62, 3 << 61, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, 3 << 62, u64::MAX - 2, u64::MAX] {
        v.push((7u128 << 64) | b as u128);
        v.push(((b as u128) << 64) | 9);
    }
    v
}
impl IdGenerator for Ids {
    fn new_trace_id(&self) -> TraceId {
        let ids = trace_ids();
        TraceId::from(ids[self.0.fetch_add(1, Relaxed) as usize % ids.len()])
    }
    fn new_span_id(&self) -> SpanId {
        SpanId::from(self.0.load(Relaxed) + 1)
    }
}
fn decisions(p: &SdkTracerProvider) -> Vec<bool> {
    let t = p.tracer("t");
    let mut out = vec![];
    for parent in 0..5 {
        for (i, id) in trace_ids().into_iter().enumerate() {
            let cx = match parent {
                0 => Context::new(),
                n => Context::new().with_remote_span_context(SpanContext::new(TraceId::from(id), SpanId::from(5 + i as u64), TraceFlags::new((n & 1) as u8), n > 2, TraceState::NONE)),
            };
            let s = t.build_with_context(t.span_builder("s"), &cx);
            out.push(s.span_context().is_sampled());
        }
    }
    out
}
fn sampler(r: &mut Run) {
    let names = [
        None, Some(""), Some("always_on"), Some("always_off"), Some("traceidratio"), Some("parentbased_always_on"), Some("parentbased_always_off"), Some("parentbased_traceidratio"),
        Some("jaeger_remote"), Some("parentbased_jaeger_remote"), Some("xray"), Some("always"), Some("ALWAYS"), Some("nonsense"), Some("always_off2"),
    ];
    let args = [
        None, Some(""), Some("0"), Some("1"), Some("0.0"), Some("1.0"), Some("0.5"), Some("0.25"), Some("0.125"), Some("0.75"), Some("1e-1"), Some("0,5"), Some("half"), Some("0.5x"), Some("50%"), Some("--1"),
        // out of range: anything but a panic
        Some("-0.5"), Some("1.5"), Some("NaN"), Some("inf"), Some("-inf"), Some("1e999"),
    ];
    for name in names {
        for (ai, arg) in args.into_iter().enumerate() {
            for code in [None, Some(Sampler::AlwaysOff), Some(Sampler::AlwaysOn), Some(Sampler::TraceIdRatioBased(0.5)), Some(Sampler::ParentBased(Box::new(Sampler::AlwaysOff)))] {
                r.case(|| format!("OTEL_TRACES_SAMPLER={name:?} OTEL_TRACES_SAMPLER_ARG={arg:?} code={code:?}"), |o| {
                    set("OTEL_TRACES_SAMPLER", name);
                    set("OTEL_TRACES_SAMPLER_ARG", arg);
                    let sink = crate::span::Sink::default();
                    let mut b = SdkTracerProvider::builder().with_span_processor(sink.clone()).with_id_generator(Ids::default());
                    if let Some(s) = &code {
                        b = b.with_sampler(s.clone());
                    }
                    let p = b.build();
                    let got = decisions(&p);
                    let ratio = arg.and_then(|a| a.parse::<f64>().ok()).unwrap_or(1.0);
                    let want = code.clone().unwrap_or(match name {
                        Some("always_on") => Sampler::AlwaysOn,
                        Some("always_off") => Sampler::AlwaysOff,
                        Some("traceidratio") => Sampler::TraceIdRatioBased(ratio),
                        Some("parentbased_always_off") => Sampler::ParentBased(Box::new(Sampler::AlwaysOff)),
                        Some("parentbased_traceidratio") => Sampler::ParentBased(Box::new(Sampler::TraceIdRatioBased(ratio))),
                        _ => Sampler::ParentBased(Box::new(Sampler::AlwaysOn)),
                    });
                    let mut cases = 0;
                    if ai < 16 || code.is_some() || !name.is_some_and(|n| n.contains("ratio")) {
                        set("OTEL_TRACES_SAMPLER", None);
                        set("OTEL_TRACES_SAMPLER_ARG", None);
                        let q = SdkTracerProvider::builder().with_id_generator(Ids::default()).with_sampler(want.clone()).build();
                        same!(got, decisions(&q), "sampled flags, per parent and trace id");
                        cases = got.iter().filter(|x| **x).count();
                    }
                    o.step(&(name, arg, cases));
                    o.outcome(&cases);
                    Ok(())
                });
            }
        }
    }
    set("OTEL_TRACES_SAMPLER", None);
    set("OTEL_TRACES_SAMPLER_ARG", None);
}

// ---------------------------------------------------------------- batch processors
/// An exporter that holds every export until it is opened, and counts.
#[derive(Debug, Clone, Default)]
struct Gate(Arc<(Mutex<G>, Condvar)>);
#[derive(Debug, Default)]
struct G {
    open: bool,
    entered: Vec<usize>,
}
impl Gate {
    fn enter(&self, n: usize) {
        let mut g = self.0 .0.lock().unwrap();
        g.entered.push(n);
        self.0 .1.notify_all();
        while !g.open {
            g = self.0 .1.wait(g).unwrap();
        }
    }
    fn open(&self) {
        self.0 .0.lock().unwrap().open = true;
        self.0 .1.notify_all();
    }
    fn count(&self) -> usize {
        self.0 .0.lock().unwrap().entered.len()
    }
    /// Waits until `n` exports were entered.
    fn wait(&self, n: usize, d: Duration) -> bool {
        let end = Instant::now() + d;
        let mut g = self.0 .0.lock().unwrap();
        while g.entered.len() < n {
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() {
                return false;
            }
            g = self.0 .1.wait_timeout(g, left).unwrap().0;
        }
        true
    }
}
impl SpanExporter for Gate {
    async fn export(&self, b: Vec<SpanData>) -> OTelSdkResult {
        self.enter(b.len());
        Ok(())
    }
}
impl LogExporter for Gate {
    async fn export(&self, b: LogBatch<'_>) -> OTelSdkResult {
        self.enter(b.iter().count());
        Ok(())
    }
}
impl PushMetricExporter for Gate {
    async fn export(&self, _m: &mut ResourceMetrics) -> OTelSdkResult {
        self.enter(1);
        Ok(())
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown_with_timeout(&self, _t: Duration) -> OTelSdkResult {
        Ok(())
    }
    fn temporality(&self) -> Temporality {
        Temporality::Cumulative
    }
}
/// One batch pipeline under test.
enum Pipe {
    T(SdkTracerProvider),
    L(SdkLoggerProvider),
}
#[derive(Debug, Clone, Copy, Default)]
struct Code {
    queue: Option<usize>,
    batch: Option<usize>,
    delay: Option<u64>,
    /// configure the batch size before the queue size
    swapped: bool,
}
impl Pipe {
    fn new(logs: bool, g: &Gate, c: Code) -> Pipe {
        let plain = c.queue.is_none() && c.batch.is_none() && c.delay.is_none();
        macro_rules! cfg {
            ($b:ty) => {{
                let mut b = <$b>::default();
                if c.swapped {
                    b = c.batch.into_iter().fold(b, |b, n| b.with_max_export_batch_size(n));
                }
                b = c.queue.into_iter().fold(b, |b, n| b.with_max_queue_size(n));
                if !c.swapped {
                    b = c.batch.into_iter().fold(b, |b, n| b.with_max_export_batch_size(n));
                }
                c.delay.into_iter().fold(b, |b, n| b.with_scheduled_delay(Duration::from_millis(n))).build()
            }};
        }
        if logs {
            let b = SdkLoggerProvider::builder();
            Pipe::L(if plain {
                b.with_batch_exporter(g.clone()).build()
            } else {
                b.with_log_processor(BatchLogProcessor::builder(g.clone()).with_batch_config(cfg!(opentelemetry_sdk::logs::BatchConfigBuilder)).build()).build()
            })
        } else {
            let b = SdkTracerProvider::builder().with_sampler(Sampler::AlwaysOn);
            Pipe::T(if plain {
                b.with_batch_exporter(g.clone()).build()
            } else {
                b.with_span_processor(BatchSpanProcessor::builder(g.clone()).with_batch_config(cfg!(opentelemetry_sdk::trace::BatchConfigBuilder)).build()).build()
            })
        }
    }
    fn emit(&self, n: usize) {
        match self {
            Pipe::T(p) => {
                let t = p.tracer("t");
                (0..n).for_each(|_| t.start("s").end());
            }
            Pipe::L(p) => {
                let l = p.logger("l");
                (0..n).for_each(|i| {
                    let mut r = l.create_log_record();
                    r.set_body((i as i64).into());
                    l.emit(r)
                });
            }
        }
    }
    fn flush(&self) -> OTelSdkResult {
        match self {
            Pipe::T(p) => p.force_flush(),
            Pipe::L(p) => p.force_flush(),
        }
    }
    fn shutdown(&self) -> OTelSdkResult {
        match self {
            Pipe::T(p) => p.shutdown(),
            Pipe::L(p) => p.shutdown(),
        }
    }
}
fn var(logs: bool, what: &str) -> String {
    format!("OTEL_{}_{what}", if logs { "BLRP" } else { "BSP" })
}
fn number(v: Option<&str>) -> Option<usize> {
    v.filter(|v| !v.is_empty() && v.bytes().all(|b| b.is_ascii_digit())).and_then(|v| v.parse().ok())
}
fn sizes(r: &mut Run) {
    let vals = [None, Some(""), Some("0"), Some("1"), Some("2"), Some("3"), Some("7"), Some("600"), Some("3000"), Some("abc"), Some("-1"), Some("1.5"), Some(" 5"), Some("18446744073709551616")];
    let vals: Vec<Option<&str>> = if r.thorough { vals.to_vec() } else { [None, Some("0"), Some("1"), Some("3"), Some("600"), Some("-1"), Some(" 5")].to_vec() };
    let cq = [None, Some(1), Some(5), Some(4000)];
    let cb = [None, Some(1), Some(4), Some(3000)];
    for logs in [false, true] {
        for &q in &vals {
            for &b in &vals {
                for queue in cq {
                    for batch in cb {
                        for swapped in [false, true] {
                            if swapped && (queue.is_none() || batch.is_none()) {
                                continue;
                            }
                            let code = Code { queue, batch, delay: None, swapped };
                            r.case(|| format!("{}={q:?} {}={b:?} {code:?}", var(logs, "MAX_QUEUE_SIZE"), var(logs, "MAX_EXPORT_BATCH_SIZE")), |o| {
                                set(&var(logs, "MAX_QUEUE_SIZE"), q);
                                set(&var(logs, "MAX_EXPORT_BATCH_SIZE"), b);
                                // so that no export is due to time
                                set(&var(logs, "SCHEDULE_DELAY"), Some("3600000"));
                                let g = Gate::default();
                                let p = Pipe::new(logs, &g, code);
                                let qs = queue.or(number(q)).unwrap_or(2048);
                                let bs = batch.or(number(b)).unwrap_or(512).min(qs);
                                if qs == 0 || bs == 0 {
                                    // meaningless, but harmless
                                    g.open();
                                    p.emit(10);
                                    p.flush().map_err(|e| format!("flush: {e}"))?;
                                    p.shutdown().map_err(|e| format!("shutdown: {e}"))?;
                                    let n: usize = g.0 .0.lock().unwrap().entered.iter().sum();
                                    ensure!(n <= 10, "{n} delivered of 10");
                                    o.step(&(qs, bs));
                                    return Ok(());
                                }
                                p.emit(bs - 1);
                                if bs > 1 {
                                    std::thread::sleep(Duration::from_micros(300));
                                }
                                same!(g.count(), 0, "exports below the batch size {bs}");
                                p.emit(1);
                                ensure!(g.wait(1, Duration::from_secs(10)), "no export though a batch of {bs} is complete");
                                // the exporter holds a batch; what follows waits in the queue
                                p.emit(qs + 20);
                                g.open();
                                p.flush().map_err(|e| format!("flush: {e}"))?;
                                p.shutdown().map_err(|e| format!("shutdown: {e}"))?;
                                let e = g.0 .0.lock().unwrap().entered.clone();
                                same!(e[0], bs, "size of the first batch");
                                ensure!(e.iter().all(|n| *n <= bs), "batches {e:?} though the maximum is {bs}");
                                same!(e.iter().sum::<usize>(), bs + qs, "items delivered with batch size {bs} and queue size {qs}");
                                o.step(&(qs, bs));
                                o.outcome(&(qs, bs));
                                Ok(())
                            });
                        }
                    }
                }
            }
        }
        for w in ["MAX_QUEUE_SIZE", "MAX_EXPORT_BATCH_SIZE", "SCHEDULE_DELAY"] {
            set(&var(logs, w), None);
        }
    }
}
/// Is anything exported without a flush? With a short interval it must be, with a long one not before its time.
fn soon(g: &Gate, interval_ms: u64, from: Instant) -> R {
    if interval_ms <= 10 {
        ensure!(g.wait(1, Duration::from_secs(15)), "nothing is exported at the configured interval");
    } else {
        std::thread::sleep(Duration::from_millis(120));
        let n = g.count();
        ensure!(n == 0 || from.elapsed() >= Duration::from_millis(interval_ms), "{n} exports before the interval of {interval_ms} ms");
    }
    Ok(())
}
fn delays(r: &mut Run) {
    let vals = [None, Some(""), Some("1"), Some("10"), Some("3600000"), Some("18446744073709551615"), Some("-1"), Some("abc"), Some("1.5"), Some(" 1"), Some("1ms"), Some("99999999999999999999")];
    for logs in [false, true] {
        for v in vals {
            for delay in [None, Some(1u64), Some(3_600_000)] {
                for queue in [None, Some(100)] {
                    r.case(|| format!("{}={v:?} code={delay:?} queue={queue:?}", var(logs, "SCHEDULE_DELAY")), |o| {
                        set(&var(logs, "SCHEDULE_DELAY"), v);
                        let (g, from) = (Gate::default(), Instant::now());
                        g.open();
                        let p = Pipe::new(logs, &g, Code { delay, queue, ..Default::default() });
                        p.emit(1);
                        let want = delay.unwrap_or(number(v).map_or(1000, |n| n as u64));
                        soon(&g, want, from)?;
                        p.emit(1);
                        p.flush().map_err(|e| format!("flush: {e}"))?;
                        p.shutdown().map_err(|e| format!("shutdown: {e}"))?;
                        same!(g.0 .0.lock().unwrap().entered.iter().sum::<usize>(), 2, "items delivered");
                        o.step(&(logs, want));
                        o.outcome(&(want <= 10));
                        Ok(())
                    });
                }
            }
        }
        set(&var(logs, "SCHEDULE_DELAY"), None);
    }
}
fn interval(r: &mut Run) {
    let name = "OTEL_METRIC_EXPORT_INTERVAL";
    let vals = [None, Some(""), Some("0"), Some("1"), Some("10"), Some("3600000"), Some("18446744073709551615"), Some("-1"), Some("abc"), Some("1.5"), Some(" 1"), Some("99999999999999999999")];
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    for asy in [false, true] {
        for v in vals {
            for code in [None, Some(0u64), Some(1), Some(3_600_000)] {
                r.case(|| format!("{name}={v:?} code={code:?} async={asy}"), |o| {
                    set(name, v);
                    // an effective setting of zero is documented to mean the default
                    let want = code.filter(|c| *c != 0).unwrap_or(number(v).filter(|n| *n != 0).map_or(60_000, |n| n as u64));
                    if code == Some(0) && want <= 10 {
                        return Ok(()); // whether zero in code undoes the environment is not documented clearly
                    }
                    let (g, from) = (Gate::default(), Instant::now());
                    g.open();
                    let _in = rt.enter();
                    let p = if asy {
                        let mut b = periodic_reader_with_async_runtime::PeriodicReader::builder(g.clone(), Tokio);
                        b = code.into_iter().fold(b, |b, n| b.with_interval(Duration::from_millis(n)));
                        SdkMeterProvider::builder().with_reader(b.build()).build()
                    } else {
                        let mut b = PeriodicReader::builder(g.clone());
                        b = code.into_iter().fold(b, |b, n| b.with_interval(Duration::from_millis(n)));
                        SdkMeterProvider::builder().with_reader(b.build()).build()
                    };
                    p.meter("m").u64_counter("c").build().add(1, &[]);
                    soon(&g, want, from)?;
                    let before = g.count();
                    p.force_flush().map_err(|e| format!("flush: {e}"))?;
                    ensure!(g.count() > before, "flush exported nothing");
                    p.shutdown().map_err(|e| format!("shutdown: {e}"))?;
                    o.step(&(asy, want));
                    o.outcome(&(want <= 10));
                    Ok(())
                });
            }
        }
    }
    set(name, None);
}
/// An exporter that never finishes.
#[derive(Debug, Clone, Default)]
struct Stuck;
impl SpanExporter for Stuck {
    async fn export(&self, _b: Vec<SpanData>) -> OTelSdkResult {
        std::future::pending().await
    }
}
impl LogExporter for Stuck {
    async fn export(&self, _b: LogBatch<'_>) -> OTelSdkResult {
        std::future::pending().await
    }
}
impl PushMetricExporter for Stuck {
    async fn export(&self, _m: &mut ResourceMetrics) -> OTelSdkResult {
        std::future::pending().await
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown_with_timeout(&self, _t: Duration) -> OTelSdkResult {
        Ok(())
    }
    fn temporality(&self) -> Temporality {
        Temporality::Cumulative
    }
}
/// The processors on an async runtime give up an export after the configured timeout.
fn timeouts(r: &mut Run) {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let names = ["OTEL_BSP_EXPORT_TIMEOUT", "OTEL_BLRP_EXPORT_TIMEOUT", "OTEL_METRIC_EXPORT_TIMEOUT"];
    let vals = [None, Some(""), Some("1"), Some("20"), Some("3600000"), Some("18446744073709551615"), Some("-1"), Some("abc"), Some("1.5"), Some(" 1"), Some("0")];
    for sig in 0..3 {
        for v in vals {
            for code in [None, Some(1u64), Some(3_600_000)] {
                if v == Some("0") && (sig != 2 || code.is_some()) {
                    continue;
                }
                r.case(|| format!("{}={v:?} code={code:?}", names[sig]), |o| {
                    set(names[sig], v);
                    let want = code.unwrap_or(number(v).filter(|n| *n != 0).map_or(30_000, |n| n as u64));
                    let _in = rt.enter();
                    let (d, from) = (code.map(Duration::from_millis), Instant::now());
                    let (send, recv) = std::sync::mpsc::channel();
                    match sig {
                        0 => {
                            use opentelemetry_sdk::trace::{span_processor_with_async_runtime::BatchSpanProcessor as Abp, BatchConfigBuilder};
                            let b = Abp::builder(Stuck, Tokio);
                            let b = d.into_iter().fold(b, |b, d| b.with_batch_config(BatchConfigBuilder::default().with_max_export_timeout(d).build()));
                            let p = SdkTracerProvider::builder().with_sampler(Sampler::AlwaysOn).with_span_processor(b.build()).build();
                            p.tracer("t").start("s").end();
                            std::thread::spawn(move || send.send(p.force_flush().is_err()));
                        }
                        1 => {
                            use opentelemetry_sdk::logs::{log_processor_with_async_runtime::BatchLogProcessor as Abp, BatchConfigBuilder};
                            let b = Abp::builder(Stuck, Tokio);
                            let b = d.into_iter().fold(b, |b, d| b.with_batch_config(BatchConfigBuilder::default().with_max_export_timeout(d).build()));
                            let p = SdkLoggerProvider::builder().with_log_processor(b.build()).build();
                            let l = p.logger("l");
                            l.emit(l.create_log_record());
                            std::thread::spawn(move || send.send(p.force_flush().is_err()));
                        }
                        _ => {
                            let b = periodic_reader_with_async_runtime::PeriodicReader::builder(Stuck, Tokio);
                            let b = d.into_iter().fold(b, |b, d| b.with_timeout(d));
                            let p = SdkMeterProvider::builder().with_reader(b.build()).build();
                            p.meter("m").u64_counter("c").build().add(1, &[]);
                            std::thread::spawn(move || send.send(p.force_flush().is_err()));
                        }
                    }
                    if want <= 20 {
                        match recv.recv_timeout(Duration::from_secs(15)) {
                            Ok(err) => ensure!(err, "a flush whose export timed out reports success"),
                            Err(_) => return Err("the export is not given up".into()),
                        }
                    } else {
                        ensure!(recv.recv_timeout(Duration::from_millis(120)).is_err() || from.elapsed() >= Duration::from_millis(want), "flush returned though the export has not ended and its time is not up");
                    }
                    o.step(&(sig, want));
                    o.outcome(&(want <= 20));
                    Ok(())
                });
            }
        }
        set(names[sig], None);
    }
    rt.shutdown_background();
}
pub fn families() -> Vec<Family> {
    vec![serial("C41", "limits", limits), serial("C41", "sampler", sampler), serial("C41", "sizes", sizes), serial("C41", "delays", delays), serial("C41", "interval", interval), serial("C41", "timeouts", timeouts)]
}
