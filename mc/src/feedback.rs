//! C55: what exporters do on the SDK's own threads, or under the simple log processor, produces no telemetry.
//! The exporters of all three signals start spans and emit logs with the very providers they serve, in every call.
use crate::logs::id_of;
use crate::spans::sdk;
use mcstd::explore::{scenario, Scenario};
use mcstd::mc;
use mcstd::real::sync::Mutex as RMutex;
use opentelemetry::logs::{AnyValue, LogRecord as _, Logger as _, LoggerProvider as _, Severity};
use opentelemetry::metrics::MeterProvider as _;
use opentelemetry::trace::{Span as _, TraceContextExt, Tracer as _, TracerProvider as _};
use opentelemetry::Context;
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::logs::{BatchConfigBuilder as LogConfig, BatchLogProcessor, LogBatch, LogExporter, SdkLoggerProvider};
use opentelemetry_sdk::metrics::data::ResourceMetrics;
use opentelemetry_sdk::metrics::exporter::PushMetricExporter;
use opentelemetry_sdk::metrics::{PeriodicReader, SdkMeterProvider, Temporality};
use opentelemetry_sdk::trace::{BatchConfigBuilder, BatchSpanProcessor, SdkTracerProvider, SpanData, SpanExporter};
use opentelemetry_sdk::Resource;
use std::sync::Arc;
use std::time::Duration;

#[derive(Default)]
struct World {
    tracer: Option<SdkTracerProvider>,
    logger: Option<SdkLoggerProvider>,
    spans: Vec<u32>,
    logs: Vec<u32>,
    metrics: usize,
    /// how often exporters have worked
    worked: usize,
    fail: bool,
}
#[derive(Clone)]
struct W(Arc<RMutex<World>>);
impl mcstd::real::fmt::Debug for W {
    fn fmt(&self, f: &mut mcstd::real::fmt::Formatter<'_>) -> mcstd::real::fmt::Result {
        f.write_str("W")
    }
}
const INNER: u32 = 1000;
impl W {
    /// An exporter that is itself instrumented.
    fn work(&self, site: &str) {
        let (t, l) = {
            let mut w = self.0.lock().unwrap();
            w.worked += 1;
            mc::log(format!("{site} works"));
            (w.tracer.clone(), w.logger.clone())
        };
        if let Some(t) = t {
            let t = t.tracer("inner");
            let mut s = t.start(INNER.to_string());
            if s.is_recording() || s.span_context().is_sampled() {
                mc::violation(format!("a span started in {site} is recording"));
            }
            s.end();
            t.in_span((INNER + 1).to_string(), |cx| {
                if cx.span().is_recording() {
                    mc::violation(format!("a span made active in {site} is recording"));
                }
                self.log();
            });
        }
        if let Some(l) = l {
            if l.logger("inner").event_enabled(Severity::Error, "t", None) {
                mc::violation(format!("logging is enabled in {site}"));
            }
            self.log();
            // also under a context derived from the current one
            let _g = Context::current_with_value(7u8).attach();
            self.log();
        }
        if !Context::is_current_telemetry_suppressed() {
            mc::violation(format!("telemetry is not suppressed in {site}"));
        }
    }
    fn log(&self) {
        let l = self.0.lock().unwrap().logger.clone();
        if let Some(l) = l {
            emit(&l, INNER);
        }
    }
    fn done(&self) -> OTelSdkResult {
        sdk(if self.0.lock().unwrap().fail { Err("failed".into()) } else { Ok(()) })
    }
}
fn emit(l: &SdkLoggerProvider, id: u32) {
    let l = l.logger("l");
    let mut r = l.create_log_record();
    r.set_body(AnyValue::Int(id as i64));
    l.emit(r);
}
#[derive(Debug)]
struct Spans(W);
impl SpanExporter for Spans {
    async fn export(&self, b: Vec<SpanData>) -> OTelSdkResult {
        self.0.work("the export of spans");
        self.0 .0.lock().unwrap().spans.extend(b.iter().map(|s| s.name.parse::<u32>().unwrap()));
        self.0.done()
    }
    fn shutdown(&mut self) -> OTelSdkResult {
        self.0.work("the shutdown of the span exporter");
        Ok(())
    }
    fn set_resource(&mut self, _: &Resource) {
        self.0.work("set_resource of the span exporter");
    }
}
/// The simple log processor suppresses in its exports only.
#[derive(Debug)]
struct Logs(W, bool);
impl LogExporter for Logs {
    async fn export(&self, b: LogBatch<'_>) -> OTelSdkResult {
        self.0.work("the export of logs");
        self.0 .0.lock().unwrap().logs.extend(b.iter().map(|(r, _)| id_of(r)));
        self.0.done()
    }
    fn shutdown(&self) -> OTelSdkResult {
        if !self.1 {
            self.0.work("the shutdown of the log exporter");
        }
        Ok(())
    }
    fn set_resource(&mut self, _: &Resource) {
        if !self.1 {
            self.0.work("set_resource of the log exporter");
        }
    }
}
struct Mets(W);
impl PushMetricExporter for Mets {
    async fn export(&self, _: &mut ResourceMetrics) -> OTelSdkResult {
        self.0.work("the export of metrics");
        self.0 .0.lock().unwrap().metrics += 1;
        self.0.done()
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown_with_timeout(&self, _: Duration) -> OTelSdkResult {
        self.0.work("the shutdown of the metric exporter");
        Ok(())
    }
    fn temporality(&self) -> Temporality {
        Temporality::Delta
    }
}

#[derive(Clone, Copy, PartialEq)]
enum LogBy {
    Batch,
    Simple,
}
#[derive(Clone, Copy)]
enum Do {
    Span(u32),
    Log(u32),
    Add,
    Wait(u64),
    FlushSpans,
    FlushLogs,
    FlushMetrics,
}
use Do::*;
fn run(by: LogBy, fail: bool, threads: &[Vec<Do>]) -> String {
    let w = W(Arc::new(RMutex::new(World { fail, ..Default::default() })));
    let delay = Duration::from_millis(1000);
    let tp = SdkTracerProvider::builder()
        .with_span_processor(BatchSpanProcessor::builder(Spans(w.clone())).with_batch_config(BatchConfigBuilder::default().with_max_queue_size(16).with_max_export_batch_size(2).with_scheduled_delay(delay).build()).build())
        .build();
    let lp = SdkLoggerProvider::builder();
    let lp = match by {
        LogBy::Batch => lp.with_log_processor(BatchLogProcessor::builder(Logs(w.clone(), false)).with_batch_config(LogConfig::default().with_max_queue_size(16).with_max_export_batch_size(2).with_scheduled_delay(delay).build()).build()),
        LogBy::Simple => lp.with_simple_exporter(Logs(w.clone(), true)),
    }
    .build();
    let mp = SdkMeterProvider::builder().with_reader(PeriodicReader::builder(Mets(w.clone())).with_interval(delay).build()).build();
    {
        let mut i = w.0.lock().unwrap();
        i.tracer = Some(tp.clone());
        i.logger = Some(lp.clone());
    }
    let c = mp.meter("m").u64_counter("c").build();
    let go = |ops: &[Do]| {
        for op in ops {
            match *op {
                Span(id) => {
                    let s = tp.tracer("t").start(id.to_string());
                    if !s.is_recording() {
                        mc::violation(format!("span {id} of the application is not recording"));
                    }
                }
                Log(id) => emit(&lp, id),
                Add => c.add(1, &[]),
                Wait(ms) => std::thread::sleep(Duration::from_millis(ms)),
                FlushSpans => drop(tp.force_flush()),
                FlushLogs => drop(lp.force_flush()),
                FlushMetrics => drop(mp.force_flush()),
            }
            if Context::is_current_telemetry_suppressed() {
                mc::violation("telemetry is suppressed in the application".to_string());
            }
        }
    };
    std::thread::scope(|s| {
        for ops in &threads[1..] {
            s.spawn(|| go(ops));
        }
        go(&threads[0]);
    });
    drop((tp.shutdown(), lp.shutdown(), mp.shutdown()));
    let (mut spans, mut logs, worked, metrics) = {
        let mut i = w.0.lock().unwrap();
        let x = (std::mem::take(&mut i.tracer), std::mem::take(&mut i.logger));
        drop(i);
        drop(x);
        let i = w.0.lock().unwrap();
        (i.spans.clone(), i.logs.clone(), i.worked, i.metrics)
    };
    let mut want: (Vec<u32>, Vec<u32>) = Default::default();
    for op in threads.iter().flatten() {
        match *op {
            Span(id) => want.0.push(id),
            Log(id) => want.1.push(id),
            _ => {}
        }
    }
    spans.sort();
    logs.sort();
    want.0.sort();
    want.1.sort();
    if (&spans, &logs) != (&want.0, &want.1) {
        mc::violation(format!("exported spans {spans:?} and logs {logs:?}, the application made {:?} and {:?}", want.0, want.1));
    }
    if worked == 0 {
        mc::violation("no exporter was called".to_string());
    }
    format!("{worked} calls, {metrics} metric exports")
}
pub fn scenarios() -> Vec<Scenario> {
    let s = |name: &'static str, q, t, by, fail, threads: Vec<Vec<Do>>| scenario("C55", name, q, t, move || run(by, fail, &threads)).with(|c| c.early_timers = false);
    use LogBy::*;
    vec![
        s("feedback.batch", 2, 3, Batch, false, vec![vec![Span(1), Log(2), Add, Wait(2100), Span(3), Log(4)]]),
        s("feedback.full_batches", 1, 2, Batch, false, vec![vec![Span(1), Span(2), Log(3), Log(4), Add, Span(5)]]),
        s("feedback.flushes", 1, 2, Batch, false, vec![vec![Span(1), FlushSpans, Log(2), FlushLogs, Add, FlushMetrics, Span(3), Log(4)]]),
        s("feedback.two_threads", 1, 2, Batch, false, vec![vec![Span(1), FlushSpans], vec![Log(2), FlushLogs]]),
        s("feedback.failing", 1, 2, Batch, true, vec![vec![Span(1), Span(2), FlushSpans, Log(3), FlushLogs, Add, FlushMetrics, Wait(1100), Span(4), Log(5)]]),
        s("feedback.simple_log", 2, 3, Simple, false, vec![vec![Log(1), Span(2), Log(3)]]),
        s("feedback.simple_log_threads", 1, 2, Simple, false, vec![vec![Log(1), Span(2), Log(3)], vec![Log(4), Span(5)]]),
        s("feedback.simple_log_failing", 2, 3, Simple, true, vec![vec![Log(1), Span(2), Log(3)]]),
    ]
}
