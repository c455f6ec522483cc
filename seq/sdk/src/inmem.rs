//! C50: the in-memory exporters, used directly and through clones.
use bmc::*;
use opentelemetry::logs::{LogRecord as _, Logger as _, LoggerProvider as _};
use opentelemetry::metrics::MeterProvider as _;
use opentelemetry::trace::{Span as _, Tracer as _, TracerProvider as _};
use opentelemetry::{InstrumentationScope, KeyValue};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::logs::{InMemoryLogExporter, LogBatch, LogExporter, LogProcessor, SdkLogRecord, SdkLoggerProvider};
use opentelemetry_sdk::metrics::data::{AggregatedMetrics, MetricData, ResourceMetrics};
use opentelemetry_sdk::metrics::{exporter::PushMetricExporter, InMemoryMetricExporter, InMemoryMetricExporterBuilder, PeriodicReader, SdkMeterProvider, Temporality};
use opentelemetry_sdk::trace::{InMemorySpanExporter, SdkTracerProvider, SpanData, SpanExporter};
use opentelemetry_sdk::Resource;
use std::future::Future;
use std::pin::pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

fn now<T>(f: impl Future<Output = T>) -> T {
    match pin!(f).poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(x) => x,
        Poll::Pending => panic!("the export is not ready at once"),
    }
}
#[derive(Debug, Clone, Copy, Hash)]
enum Op {
    Export(usize),
    Read,
    Reset,
    Shutdown,
    SetResource,
    CloneIt,
}
use Op::*;
/// every operation on either of two clones
fn ops() -> Vec<(Op, usize)> {
    [Export(0), Export(1), Export(2), Read, Reset, Shutdown, SetResource, CloneIt].into_iter().flat_map(|o| [(o, 0), (o, 1)]).collect()
}
fn sample_span() -> SpanData {
    let s = crate::span::Sink::default();
    let p = SdkTracerProvider::builder().with_span_processor(s.clone()).build();
    p.tracer("t").start("x").end();
    s.take().remove(0)
}
fn spans(r: &mut Run) {
    let d = r.pick(5, 6);
    let proto = sample_span();
    r.all_sequences(&ops(), d, |s| format!("{s:?}"), |s, o| {
        let a = InMemorySpanExporter::default();
        let mut e = [a.clone(), a];
        let mut model: Vec<String> = vec![];
        let mut n = 0;
        for (op, w) in s {
            match op {
                Export(k) => {
                    let batch: Vec<SpanData> = (0..*k)
                        .map(|_| {
                            n += 1;
                            let mut x = proto.clone();
                            x.name = format!("{n}").into();
                            x
                        })
                        .collect();
                    model.extend(batch.iter().map(|x| x.name.to_string()));
                    now(e[*w].export(batch)).map_err(|e| format!("{e}"))?;
                }
                Read => (),
                Reset => {
                    e[*w].reset();
                    model.clear();
                }
                Shutdown => {
                    e[*w].shutdown().map_err(|e| format!("{e}"))?;
                    model.clear();
                }
                SetResource => e[*w].set_resource(&Resource::builder_empty().build()),
                CloneIt => e[*w] = e[1 - *w].clone(),
            }
            o.step(&model);
            for x in &e {
                let got: Vec<String> = x.get_finished_spans().map_err(|e| format!("{e}"))?.iter().map(|x| x.name.to_string()).collect();
                same!(got, model, "spans after {op:?}");
            }
        }
        o.outcome(&model.len());
        Ok(())
    });
}
#[derive(Debug, Clone, Default)]
struct Grab(Arc<Mutex<Vec<(SdkLogRecord, InstrumentationScope)>>>);
impl LogProcessor for Grab {
    fn emit(&self, r: &mut SdkLogRecord, s: &InstrumentationScope) {
        self.0.lock().unwrap().push((r.clone(), s.clone()));
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown(&self) -> OTelSdkResult {
        Ok(())
    }
}
fn logs(r: &mut Run) {
    let d = r.pick(5, 6);
    let g = Grab::default();
    let p = SdkLoggerProvider::builder().with_log_processor(g.clone()).build();
    for i in 0..12 {
        let l = p.logger(format!("l{i}"));
        let mut r = l.create_log_record();
        r.set_body((i as i64).into());
        l.emit(r);
    }
    let records = g.0.lock().unwrap().clone();
    r.all_sequences(&ops(), d, |s| format!("{s:?}"), |s, o| {
        let a = InMemoryLogExporter::default();
        let mut e = [a.clone(), a];
        let mut model: Vec<usize> = vec![];
        let mut n = 0;
        let (mut res, mut down) = (None, false);
        for (op, w) in s {
            match op {
                Export(k) => {
                    let batch: Vec<(&SdkLogRecord, &InstrumentationScope)> = (n..n + k).map(|i| (&records[i].0, &records[i].1)).collect();
                    model.extend(n..n + k);
                    n += k;
                    now(e[*w].export(LogBatch::new(&batch))).map_err(|e| format!("{e}"))?;
                }
                Read => (),
                Reset => {
                    e[*w].reset();
                    model.clear();
                }
                Shutdown => {
                    e[*w].shutdown().map_err(|e| format!("{e}"))?;
                    model.clear();
                    down = true;
                }
                SetResource => {
                    let x = Resource::builder_empty().with_attribute(KeyValue::new("n", n as i64)).build();
                    e[*w].set_resource(&x);
                    res = Some(x);
                }
                CloneIt => e[*w] = e[1 - *w].clone(),
            }
            o.step(&(&model, down));
            for x in &e {
                let got = x.get_emitted_logs().map_err(|e| format!("{e}"))?;
                same!(got.len(), model.len(), "records after {op:?}");
                for (y, i) in got.iter().zip(&model) {
                    same!(y.record, records[*i].0, "record");
                    same!(y.instrumentation, records[*i].1, "its scope");
                    if let Some(r) = &res {
                        same!(*y.resource, *r, "its resource");
                    }
                }
                same!(x.is_shutdown_called(), down, "is_shutdown_called");
            }
        }
        o.outcome(&model.len());
        Ok(())
    });
}
fn text(m: &ResourceMetrics) -> String {
    fn inner<T: std::fmt::Debug + Copy>(d: &MetricData<T>) -> String {
        match d {
            MetricData::Gauge(g) => format!("{g:?}"),
            MetricData::Sum(g) => format!("{g:?}"),
            MetricData::Histogram(g) => format!("{g:?}"),
            MetricData::ExponentialHistogram(g) => format!("{g:?}"),
        }
    }
    let mut s = format!("{:?}", m.resource);
    for sm in &m.scope_metrics {
        s += &format!(" scope {:?}", sm.scope);
        for m in &sm.metrics {
            s += &format!(" metric {} {} {} ", m.name, m.unit, m.description);
            s += &match &m.data {
                AggregatedMetrics::F64(d) => format!("F64 {}", inner(d)),
                AggregatedMetrics::U64(d) => format!("U64 {}", inner(d)),
                AggregatedMetrics::I64(d) => format!("I64 {}", inner(d)),
            };
        }
    }
    s
}
/// Takes what a reader exports, and what an in-memory exporter makes of it.
#[derive(Debug, Clone)]
struct Tee(Arc<Mutex<Vec<(String, ResourceMetrics)>>>, InMemoryMetricExporter);
impl PushMetricExporter for Tee {
    async fn export(&self, m: &mut ResourceMetrics) -> OTelSdkResult {
        let t = text(m);
        self.1.reset();
        self.1.export(m).await?;
        self.0.lock().unwrap().push((t, self.1.get_finished_metrics().unwrap().remove(0)));
        Ok(())
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown_with_timeout(&self, _t: std::time::Duration) -> OTelSdkResult {
        Ok(())
    }
    fn temporality(&self) -> Temporality {
        self.1.temporality()
    }
}
fn collected() -> Vec<(String, ResourceMetrics)> {
    let t = Tee(Default::default(), InMemoryMetricExporter::default());
    let p = SdkMeterProvider::builder().with_reader(PeriodicReader::builder(t.clone()).build()).with_resource(Resource::builder_empty().build()).build();
    let m = p.meter("m");
    for i in 0..10u64 {
        match i {
            1 => m.u64_counter("a").with_unit("u").with_description("d").build().add(1, &[KeyValue::new("k", 1)]),
            2 => m.f64_counter("b").build().add(1.5, &[]),
            3 => m.i64_up_down_counter("c").build().add(-1, &[]),
            4 => m.f64_histogram("d").build().record(3.0, &[]),
            5 => m.u64_histogram("e").build().record(3, &[]),
            6 => m.i64_gauge("f").build().record(3, &[]),
            7 => p.meter("m2").f64_gauge("f").build().record(3.0, &[]),
            8 => p.meter("m2").f64_up_down_counter("g").build().add(3.0, &[]),
            _ => m.u64_counter("a").with_unit("u").with_description("d").build().add(i, &[KeyValue::new("k", 2)]),
        }
        p.force_flush().unwrap();
    }
    let _ = p.shutdown();
    let v = std::mem::take(&mut *t.0.lock().unwrap());
    v
}
fn metrics(r: &mut Run) {
    let d = r.pick(5, 6);
    let all = collected();
    let ops: Vec<_> = ops().into_iter().filter(|(o, _)| !matches!(o, Export(0) | SetResource)).collect();
    for temp in [None, Some(Temporality::Cumulative), Some(Temporality::Delta), Some(Temporality::LowMemory)] {
        r.case(|| format!("contents, {temp:?}"), |o| {
            let mut b = InMemoryMetricExporterBuilder::new();
            if let Some(t) = temp {
                b = b.with_temporality(t);
            }
            let e = b.build();
            same!(e.temporality(), temp.unwrap_or_default(), "temporality");
            same!(e.clone().temporality(), temp.unwrap_or_default(), "temporality of a clone");
            for (t, m) in &all {
                same!(text(m), *t, "what the exporter returns");
                o.step(t);
            }
            same!(all.len() >= 10, true, "collections");
            Ok(())
        });
    }
    r.all_sequences(&ops, d, |s| format!("{s:?}"), |s, o| {
        let a = InMemoryMetricExporter::default();
        let mut e = [a.clone(), a];
        let mut model: Vec<&str> = vec![];
        let mut n = 0;
        for (op, w) in s {
            match op {
                Export(k) => {
                    for _ in 0..*k {
                        // an exporter may get the same ResourceMetrics again, so it must copy
                        let src = &all[n % all.len()];
                        n += 1;
                        let mut rm = clone_metrics(&src.1);
                        now(e[*w].export(&mut rm)).map_err(|e| format!("{e}"))?;
                        rm.scope_metrics.clear();
                        model.push(&src.0);
                    }
                }
                Read | SetResource => (),
                Reset => {
                    e[*w].reset();
                    model.clear();
                }
                Shutdown => e[*w].shutdown().map_err(|e| format!("{e}"))?,
                CloneIt => e[*w] = e[1 - *w].clone(),
            }
            o.step(&model);
            for x in &e {
                let got: Vec<String> = x.get_finished_metrics().map_err(|e| format!("{e}"))?.iter().map(text).collect();
                same!(got, model, "metrics after {op:?}");
            }
            if let Shutdown = op {
                now(e[*w].export(&mut ResourceMetrics { resource: Resource::builder_empty().build(), scope_metrics: vec![] })).map_err(|e| format!("{e}"))?;
                e[*w].reset();
                model.clear();
            }
        }
        o.outcome(&model.len());
        Ok(())
    });
}
fn clone_metrics(m: &ResourceMetrics) -> ResourceMetrics {
    use opentelemetry_sdk::metrics::data::{Metric, ScopeMetrics};
    fn inner<T: Copy>(d: &MetricData<T>) -> MetricData<T> {
        use opentelemetry_sdk::metrics::data::*;
        match d {
            MetricData::Gauge(g) => MetricData::Gauge(Gauge { data_points: g.data_points.clone(), start_time: g.start_time, time: g.time }),
            MetricData::Sum(s) => MetricData::Sum(Sum { data_points: s.data_points.clone(), start_time: s.start_time, time: s.time, temporality: s.temporality, is_monotonic: s.is_monotonic }),
            MetricData::Histogram(s) => MetricData::Histogram(Histogram { data_points: s.data_points.clone(), start_time: s.start_time, time: s.time, temporality: s.temporality }),
            MetricData::ExponentialHistogram(s) => {
                MetricData::ExponentialHistogram(ExponentialHistogram { data_points: s.data_points.clone(), start_time: s.start_time, time: s.time, temporality: s.temporality })
            }
        }
    }
    ResourceMetrics {
        resource: m.resource.clone(),
        scope_metrics: m
            .scope_metrics
            .iter()
            .map(|s| ScopeMetrics {
                scope: s.scope.clone(),
                metrics: s
                    .metrics
                    .iter()
                    .map(|x| Metric {
                        name: x.name.clone(),
                        description: x.description.clone(),
                        unit: x.unit.clone(),
                        data: match &x.data {
                            AggregatedMetrics::F64(d) => AggregatedMetrics::F64(inner(d)),
                            AggregatedMetrics::U64(d) => AggregatedMetrics::U64(inner(d)),
                            AggregatedMetrics::I64(d) => AggregatedMetrics::I64(inner(d)),
                        },
                    })
                    .collect(),
            })
            .collect(),
    }
}
pub fn families() -> Vec<Family> {
    vec![family("C50", "spans", spans), family("C50", "logs", logs), family("C50", "metrics", metrics)]
}
