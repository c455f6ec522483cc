//! The three OTLP exporters behind one face, with a fixed batch each.
use crate::common::*;
use crate::tree::{binary, json_bytes, logs_request, metrics_request, trace_request};
use crate::{logs, mets, spans};
use opentelemetry::KeyValue;
use opentelemetry_otlp::{LogExporter, MetricExporter, Protocol, SpanExporter};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::logs::{LogBatch, LogExporter as _};
use opentelemetry_sdk::metrics::exporter::PushMetricExporter as _;
use opentelemetry_sdk::trace::SpanExporter as _;
use opentelemetry_sdk::Resource;
use std::future::Future;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Signal {
    Traces,
    Logs,
    Metrics,
}
pub const SIGNALS: [Signal; 3] = [Signal::Traces, Signal::Logs, Signal::Metrics];
impl Signal {
    pub fn path(self) -> &'static str {
        match self {
            Signal::Traces => "/v1/traces",
            Signal::Logs => "/v1/logs",
            Signal::Metrics => "/v1/metrics",
        }
    }
    pub fn var(self, what: &str) -> String {
        format!("OTEL_EXPORTER_OTLP_{}_{what}", format!("{self:?}").to_uppercase())
    }
}
#[derive(Debug)]
pub enum Exporter {
    Traces(SpanExporter),
    Logs(LogExporter),
    Metrics(MetricExporter),
}
impl Exporter {
    pub async fn run(&mut self, n: u64) -> OTelSdkResult {
        match self {
            Exporter::Traces(e) => e.export(spans::sample(n)).await,
            Exporter::Logs(e) => {
                let recs = logs::sample(n);
                let pairs: Vec<_> = recs.iter().map(|(d, r)| (r, &d.scope)).collect();
                e.export(LogBatch::new(&pairs)).await
            }
            Exporter::Metrics(e) => e.export(&mut mets::sample(n).0).await,
        }
    }
    /// Metrics bring their resource along with every batch.
    pub fn set_resource(&mut self, version: u64) {
        match self {
            Exporter::Traces(e) => e.set_resource(&resource(version)),
            Exporter::Logs(e) => e.set_resource(&resource(version)),
            Exporter::Metrics(_) => {}
        }
    }
    pub fn shutdown(&mut self) -> OTelSdkResult {
        match self {
            Exporter::Traces(e) => e.shutdown(),
            Exporter::Logs(e) => e.shutdown(),
            Exporter::Metrics(e) => e.shutdown(),
        }
    }
}
/// Runs an export whose client answers at once.
pub fn export(e: &mut Exporter, n: u64) -> OTelSdkResult {
    ready(e.run(n))
}
#[allow(unused)]
pub fn block<F: Future>(f: F) -> F::Output {
    ready(f)
}
/// The resource of a provider; version 0 stands for none given.
pub fn resource(version: u64) -> Resource {
    let b = Resource::builder_empty();
    match version {
        0 => b.build(),
        v if v % 2 == 0 => b.with_schema_url([KeyValue::new("version", v as i64), KeyValue::new("even", true)], "http://resource").build(),
        v => b.with_attribute(KeyValue::new("version", v as i64)).build(),
    }
}
/// Does the body hold exactly the batch `n` under this resource?
pub fn body_with(sig: Signal, p: Protocol, body: &[u8], n: u64, version: u64) -> Result<(), String> {
    let schema = match sig {
        Signal::Traces => trace_request(),
        Signal::Logs => logs_request(),
        Signal::Metrics => metrics_request(),
    };
    let t = if p == Protocol::HttpJson { json_bytes(schema, body) } else { binary(schema, body) };
    match sig {
        Signal::Traces => spans::judge("body", t, &spans::sample(n), &resource(version)),
        Signal::Logs => logs::judge("body", t, &logs::sample(n).into_iter().map(|x| x.0).collect::<Vec<_>>(), &resource(version)),
        Signal::Metrics => mets::judge_sample(t, n),
    }
}
