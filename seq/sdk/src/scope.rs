//! C42: which scope and resource telemetry carries.
use bmc::*;
use opentelemetry::logs::{LogRecord as _, Logger as _, LoggerProvider as _};
use opentelemetry::metrics::{Counter, MeterProvider as _};
use opentelemetry::trace::{Span as _, Tracer as _, TracerProvider as _};
use opentelemetry::{Array, InstrumentationScope, KeyValue, Value};
use opentelemetry_sdk::logs::{InMemoryLogExporter, SdkLoggerProvider};
use opentelemetry_sdk::metrics::data::{AggregatedMetrics, MetricData};
use opentelemetry_sdk::metrics::{data::ResourceMetrics, reader::MetricReader, InstrumentKind, ManualReader, Pipeline, SdkMeterProvider, Temporality};
use opentelemetry_sdk::trace::{InMemorySpanExporter, SdkTracerProvider};
use opentelemetry_sdk::Resource;
use std::collections::BTreeMap;
use std::sync::Arc;

/// The parts of a scope: name, version, schema URL, attributes in canonical order.
type Parts = (String, Option<String>, Option<String>, Vec<(String, String)>);
fn val(v: &Value) -> String {
    match v {
        Value::String(s) => format!("String({:?})", s.as_str()),
        v => format!("{v:?}"),
    }
}
fn parts(s: &InstrumentationScope) -> Parts {
    let mut a: Vec<_> = s.attributes().map(|kv| (kv.key.to_string(), val(&kv.value))).collect();
    a.sort();
    (s.name().into(), s.version().map(|x| x.into()), s.schema_url().map(|x| x.into()), a)
}
type Spec = (&'static str, Option<&'static str>, Option<&'static str>, Vec<(&'static str, Value)>);
fn build(s: &Spec, owned: bool) -> InstrumentationScope {
    let mut b = if owned { InstrumentationScope::builder(s.0.to_string()) } else { InstrumentationScope::builder(s.0) };
    if let Some(v) = s.1 {
        b = b.with_version(v);
    }
    if let Some(v) = s.2 {
        b = b.with_schema_url(v);
    }
    if !s.3.is_empty() {
        b = b.with_attributes(s.3.iter().map(|(k, v)| KeyValue::new(*k, v.clone())));
    }
    b.build()
}
fn model(s: &Spec) -> Parts {
    let mut a: Vec<_> = s.3.iter().map(|(k, v)| (k.to_string(), val(v))).collect();
    a.sort();
    (s.0.into(), s.1.map(|x| x.into()), s.2.map(|x| x.into()), a)
}
fn specs() -> Vec<Spec> {
    let a: Value = 1.into();
    let b: Value = "x".into();
    vec![
        ("n", None, None, vec![]),
        ("N", None, None, vec![]),
        ("n", Some("1"), None, vec![]),
        ("n", None, Some("1"), vec![]),
        ("n", Some("1"), Some("u"), vec![("k", a.clone()), ("l", b.clone())]),
        ("n", Some("1"), Some("u"), vec![("l", b.clone()), ("k", a.clone())]),
        ("n", Some("1"), Some("u"), vec![("k", b.clone()), ("l", a.clone())]),
        ("n", Some("1"), Some("u"), vec![("k", a.clone())]),
        ("n", Some("2"), Some("u"), vec![("k", a.clone())]),
        ("n", Some(""), Some(""), vec![]),
        ("", None, None, vec![]),
    ]
}
fn equality(r: &mut Run) {
    let vals: Vec<Value> = vec![
        1.into(), 2.into(), 1.0.into(), 0.0.into(), true.into(), false.into(), "1".into(), "true".into(), "".into(), Value::Array(Array::I64(vec![1])), Value::Array(Array::I64(vec![1, 2])),
        Value::Array(Array::I64(vec![2, 1])), Value::Array(Array::F64(vec![1.0])), Value::Array(Array::Bool(vec![true])), Value::Array(Array::String(vec!["1".into()])), Value::Array(Array::I64(vec![])),
        Value::Array(Array::Bool(vec![])), i64::MAX.into(), f64::INFINITY.into(),
    ];
    let mut all = specs();
    for v in &vals {
        all.push(("n", None, None, vec![("k", v.clone())]));
        all.push(("n", None, None, vec![("k", v.clone()), ("m", 1.into())]));
        all.push(("n", None, None, vec![("m", 1.into()), ("k", v.clone())]));
    }
    if r.thorough {
        for v in &vals {
            for w in &vals {
                all.push(("n", None, None, vec![("k", v.clone()), ("j", w.clone()), ("i", 0.into())]));
                all.push(("n", None, None, vec![("i", 0.into()), ("j", w.clone()), ("k", v.clone())]));
            }
        }
    }
    for x in &all {
        for y in &all {
            r.case(|| format!("{x:?} and {y:?}"), |o| {
                for owned in [false, true] {
                    let (a, b) = (build(x, false), build(y, owned));
                    same!(parts(&a), model(x), "parts of the scope");
                    let eq = model(x) == model(y);
                    same!(a == b, eq, "equality");
                    ensure!(!eq || hash(&a) == hash(&b), "equal scopes with different hashes");
                    o.step(&(model(x), model(y)));
                }
                Ok(())
            });
        }
    }
}

#[derive(Debug, Clone)]
struct Rd(Arc<ManualReader>);
impl MetricReader for Rd {
    fn register_pipeline(&self, p: std::sync::Weak<Pipeline>) {
        self.0.register_pipeline(p)
    }
    fn collect(&self, rm: &mut ResourceMetrics) -> opentelemetry_sdk::error::OTelSdkResult {
        self.0.collect(rm)
    }
    fn force_flush(&self) -> opentelemetry_sdk::error::OTelSdkResult {
        self.0.force_flush()
    }
    fn shutdown_with_timeout(&self, t: std::time::Duration) -> opentelemetry_sdk::error::OTelSdkResult {
        self.0.shutdown_with_timeout(t)
    }
    fn temporality(&self, k: InstrumentKind) -> Temporality {
        self.0.temporality(k)
    }
}
/// For every sequence in which scopes are obtained (and possibly kept) and used, by all three signals.
fn histories(r: &mut Run) {
    let sp = specs();
    // (scope, clone the thing obtained, obtain by name only where the scope is nothing but a name)
    let ops: Vec<(usize, u8)> = (0..sp.len()).flat_map(|i| [(i, 0), (i, 1)]).chain([0, 1, 10].map(|i| (i, 2))).collect();
    let d = r.pick(4, 5);
    let res = Resource::builder_empty().with_attribute(KeyValue::new("res", 1)).build();
    r.all_sequences(&ops, d, |s| format!("{s:?}"), |s, o| {
        let (te, le) = (InMemorySpanExporter::default(), InMemoryLogExporter::default());
        let tp = SdkTracerProvider::builder().with_simple_exporter(te.clone()).with_resource(res.clone()).build();
        let lp = SdkLoggerProvider::builder().with_simple_exporter(le.clone()).with_resource(res.clone()).build();
        let rd = Rd(Arc::new(ManualReader::builder().build()));
        let mp = SdkMeterProvider::builder().with_reader(rd.clone()).with_resource(res.clone()).build();
        let mut kept = vec![];
        let mut counters: Vec<Counter<u64>> = vec![];
        let mut want: Vec<Parts> = vec![];
        for (i, how) in s {
            let (t, l, m) = if *how == 2 {
                (tp.tracer(sp[*i].0), lp.logger(sp[*i].0), mp.meter(sp[*i].0))
            } else {
                (tp.tracer_with_scope(build(&sp[*i], false)), lp.logger_with_scope(build(&sp[*i], true)), mp.meter_with_scope(build(&sp[*i], *how == 1)))
            };
            let (t, l, m) = if *how == 1 { (t.clone(), l, m.clone()) } else { (t, l, m) };
            counters.push(m.u64_counter("c").build());
            kept.push((t, l, m));
            want.push(model(&sp[*i]));
            o.step(&want);
        }
        // use them in both directions, so that no "most recently obtained" could be right
        let n = kept.len();
        let order: Vec<usize> = (0..n).chain((0..n).rev()).collect();
        for (step, k) in order.iter().enumerate() {
            let mut sp = kept[*k].0.start(format!("{step}"));
            sp.end();
            let mut rec = kept[*k].1.create_log_record();
            rec.set_body((step as i64).into());
            kept[*k].1.emit(rec);
            counters[*k].add(1 + 100 * (*k as u64 + 1), &[]);
        }
        let spans = te.get_finished_spans().map_err(|e| format!("{e}"))?;
        let logs = le.get_emitted_logs().map_err(|e| format!("{e}"))?;
        same!(spans.len(), order.len(), "spans");
        same!(logs.len(), order.len(), "logs");
        for (step, k) in order.iter().enumerate() {
            same!(spans[step].name, format!("{step}"), "order of spans");
            same!(parts(&spans[step].instrumentation_scope), want[*k], "scope of the span");
            same!(parts(&logs[step].instrumentation), want[*k], "scope of the log record");
            same!(*logs[step].resource, res, "resource of the log record");
        }
        let mut rm = ResourceMetrics { resource: Resource::builder_empty().build(), scope_metrics: vec![] };
        rd.collect(&mut rm).map_err(|e| format!("collect: {e}"))?;
        if n > 0 {
            same!(rm.resource, res, "resource of the metrics");
        }
        let mut sums: BTreeMap<Parts, u64> = BTreeMap::new();
        for k in &order {
            *sums.entry(want[*k].clone()).or_default() += 1 + 100 * (*k as u64 + 1);
        }
        let mut got = BTreeMap::new();
        for sm in &rm.scope_metrics {
            same!(sm.metrics.len(), 1, "metrics of {:?}", sm.scope);
            let AggregatedMetrics::U64(MetricData::Sum(x)) = &sm.metrics[0].data else { return Err("not a sum".into()) };
            same!(x.data_points.len(), 1, "points");
            ensure!(got.insert(parts(&sm.scope), x.data_points[0].value).is_none(), "scope {:?} twice", sm.scope);
        }
        same!(got, sums, "sum per scope");
        o.outcome(&got.len());
        let _ = (tp.shutdown(), lp.shutdown(), mp.shutdown());
        Ok(())
    });
}
/// (scope, name, unit, description, kind of data, sum of the values of its points)
type Flat = BTreeMap<(Parts, String, String, String), (&'static str, i64)>;
fn flat(rm: &ResourceMetrics) -> Result<Flat, Fail> {
    let mut out = Flat::new();
    for sm in &rm.scope_metrics {
        for m in &sm.metrics {
            let v = match &m.data {
                AggregatedMetrics::U64(MetricData::Sum(x)) => ("u64 sum", x.data_points.len(), x.data_points.iter().map(|p| p.value as i64).sum()),
                AggregatedMetrics::I64(MetricData::Sum(x)) => ("i64 sum", x.data_points.len(), x.data_points.iter().map(|p| p.value).sum()),
                AggregatedMetrics::F64(MetricData::Histogram(x)) => ("f64 histogram", x.data_points.len(), x.data_points.iter().map(|p| p.sum as i64 + 1_000_000 * p.count as i64).sum()),
                AggregatedMetrics::F64(MetricData::Gauge(x)) => ("f64 gauge", x.data_points.len(), x.data_points.iter().map(|p| p.value as i64).sum()),
                _ => return Err(format!("unexpected data of {}", m.name).into()),
            };
            if v.1 > 0 {
                let k = (parts(&sm.scope), m.name.to_string(), m.unit.to_string(), m.description.to_string());
                ensure!(out.insert(k, (v.0, v.2)).is_none(), "{} appears twice in scope {:?}", m.name, sm.scope);
            }
        }
    }
    Ok(out)
}
/// Collections of what any instruments of several scopes measured since the one before, into new and
/// into reused memory.
fn collections(r: &mut Run) {
    let d = r.pick(3, 4);
    let sp = specs();
    let all: Vec<usize> = (0..32).collect();
    for (delta, late) in [(true, false), (false, false), (true, true), (false, true)] {
        r.all_sequences(&all, d, |s| format!("delta {delta}, instruments created when first used {late}, measured per interval (bit set) {s:?}"), |s, o| {
            let t = if delta { Temporality::Delta } else { Temporality::Cumulative };
            let readers: Vec<Rd> = (0..2).map(|_| Rd(Arc::new(ManualReader::builder().with_temporality(t).build()))).collect();
            let res = Resource::builder_empty().with_attribute(KeyValue::new("res", 1)).build();
            let mut b = SdkMeterProvider::builder().with_resource(res.clone());
            for x in &readers {
                b = b.with_reader(x.clone());
            }
            let mp = b.build();
            // three scopes; two of them have an instrument of one name
            let spec = [4usize, 4, 8, 0, 0];
            let name = ["a", "b", "a", "b", "c"];
            let kind = ["u64 sum", "f64 histogram", "f64 gauge", "i64 sum", "u64 sum"];
            let mut ins: Vec<Option<Box<dyn Fn(i64)>>> = (0..5).map(|_| None).collect();
            let make = |i: usize| -> Box<dyn Fn(i64)> {
                let m = mp.meter_with_scope(build(&sp[spec[i]], i % 2 == 0));
                match i {
                    0 | 4 => {
                        let c = m.u64_counter(name[i]).with_unit("u").with_description(format!("d{i}")).build();
                        Box::new(move |v| c.add(v as u64, &[]))
                    }
                    1 => {
                        let c = m.f64_histogram(name[i]).with_unit("u").with_description(format!("d{i}")).build();
                        Box::new(move |v| c.record(v as f64, &[]))
                    }
                    2 => {
                        let c = m.f64_gauge(name[i]).with_unit("u").with_description(format!("d{i}")).build();
                        Box::new(move |v| c.record(v as f64, &[]))
                    }
                    _ => {
                        let c = m.i64_up_down_counter(name[i]).with_unit("u").with_description(format!("d{i}")).build();
                        Box::new(move |v| c.add(-v, &[]))
                    }
                }
            };
            if !late {
                (0..5).for_each(|i| ins[i] = Some(make(i)));
            }
            let mut reused = ResourceMetrics { resource: Resource::builder_empty().build(), scope_metrics: vec![] };
            let mut totals: BTreeMap<usize, i64> = BTreeMap::new();
            for (n, set) in s.iter().enumerate() {
                if delta {
                    // up-down counters are cumulative in every preference
                    totals.retain(|i, _| *i == 3);
                }
                for i in (0..5).filter(|i| set >> i & 1 == 1) {
                    let v = (n as i64 + 1) * 10 + i as i64;
                    ins[i].get_or_insert_with(|| make(i))(v);
                    let e = totals.entry(i).or_default();
                    match i {
                        1 => *e += v + 1_000_000,
                        2 => *e = v,
                        3 => *e -= v,
                        _ => *e += v,
                    }
                }
                let want: Flat = totals.iter().map(|(i, v)| ((model(&sp[spec[*i]]), name[*i].into(), "u".into(), format!("d{i}")), (kind[*i], *v))).collect();
                let mut fresh = ResourceMetrics { resource: Resource::builder_empty().build(), scope_metrics: vec![] };
                readers[0].collect(&mut fresh).map_err(|e| format!("collect: {e}"))?;
                readers[1].collect(&mut reused).map_err(|e| format!("collect: {e}"))?;
                same!(flat(&fresh)?, want, "collection {n} into new memory");
                same!(flat(&reused)?, want, "collection {n} into reused memory");
                same!(reused.resource, res, "resource of the metrics");
                o.step(&want);
                o.outcome(&want.len());
            }
            let _ = mp.shutdown();
            Ok(())
        });
    }
}
pub fn families() -> Vec<Family> {
    vec![family("C42", "equality", equality), family("C42", "histories", histories), family("C42", "collections", collections)]
}
