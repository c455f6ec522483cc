//! C40: resources.
use bmc::*;
use opentelemetry::{Key, KeyValue, Value};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::logs::{LogProcessor, SdkLogRecord, SdkLoggerProvider};
use opentelemetry_sdk::metrics::{data::ResourceMetrics, exporter::PushMetricExporter, PeriodicReader, SdkMeterProvider, Temporality};
use opentelemetry_sdk::resource::{EnvResourceDetector, ResourceDetector, SdkProvidedResourceDetector, TelemetryResourceDetector};
use opentelemetry_sdk::trace::{SdkTracerProvider, Span, SpanData, SpanProcessor};
use opentelemetry_sdk::Resource;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone, PartialEq, Default)]
pub struct M {
    attrs: BTreeMap<String, String>,
    schema: Option<String>,
}
impl std::hash::Hash for M {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.attrs.hash(h);
        self.schema.hash(h);
    }
}
impl M {
    fn put(&mut self, k: &str, v: &Value) {
        self.attrs.insert(k.into(), show(v));
    }
    fn url(&mut self, u: &str) {
        if u.is_empty() {
            return;
        }
        self.schema = match &self.schema {
            None => Some(u.into()),
            Some(x) if x == u => Some(u.into()),
            Some(_) => None,
        }
    }
}
/// A value, however its string is stored
fn show(v: &Value) -> String {
    match v {
        Value::String(s) => format!("String({:?})", s.as_str()),
        v => format!("{v:?}"),
    }
}
/// Reads a resource in every way it can be read; they must agree.
pub fn read(r: &Resource) -> Result<M, Fail> {
    let mut m = M { schema: r.schema_url().map(|s| s.to_string()), ..Default::default() };
    for (k, v) in r.iter() {
        ensure_(m.attrs.insert(k.to_string(), show(v)).is_none(), || format!("key {k} twice"))?;
        ensure_(r.get(k).as_ref() == Some(v), || format!("get({k}) is {:?}, iteration has {v:?}", r.get(k)))?;
    }
    let mut n = 0;
    for (k, v) in r {
        n += 1;
        ensure_(m.attrs.get(k.as_str()) == Some(&show(v)), || "into_iter differs".into())?;
    }
    ensure_(n == m.attrs.len() && r.len() == n && r.is_empty() == (n == 0), || format!("len {} is_empty {} of {n} attributes", r.len(), r.is_empty()))?;
    ensure_(r.get(&Key::new("no such key")).is_none(), || "get of an absent key".into())?;
    Ok(m)
}
fn ensure_(c: bool, m: impl FnOnce() -> String) -> Result<(), Fail> {
    if c { Ok(()) } else { Err(m().into()) }
}

#[derive(Debug, Clone, PartialEq)]
enum Op {
    Attr(&'static str, i64),
    Attrs(Vec<(&'static str, i64)>),
    Name,
    Schema(Vec<(&'static str, i64)>, &'static str),
    Detect(Vec<D>),
}
#[derive(Debug, Clone, PartialEq)]
struct D(Vec<(&'static str, i64)>, &'static str);
impl ResourceDetector for D {
    fn detect(&self) -> Resource {
        Resource::builder_empty().with_schema_url(kv(&self.0, 0), self.1).build()
    }
}
fn kv(v: &[(&'static str, i64)], n: i64) -> Vec<KeyValue> {
    v.iter().map(|(k, x)| KeyValue::new(*k, x + n)).collect()
}
fn alphabet() -> Vec<Op> {
    vec![
        Op::Attr("a", 1), Op::Attr("b", 2), Op::Attrs(vec![]), Op::Attrs(vec![("a", 3), ("c", 4), ("a", 5)]), Op::Name, Op::Schema(vec![], "u1"), Op::Schema(vec![("d", 6)], "u2"),
        Op::Schema(vec![("a", 7)], ""), Op::Detect(vec![D(vec![("a", 8), ("e", 9)], "")]), Op::Detect(vec![D(vec![("e", 10)], "u1"), D(vec![("e", 11), ("b", 12)], "u1")]),
        Op::Detect(vec![D(vec![], "u2"), D(vec![("b", 13)], "")]), Op::Detect(vec![D(vec![("b", 14)], "u1"), D(vec![("b", 15)], "u2")]), Op::Detect(vec![]),
    ]
}

fn real(s: &[Op]) -> Resource {
    let mut b = Resource::builder_empty();
    for (n, op) in s.iter().enumerate() {
        let n = n as i64 * 100;
        b = match op {
            Op::Attr(k, v) => b.with_attribute(KeyValue::new(*k, v + n)),
            Op::Attrs(v) => b.with_attributes(kv(v, n)),
            Op::Name => b.with_service_name(format!("svc{n}")),
            Op::Schema(v, u) => b.with_schema_url(kv(v, n), *u),
            Op::Detect(ds) => match &ds[..] {
                [d] => b.with_detector(Box::new(d.clone())),
                _ => b.with_detectors(&ds.iter().map(|d| Box::new(d.clone()) as Box<dyn ResourceDetector>).collect::<Vec<_>>()),
            },
        };
    }
    b.build()
}
fn model(s: &[Op], o: &mut Obs) -> Result<M, Fail> {
    let mut m = M::default();
    for (i, op) in s.iter().enumerate() {
        let n = i as i64 * 100;
        match op {
            Op::Attr(k, v) => m.put(k, &Value::I64(v + n)),
            Op::Attrs(v) => v.iter().for_each(|(k, x)| m.put(k, &Value::I64(x + n))),
            Op::Name => m.put("service.name", &Value::from(format!("svc{n}"))),
            Op::Schema(v, u) => {
                // whether the attributes given here or those already there win is not documented: one of them
                let now = read(&real(&s[..=i]))?;
                for (k, x) in v {
                    let new = Some(show(&Value::I64(x + n)));
                    let old = m.attrs.get(*k).cloned();
                    let got = now.attrs.get(*k).cloned();
                    ensure_(got == new || old.is_some() && got == old, || format!("{k} is {got:?} after with_schema_url"))?;
                    m.attrs.insert(k.to_string(), got.unwrap());
                }
                m.url(u);
            }
            Op::Detect(ds) => {
                let mut dm = M::default();
                for d in ds {
                    d.0.iter().for_each(|(k, x)| dm.put(k, &Value::I64(*x)));
                    dm.url(d.1);
                }
                m.attrs.extend(dm.attrs);
                if let Some(u) = dm.schema {
                    m.url(&u);
                }
            }
        }
        o.step(&m);
    }
    Ok(m)
}
fn builders(r: &mut Run) {
    let d = r.pick(4, 6);
    r.all_sequences(&alphabet(), d, |s| format!("{s:?}"), |s, o| {
        let got = read(&real(s))?;
        let want = model(s, o)?;
        same!(got, want, "resource");
        let res = real(s);
        same!(res == res.clone(), true, "equality with its clone");
        o.outcome(&want.schema);
        Ok(())
    });
}

/// Observes the resource a provider hands to its pipeline.
#[derive(Debug, Clone, Default)]
struct Seen(Arc<Mutex<Option<Resource>>>);
impl SpanProcessor for Seen {
    fn on_start(&self, _s: &mut Span, _c: &opentelemetry::Context) {}
    fn on_end(&self, _s: SpanData) {}
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown(&self) -> OTelSdkResult {
        Ok(())
    }
    fn set_resource(&mut self, r: &Resource) {
        *self.0.lock().unwrap() = Some(r.clone());
    }
}
impl LogProcessor for Seen {
    fn emit(&self, _r: &mut SdkLogRecord, _s: &opentelemetry::InstrumentationScope) {}
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown(&self) -> OTelSdkResult {
        Ok(())
    }
    fn set_resource(&mut self, r: &Resource) {
        *self.0.lock().unwrap() = Some(r.clone());
    }
}
impl PushMetricExporter for Seen {
    async fn export(&self, m: &mut ResourceMetrics) -> OTelSdkResult {
        *self.0.lock().unwrap() = Some(m.resource.clone());
        Ok(())
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown_with_timeout(&self, _t: std::time::Duration) -> OTelSdkResult {
        Ok(())
    }
    fn temporality(&self) -> Temporality {
        Temporality::Cumulative
    }
}
/// Resources given to a provider one after another are merged; every processor and exporter sees the result.
fn providers(r: &mut Run) {
    let parts: Vec<Vec<Op>> = vec![
        vec![], vec![Op::Attr("a", 1)], vec![Op::Attr("a", 2), Op::Attr("b", 3)], vec![Op::Schema(vec![("c", 4)], "u1")], vec![Op::Schema(vec![], "u2")],
        vec![Op::Schema(vec![("a", 5)], "u1")], vec![Op::Name],
    ];
    let d = r.pick(3, 5);
    r.all_sequences(&parts, d, |s| format!("{s:?}"), |s, o| {
        let mut want = M::default();
        for (i, part) in s.iter().enumerate() {
            let pm = read(&real(part))?;
            if i == 0 {
                want = pm;
            } else {
                want.attrs.extend(pm.attrs);
                if let Some(u) = pm.schema {
                    want.url(&u);
                }
            }
            o.step(&want);
        }
        let seen: Vec<Seen> = (0..6).map(|_| Seen::default()).collect();
        let mut tb = SdkTracerProvider::builder().with_span_processor(seen[0].clone());
        let mut lb = SdkLoggerProvider::builder().with_log_processor(seen[1].clone());
        let mut mb = SdkMeterProvider::builder().with_reader(PeriodicReader::builder(seen[2].clone()).build());
        for part in s {
            tb = tb.with_resource(real(part));
            lb = lb.with_resource(real(part));
            mb = mb.with_resource(real(part));
        }
        let tp = tb.with_span_processor(seen[3].clone()).build();
        let lp = lb.with_log_processor(seen[4].clone()).build();
        let mp = mb.with_reader(PeriodicReader::builder(seen[5].clone()).build()).build();
        opentelemetry::metrics::MeterProvider::meter(&mp, "m").u64_counter("c").build().add(1, &[]);
        mp.force_flush().map_err(|e| format!("flush: {e}"))?;
        for (k, x) in seen.iter().enumerate() {
            let got = x.0.lock().unwrap().clone();
            let Some(got) = got else { return Err(format!("pipeline {k} was given no resource").into()) };
            if s.is_empty() {
                // the default resource
                ensure!(got.get(&"service.name".into()).is_some() && got.get(&"telemetry.sdk.language".into()) == Some("rust".into()), "default resource {got:?}");
            } else {
                same!(read(&got)?, want, "resource of pipeline {k}");
            }
        }
        let _ = (tp.shutdown(), lp.shutdown(), mp.shutdown());
        Ok(())
    });
}

fn set(k: &str, v: Option<&str>) {
    match v {
        Some(v) => std::env::set_var(k, v),
        None => std::env::remove_var(k),
    }
}
/// Resource attributes and the service name from the environment.
fn environment(r: &mut Run) {
    let names = [None, Some(""), Some("svc"), Some(" s ")];
    let n = r.pick(5, 7);
    let atoms = ["service.name", "k", "=", ",", " ", "v"];
    let mut lists: Vec<Option<String>> = strings(&atoms, n).into_iter().map(Some).collect();
    lists.push(None);
    lists.extend(["k=v,,k2=v2", "=v,k=v", "k=,l=v", ",,,", "a=b=c,d=e", "k=v,junk,l=w", "a=1,a=2,a=3", "é=ü,k=v"].map(|s| Some(s.to_string())));
    for l in &lists {
        for (i, name) in names.iter().enumerate() {
            if i > 2 && l.as_ref().is_some_and(|l| l.len() > 12) {
                continue;
            }
            r.case(|| format!("OTEL_SERVICE_NAME={name:?} OTEL_RESOURCE_ATTRIBUTES={l:?}"), |o| {
                set("OTEL_SERVICE_NAME", *name);
                set("OTEL_RESOURCE_ATTRIBUTES", l.as_deref());
                let mut want: BTreeMap<String, String> = BTreeMap::new();
                for e in l.as_deref().unwrap_or("").split(',') {
                    if let Some((k, v)) = e.split_once('=') {
                        want.insert(k.trim().to_string(), show(&Value::from(v.trim().to_string())));
                    }
                }
                // an entry without a key may or may not count
                let strip = |m: M| {
                    let mut a = m.attrs;
                    a.remove("");
                    a
                };
                want.remove("");
                let det = read(&Resource::builder_empty().with_detector(Box::new(EnvResourceDetector::new())).build())?;
                same!(strip(det), want, "environment detector");
                let named = want.get("service.name").cloned();
                let svc = match name {
                    Some(n) if !n.is_empty() => Some(show(&Value::from(*n))),
                    _ => named,
                };
                let sdk = read(&Resource::builder_empty().with_detector(Box::new(SdkProvidedResourceDetector)).build())?;
                same!(sdk.attrs.len(), 1, "attributes of the SDK detector");
                let check = |got: Option<&String>, what: &str| -> R {
                    match &svc {
                        Some(s) => same!(got, Some(s), "service.name of the {what}"),
                        None => ensure!(got.is_some_and(|g| g.contains("unknown_service")), "service.name of the {what} is {got:?}"),
                    }
                    Ok(())
                };
                check(sdk.attrs.get("service.name"), "SDK detector")?;
                let full = read(&Resource::builder().build())?;
                check(full.attrs.get("service.name"), "default resource")?;
                for (k, v) in &want {
                    if k != "service.name" {
                        same!(full.attrs.get(k), Some(v), "{k} in the default resource");
                    }
                }
                for k in ["telemetry.sdk.name", "telemetry.sdk.language", "telemetry.sdk.version"] {
                    ensure!(full.attrs.contains_key(k), "{k} is missing");
                }
                let extra = full.attrs.keys().filter(|k| !want.contains_key(*k) && !k.starts_with("telemetry.sdk.") && *k != "service.name" && !k.is_empty()).count();
                same!(extra, 0, "attributes from nowhere");
                // code wins over the environment
                let code = read(&Resource::builder().with_service_name("code").with_attribute(KeyValue::new("k", 5)).build())?;
                same!(code.attrs["service.name"], show(&Value::from("code")), "service name set in code");
                same!(code.attrs["k"], show(&Value::I64(5)), "attribute set in code");
                o.step(&(want.len(), svc.clone(), named_kind(l)));
                o.outcome(&(want.len(), svc));
                Ok(())
            });
        }
    }
    r.case(|| "bytes that are not UTF-8".into(), |o| {
        use std::os::unix::ffi::OsStrExt;
        for k in ["OTEL_SERVICE_NAME", "OTEL_RESOURCE_ATTRIBUTES"] {
            set("OTEL_SERVICE_NAME", None);
            set("OTEL_RESOURCE_ATTRIBUTES", None);
            std::env::set_var(k, std::ffi::OsStr::from_bytes(b"a=\xff\xfe,b"));
            let m = read(&Resource::builder().build())?;
            ensure!(m.attrs["service.name"].contains("unknown_service"), "service name {m:?}");
            o.step(&k);
        }
        Ok(())
    });
    set("OTEL_SERVICE_NAME", None);
    set("OTEL_RESOURCE_ATTRIBUTES", None);
    let _ = TelemetryResourceDetector.detect();
}
fn named_kind(l: &Option<String>) -> (usize, usize) {
    let l = l.as_deref().unwrap_or("");
    (l.matches(',').count(), l.matches('=').count())
}
pub fn families() -> Vec<Family> {
    vec![family("C40", "builders", builders), family("C40", "providers", providers), serial("C40", "environment", environment)]
}
