//! The real exporter behind a small interface, and what a scrape of it should show.
use crate::text::{parse, Family, Labels, Scrape, F};
use opentelemetry::metrics::{Counter, Gauge, Histogram, Meter, MeterProvider as _, UpDownCounter};
use opentelemetry::{InstrumentationScope, Key, KeyValue, Value};
use opentelemetry_prometheus::ResourceSelector;
use opentelemetry_sdk::metrics::SdkMeterProvider;
use opentelemetry_sdk::Resource;
use prometheus::{Encoder, Registry, TextEncoder};
use std::collections::{BTreeMap, HashSet};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    CounterU64,
    CounterF64,
    UpDownI64,
    UpDownF64,
    HistogramU64,
    HistogramF64,
    GaugeU64,
    GaugeI64,
    GaugeF64,
    ObsCounterU64,
    ObsCounterF64,
    ObsUpDownI64,
    ObsUpDownF64,
    ObsGaugeU64,
    ObsGaugeI64,
    ObsGaugeF64,
}
use Kind::*;
pub const KINDS: [Kind; 16] = [
    CounterU64, CounterF64, UpDownI64, UpDownF64, HistogramU64, HistogramF64, GaugeU64, GaugeI64, GaugeF64, ObsCounterU64, ObsCounterF64, ObsUpDownI64, ObsUpDownF64, ObsGaugeU64, ObsGaugeI64, ObsGaugeF64,
];
impl Kind {
    pub fn text(self) -> &'static str {
        match self {
            CounterU64 | CounterF64 | ObsCounterU64 | ObsCounterF64 => "counter",
            HistogramU64 | HistogramF64 => "histogram",
            _ => "gauge",
        }
    }
    pub fn observable(self) -> bool {
        matches!(self, ObsCounterU64 | ObsCounterF64 | ObsUpDownI64 | ObsUpDownF64 | ObsGaugeU64 | ObsGaugeI64 | ObsGaugeF64)
    }
    /// A later measurement replaces an earlier one.
    pub fn replaces(self) -> bool {
        self.observable() || matches!(self, GaugeU64 | GaugeI64 | GaugeF64)
    }
    pub fn signed(self) -> bool {
        !matches!(self, CounterU64 | ObsCounterU64 | GaugeU64 | ObsGaugeU64 | HistogramU64 | CounterF64 | ObsCounterF64 | HistogramF64)
    }
    pub fn whole(self) -> bool {
        !matches!(self, CounterF64 | UpDownF64 | HistogramF64 | GaugeF64 | ObsCounterF64 | ObsUpDownF64 | ObsGaugeF64)
    }
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Options {
    pub namespace: Option<&'static str>,
    pub without_units: bool,
    pub without_suffixes: bool,
    pub without_target: bool,
    pub without_scope: bool,
    /// None: no resource labels; an empty list: all of them
    pub select: Option<Vec<&'static str>>,
    pub resource: Vec<(&'static str, Value)>,
}
pub enum Inst {
    CU(Counter<u64>),
    CF(Counter<f64>),
    UI(UpDownCounter<i64>),
    UF(UpDownCounter<f64>),
    HU(Histogram<u64>),
    HF(Histogram<f64>),
    GU(Gauge<u64>),
    GI(Gauge<i64>),
    GF(Gauge<f64>),
    Obs(Arc<Mutex<Vec<(f64, Vec<KeyValue>)>>>),
}
impl Inst {
    pub fn record(&self, v: f64, a: &[KeyValue]) {
        match self {
            Inst::CU(i) => i.add(v as u64, a),
            Inst::CF(i) => i.add(v, a),
            Inst::UI(i) => i.add(v as i64, a),
            Inst::UF(i) => i.add(v, a),
            Inst::HU(i) => i.record(v as u64, a),
            Inst::HF(i) => i.record(v, a),
            Inst::GU(i) => i.record(v as u64, a),
            Inst::GI(i) => i.record(v as i64, a),
            Inst::GF(i) => i.record(v, a),
            Inst::Obs(l) => {
                let mut l = l.lock().unwrap();
                l.retain(|x| x.1 != a);
                l.push((v, a.to_vec()));
            }
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Def {
    pub scope: usize,
    pub kind: Kind,
    pub name: &'static str,
    pub unit: &'static str,
    pub help: &'static str,
    /// histograms only
    pub bounds: Option<Vec<f64>>,
}
pub fn def(kind: Kind, name: &'static str) -> Def {
    Def { scope: 0, kind, name, unit: "", help: "what it is", bounds: None }
}
pub const DEFAULT_BOUNDS: [f64; 15] = [0.0, 5.0, 10.0, 25.0, 50.0, 75.0, 100.0, 250.0, 500.0, 750.0, 1000.0, 2500.0, 5000.0, 7500.0, 10000.0];
pub fn create(m: &Meter, d: &Def) -> Inst {
    macro_rules! plain { ($f:ident, $v:ident) => { Inst::$v(m.$f(d.name).with_unit(d.unit).with_description(d.help).build()) }; }
    macro_rules! hist { ($f:ident, $v:ident) => {{
        let mut b = m.$f(d.name).with_unit(d.unit).with_description(d.help);
        if let Some(x) = &d.bounds { b = b.with_boundaries(x.clone()); }
        Inst::$v(b.build())
    }}; }
    macro_rules! obs { ($f:ident, $t:ty) => {{
        let l: Arc<Mutex<Vec<(f64, Vec<KeyValue>)>>> = Default::default();
        let c = l.clone();
        m.$f(d.name).with_unit(d.unit).with_description(d.help).with_callback(move |o| for (v, a) in c.lock().unwrap().iter() { o.observe(*v as $t, a) }).build();
        Inst::Obs(l)
    }}; }
    match d.kind {
        CounterU64 => plain!(u64_counter, CU),
        CounterF64 => plain!(f64_counter, CF),
        UpDownI64 => plain!(i64_up_down_counter, UI),
        UpDownF64 => plain!(f64_up_down_counter, UF),
        HistogramU64 => hist!(u64_histogram, HU),
        HistogramF64 => hist!(f64_histogram, HF),
        GaugeU64 => plain!(u64_gauge, GU),
        GaugeI64 => plain!(i64_gauge, GI),
        GaugeF64 => plain!(f64_gauge, GF),
        ObsCounterU64 => obs!(u64_observable_counter, u64),
        ObsCounterF64 => obs!(f64_observable_counter, f64),
        ObsUpDownI64 => obs!(i64_observable_up_down_counter, i64),
        ObsUpDownF64 => obs!(f64_observable_up_down_counter, f64),
        ObsGaugeU64 => obs!(u64_observable_gauge, u64),
        ObsGaugeI64 => obs!(i64_observable_gauge, i64),
        ObsGaugeF64 => obs!(f64_observable_gauge, f64),
    }
}
pub struct World {
    pub registry: Registry,
    pub provider: SdkMeterProvider,
    pub meters: Vec<Meter>,
    pub scopes: Vec<InstrumentationScope>,
    pub options: Options,
}
pub fn scopes() -> Vec<InstrumentationScope> {
    let b = |n: &'static str| InstrumentationScope::builder(n);
    vec![
        b("lib").build(),
        b("lib2").with_version("v\"1\"").build(),
        b("lib3").with_version("1").with_attributes([KeyValue::new("a", 1)]).build(),
        b("lib4").with_schema_url("http://s").with_attributes([KeyValue::new("b", "x"), KeyValue::new("c", true)]).build(),
    ]
}
impl World {
    pub fn new(o: &Options, scopes: Vec<InstrumentationScope>) -> Result<World, String> {
        let registry = Registry::new();
        let mut b = opentelemetry_prometheus::exporter().with_registry(registry.clone());
        if let Some(n) = o.namespace {
            b = b.with_namespace(n);
        }
        if o.without_units {
            b = b.without_units();
        }
        if o.without_suffixes {
            b = b.without_counter_suffixes();
        }
        if o.without_target {
            b = b.without_target_info();
        }
        if o.without_scope {
            b = b.without_scope_info();
        }
        match &o.select {
            None => {}
            Some(l) if l.is_empty() => b = b.with_resource_selector(ResourceSelector::All),
            Some(l) => b = b.with_resource_selector(l.iter().map(|k| Key::new(*k)).collect::<HashSet<_>>()),
        }
        let res = Resource::builder_empty().with_attributes(o.resource.iter().map(|(k, v)| KeyValue::new(*k, v.clone()))).build();
        let provider = SdkMeterProvider::builder().with_resource(res).with_reader(b.build().map_err(|e| e.to_string())?).build();
        let meters = scopes.iter().map(|s| provider.meter_with_scope(s.clone())).collect();
        Ok(World { registry, provider, meters, scopes, options: o.clone() })
    }
    pub fn create(&self, d: &Def) -> Inst {
        create(&self.meters[d.scope], d)
    }
    pub fn scrape(&self) -> Result<Scrape, String> {
        scrape(&self.registry)
    }
}
pub fn scrape(registry: &Registry) -> Result<Scrape, String> {
    let mut out = vec![];
    TextEncoder::new().encode(&registry.gather(), &mut out).map_err(|e| format!("the scrape cannot be encoded: {e}"))?;
    let text = String::from_utf8(out).map_err(|e| e.to_string())?;
    parse(&text).map_err(|e| format!("{e} in\n{text}"))
}

// ---- what is expected, from the documentation of the exporter and of the exposition format ----
pub fn value_text(v: &Value) -> String {
    match v {
        Value::Bool(b) => b.to_string(),
        Value::I64(i) => i.to_string(),
        Value::F64(f) => f.to_string(),
        Value::String(s) => s.as_str().to_string(),
        _ => unreachable!(),
    }
}
pub fn label_name(k: &str) -> String {
    let mut s: String = k.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).collect();
    if s.starts_with(|c: char| c.is_ascii_digit()) {
        s.insert(0, '_');
    }
    s
}
/// Attributes whose names become equal share one label with the sorted values.
pub fn labels(kvs: &[(String, String)]) -> Labels {
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (k, v) in kvs {
        m.entry(label_name(k)).or_default().push(v.clone());
    }
    m.into_iter().map(|(k, mut v)| {
        v.sort();
        (k, v.join(";"))
    }).collect()
}
pub fn of(kvs: &[KeyValue]) -> Vec<(String, String)> {
    kvs.iter().map(|a| (a.key.to_string(), value_text(&a.value))).collect()
}
fn scope_labels(s: &InstrumentationScope) -> Labels {
    let mut l = Labels::from([("otel_scope_name".to_string(), s.name().to_string())]);
    if let Some(v) = s.version() {
        l.insert("otel_scope_version".into(), v.into());
    }
    l
}
impl Options {
    fn resource_labels(&self) -> Vec<(String, String)> {
        self.resource.iter().map(|(k, v)| (k.to_string(), value_text(v))).collect()
    }
    /// The labels of every sample besides its attributes.
    pub fn extra(&self, s: &InstrumentationScope) -> Labels {
        let mut l = if self.without_scope { Labels::new() } else { scope_labels(s) };
        if let Some(keys) = &self.select {
            let kept: Vec<_> = self.resource_labels().into_iter().filter(|x| keys.is_empty() || keys.contains(&x.0.as_str())).collect();
            l.extend(labels(&kept));
        }
        l
    }
    /// `used`: the scopes with measurements.
    pub fn infos(&self, used: &[&InstrumentationScope]) -> Scrape {
        let mut out = Scrape::new();
        let info = |help: &str, name: &str, l: Vec<Labels>| Family { help: help.into(), kind: "gauge".into(), samples: l.into_iter().map(|l| ((name.to_string(), l), F::of(1.0))).collect() };
        if !self.without_target && !self.resource.is_empty() {
            out.insert("target_info".into(), info("Target metadata", "target_info", vec![labels(&self.resource_labels())]));
        }
        let sc: Vec<Labels> = used.iter().filter(|s| s.attributes().count() > 0).map(|s| scope_labels(s)).collect();
        if !self.without_scope && !sc.is_empty() {
            out.insert("otel_scope_info".into(), info("Instrumentation Scope metadata", "otel_scope_info", sc));
        }
        out
    }
}
pub fn unit_suffix(u: &str) -> Option<&'static str> {
    Some(match u {
        "d" => "days",
        "h" => "hours",
        "min" => "minutes",
        "s" => "seconds",
        "ms" => "milliseconds",
        "us" => "microseconds",
        "ns" => "nanoseconds",
        "By" => "bytes",
        "KiBy" => "kibibytes",
        "MiBy" => "mebibytes",
        "GiBy" => "gibibytes",
        "TiBy" => "tibibytes",
        "KBy" => "kilobytes",
        "MBy" => "megabytes",
        "GBy" => "gigabytes",
        "TBy" => "terabytes",
        "m" => "meters",
        "V" => "volts",
        "A" => "amperes",
        "J" => "joules",
        "W" => "watts",
        "g" => "grams",
        "Cel" => "celsius",
        "Hz" => "hertz",
        "1" => "ratio",
        "%" => "percent",
        "m/s" => "meters_per_second",
        "By/s" => "bytes_per_second",
        "g/m" => "grams_per_minute",
        "J/h" => "joules_per_hour",
        "V/d" => "volts_per_day",
        "A/w" => "amperes_per_week",
        "W/mo" => "watts_per_month",
        "KiBy/y" => "kibibytes_per_year",
        "1/s" => "per_second",
        "{packet}/s" => "per_second",
        _ => return None,
    })
}
pub fn full_name(d: &Def, o: &Options) -> String {
    let mut n = String::new();
    if let Some(x) = o.namespace {
        n.push_str(x.trim_end_matches('_'));
        n.push('_');
    }
    n.extend(d.name.chars().map(|c| if c.is_ascii_alphanumeric() || c == '_' { c } else { '_' }));
    if let Some(u) = unit_suffix(d.unit).filter(|_| !o.without_units) {
        n.push('_');
        n.push_str(u);
    }
    if d.kind.text() == "counter" && !o.without_suffixes {
        n.push_str("_total");
    }
    n
}
/// Everything recorded with one attribute set, in order.
pub fn samples(name: &str, d: &Def, l: &Labels, vals: &[f64]) -> Vec<((String, Labels), F)> {
    let one = |suffix: &str, l: Labels, v: f64| ((format!("{name}{suffix}"), l), F::of(v));
    if d.kind.text() != "histogram" {
        let v = if d.kind.replaces() {
            *vals.last().unwrap()
        } else if d.kind.whole() {
            vals.iter().map(|v| *v as i128).sum::<i128>() as f64
        } else {
            vals.iter().sum()
        };
        return vec![one("", l.clone(), v)];
    }
    let bounds = d.bounds.clone().unwrap_or(DEFAULT_BOUNDS.to_vec());
    let mut out = vec![];
    for b in bounds.iter().copied().chain([f64::INFINITY]) {
        let mut l = l.clone();
        l.insert("le".into(), if b == f64::INFINITY { "+Inf".into() } else { b.to_string() });
        out.push(one("_bucket", l, vals.iter().filter(|v| **v <= b).count() as f64));
    }
    out.push(one("_sum", l.clone(), vals.iter().sum()));
    out.push(one("_count", l.clone(), vals.len() as f64));
    out
}
pub fn differ(got: &Scrape, want: &Scrape) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    for (n, f) in want {
        let Some(g) = got.get(n) else { return Err(format!("{n} is missing; there are {:?}", got.keys().collect::<Vec<_>>())) };
        if (&g.help, &g.kind) != (&f.help, &f.kind) {
            return Err(format!("{n} is a {} with the help {:?} instead of a {} with {:?}", g.kind, g.help, f.kind, f.help));
        }
        for (k, v) in &f.samples {
            match g.samples.get(k) {
                Some(x) if x == v => {}
                x => return Err(format!("sample {k:?} is {x:?} instead of {v:?}; there are {:?}", g.samples)),
            }
        }
        if let Some((k, v)) = g.samples.iter().find(|(k, _)| !f.samples.contains_key(k)) {
            return Err(format!("unexpected sample {k:?} {v:?}"));
        }
    }
    Err(format!("unexpected metrics {:?}", got.keys().filter(|k| !want.contains_key(*k)).collect::<Vec<_>>()))
}
