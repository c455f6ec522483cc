//! Instruments, readers and collected data in a form a model can be compared with.
use opentelemetry::metrics::{AsyncInstrument, Counter, Gauge, Histogram, Meter, UpDownCounter};
use opentelemetry::{Array, KeyValue, Value};
use opentelemetry_sdk::metrics::data::{AggregatedMetrics, MetricData, ResourceMetrics};
use opentelemetry_sdk::metrics::reader::MetricReader;
use opentelemetry_sdk::metrics::{InstrumentKind, ManualReader, Pipeline, SdkMeterProvider, Temporality};
use opentelemetry_sdk::Resource;
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, SystemTime};

#[derive(Debug, Clone)]
pub struct Rd(pub Arc<ManualReader>);
impl Rd {
    pub fn new(t: Temporality) -> Rd {
        Rd(Arc::new(ManualReader::builder().with_temporality(t).build()))
    }
}
impl MetricReader for Rd {
    fn register_pipeline(&self, p: std::sync::Weak<Pipeline>) {
        self.0.register_pipeline(p)
    }
    fn collect(&self, rm: &mut ResourceMetrics) -> opentelemetry_sdk::error::OTelSdkResult {
        self.0.collect(rm)
    }
    fn force_flush(&self) -> opentelemetry_sdk::error::OTelSdkResult {
        self.0.force_flush()
    }
    fn shutdown_with_timeout(&self, t: Duration) -> opentelemetry_sdk::error::OTelSdkResult {
        self.0.shutdown_with_timeout(t)
    }
    fn temporality(&self, k: InstrumentKind) -> Temporality {
        self.0.temporality(k)
    }
}
pub fn empty() -> ResourceMetrics {
    ResourceMetrics { resource: Resource::builder_empty().build(), scope_metrics: vec![] }
}

/// A number as the instrument's type holds it.
#[derive(Clone, Copy)]
pub enum N {
    U(u64),
    I(i64),
    F(f64),
}
impl N {
    pub fn f(self) -> f64 {
        match self {
            N::U(x) => x as f64,
            N::I(x) => x as f64,
            N::F(x) => x,
        }
    }
    /// What the documented arithmetic of the type gives.
    pub fn add(self, o: N) -> N {
        match (self, o) {
            (N::U(a), N::U(b)) => N::U(a.wrapping_add(b)),
            (N::I(a), N::I(b)) => N::I(a.wrapping_add(b)),
            (N::F(a), N::F(b)) => N::F(a + b),
            _ => panic!("number types differ"),
        }
    }
    pub fn sub(self, o: N) -> N {
        match (self, o) {
            (N::U(a), N::U(b)) => N::U(a.wrapping_sub(b)),
            (N::I(a), N::I(b)) => N::I(a.wrapping_sub(b)),
            (N::F(a), N::F(b)) => N::F(a - b),
            _ => panic!("number types differ"),
        }
    }
    pub fn lt(self, o: N) -> bool {
        match (self, o) {
            (N::U(a), N::U(b)) => a < b,
            (N::I(a), N::I(b)) => a < b,
            (N::F(a), N::F(b)) => a < b,
            _ => panic!("number types differ"),
        }
    }
    fn bits(self) -> (u8, u64) {
        match self {
            N::U(x) => (0, x),
            N::I(x) => (1, x as u64),
            N::F(x) => (2, if x == 0.0 { 0 } else if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() }),
        }
    }
}
impl PartialEq for N {
    fn eq(&self, o: &N) -> bool {
        self.bits() == o.bits()
    }
}
impl Eq for N {}
impl Hash for N {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.bits().hash(h)
    }
}
impl fmt::Debug for N {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            N::U(x) => write!(f, "{x}u"),
            N::I(x) => write!(f, "{x}i"),
            N::F(x) => write!(f, "{x:?}f"),
        }
    }
}
pub trait Num: Copy + Send + Sync + 'static {
    fn n(self) -> N;
    fn of(n: N) -> Self;
}
impl Num for u64 {
    fn n(self) -> N {
        N::U(self)
    }
    fn of(n: N) -> u64 {
        match n {
            N::U(x) => x,
            _ => panic!("not u64"),
        }
    }
}
impl Num for i64 {
    fn n(self) -> N {
        N::I(self)
    }
    fn of(n: N) -> i64 {
        match n {
            N::I(x) => x,
            _ => panic!("not i64"),
        }
    }
}
impl Num for f64 {
    fn n(self) -> N {
        N::F(self)
    }
    fn of(n: N) -> f64 {
        match n {
            N::F(x) => x,
            _ => panic!("not f64"),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    U,
    I,
    F,
}
impl Ty {
    pub fn of(self, x: i64) -> N {
        match self {
            Ty::U => N::U(x as u64),
            Ty::I => N::I(x),
            Ty::F => N::F(x as f64),
        }
    }
    pub fn zero(self) -> N {
        self.of(0)
    }
}
/// One of the sixteen instruments of the API.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Kind(pub InstrumentKind, pub Ty);
use InstrumentKind as K;
pub const SYNC: [Kind; 9] = [
    Kind(K::Counter, Ty::U), Kind(K::Counter, Ty::F), Kind(K::UpDownCounter, Ty::I), Kind(K::UpDownCounter, Ty::F), Kind(K::Histogram, Ty::U), Kind(K::Histogram, Ty::F), Kind(K::Gauge, Ty::U),
    Kind(K::Gauge, Ty::I), Kind(K::Gauge, Ty::F),
];
pub const OBS: [Kind; 7] = [
    Kind(K::ObservableCounter, Ty::U), Kind(K::ObservableCounter, Ty::F), Kind(K::ObservableUpDownCounter, Ty::I), Kind(K::ObservableUpDownCounter, Ty::F), Kind(K::ObservableGauge, Ty::U),
    Kind(K::ObservableGauge, Ty::I), Kind(K::ObservableGauge, Ty::F),
];
pub fn all_kinds() -> Vec<Kind> {
    SYNC.iter().chain(OBS.iter()).copied().collect()
}
/// The temporality documented for a preference.
pub fn temporality(k: InstrumentKind, pref: Temporality) -> Temporality {
    match (pref, k) {
        (Temporality::Cumulative, _) | (_, K::UpDownCounter | K::ObservableUpDownCounter) => Temporality::Cumulative,
        (Temporality::Delta, _) | (_, K::Counter | K::Histogram) => Temporality::Delta,
        _ => Temporality::Cumulative,
    }
}

/// How an instrument is declared.
#[derive(Clone, Debug, Default)]
pub struct Decl {
    pub name: Cow<'static, str>,
    pub desc: Cow<'static, str>,
    pub unit: Cow<'static, str>,
    pub bounds: Option<Vec<f64>>,
    pub limit: Option<usize>,
}
pub fn decl(name: &str) -> Decl {
    Decl { name: name.to_string().into(), limit: Some(10), ..Default::default() }
}
/// What an observable instrument's callback observes, and how often it ran.
#[derive(Default)]
pub struct Feed {
    pub obs: Mutex<Vec<(N, Vec<KeyValue>)>>,
    pub runs: AtomicU64,
}
#[derive(Clone)]
pub enum Inst {
    UC(Counter<u64>),
    FC(Counter<f64>),
    IU(UpDownCounter<i64>),
    FU(UpDownCounter<f64>),
    UH(Histogram<u64>),
    FH(Histogram<f64>),
    UG(Gauge<u64>),
    IG(Gauge<i64>),
    FG(Gauge<f64>),
    /// The instrument handle is kept although the SDK does not need it.
    Ob(Arc<Feed>, #[allow(dead_code)] Arc<dyn std::any::Any>),
}
fn cb<T: Num>(f: &Arc<Feed>) -> impl Fn(&dyn AsyncInstrument<T>) + Send + Sync + 'static {
    let f = f.clone();
    move |i| {
        f.runs.fetch_add(1, SeqCst);
        for (v, a) in f.obs.lock().unwrap().iter() {
            i.observe(T::of(*v), a);
        }
    }
}
impl Inst {
    pub fn new(m: &Meter, k: Kind, d: &Decl) -> Inst {
        macro_rules! b {
            ($b:expr) => {{
                let mut b = $b;
                if !d.desc.is_empty() {
                    b = b.with_description(d.desc.clone());
                }
                if !d.unit.is_empty() {
                    b = b.with_unit(d.unit.clone());
                }
                if let Some(l) = d.limit {
                    b = b.with_cardinality_limit(l);
                }
                b
            }};
        }
        macro_rules! h {
            ($b:expr) => {{
                let mut b = b!($b);
                if let Some(l) = &d.bounds {
                    b = b.with_boundaries(l.clone());
                }
                b.build()
            }};
        }
        macro_rules! o {
            ($b:expr) => {{
                let f = Arc::new(Feed::default());
                let i = b!($b).with_callback(cb(&f)).build();
                Inst::Ob(f, Arc::new(i))
            }};
        }
        let n = d.name.clone();
        match k {
            Kind(K::Counter, Ty::U) => Inst::UC(b!(m.u64_counter(n)).build()),
            Kind(K::Counter, Ty::F) => Inst::FC(b!(m.f64_counter(n)).build()),
            Kind(K::UpDownCounter, Ty::I) => Inst::IU(b!(m.i64_up_down_counter(n)).build()),
            Kind(K::UpDownCounter, Ty::F) => Inst::FU(b!(m.f64_up_down_counter(n)).build()),
            Kind(K::Histogram, Ty::U) => Inst::UH(h!(m.u64_histogram(n))),
            Kind(K::Histogram, Ty::F) => Inst::FH(h!(m.f64_histogram(n))),
            Kind(K::Gauge, Ty::U) => Inst::UG(b!(m.u64_gauge(n)).build()),
            Kind(K::Gauge, Ty::I) => Inst::IG(b!(m.i64_gauge(n)).build()),
            Kind(K::Gauge, Ty::F) => Inst::FG(b!(m.f64_gauge(n)).build()),
            Kind(K::ObservableCounter, Ty::U) => o!(m.u64_observable_counter(n)),
            Kind(K::ObservableCounter, Ty::F) => o!(m.f64_observable_counter(n)),
            Kind(K::ObservableUpDownCounter, Ty::I) => o!(m.i64_observable_up_down_counter(n)),
            Kind(K::ObservableUpDownCounter, Ty::F) => o!(m.f64_observable_up_down_counter(n)),
            Kind(K::ObservableGauge, Ty::U) => o!(m.u64_observable_gauge(n)),
            Kind(K::ObservableGauge, Ty::I) => o!(m.i64_observable_gauge(n)),
            Kind(K::ObservableGauge, Ty::F) => o!(m.f64_observable_gauge(n)),
            _ => panic!("no such instrument"),
        }
    }
    /// Records with a synchronous instrument; an observable one will observe it at each collection from now on.
    pub fn rec(&self, v: N, a: &[KeyValue]) {
        match self {
            Inst::UC(i) => i.add(u64::of(v), a),
            Inst::FC(i) => i.add(f64::of(v), a),
            Inst::IU(i) => i.add(i64::of(v), a),
            Inst::FU(i) => i.add(f64::of(v), a),
            Inst::UH(i) => i.record(u64::of(v), a),
            Inst::FH(i) => i.record(f64::of(v), a),
            Inst::UG(i) => i.record(u64::of(v), a),
            Inst::IG(i) => i.record(i64::of(v), a),
            Inst::FG(i) => i.record(f64::of(v), a),
            Inst::Ob(f, _) => f.obs.lock().unwrap().push((v, a.to_vec())),
        }
    }
    pub fn feed(&self) -> &Feed {
        match self {
            Inst::Ob(f, _) => f,
            _ => panic!("not observable"),
        }
    }
}

/// An attribute set in canonical form.
pub type A = Vec<(String, String)>;
pub fn val(v: &Value) -> String {
    match v {
        Value::String(s) => format!("String({:?})", s.as_str()),
        // the two zeros are the same value
        Value::F64(f) if *f == 0.0 => "F64(0)".into(),
        Value::Array(Array::F64(l)) => format!("F64s({:?})", l.iter().map(|f| if *f == 0.0 { 0.0 } else { *f }).collect::<Vec<_>>()),
        v => format!("{v:?}"),
    }
}
pub fn attrs(kvs: &[KeyValue]) -> A {
    let mut a: A = kvs.iter().map(|kv| (kv.key.to_string(), val(&kv.value))).collect();
    a.sort();
    a
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Expo {
    pub scale: i8,
    pub zero: u64,
    pub zero_threshold: N,
    pub pos: (i32, Vec<u64>),
    pub neg: (i32, Vec<u64>),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Pt {
    Val(N),
    Hist { count: u64, sum: N, min: Option<N>, max: Option<N>, bounds: Vec<N>, buckets: Vec<u64> },
    Expo { count: u64, sum: N, min: Option<N>, max: Option<N>, expo: Expo },
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Shape {
    Sum(bool),
    Gauge,
    Hist,
    Expo,
}
/// One exported metric.
#[derive(Clone, Debug)]
pub struct Out {
    pub scope: String,
    pub name: String,
    pub desc: String,
    pub unit: String,
    pub shape: Shape,
    pub ty: Ty,
    pub temp: Option<Temporality>,
    pub start: Option<SystemTime>,
    pub time: SystemTime,
    pub pts: BTreeMap<A, Pt>,
}
fn conv<T: Num>(d: &MetricData<T>, o: &mut Out) -> Result<(), String>
where
    T: fmt::Debug,
{
    fn put(o: &mut Out, kvs: Vec<KeyValue>, p: Pt) -> Result<(), String> {
        let a = attrs(&kvs);
        if a.windows(2).any(|w| w[0].0 == w[1].0) {
            return Err(format!("point with a repeated key: {a:?}"));
        }
        if o.pts.insert(a.clone(), p).is_some() {
            return Err(format!("metric {} has two points for {a:?}", o.name));
        }
        Ok(())
    }
    match d {
        MetricData::Sum(s) => {
            (o.shape, o.temp, o.start, o.time) = (Shape::Sum(s.is_monotonic), Some(s.temporality), Some(s.start_time), s.time);
            for p in &s.data_points {
                put(o, p.attributes.clone(), Pt::Val(p.value.n()))?;
            }
        }
        MetricData::Gauge(s) => {
            (o.shape, o.temp, o.start, o.time) = (Shape::Gauge, None, s.start_time, s.time);
            for p in &s.data_points {
                put(o, p.attributes.clone(), Pt::Val(p.value.n()))?;
            }
        }
        MetricData::Histogram(s) => {
            (o.shape, o.temp, o.start, o.time) = (Shape::Hist, Some(s.temporality), Some(s.start_time), s.time);
            for p in &s.data_points {
                let h = Pt::Hist {
                    count: p.count,
                    sum: p.sum.n(),
                    min: p.min.map(|x| x.n()),
                    max: p.max.map(|x| x.n()),
                    bounds: p.bounds.iter().map(|x| N::F(*x)).collect(),
                    buckets: p.bucket_counts.clone(),
                };
                put(o, p.attributes.clone(), h)?;
            }
        }
        MetricData::ExponentialHistogram(s) => {
            (o.shape, o.temp, o.start, o.time) = (Shape::Expo, Some(s.temporality), Some(s.start_time), s.time);
            for p in &s.data_points {
                let h = Pt::Expo {
                    count: p.count as u64,
                    sum: p.sum.n(),
                    min: p.min.map(|x| x.n()),
                    max: p.max.map(|x| x.n()),
                    expo: Expo {
                        scale: p.scale,
                        zero: p.zero_count,
                        zero_threshold: N::F(p.zero_threshold),
                        pos: (p.positive_bucket.offset, p.positive_bucket.counts.clone()),
                        neg: (p.negative_bucket.offset, p.negative_bucket.counts.clone()),
                    },
                };
                put(o, p.attributes.clone(), h)?;
            }
        }
    }
    Ok(())
}
pub fn outs(rm: &ResourceMetrics) -> Result<Vec<Out>, String> {
    let mut v = vec![];
    for sm in &rm.scope_metrics {
        for m in &sm.metrics {
            let mut o = Out {
                scope: sm.scope.name().to_string(),
                name: m.name.to_string(),
                desc: m.description.to_string(),
                unit: m.unit.to_string(),
                shape: Shape::Gauge,
                ty: Ty::U,
                temp: None,
                start: None,
                time: SystemTime::UNIX_EPOCH,
                pts: BTreeMap::new(),
            };
            match &m.data {
                AggregatedMetrics::U64(d) => {
                    o.ty = Ty::U;
                    conv(d, &mut o)?
                }
                AggregatedMetrics::I64(d) => {
                    o.ty = Ty::I;
                    conv(d, &mut o)?
                }
                AggregatedMetrics::F64(d) => {
                    o.ty = Ty::F;
                    conv(d, &mut o)?
                }
            }
            if o.pts.is_empty() {
                return Err(format!("metric {} exported without points", o.name));
            }
            v.push(o);
        }
    }
    Ok(v)
}
/// A reader with the storage its collections go to.
pub struct Col {
    pub rd: Rd,
    pub rm: ResourceMetrics,
    /// Collect into the storage of the previous collection, as the periodic reader does.
    pub reuse: bool,
}
impl Col {
    pub fn new(t: Temporality, reuse: bool) -> Col {
        Col { rd: Rd::new(t), rm: empty(), reuse }
    }
    pub fn collect(&mut self) -> Result<Vec<Out>, String> {
        if !self.reuse {
            self.rm = empty();
        }
        self.rd.collect(&mut self.rm).map_err(|e| format!("collect: {e}"))?;
        outs(&self.rm)
    }
    /// For providers with (at most) one instrument.
    pub fn one(&mut self) -> Result<Option<Out>, String> {
        let mut v = self.collect()?;
        if v.len() > 1 {
            return Err(format!("more than one metric: {v:?}"));
        }
        Ok(v.pop())
    }
}
pub fn provider(cols: &[Col]) -> SdkMeterProvider {
    let mut b = SdkMeterProvider::builder().with_resource(Resource::builder_empty().build());
    for c in cols {
        b = b.with_reader(c.rd.clone());
    }
    b.build()
}
/// Checks start and collection times of one reader's stream, collection by collection.
pub struct Times {
    created: (SystemTime, SystemTime),
    start: Option<SystemTime>,
    /// Time of the previous collection: exactly known if it exported, else bounds.
    prev: (SystemTime, SystemTime),
}
impl Times {
    pub fn new(before: SystemTime) -> Times {
        let now = SystemTime::now();
        Times { created: (before, now), start: None, prev: (before, now) }
    }
    /// `span`: the wall clock before and after the collection.
    pub fn check(&mut self, o: Option<&Out>, span: (SystemTime, SystemTime), temp: Temporality) -> Result<(), String> {
        let Some(o) = o else {
            self.prev = span;
            return Ok(());
        };
        if !(span.0 <= o.time && o.time <= span.1) {
            return Err("the collection time is not the time of the collection".into());
        }
        if let Some(s) = o.start {
            if temp == Temporality::Delta {
                if !(self.prev.0 <= s && s <= self.prev.1) {
                    return Err(format!("delta interval does not start where the previous one ended: off by {:?}", s.duration_since(self.prev.0)));
                }
            } else {
                if !(self.created.0 <= s && s <= self.created.1) {
                    return Err("cumulative start is not the time the instrument was created".into());
                }
                if self.start.is_some_and(|x| x != s) {
                    return Err("cumulative start changed".into());
                }
                self.start = Some(s);
            }
        }
        self.prev = (o.time, o.time);
        Ok(())
    }
}
