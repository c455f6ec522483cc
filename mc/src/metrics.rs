//! Synchronous instruments recorded by several threads while readers collect.
//! Measurement number i has a value that makes every subset sum decodable, so each collected point
//! is mapped back to the exact set of measurements it stems from.
use crate::spans::st;
use mcstd::explore::{scenario, Scenario};
use mcstd::mc;
use mcstd::real::sync::Mutex as RMutex;
use opentelemetry::metrics::{Counter, Gauge, Histogram, Meter, MeterProvider as _, UpDownCounter};
use opentelemetry::{InstrumentationScope, KeyValue, Value};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::metrics::data::{AggregatedMetrics, MetricData, ResourceMetrics};
use opentelemetry_sdk::metrics::reader::MetricReader;
use opentelemetry_sdk::metrics::{
    new_view, Aggregation, Instrument, InstrumentKind, ManualReader, Pipeline, SdkMeterProvider, Stream, Temporality,
};
use opentelemetry_sdk::Resource;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Weak};
use std::time::Duration;

#[derive(Debug, Clone)]
pub struct Shared(pub Arc<ManualReader>);
impl MetricReader for Shared {
    fn register_pipeline(&self, p: Weak<Pipeline>) {
        self.0.register_pipeline(p)
    }
    fn collect(&self, rm: &mut ResourceMetrics) -> OTelSdkResult {
        self.0.collect(rm)
    }
    fn force_flush(&self) -> OTelSdkResult {
        self.0.force_flush()
    }
    fn shutdown_with_timeout(&self, d: Duration) -> OTelSdkResult {
        self.0.shutdown_with_timeout(d)
    }
    fn temporality(&self, k: InstrumentKind) -> Temporality {
        self.0.temporality(k)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    CntU,
    CntF,
    UdI,
    UdF,
    HistU,
    HistF,
    ExpU,
    ExpF,
    GaugeU,
    GaugeI,
    GaugeF,
}
use K::*;
impl K {
    fn is_gauge(self) -> bool {
        matches!(self, GaugeU | GaugeI | GaugeF)
    }
}

#[derive(Clone)]
pub enum In {
    CU(Counter<u64>),
    CF(Counter<f64>),
    UI(UpDownCounter<i64>),
    UF(UpDownCounter<f64>),
    HU(Histogram<u64>),
    HF(Histogram<f64>),
    GU(Gauge<u64>),
    GI(Gauge<i64>),
    GF(Gauge<f64>),
}
const BOUNDS: [f64; 7] = [1.5, 3.0, 6.0, 12.0, 24.0, 48.0, 96.0];
pub fn make(m: &Meter, k: K, name: &str) -> In {
    let n = name.to_string();
    match k {
        CntU => In::CU(m.u64_counter(n).build()),
        CntF => In::CF(m.f64_counter(n).build()),
        UdI => In::UI(m.i64_up_down_counter(n).build()),
        UdF => In::UF(m.f64_up_down_counter(n).build()),
        HistU | ExpU => In::HU(m.u64_histogram(n).with_boundaries(BOUNDS.to_vec()).build()),
        HistF | ExpF => In::HF(m.f64_histogram(n).with_boundaries(BOUNDS.to_vec()).build()),
        GaugeU => In::GU(m.u64_gauge(n).build()),
        GaugeI => In::GI(m.i64_gauge(n).build()),
        GaugeF => In::GF(m.f64_gauge(n).build()),
    }
}
/// value of measurement i
fn val(k: K, i: u32) -> i64 {
    match k {
        UdI | UdF => 3i64.pow(i) * if i % 2 == 1 { -1 } else { 1 },
        GaugeU | GaugeF => i as i64 + 1,
        GaugeI => -(i as i64) - 1,
        _ => 1 << i,
    }
}
pub fn record(x: &In, k: K, i: u32, a: &[KeyValue]) {
    let v = val(k, i);
    match x {
        In::CU(c) => c.add(v as u64, a),
        In::CF(c) => c.add(v as f64, a),
        In::UI(c) => c.add(v, a),
        In::UF(c) => c.add(v as f64, a),
        In::HU(c) => c.record(v as u64, a),
        In::HF(c) => c.record(v as f64, a),
        In::GU(c) => c.record(v as u64, a),
        In::GI(c) => c.record(v, a),
        In::GF(c) => c.record(v as f64, a),
    }
}

/// attribute lists; 4 is the same set as 3 in another order
pub fn attrs(a: u8) -> Vec<KeyValue> {
    let (x, y) = ("a", "b");
    match a {
        0 => vec![],
        1 => vec![KeyValue::new(x, 1)],
        2 => vec![KeyValue::new(x, 2)],
        3 => vec![KeyValue::new(x, 1), KeyValue::new(y, 2)],
        4 => vec![KeyValue::new(y, 2), KeyValue::new(x, 1)],
        n => vec![KeyValue::new(x, n as i64)],
    }
}
pub fn canon(a: &[KeyValue]) -> String {
    let mut v: Vec<String> = a.iter().map(|k| format!("{}={}", k.key, match &k.value { Value::I64(i) => format!("{i}"), o => format!("{o:?}") })).collect();
    v.sort();
    v.join(",")
}
const OVER: &str = "otel.metric.overflow=Bool(true)";

/// decoded content of one point
#[derive(Clone, Debug, PartialEq)]
pub enum Pt {
    Sum(i64),
    Gauge(i64),
    Hist { count: u64, sum: i64, min: i64, max: i64, buckets: Vec<u64>, total: u64 },
}
pub type Points = Vec<(String, Pt)>;

trait ToI: Copy {
    fn i(self) -> i64;
}
impl ToI for u64 {
    fn i(self) -> i64 {
        if self > i64::MAX as u64 { i64::MIN } else { self as i64 }
    }
}
impl ToI for i64 {
    fn i(self) -> i64 {
        self
    }
}
impl ToI for f64 {
    fn i(self) -> i64 {
        if self.fract() != 0.0 || self.abs() > 1e15 { i64::MIN } else { self as i64 }
    }
}
fn points<T: ToI>(d: &MetricData<T>, out: &mut Points) -> Option<Temporality> {
    match d {
        MetricData::Sum(s) => {
            out.extend(s.data_points.iter().map(|p| (canon(&p.attributes), Pt::Sum(p.value.i()))));
            Some(s.temporality)
        }
        MetricData::Gauge(s) => {
            out.extend(s.data_points.iter().map(|p| (canon(&p.attributes), Pt::Gauge(p.value.i()))));
            None
        }
        MetricData::Histogram(s) => {
            out.extend(s.data_points.iter().map(|p| {
                (canon(&p.attributes), Pt::Hist {
                    count: p.count, sum: p.sum.i(),
                    min: p.min.map(|v| v.i()).unwrap_or(0), max: p.max.map(|v| v.i()).unwrap_or(0),
                    buckets: p.bucket_counts.clone(), total: p.bucket_counts.iter().sum(),
                })
            }));
            Some(s.temporality)
        }
        MetricData::ExponentialHistogram(s) => {
            out.extend(s.data_points.iter().map(|p| {
                (canon(&p.attributes), Pt::Hist {
                    count: p.count as u64, sum: p.sum.i(),
                    min: p.min.map(|v| v.i()).unwrap_or(0), max: p.max.map(|v| v.i()).unwrap_or(0),
                    buckets: vec![],
                    total: p.zero_count + p.positive_bucket.counts.iter().sum::<u64>() + p.negative_bucket.counts.iter().sum::<u64>(),
                })
            }));
            Some(s.temporality)
        }
    }
}

#[derive(Clone, Debug)]
pub enum Me {
    /// measurement id, stream, canonical attributes
    M(u32, String, String),
    MD(u32),
    /// collection k of reader r; result: stream -> points
    C(usize, usize),
    CD(usize, usize, BTreeMap<String, Points>),
}

#[derive(Default)]
pub struct Hist {
    pub ev: RMutex<Vec<Me>>,
    n: RMutex<usize>,
}
impl Hist {
    pub fn push(&self, e: Me) {
        mc::log(format!("{e:?}"));
        self.ev.lock().unwrap().push(e)
    }
    pub fn next(&self) -> usize {
        let mut g = self.n.lock().unwrap();
        *g += 1;
        *g
    }
}
pub fn rm() -> ResourceMetrics {
    ResourceMetrics { resource: Resource::builder_empty().build(), scope_metrics: vec![] }
}
pub fn decode(r: &ResourceMetrics) -> BTreeMap<String, Points> {
    let mut out: BTreeMap<String, Points> = BTreeMap::new();
    for s in &r.scope_metrics {
        for m in &s.metrics {
            let mut v = Vec::new();
            let (ty, _) = match &m.data {
                AggregatedMetrics::U64(d) => ("u", points(d, &mut v)),
                AggregatedMetrics::I64(d) => ("i", points(d, &mut v)),
                AggregatedMetrics::F64(d) => ("f", points(d, &mut v)),
            };
            let key = format!("{}/{}/{}/{}{}", s.scope.name(), m.name.to_lowercase(), m.unit, ty, match v.first() { Some((_, Pt::Sum(_))) => "s", Some((_, Pt::Gauge(_))) => "g", Some(_) => "h", None => "-" });
            if let Some(_) = out.insert(key.clone(), v) {
                mc::violation(format!("two metrics for the same stream {key} in one collection: {:?}", r.scope_metrics));
            }
        }
    }
    out
}
pub fn collect(h: &Hist, r: usize, rd: &Shared) {
    let k = h.next();
    h.push(Me::C(k, r));
    let mut x = rm();
    if let Err(e) = st(rd.collect(&mut x)) {
        mc::violation(format!("collect failed: {e}"));
    }
    h.push(Me::CD(k, r, decode(&x)));
}

/// what the oracle checks
#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    /// totals: nothing lost, doubled or misattributed
    Totals,
    /// internal consistency of points
    Points,
    /// cardinality limit
    Limit(usize),
}

fn subset(k: K, cand: &[u32], v: i64) -> Option<BTreeSet<u32>> {
    for m in 0u32..(1 << cand.len()) {
        let ids: Vec<u32> = (0..cand.len()).filter(|i| m >> i & 1 == 1).map(|i| cand[i]).collect();
        if ids.iter().map(|i| val(k, *i)).sum::<i64>() == v {
            return Some(ids.into_iter().collect());
        }
    }
    None
}

pub fn judge(ev: &[Me], kinds: &dyn Fn(&str) -> K, temps: &[Temporality], mode: Mode) {
    let bad = |m: String| -> ! { mc::violation(format!("{m}; history {ev:?}")) };
    let ms: Vec<(u32, &str, &str, usize, usize)> = ev
        .iter()
        .enumerate()
        .filter_map(|(i, e)| if let Me::M(id, s, a) = e {
            Some((*id, s.as_str(), a.as_str(), i, ev.iter().position(|e| matches!(e, Me::MD(x) if x == id)).unwrap_or(usize::MAX)))
        } else { None })
        .collect();
    let streams: BTreeSet<&str> = ms.iter().map(|m| m.1).collect();
    let attr_of = |id: u32| ms.iter().find(|m| m.0 == id).unwrap().2;
    let cols: Vec<(usize, usize, usize, &BTreeMap<String, Points>)> = ev
        .iter()
        .enumerate()
        .filter_map(|(i, e)| if let Me::CD(k, r, p) = e {
            Some((ev.iter().position(|e| matches!(e, Me::C(x, _) if x == k)).unwrap(), i, *r, p))
        } else { None })
        .collect();
    for c in &cols {
        for s in c.3.keys() {
            if !streams.contains(s.as_str()) && !(s.ends_with('-')) {
                bad(format!("stream {s} was collected but nothing was recorded on it"));
            }
        }
    }
    for s in streams {
        let k = kinds(s);
        let ids: Vec<u32> = ms.iter().filter(|m| m.1 == s).map(|m| m.0).collect();
        for r in 0..temps.len() {
            let delta = temps[r] == Temporality::Delta && !matches!(k, UdI | UdF)
                || temps[r] == Temporality::LowMemory && !matches!(k, UdI | UdF) && !k.is_gauge();
            let cs: Vec<(usize, usize, Points)> =
                cols.iter().filter(|c| c.2 == r).map(|c| (c.0, c.1, c.3.get(s).cloned().unwrap_or_default())).collect();
            let mut dec: Vec<(usize, usize, BTreeMap<String, BTreeSet<u32>>)> = Vec::new();
            for (b, e, pts) in &cs {
                let mut mm: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
                for (a, p) in pts {
                    if mm.contains_key(a) {
                        bad(format!("two points for attributes {{{a}}} of {s} in one collection: {pts:?}"));
                    }
                    let set = match p {
                        Pt::Sum(v) | Pt::Hist { sum: v, .. } => match subset(k, &ids, *v) {
                            Some(x) => x,
                            None => bad(format!("{s}{{{a}}}: {p:?} is not a sum of measurements")),
                        },
                        Pt::Gauge(v) => match ids.iter().find(|i| val(k, **i) == *v) {
                            Some(i) => [*i].into(),
                            None => bad(format!("{s}{{{a}}} reports {v}, which was never recorded")),
                        },
                    };
                    if set.is_empty() {
                        bad(format!("{s}{{{a}}}: a point without any measurement: {p:?}"));
                    }
                    for id in &set {
                        if attr_of(*id) != a && !(a == OVER && matches!(mode, Mode::Limit(_))) {
                            bad(format!("{s}{{{a}}}: holds measurement {id}, recorded on {{{}}}", attr_of(*id)));
                        }
                        if ms.iter().find(|m| m.0 == *id).unwrap().3 > *e {
                            bad(format!("{s}{{{a}}}: holds measurement {id}, which had not been recorded"));
                        }
                    }
                    if let Pt::Hist { count, min, max, buckets, total, .. } = p {
                        let vals: Vec<i64> = set.iter().map(|i| val(k, *i)).collect();
                        if *count != set.len() as u64 || total != count {
                            bad(format!("{s}{{{a}}}: {p:?} has a count that does not match its measurements {set:?}"));
                        }
                        if vals.iter().min() != Some(min) || vals.iter().max() != Some(max) {
                            bad(format!("{s}{{{a}}}: {p:?} has a wrong minimum or maximum for its measurements {set:?}"));
                        }
                        if !buckets.is_empty() {
                            for (i, n) in buckets.iter().enumerate() {
                                if *n != set.contains(&(i as u32)) as u64 {
                                    bad(format!("{s}{{{a}}}: {p:?} has wrong buckets for its measurements {set:?}"));
                                }
                            }
                        }
                    }
                    mm.insert(a.clone(), set);
                }
                dec.push((*b, *e, mm));
            }
            if let Mode::Limit(l) = mode {
                for (_, _, mm) in &dec {
                    let own = mm.keys().filter(|a| !a.is_empty() && *a != OVER).count();
                    if own > l {
                        bad(format!("{s}: {own} attribute sets reported with a limit of {l}"));
                    }
                    if let Some(o) = mm.get(OVER) {
                        if own < l {
                            bad(format!("{s}: overflow used although only {own} of {l} attribute sets are in use"));
                        }
                        for id in o {
                            if mm.contains_key(attr_of(*id)) {
                                bad(format!("{s}: measurement {id} went to the overflow point although {{{}}} has its own", attr_of(*id)));
                            }
                        }
                    }
                }
            }
            if k.is_gauge() {
                for (i, (b, e, mm)) in dec.iter().enumerate() {
                    let keys: BTreeSet<&str> = ms.iter().filter(|m| m.1 == s).map(|m| m.2).collect();
                    for a in keys {
                        let mine: Vec<_> = ms.iter().filter(|m| m.1 == s && m.2 == a).collect();
                        let prev = if i == 0 { None } else { Some((dec[i - 1].0, dec[i - 1].1)) };
                        let due = mine.iter().any(|m| m.4 < *b && (!delta || prev.map(|p| m.3 > p.1).unwrap_or(true)));
                        match mm.get(a) {
                            None => {
                                if due && !matches!(mode, Mode::Limit(_)) {
                                    bad(format!("{s}{{{a}}}: no point although it was recorded before the collection"));
                                }
                            }
                            Some(set) => {
                                let id = *set.iter().next().unwrap();
                                let me = mine.iter().find(|m| m.0 == id).unwrap();
                                if let Some(o) = mine.iter().find(|m| m.3 > me.4 && m.4 < *b) {
                                    bad(format!("{s}{{{a}}}: reports measurement {id} although measurement {} was recorded after it and before the collection", o.0));
                                }
                                if delta {
                                    if let Some(p) = prev {
                                        if me.4 < p.0 {
                                            bad(format!("{s}{{{a}}}: reports measurement {id} again in a later delta interval"));
                                        }
                                    }
                                }
                            }
                        }
                    }
                    let _ = e;
                }
                continue;
            }
            // totals
            let mut before: BTreeSet<u32> = BTreeSet::new();
            for (i, (b, _, mm)) in dec.iter().enumerate() {
                let now: BTreeSet<u32> = mm.values().flatten().copied().collect();
                if now.len() != mm.values().map(|s| s.len()).sum::<usize>() {
                    bad(format!("{s}: a measurement is in two points of one collection"));
                }
                if delta {
                    if let Some(x) = now.intersection(&before).next() {
                        bad(format!("{s}: measurement {x} was collected twice"));
                    }
                } else if let Some(x) = before.difference(&now).next() {
                    bad(format!("{s}: measurement {x} was collected and then vanished from the cumulative total"));
                }
                before.extend(now.iter().copied());
                for m in ms.iter().filter(|m| m.1 == s && m.4 < *b) {
                    if !before.contains(&m.0) {
                        bad(format!("{s}: measurement {} completed before collection {i} but is in no collected point", m.0));
                    }
                }
            }
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Op {
    /// record measurement id with attribute list a on the shared instrument
    M(u32, u8),
    /// collect on reader r
    C(usize),
    /// create an instrument (scope s, definition d) and record measurement id on it
    N(u32, u8, u8),
}
use Op::*;

#[derive(Clone)]
struct Sys {
    h: Arc<Hist>,
    inst: Option<In>,
    k: K,
    rd: Vec<Shared>,
    prov: SdkMeterProvider,
}
fn stream_key(scope: &str, name: &str, k: K) -> String {
    let t = match k {
        CntU => "us",
        CntF | UdF => "fs",
        UdI => "is",
        HistU | ExpU => "uh",
        HistF | ExpF => "fh",
        GaugeU => "ug",
        GaugeI => "ig",
        GaugeF => "fg",
    };
    format!("{scope}/{name}//{t}")
}
/// definitions for instrument creation scenarios: name, kind
pub fn def(d: u8) -> (&'static str, K) {
    match d {
        0 => ("x", CntU),
        1 => ("X", CntU),
        2 => ("x", HistU),
        3 => ("y", CntU),
        4 => ("x", CntF),
        _ => ("z", UdI),
    }
}
fn scope_name(s: u8) -> &'static str {
    ["s0", "s1", "s2"][s as usize]
}
impl Sys {
    fn run(&self, ops: &[Op]) {
        for o in ops {
            match *o {
                M(id, a) => {
                    let at = attrs(a);
                    self.h.push(Me::M(id, stream_key("s0", "c", self.k), canon(&at)));
                    record(self.inst.as_ref().unwrap(), self.k, id, &at);
                    self.h.push(Me::MD(id));
                }
                C(r) => collect(&self.h, r, &self.rd[r]),
                N(id, s, d) => {
                    let (n, k) = def(d);
                    self.h.push(Me::M(id, stream_key(scope_name(s), &n.to_lowercase(), k), String::new()));
                    let m = self.prov.meter_with_scope(InstrumentationScope::builder(scope_name(s)).build());
                    let i = make(&m, k, n);
                    record(&i, k, id, &[]);
                    self.h.push(Me::MD(id));
                }
            }
        }
    }
}

fn met(p: &'static str, name: String, q: u32, t: u32, k: K, temps: Vec<Temporality>, mode: Mode, create: bool, threads: Vec<Vec<Op>>, end: Vec<Op>) -> Scenario {
    let name: &'static str = Box::leak(name.into_boxed_str());
    scenario(p, name, q, t, move || {
        let rd: Vec<Shared> = temps.iter().map(|t| Shared(Arc::new(ManualReader::builder().with_temporality(*t).build()))).collect();
        let mut b = SdkMeterProvider::builder();
        for r in &rd {
            b = b.with_reader(r.clone());
        }
        if let Mode::Limit(l) = mode {
            b = b.with_view(new_view(Instrument::new().name("*"), Stream::new().cardinality_limit(l)).unwrap());
        }
        if matches!(k, ExpU | ExpF) {
            b = b.with_view(
                new_view(Instrument::new().name("*"), Stream::new().aggregation(Aggregation::Base2ExponentialHistogram { max_size: 160, max_scale: 20, record_min_max: true })).unwrap(),
            );
        }
        let prov = b.build();
        let inst = (!create).then(|| make(&prov.meter_with_scope(InstrumentationScope::builder("s0").build()), k, "c"));
        let sys = Sys { h: Arc::new(Hist::default()), inst, k, rd, prov };
        let hs: Vec<_> = threads[1..]
            .iter()
            .map(|ops| {
                let (s, o) = (sys.clone(), ops.clone());
                std::thread::spawn(move || s.run(&o))
            })
            .collect();
        sys.run(&threads[0]);
        for h in hs {
            h.join().unwrap();
        }
        sys.run(&end);
        for r in 0..temps.len() {
            sys.run(&[C(r)]);
        }
        let ev = sys.h.ev.lock().unwrap().clone();
        let kf = |s: &str| -> K {
            if !create { return k }
            match s.rsplit('/').next().unwrap() {
                "uh" => HistU,
                "fs" => CntF,
                "is" => UdI,
                _ => CntU,
            }
        };
        judge(&ev, &kf, &temps, mode);
        ev.iter()
            .filter_map(|e| match e {
                Me::CD(_, r, p) => Some(format!("r{r}{}", p.iter().map(|(s, v)| {
                    let mut v: Vec<String> = v.iter().map(|(a, p)| format!("{a}:{}", match p { Pt::Sum(x) | Pt::Gauge(x) | Pt::Hist { sum: x, .. } => x })).collect();
                    v.sort();
                    format!("[{s} {}]", v.join(" "))
                }).collect::<String>())),
                _ => None,
            })
            .collect::<Vec<_>>()
            .join(" ")
    })
}

pub fn scenarios() -> Vec<Scenario> {
    use Temporality::{Cumulative as Cu, Delta as De, LowMemory as Lm};
    let mut v = Vec::new();
    let kinds = [CntU, CntF, UdI, UdF, HistU, HistF, ExpU, ExpF, GaugeU, GaugeI, GaugeF];
    for k in kinds {
        let heavy = matches!(k, HistU | HistF | ExpU | ExpF);
        let p = if heavy { "C11" } else { "C10" };
        let mode = if heavy { Mode::Points } else { Mode::Totals };
        for (tn, t) in [("cumulative", Cu), ("delta", De)] {
            let n = |s: &str| format!("{k:?}.{tn}.{s}");
            // no attributes
            v.push(met(p, n("plain"), 3, 5, k, vec![t], mode, false, vec![vec![C(0), C(0)], vec![M(0, 0), M(1, 0)], vec![M(2, 0)]], vec![]));
            // one attribute set, new to every interval
            v.push(met(p, n("one_set"), 3, 4, k, vec![t], mode, false, vec![vec![C(0), C(0)], vec![M(0, 1), M(1, 1)], vec![M(2, 1)]], vec![]));
            // same set in two orders, a known and a new set
            v.push(met(p, n("orders"), 3, 4, k, vec![t], mode, false, vec![vec![C(0)], vec![M(0, 3), M(1, 4)], vec![M(2, 4), M(3, 2)]], vec![]));
            v.push(met(p, n("mixed"), 3, 4, k, vec![t], mode, false, vec![vec![M(0, 0), C(0), C(0)], vec![M(1, 0), M(2, 1)]], vec![M(3, 0), M(4, 1)]));
            // deferred: measure between two collections that nothing touches again
            v.push(met(p, n("quiet"), 3, 5, k, vec![t], mode, false, vec![vec![M(0, 0), C(0)], vec![M(1, 0)]], vec![C(0), C(0), M(2, 0)]));
        }
        if matches!(k, CntU | HistU | GaugeI | UdI | ExpU) {
            v.push(met(p, format!("{k:?}.two_readers"), 2, 3, k, vec![Cu, De], mode, false, vec![vec![C(0), C(1)], vec![M(0, 1), M(1, 0)], vec![C(1), M(2, 0)]], vec![]));
            v.push(met(p, format!("{k:?}.low_memory"), 2, 4, k, vec![Lm], mode, false, vec![vec![C(0), C(0)], vec![M(0, 0), M(1, 1)]], vec![]));
            v.push(met(p, format!("{k:?}.two_collectors"), 2, 3, k, vec![Cu], mode, false, vec![vec![M(0, 0), M(1, 1)], vec![M(2, 1), M(3, 0)]], vec![C(0)]));
        }
    }
    for (k, kn) in [(CntU, "counter"), (HistU, "histogram"), (UdI, "updown"), (CntF, "fcounter")] {
        for (tn, t) in [("cumulative", Cu), ("delta", De)] {
            for l in [1usize, 2] {
                let n = |s: &str| format!("limit{l}.{kn}.{tn}.{s}");
                v.push(met("C12", n("race"), 3, 4, k, vec![t], Mode::Limit(l), false, vec![vec![M(0, 1), M(1, 2)], vec![M(2, 5), M(3, 1)]], vec![M(4, 1), M(5, 5)]));
                if k == CntU || k == HistU {
                    v.push(met("C12", n("collect"), 2, 3, k, vec![t], Mode::Limit(l), false, vec![vec![M(0, 1), C(0), M(1, 2)], vec![M(2, 3), M(3, 4)]], vec![M(4, 1), M(5, 5)]));
                    v.push(met("C12", n("three"), 2, 3, k, vec![t], Mode::Limit(l), false, vec![vec![M(0, 1), M(3, 0)], vec![M(1, 2)], vec![M(2, 5)]], vec![C(0), M(4, 5), M(5, 1)]));
                }
            }
        }
    }
    for (tn, ts) in [("cumulative", vec![Cu]), ("delta", vec![De]), ("two_readers", vec![Cu, De])] {
        let n = |s: &str| format!("create.{tn}.{s}");
        let two = ts.len() == 2;
        let end = |v: Vec<Op>| v;
        let c = Mode::Totals;
        let (q, t) = if two { (2, 3) } else { (3, 4) };
        v.push(met("C14", n("same"), q, t, CntU, ts.clone(), c, true, vec![vec![N(0, 0, 0)], vec![N(1, 0, 0)]], end(vec![N(2, 0, 0)])));
        v.push(met("C14", n("case"), q, t, CntU, ts.clone(), c, true, vec![vec![N(0, 0, 0), N(1, 0, 1)], vec![N(2, 0, 1)]], end(vec![])));
        v.push(met("C14", n("kinds"), q, t, CntU, ts.clone(), c, true, vec![vec![N(0, 0, 0)], vec![N(1, 0, 2)], vec![N(2, 0, 4)]], end(vec![N(3, 0, 0), N(4, 0, 2)])));
        v.push(met("C14", n("scopes"), q, t, CntU, ts.clone(), c, true, vec![vec![N(0, 0, 0)], vec![N(1, 1, 0)]], end(vec![N(2, 1, 0), N(3, 0, 0)])));
        v.push(met("C14", n("collect"), q, t, CntU, ts.clone(), c, true, vec![vec![N(0, 0, 0), C(0)], vec![N(1, 0, 0), N(2, 1, 3)]], end(vec![C(0), N(3, 0, 5)])));
        v.push(met("C14", n("three"), 2, 3, CntU, ts.clone(), c, true, vec![vec![N(0, 0, 0)], vec![N(1, 0, 0)], vec![C(0), N(2, 0, 3)]], end(vec![])));
    }
    v
}
