//! C45: what the OTLP metric request says about collected metrics.
use crate::common::*;
use crate::tree::{self, *};
use bmc::{family, keyed, product, Fail, Family, Obs, Run, R};
use opentelemetry::{InstrumentationScope, KeyValue};
use opentelemetry_otlp::{Protocol, WithExportConfig, WithHttpConfig};
use opentelemetry_proto::tonic::collector::metrics::v1::ExportMetricsServiceRequest;
use opentelemetry_sdk::metrics::data::*;
use opentelemetry_sdk::metrics::exporter::PushMetricExporter as _;
use opentelemetry_sdk::metrics::Temporality;
use opentelemetry_sdk::Resource;
use prost::Message;

pub trait Num: Copy + std::fmt::Debug {
    fn value(self) -> (&'static str, T);
    fn double(self) -> f64;
    fn wrap(d: MetricData<Self>) -> AggregatedMetrics
    where
        Self: Sized;
    fn all() -> Vec<Self>
    where
        Self: Sized;
}
impl Num for u64 {
    fn value(self) -> (&'static str, T) {
        ("as_int", some_n(self))
    }
    fn double(self) -> f64 {
        self as f64
    }
    fn wrap(d: MetricData<u64>) -> AggregatedMetrics {
        AggregatedMetrics::U64(d)
    }
    fn all() -> Vec<u64> {
        // the wire format holds signed integers
        vec![3, 0, 1, (1 << 53) + 1, i64::MAX as u64]
    }
}
impl Num for i64 {
    fn value(self) -> (&'static str, T) {
        ("as_int", some_n(self))
    }
    fn double(self) -> f64 {
        self as f64
    }
    fn wrap(d: MetricData<i64>) -> AggregatedMetrics {
        AggregatedMetrics::I64(d)
    }
    fn all() -> Vec<i64> {
        vec![3, 0, -1, (1 << 53) + 1, i64::MIN, i64::MAX]
    }
}
impl Num for f64 {
    fn value(self) -> (&'static str, T) {
        ("as_double", float(self))
    }
    fn double(self) -> f64 {
        self
    }
    fn wrap(d: MetricData<f64>) -> AggregatedMetrics {
        AggregatedMetrics::F64(d)
    }
    fn all() -> Vec<f64> {
        vec![3.5, 0.0, -0.0, -0.1, f64::MAX, 5e-324, f64::NAN, f64::INFINITY, f64::NEG_INFINITY]
    }
}
#[derive(Clone, Debug)]
struct Exemplar_<N> {
    attrs: Vec<KeyValue>,
    time: u64,
    value: N,
    span: [u8; 8],
    trace: [u8; 16],
}
#[derive(Clone, Debug)]
struct Point<N> {
    attrs: Vec<KeyValue>,
    value: N,
    exemplars: Vec<Exemplar_<N>>,
    count: u64,
    bounds: Vec<f64>,
    counts: Vec<u64>,
    min: Option<N>,
    max: Option<N>,
    scale: i8,
    zero_count: u64,
    offset: (i32, i32),
    negative: Vec<u64>,
    zero_threshold: f64,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Kind {
    Gauge,
    Sum,
    Hist,
    Exp,
}
const KINDS: [Kind; 4] = [Kind::Gauge, Kind::Sum, Kind::Hist, Kind::Exp];
#[derive(Clone, Debug)]
struct Desc<N> {
    name: &'static str,
    description: &'static str,
    unit: &'static str,
    kind: Kind,
    start: Option<u64>,
    time: u64,
    delta: bool,
    monotonic: bool,
    points: Vec<Point<N>>,
}
fn point<N: Num>() -> Point<N> {
    Point {
        attrs: vec![KeyValue::new("base", "b")],
        value: N::all()[0],
        exemplars: vec![],
        count: 7,
        bounds: vec![1.0, 2.5],
        counts: vec![1, 2, 4],
        min: Some(N::all()[1]),
        max: Some(N::all()[0]),
        scale: 3,
        zero_count: 2,
        offset: (-4, 5),
        negative: vec![9, 8],
        zero_threshold: 0.0,
    }
}
fn base<N: Num>(kind: Kind) -> Desc<N> {
    Desc { name: "m", description: "d", unit: "u", kind, start: Some(TIMES[0]), time: TIMES[0] + 3, delta: false, monotonic: true, points: vec![point()] }
}
fn real<N: Num>(d: &Desc<N>) -> Metric {
    let ex = |p: &Point<N>| p.exemplars.iter().map(|e| Exemplar { filtered_attributes: e.attrs.clone(), time: at(e.time), value: e.value, span_id: e.span, trace_id: e.trace }).collect::<Vec<_>>();
    let start = at(d.start.unwrap_or(0));
    let temporality = if d.delta { Temporality::Delta } else { Temporality::Cumulative };
    let data = match d.kind {
        Kind::Gauge => MetricData::Gauge(Gauge {
            data_points: d.points.iter().map(|p| GaugeDataPoint { attributes: p.attrs.clone(), value: p.value, exemplars: ex(p) }).collect(),
            start_time: d.start.map(at),
            time: at(d.time),
        }),
        Kind::Sum => MetricData::Sum(Sum {
            data_points: d.points.iter().map(|p| SumDataPoint { attributes: p.attrs.clone(), value: p.value, exemplars: ex(p) }).collect(),
            start_time: start,
            time: at(d.time),
            temporality,
            is_monotonic: d.monotonic,
        }),
        Kind::Hist => MetricData::Histogram(Histogram {
            data_points: d
                .points
                .iter()
                .map(|p| HistogramDataPoint {
                    attributes: p.attrs.clone(),
                    count: p.count,
                    bounds: p.bounds.clone(),
                    bucket_counts: p.counts.clone(),
                    min: p.min,
                    max: p.max,
                    sum: p.value,
                    exemplars: ex(p),
                })
                .collect(),
            start_time: start,
            time: at(d.time),
            temporality,
        }),
        Kind::Exp => MetricData::ExponentialHistogram(ExponentialHistogram {
            data_points: d
                .points
                .iter()
                .map(|p| ExponentialHistogramDataPoint {
                    attributes: p.attrs.clone(),
                    count: p.count as usize,
                    min: p.min,
                    max: p.max,
                    sum: p.value,
                    scale: p.scale,
                    zero_count: p.zero_count,
                    positive_bucket: ExponentialBucket { offset: p.offset.0, counts: p.counts.clone() },
                    negative_bucket: ExponentialBucket { offset: p.offset.1, counts: p.negative.clone() },
                    zero_threshold: p.zero_threshold,
                    exemplars: ex(p),
                })
                .collect(),
            start_time: start,
            time: at(d.time),
            temporality,
        }),
    };
    Metric { name: d.name.into(), description: d.description.into(), unit: d.unit.into(), data: N::wrap(data) }
}
fn expected<N: Num>(d: &Desc<N>) -> T {
    let temporality = n(if d.delta { 1 } else { 2 });
    let points = d
        .points
        .iter()
        .map(|p| {
            let opt = |v: Option<N>| v.map(|x| float(x.double())).unwrap_or(T::N);
            let mut out = vec![
                ("attributes", attrs(&p.attrs)),
                ("start_time_unix_nano", n(d.start.unwrap_or(0))),
                ("time_unix_nano", n(d.time)),
                (
                    "exemplars",
                    list(
                        p.exemplars.iter().map(|e| msg(vec![
                            ("filtered_attributes", attrs(&e.attrs)), ("time_unix_nano", n(e.time)), e.value.value(), ("span_id", bytes(&e.span)), ("trace_id", bytes(&e.trace)),
                        ])).collect(),
                    ),
                ),
            ];
            let nums = |l: &[u64]| list(l.iter().map(|&x| some_n(x)).collect());
            match d.kind {
                Kind::Gauge | Kind::Sum => out.push(p.value.value()),
                Kind::Hist => out.extend([
                    ("count", n(p.count)), ("sum", float(p.value.double())), ("min", opt(p.min)), ("max", opt(p.max)), ("bucket_counts", nums(&p.counts)),
                    ("explicit_bounds", list(p.bounds.iter().map(|&b| float(b)).collect())),
                ]),
                Kind::Exp => out.extend([
                    ("count", n(p.count)), ("sum", float(p.value.double())), ("min", opt(p.min)), ("max", opt(p.max)), ("scale", n(p.scale)), ("zero_count", n(p.zero_count)),
                    ("positive", sub(vec![("offset", n(p.offset.0)), ("bucket_counts", nums(&p.counts))])),
                    ("negative", sub(vec![("offset", n(p.offset.1)), ("bucket_counts", nums(&p.negative))])), ("zero_threshold", f(p.zero_threshold)),
                ]),
            }
            msg(out)
        })
        .collect();
    let points = ("data_points", list(points));
    let data = match d.kind {
        Kind::Gauge => ("gauge", msg(vec![points])),
        Kind::Sum => ("sum", msg(vec![points, ("aggregation_temporality", temporality), ("is_monotonic", flag(d.monotonic))])),
        Kind::Hist => ("histogram", msg(vec![points, ("aggregation_temporality", temporality)])),
        Kind::Exp => ("exponential_histogram", msg(vec![points, ("aggregation_temporality", temporality)])),
    };
    msg(vec![("name", s(d.name)), ("description", s(d.description)), ("unit", s(d.unit)), data])
}
pub struct Made {
    pub scope: InstrumentationScope,
    pub metrics: Vec<(Metric, T)>,
}
fn judge(how: &str, req: tree::D, want: Vec<(T, T, T)>, groups: usize, res: &Resource) -> Result<(), String> {
    let t = req.map_err(|e| format!("{how}: the request does not decode: {e}"))?;
    let f = flatten(&t, ["resource_metrics", "scope_metrics", "metrics"], res).map_err(|e| format!("{how}: {e}"))?;
    if f.groups.len() > groups {
        return Err(format!("{how}: {} groups for {groups} scopes", f.groups.len()));
    }
    same_items(f.items, want).map_err(|e| format!("{how}: {e}"))
}
/// What is left of a tree when numbers outside JSON's range are lost (not those inside attribute values).
fn without_non_finite(t: &T) -> T {
    match t {
        T::M(m) if m.iter().any(|(k, _)| *k == "key" || *k == "double_value") => t.clone(),
        T::M(m) => T::M(m.iter().map(|(k, v)| (*k, without_non_finite(v))).filter(|(_, v)| *v != T::N).collect()),
        T::L(l) => T::L(l.iter().map(without_non_finite).collect()),
        T::S(s) if s == "NaN" || s == "f7ff0000000000000" || s == "ffff0000000000000" => T::N,
        _ => t.clone(),
    }
}
/// Two metrics of different scopes, and what they should become.
pub fn sample(n: u64) -> (ResourceMetrics, Vec<(T, T, T)>) {
    let sc = scopes();
    let mut out = (ResourceMetrics { resource: Resource::builder_empty().build(), scope_metrics: vec![] }, vec![]);
    for (i, kind) in [Kind::Sum, Kind::Hist].into_iter().enumerate() {
        let mut d = base::<u64>(kind);
        d.points[0].value = n;
        out.0.scope_metrics.push(ScopeMetrics { scope: sc[i].clone(), metrics: vec![real(&d)] });
        out.1.push((scope_t(&sc[i]), T::N, expected(&d)));
    }
    out
}
pub fn judge_sample(req: tree::D, n: u64) -> Result<(), String> {
    judge("body", req, sample(n).1, 2, &Resource::builder_empty().build())
}
fn exported(rm: &mut ResourceMetrics, p: Protocol) -> Result<bytes::Bytes, String> {
    let c = Fake::new();
    let e = opentelemetry_otlp::MetricExporter::builder().with_http().with_http_client(c.clone()).with_protocol(p).build().map_err(|e| e.to_string())?;
    ready(e.export(rm)).map_err(|e| format!("export failed: {e}"))?;
    let mut r = c.take();
    if r.len() != 1 {
        return Err(format!("{} requests", r.len()));
    }
    Ok(r.remove(0).body)
}
fn check(made: Vec<Made>, res: &Resource, o: &mut Obs) -> R {
    let mut want = vec![];
    let mut rm = ResourceMetrics { resource: res.clone(), scope_metrics: vec![] };
    for m in made {
        let mut sm = ScopeMetrics { scope: m.scope.clone(), metrics: vec![] };
        for (metric, t) in m.metrics {
            o.step(&t);
            want.push((scope_t(&m.scope), s(m.scope.schema_url().unwrap_or("")), t));
            sm.metrics.push(metric);
        }
        rm.scope_metrics.push(sm);
    }
    let groups = rm.scope_metrics.len();
    judge("converted", binary(metrics_request(), &ExportMetricsServiceRequest::from(&rm).encode_to_vec()), want.clone(), groups, res)?;
    judge("protobuf", exported(&mut rm, Protocol::HttpBinary).and_then(|b| binary(metrics_request(), &b)), want.clone(), groups, res)?;
    o.outcome(&(want.len(), &want, resource_t(res).show()));
    let body = exported(&mut rm, Protocol::HttpJson)?;
    let Err(e) = judge("JSON", json_bytes(metrics_request(), &body), want.clone(), groups, res) else { return Ok(()) };
    // which of the known weaknesses of the generated JSON encoding explains the difference?
    let mut j: serde_json::Value = serde_json::from_slice(&body).map_err(|e| e.to_string())?;
    let change = |f: &dyn Fn(&T) -> T| want.iter().map(|(a, b, c)| (a.clone(), b.clone(), f(c))).collect::<Vec<_>>();
    if judge("JSON", json(metrics_request(), &j), change(&without_non_finite), groups, res).is_ok() {
        return Err(keyed("json-non-finite-number", e));
    }
    drop_exemplars(&mut j);
    if judge("JSON", json(metrics_request(), &j), change(&without_exemplars), groups, res).is_ok() {
        return Err(keyed("json-exemplars", e));
    }
    if judge("JSON", json(metrics_request(), &j), change(&|t| without_non_finite(&without_exemplars(t))), groups, res).is_ok() {
        return Err(keyed("json-non-finite-number", e));
    }
    Err(Fail::from(e))
}
fn drop_exemplars(j: &mut serde_json::Value) {
    match j {
        serde_json::Value::Object(o) => {
            o.remove("exemplars");
            o.values_mut().for_each(drop_exemplars);
        }
        serde_json::Value::Array(a) => a.iter_mut().for_each(drop_exemplars),
        _ => {}
    }
}
fn without_exemplars(t: &T) -> T {
    match t {
        T::M(m) => T::M(m.iter().filter(|x| x.0 != "exemplars").map(|(k, v)| (*k, without_exemplars(v))).collect()),
        T::L(l) => T::L(l.iter().map(without_exemplars).collect()),
        _ => t.clone(),
    }
}
type Change<N> = Box<dyn Fn(&mut Desc<N>)>;
fn changes<N: Num + 'static>(kind: Kind) -> Vec<Vec<Change<N>>> {
    let mut out: Vec<Vec<Change<N>>> = vec![];
    macro_rules! field { ($($v:expr),* => |$d:ident, $x:ident| $body:expr) => {{
        let mut l: Vec<Change<N>> = vec![];
        for x in $($v)* { l.push(Box::new(move |$d: &mut Desc<N>| { let $x = &x; $body; })); }
        out.push(l);
    }}; }
    field!(["", "n\u{e9}", "other"] => |d, x| d.name = x);
    field!(["", "d\u{e9}\""] => |d, x| d.description = x);
    field!(["", "{\u{b5}s}"] => |d, x| d.unit = x);
    field!(TIMES => |d, x| d.start = Some(*x));
    field!(TIMES => |d, x| d.time = *x);
    field!(attr_lists() => |d, x| d.points[0].attrs = x.clone());
    field!(N::all() => |d, x| d.points[0].value = *x);
    let ex = |v: N, a: Vec<KeyValue>| Exemplar_ { attrs: a, time: TIMES[0], value: v, span: [1, 2, 3, 4, 5, 6, 7, 8], trace: [9; 16] };
    let mut exs = vec![vec![Exemplar_ { attrs: vec![], time: 0, value: N::all()[1], span: [0; 8], trace: [0; 16] }], vec![ex(N::all()[0], vec![]), ex(N::all()[2], vec![KeyValue::new("e", 1)])]];
    exs.extend(N::all().into_iter().map(|v| vec![ex(v, vec![KeyValue::new("e", true)])]));
    exs.extend(attr_lists().into_iter().map(|a| vec![ex(N::all()[0], a)]));
    field!(exs => |d, x| d.points[0].exemplars = x.clone());
    if kind == Kind::Gauge {
        field!([None, Some(0)] => |d, x| d.start = *x);
    } else {
        field!([true] => |d, x| d.delta = *x);
    }
    if kind == Kind::Sum {
        field!([false] => |d, x| d.monotonic = *x);
    }
    if matches!(kind, Kind::Hist | Kind::Exp) {
        let opts = || N::all().into_iter().map(Some).chain([None]);
        field!([0, 1, u64::MAX] => |d, x| d.points[0].count = *x);
        field!(opts() => |d, x| d.points[0].min = *x);
        field!(opts() => |d, x| d.points[0].max = *x);
        field!([vec![], vec![0], vec![1, 0, u64::MAX], vec![300; 130]] => |d, x| d.points[0].counts = x.clone());
    }
    if kind == Kind::Hist {
        field!([vec![], vec![0.0], vec![-0.0], vec![f64::MIN, -1.5, 0.1, f64::MAX]] => |d, x| d.points[0].bounds = x.clone());
    }
    if kind == Kind::Exp {
        field!([0, 1, -1, 20, -10, i8::MIN, i8::MAX] => |d, x| d.points[0].scale = *x);
        field!([0, 1, u64::MAX] => |d, x| d.points[0].zero_count = *x);
        field!([0, 1, -1, i32::MIN, i32::MAX] => |d, x| d.points[0].offset.0 = *x);
        field!([0, 1, -1, i32::MIN, i32::MAX] => |d, x| d.points[0].offset.1 = *x);
        field!([vec![], vec![0], vec![1, 0, u64::MAX]] => |d, x| d.points[0].negative = x.clone());
        field!([0.5, 1e-300, f64::MAX] => |d, x| d.points[0].zero_threshold = *x);
    }
    field!([0usize, 2, 3] => |d, x| {
        let p = d.points.remove(0);
        for i in 0..*x {
            let mut q = p.clone();
            q.attrs.push(KeyValue::new("n", i as i64));
            q.count = i as u64;
            d.points.push(q);
        }
    });
    out
}
fn fields_of<N: Num + 'static>(r: &mut Run, check: fn(Vec<Made>, &Resource, &mut Obs) -> R, keep: fn(&Desc<N>) -> bool) {
    let (res, sc) = (resources(), scopes());
    for kind in KINDS {
        let ch = changes::<N>(kind);
        for k in 0..=r.pick(2, 3) {
            for set in bmc::subsets(ch.len()).into_iter().filter(|x| x.len() == k) {
                let dims: Vec<usize> = set.iter().map(|&i| ch[i].len()).collect();
                product(&dims, |ix| {
                    if !r.go() {
                        return;
                    }
                    let mut d = base::<N>(kind);
                    for (j, &fi) in set.iter().enumerate() {
                        ch[fi][ix[j]](&mut d);
                    }
                    if !keep(&d) {
                        return;
                    }
                    let h = set.iter().sum::<usize>() + ix.iter().sum::<usize>();
                    let (res, sc) = (&res[h % res.len()], &sc[h % sc.len()]);
                    r.case(|| format!("{d:?}"), |o| check(vec![Made { scope: sc.clone(), metrics: vec![(real(&d), expected(&d))] }], res, o));
                });
            }
        }
    }
}
fn fields(r: &mut Run) {
    fields_of::<u64>(r, check, |_| true);
    fields_of::<i64>(r, check, |_| true);
    fields_of::<f64>(r, check, |_| true);
}
/// C56: requests of the same metrics, read back from JSON, except what JSON is known to lose (see C45).
pub fn read_back(r: &mut Run) {
    fn check(made: Vec<Made>, res: &Resource, o: &mut Obs) -> R {
        let scope_metrics = made.into_iter().map(|m| ScopeMetrics { scope: m.scope, metrics: m.metrics.into_iter().map(|x| x.0).collect() }).collect();
        crate::back::back(&ExportMetricsServiceRequest::from(&ResourceMetrics { resource: res.clone(), scope_metrics }), o)
    }
    fn keep<N: Num>(d: &Desc<N>) -> bool {
        let finite = |v: N| v.double().is_finite();
        d.points.iter().all(|p| p.exemplars.is_empty() && finite(p.value) && p.min.is_none_or(finite) && p.max.is_none_or(finite))
    }
    fields_of::<u64>(r, check, keep);
    fields_of::<i64>(r, check, keep);
    fields_of::<f64>(r, check, keep);
}
/// All small arrangements of metrics over scopes.
fn batches(r: &mut Run) {
    let sc = scopes();
    // 0 starts a new scope; the others add a metric of a kind and number type
    let ops: Vec<usize> = (0..13).collect();
    for res in resources() {
        for d in 0..=r.pick(4, 5) {
            r.sequences(&ops, d, |q| format!("{q:?} resource {res:?}"), |q, o| {
                let mut made = vec![];
                for (i, &op) in q.iter().enumerate() {
                    if op == 0 || i == 0 {
                        made.push(Made { scope: sc[i % sc.len()].clone(), metrics: vec![] });
                    }
                    if op > 0 {
                        let kind = KINDS[(op - 1) % 4];
                        made.last_mut().unwrap().metrics.push(match (op - 1) / 4 {
                            0 => (real(&base::<u64>(kind)), expected(&base::<u64>(kind))),
                            1 => (real(&base::<i64>(kind)), expected(&base::<i64>(kind))),
                            _ => (real(&base::<f64>(kind)), expected(&base::<f64>(kind))),
                        });
                    }
                }
                check(made, &res, o)
            });
        }
    }
}
pub fn families() -> Vec<Family> {
    vec![family("C45", "otlp-metric-fields", fields), family("C45", "otlp-metric-batches", batches)]
}
