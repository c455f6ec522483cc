use crate::*;
use opentelemetry_sdk::metrics::data::*;
use opentelemetry_sdk::metrics::{exporter::PushMetricExporter as _, Temporality};
use opentelemetry_stdout::MetricExporter;

#[derive(Clone, Copy, Debug)]
struct Shape {
    /// 0 gauge 1 sum 2 histogram
    kind: usize,
    /// 0 u64 1 i64 2 f64
    num: usize,
    /// delta, monotonic, gauge start time, histogram min, max
    bits: usize,
    points: usize,
    attrs: usize,
    bounds: usize,
}
const PLAIN: Shape = Shape { kind: 1, num: 0, bits: 2, points: 1, attrs: 1, bounds: 0 };
fn strs(f: &mut Fresh, n: usize) -> Vec<KeyValue> {
    f.attrs(n)
}
/// attributes as the points print them: arrays as one text
fn want_attrs(w: &mut Want, a: &[KeyValue]) {
    w.attrs(a)
}
fn data<T: Copy + ToString + std::fmt::Debug>(f: &mut Fresh, w: &mut Want, s: Shape, num: impl Fn(&mut Fresh) -> T) -> MetricData<T> {
    let bit = |k: usize| s.bits >> k & 1 == 1;
    let t = if bit(0) { Temporality::Delta } else { Temporality::Cumulative };
    let (a, b) = (f.time(), f.time());
    let other = if bit(0) { "Cumulative" } else { "Delta" };
    let _ = other;
    match s.kind {
        0 => {
            w.any("Gauge");
            if bit(2) {
                w.one(stamp(a));
            }
            w.one(stamp(b));
            let data_points = (0..s.points)
                .map(|k| {
                    let p = GaugeDataPoint { attributes: strs(f, if k == 0 { s.attrs } else { 1 }), value: num(f), exemplars: vec![] };
                    w.one(p.value);
                    want_attrs(w, &p.attributes);
                    p
                })
                .collect();
            MetricData::Gauge(Gauge { data_points, start_time: bit(2).then_some(a), time: b })
        }
        1 => {
            w.any("Sum");
            w.any(bit(1));
            w.any(format!("{t:?}"));
            w.one(stamp(a));
            w.one(stamp(b));
            let data_points = (0..s.points)
                .map(|k| {
                    let p = SumDataPoint { attributes: strs(f, if k == 0 { s.attrs } else { 1 }), value: num(f), exemplars: vec![] };
                    w.one(p.value);
                    want_attrs(w, &p.attributes);
                    p
                })
                .collect();
            MetricData::Sum(Sum { data_points, start_time: a, time: b, temporality: t, is_monotonic: bit(1) })
        }
        _ => {
            w.any("Histogram");
            w.any(format!("{t:?}"));
            w.one(stamp(a));
            w.one(stamp(b));
            let data_points = (0..s.points)
                .map(|k| {
                    let bounds: Vec<f64> = (0..s.bounds).map(|_| f.real()).collect();
                    let p = HistogramDataPoint {
                        attributes: strs(f, if k == 0 { s.attrs } else { 1 }),
                        count: f.num(),
                        bucket_counts: (0..=s.bounds).map(|_| f.num()).collect(),
                        bounds,
                        min: bit(3).then(|| num(f)),
                        max: bit(4).then(|| num(f)),
                        sum: num(f),
                        exemplars: vec![],
                    };
                    w.one(p.count);
                    w.one(p.sum);
                    p.min.map(|x| w.one(x));
                    p.max.map(|x| w.one(x));
                    want_attrs(w, &p.attributes);
                    for (i, c) in p.bucket_counts.iter().enumerate() {
                        // the bounds around each count
                        if i > 0 {
                            w.any(p.bounds[i - 1]);
                        }
                        if i < p.bounds.len() {
                            w.any(p.bounds[i]);
                        }
                        w.one(c);
                    }
                    p
                })
                .collect();
            MetricData::Histogram(Histogram { data_points, start_time: a, time: b, temporality: t })
        }
    }
}
fn metric(f: &mut Fresh, w: &mut Want, s: Shape) -> Metric {
    let (name, description, unit) = (f.word(), f.word(), f.word());
    for x in [&name, &description, &unit] {
        w.one(x);
    }
    let data = match s.num {
        0 => AggregatedMetrics::U64(data(f, w, s, |f| f.num())),
        1 => AggregatedMetrics::I64(data(f, w, s, |f| -(f.num() as i64))),
        _ => AggregatedMetrics::F64(data(f, w, s, |f| f.real())),
    };
    Metric { name: name.into(), description: description.into(), unit: unit.into(), data }
}
/// one metric list per scope
fn collected(f: &mut Fresh, w: &mut Want, resource: Resource, scopes: &[(usize, Vec<Shape>)]) -> ResourceMetrics {
    want_resource(w, &resource);
    let scope_metrics = scopes
        .iter()
        .map(|(parts, shapes)| {
            let scope = f.scope(*parts);
            w.scope(&scope);
            ScopeMetrics { scope, metrics: shapes.iter().map(|s| metric(f, w, *s)).collect() }
        })
        .collect();
    ResourceMetrics { resource, scope_metrics }
}
fn history(r: &mut Run) {
    let d = r.pick(4, 6);
    let ops = [Some(0usize), Some(1), Some(2), None];
    r.all_sequences(&ops, d, |s| format!("metrics {s:?}"), |s, o| {
        let mut f = Fresh::default();
        let e = MetricExporter::default();
        let mut down = false;
        for op in s {
            match op {
                None => {
                    e.shutdown().map_err(|e| e.to_string())?;
                    down = true;
                }
                Some(k) => {
                    let mut w = Want::default();
                    let res = f.resource(*k);
                    let mut m = collected(&mut f, &mut w, res, &vec![(1, vec![PLAIN; 2]); *k]);
                    let (got, out) = printed(|| now(e.export(&mut m)));
                    if down {
                        ensure!(got.is_err(), "an export after shutdown succeeded");
                        same!(out, "", "printed after shutdown");
                    } else {
                        got.map_err(|e| e.to_string())?;
                        w.judge(&out)?;
                    }
                    e.force_flush().map_err(|e| e.to_string())?;
                }
            }
            o.step(&down);
        }
        o.outcome(&(down, s.len()));
        Ok(())
    });
}
fn content(r: &mut Run) {
    let mut v = vec![];
    product(&[3, 3, 32, 3, r.pick(3, 6), r.pick(3, 4)], |i| {
        let s = Shape { kind: i[0], num: i[1], bits: i[2], points: i[3], attrs: if r.thorough { i[4] } else { [0, 1, 5][i[4]] }, bounds: i[5] };
        let used = [0b00100, 0b00011, 0b11001][s.kind];
        if s.bits & !used == 0 && (s.kind == 2 || s.bounds == 0) && (s.points > 0 || (s.attrs == 0 && s.bounds == 0)) {
            v.push(s);
        }
    });
    for s in v {
        for place in 0..3 {
            r.case(|| format!("{s:?} in place {place}"), |o| {
                let mut f = Fresh::default();
                let e = MetricExporter::default();
                let mut w = Want::default();
                let res = f.resource(place);
                let scopes = match place {
                    0 => vec![(0, vec![s])],
                    1 => vec![(7, vec![PLAIN, s]), (0, vec![PLAIN])],
                    _ => vec![(0, vec![]), (2, vec![PLAIN]), (4, vec![s, PLAIN])],
                };
                let mut m = collected(&mut f, &mut w, res, &scopes);
                let (got, out) = printed(|| now(e.export(&mut m)));
                got.map_err(|e| e.to_string())?;
                o.step(&w.0.len());
                o.outcome(&format!("{s:?}"));
                w.judge(&out)
            });
        }
    }
}
fn temporality(r: &mut Run) {
    for t in [None, Some(Temporality::Cumulative), Some(Temporality::Delta), Some(Temporality::LowMemory)] {
        r.case(|| format!("{t:?}"), |o| {
            let b = MetricExporter::builder();
            let e = match t {
                None => b.build(),
                Some(t) => b.with_temporality(t).build(),
            };
            let want = t.unwrap_or(Temporality::Cumulative);
            o.outcome(&want);
            same!(e.temporality(), want, "temporality");
            same!(MetricExporter::default().temporality(), Temporality::Cumulative, "default temporality");
            Ok(())
        });
    }
}
pub fn families() -> Vec<Family> {
    vec![serial("C54", "stdout_metrics.history", history), serial("C54", "stdout_metrics.content", content), serial("C54", "stdout_metrics.temporality", temporality)]
}
