//! C36: which measurements share a data point.
use crate::common::*;
use crate::sync::DEFAULT;
use bmc::*;
use opentelemetry::metrics::MeterProvider as _;
use opentelemetry::{Array, KeyValue, Value};
use opentelemetry_sdk::metrics::{new_view, Aggregation, Instrument, InstrumentKind as K, SdkMeterProvider, Stream as ViewStream, Temporality};
use opentelemetry_sdk::Resource;
use std::collections::BTreeMap;

fn values() -> Vec<Value> {
    vec![
        1.into(), 0.into(), 1.0.into(), 0.0.into(), true.into(), false.into(), "1".into(), "true".into(), "".into(), Value::Array(Array::I64(vec![1])), Value::Array(Array::I64(vec![1, 2])),
        Value::Array(Array::I64(vec![2, 1])), Value::Array(Array::F64(vec![1.0])), Value::Array(Array::F64(vec![f64::INFINITY])), Value::Array(Array::Bool(vec![true])),
        Value::Array(Array::String(vec!["1".into()])), Value::Array(Array::I64(vec![])), Value::Array(Array::F64(vec![])), Value::Array(Array::Bool(vec![])), Value::Array(Array::String(vec![])),
        i64::MAX.into(), i64::MIN.into(), f64::INFINITY.into(), f64::NEG_INFINITY.into(), f64::MIN_POSITIVE.into(),
        // equal to what is there already
        (-0.0).into(), Value::Array(Array::F64(vec![0.0])), Value::Array(Array::F64(vec![-0.0])),
    ]
}
/// The same value, differently represented where that is possible.
fn other(v: &Value) -> Value {
    match v {
        Value::String(s) => Value::String(s.as_str().to_string().into()),
        v => v.clone(),
    }
}
fn owned(l: &[KeyValue]) -> Vec<KeyValue> {
    l.iter().map(|kv| KeyValue::new(kv.key.as_str().to_string(), other(&kv.value))).collect()
}
/// Records with each list (in all its orders, twice) and checks which points come out.
fn check(k: Kind, t: Temporality, expo: bool, lists: &[Vec<KeyValue>], rounds: usize, o: &mut Obs) -> R {
    let mut col = [Col::new(t, true)];
    let p = if expo {
        let v = new_view(Instrument::new().name("*"), ViewStream::new().cardinality_limit(100).aggregation(Aggregation::Base2ExponentialHistogram { max_size: 4, max_scale: 20, record_min_max: true })).unwrap();
        SdkMeterProvider::builder().with_resource(Resource::builder_empty().build()).with_reader(col[0].rd.clone()).with_view(v).build()
    } else {
        provider(&col)
    };
    let mut d = decl("x");
    d.limit = Some(100);
    let i = Inst::new(&p.meter("m"), k, &d);
    let temp = temporality(k.0, t);
    let observed = matches!(i, Inst::Ob(..));
    let mut all: BTreeMap<A, Vec<i64>> = BTreeMap::new();
    let mut v = 0;
    let mut last: BTreeMap<A, i64> = BTreeMap::new();
    for round in 0..rounds {
        if observed {
            i.feed().obs.lock().unwrap().clear();
        }
        if temp == Temporality::Delta || (observed && !expo) {
            all.clear();
        }
        for l in lists {
            let mut orders = perms(l);
            // the first order seen differs from round to round
            let n = orders.len();
            orders.rotate_left(round % n);
            for (j, p) in orders.iter().enumerate() {
                v += 1;
                i.rec(k.1.of(v), &if j % 2 == 1 { owned(p) } else { p.clone() });
                all.entry(attrs(l)).or_default().push(v);
            }
        }
        let out = col[0].one()?.ok_or("nothing exported")?;
        let mut want: BTreeMap<A, i64> = BTreeMap::new();
        let mut got: BTreeMap<A, i64> = BTreeMap::new();
        for (a, p) in &out.pts {
            got.insert(a.clone(), match p {
                Pt::Val(n) => n.f() as i64,
                Pt::Hist { count, .. } | Pt::Expo { count, .. } => *count as i64,
            });
        }
        for (a, l) in &all {
            want.insert(a.clone(), match (&out.shape, k.0) {
                (Shape::Hist | Shape::Expo, _) => l.len() as i64,
                (_, K::ObservableCounter) if temp == Temporality::Delta => l.last().unwrap() - last.get(a).unwrap_or(&0),
                (_, K::Gauge | K::ObservableGauge | K::ObservableCounter | K::ObservableUpDownCounter) => *l.last().unwrap(),
                _ => l.iter().sum(),
            });
        }
        last = all.iter().map(|(a, l)| (a.clone(), *l.last().unwrap())).collect();
        same!(got, want, "round {round}: points");
        o.step(&want);
        o.outcome(&got.len());
    }
    Ok(())
}
fn kinds(thorough: bool) -> Vec<Kind> {
    if thorough {
        all_kinds()
    } else {
        vec![Kind(K::Counter, Ty::U), Kind(K::Histogram, Ty::F), Kind(K::Gauge, Ty::I), Kind(K::ObservableCounter, Ty::U), Kind(K::ObservableGauge, Ty::F)]
    }
}
fn values_and_types(r: &mut Run) {
    let vs = values();
    for k in kinds(r.thorough) {
        for t in [Temporality::Cumulative, Temporality::Delta] {
            for x in &vs {
                for y in &vs {
                    // one key with both values, and both keys with the values one way and the other
                    let lists = vec![
                        vec![KeyValue::new("a", x.clone())], vec![KeyValue::new("a", y.clone())], vec![KeyValue::new("b", x.clone())],
                        vec![KeyValue::new("a", x.clone()), KeyValue::new("b", y.clone())], vec![KeyValue::new("a", y.clone()), KeyValue::new("b", x.clone())], vec![],
                    ];
                    r.case(|| format!("{k:?} {t:?} {x:?} and {y:?}"), |o| check(k, t, false, &lists, 2, o));
                }
            }
        }
    }
}
fn triples(r: &mut Run) {
    let vs: Vec<Value> = vec![1.into(), 1.0.into(), "1".into(), true.into()];
    let keys = ["b", "a", "B"];
    let mut lists: Vec<Vec<KeyValue>> = vec![];
    for n in 0..=3usize {
        for ks in subsets(3).into_iter().filter(|s| s.len() == n) {
            product(&vec![vs.len(); n], |ix| lists.push(ks.iter().zip(ix).map(|(k, v)| KeyValue::new(keys[*k], vs[*v].clone())).collect()));
        }
    }
    for k in kinds(true) {
        for t in [Temporality::Cumulative, Temporality::Delta] {
            for expo in [false, true] {
                for (n, x) in lists.iter().enumerate() {
                    for (m, y) in lists.iter().enumerate() {
                        // both orders of recording in the thorough tier
                        if !r.thorough && n < m {
                            continue;
                        }
                        r.case(|| format!("{k:?} {t:?} expo {expo} {x:?} and {y:?}"), |o| check(k, t, expo, &[x.clone(), y.clone()], if r_more(k) { 3 } else { 2 }, o));
                    }
                }
            }
        }
    }
}
fn r_more(k: Kind) -> bool {
    matches!(k.0, K::ObservableCounter | K::Counter)
}
/// An attribute written twice with one value is still one attribute.
fn repeated(r: &mut Run) {
    let _ = DEFAULT;
    let (a, b) = (KeyValue::new("a", 1), KeyValue::new("b", "x"));
    let lists: Vec<Vec<KeyValue>> = vec![vec![a.clone(), a.clone()], vec![a.clone(), a.clone(), b.clone()], vec![b.clone(), a.clone(), b.clone()], vec![a.clone(); 3], vec![a.clone(), b.clone(), a.clone(), b.clone()]];
    for k in all_kinds() {
        for t in [Temporality::Cumulative, Temporality::Delta] {
            for l in &lists {
                for first in [0, 1, 2] {
                    r.case(|| format!("{k:?} {t:?} {l:?} first {first}"), |o| {
                        let mut set = l.clone();
                        set.sort_by(|x, y| x.key.cmp(&y.key));
                        set.dedup();
                        let mut col = [Col::new(t, true)];
                        let p = provider(&col);
                        let i = Inst::new(&p.meter("m"), k, &decl("x"));
                        for round in 1..=2i64 {
                            if matches!(i, Inst::Ob(..)) {
                                i.feed().obs.lock().unwrap().clear();
                            }
                            let mut rev = l.clone();
                            rev.reverse();
                            let mut three = vec![l.clone(), set.clone(), rev];
                            three.rotate_left(first);
                            for x in &three {
                                i.rec(k.1.of(round), x);
                            }
                            let out = col[0].one()?.ok_or("nothing exported")?;
                            let got: Vec<A> = out.pts.keys().cloned().collect();
                            same!(got, vec![attrs(&set)], "points in round {round}");
                            if let (K::ObservableCounter, Some(Pt::Val(x))) = (k.0, out.pts.values().next()) {
                                // cumulative: 1, 2; delta: 1, 1
                                same!(*x, k.1.of(if t == Temporality::Delta { 1 } else { round }), "round {round}: value");
                            }
                            o.step(&(got, round));
                        }
                        Ok(())
                    });
                }
            }
        }
    }
}
pub fn families() -> Vec<Family> {
    vec![family("C36", "values_and_types", values_and_types), family("C36", "triples", triples), family("C36", "repeated", repeated)]
}
