use crate::names::single;
use crate::world::*;
use bmc::{family, perms, product, strings, Run};
use opentelemetry::{KeyValue, Value};

/// Attribute keys of every shape; the labels of one set.
fn keys(r: &mut Run) {
    let keys: Vec<String> = strings(&["a", "B", "1", "_", ".", ":", "-", "\u{e9}", " "], r.pick(3, 4)).into_iter().filter(|s| !s.is_empty()).collect();
    let kinds = [Kind::CounterF64, Kind::HistogramU64, Kind::GaugeI64];
    for k in &keys {
        for kind in kinds {
            r.case(|| format!("attribute key {k:?} on a {kind:?}"), |o| single(&World::new(&Options::default(), scopes())?, &def(kind, "m"), &[(1.0, vec![KeyValue::new(k.clone(), "v")])], o));
        }
    }
    // keys of the resource and of the selected resource labels
    let short: Vec<&String> = keys.iter().filter(|k| k.chars().count() <= 2).collect();
    for k in &short {
        for sel in [None, Some(vec![])] {
            let name: &'static str = Box::leak(k.to_string().into_boxed_str());
            let op = Options { resource: vec![(name, "v".into())], select: sel, ..Options::default() };
            r.case(|| format!("resource key {name:?}, {:?}", op.select), |o| single(&World::new(&op, scopes())?, &def(Kind::CounterU64, "m"), &[(1.0, vec![KeyValue::new("own", "v")])], o));
        }
    }
    // sets of several keys, some of which become the same label
    let n = r.pick(4, 5);
    let pool = ["a.b", "a_b", "a:b", "c", "1", "_1", "a"];
    for set in bmc::subsets(pool.len()).into_iter().filter(|s| s.len() >= 2 && s.len() <= n) {
        for p in perms(&set) {
            if !r.go() {
                return;
            }
            let a: Vec<KeyValue> = p.iter().map(|&i| KeyValue::new(pool[i], ["z", "y", "x", "w", "v", "u", "t"][i])).collect();
            r.case(|| format!("attributes {a:?}"), |o| single(&World::new(&Options::default(), scopes())?, &def(Kind::UpDownI64, "m"), &[(1.0, a.clone())], o));
        }
    }
}
fn values(r: &mut Run) {
    let texts = strings(&["a", "\"", "\\", "\n", "n", "\u{1F600}", ",", "}", "="], r.pick(4, 5));
    for t in &texts {
        if !r.go() {
            return;
        }
        r.case(|| format!("attribute value {t:?}"), |o| single(&World::new(&Options::default(), scopes())?, &def(Kind::CounterF64, "m"), &[(1.0, vec![KeyValue::new("k", t.clone())])], o));
    }
    let vals: Vec<Value> = vec![true.into(), false.into(), 0.into(), i64::MAX.into(), i64::MIN.into(), 1.5.into(), 0.1.into(), "1.5".into(), "true".into(), "".into()];
    let kinds = [Kind::CounterU64, Kind::GaugeF64, Kind::HistogramF64, Kind::ObsUpDownI64];
    product(&[vals.len(), vals.len(), kinds.len()], |ix| {
        let a = vec![KeyValue::new("k", vals[ix[0]].clone()), KeyValue::new("l", vals[ix[1]].clone())];
        r.case(|| format!("attributes {a:?}"), |o| single(&World::new(&Options::default(), scopes())?, &def(kinds[ix[2]], "m"), &[(1.0, a.clone())], o));
    });
}
pub fn families() -> Vec<bmc::Family> {
    vec![family("C49", "prometheus-label-names", keys), family("C49", "prometheus-label-values", values)]
}
