use crate::text::Family;
use crate::world::*;
use bmc::{family, product, Obs, Run, R};
use opentelemetry::{KeyValue, Value};

fn all_options() -> Vec<Options> {
    let mut out = vec![];
    for namespace in [None, Some("ns"), Some("ns_"), Some("a_b")] {
        for m in 0..16 {
            let b = |i: u32| m >> i & 1 == 1;
            out.push(Options { namespace, without_units: b(0), without_suffixes: b(1), without_target: b(2), without_scope: b(3), select: None, resource: vec![("service.name", "x".into())] });
        }
    }
    out
}
pub fn single(w: &World, d: &Def, recs: &[(f64, Vec<KeyValue>)], o: &mut Obs) -> R {
    let i = w.create(d);
    for (v, a) in recs {
        i.record(*v, a);
    }
    let got = w.scrape()?;
    let mut sets: Vec<(Vec<KeyValue>, Vec<f64>)> = vec![];
    for (v, a) in recs {
        match sets.iter_mut().find(|s| s.0 == *a) {
            Some(s) => s.1.push(*v),
            None => sets.push((a.clone(), vec![*v])),
        }
    }
    let mut want = w.options.infos(if sets.is_empty() { &[] } else { std::slice::from_ref(&w.scopes[d.scope]) }.iter().collect::<Vec<_>>().as_slice());
    let name = full_name(d, &w.options);
    if !sets.is_empty() {
        let mut f = Family { help: d.help.into(), kind: d.kind.text().into(), ..Family::default() };
        for (a, vals) in &sets {
            let mut l = labels(&of(a));
            l.extend(w.options.extra(&w.scopes[d.scope]));
            f.samples.extend(samples(&name, d, &l, vals));
        }
        want.insert(name, f);
    }
    differ(&got, &want)?;
    o.step(&want);
    o.outcome(&want);
    Ok(())
}
const UNITS: [&str; 44] = [
    "", "d", "h", "min", "s", "ms", "us", "ns", "By", "KiBy", "MiBy", "GiBy", "TiBy", "KBy", "MBy", "GBy", "TBy", "m", "V", "A", "J", "W", "g", "Cel", "Hz", "1", "%", "m/s", "By/s", "g/m", "J/h", "V/d", "A/w", "W/mo", "KiBy/y",
    "1/s", "{packet}/s", "{request}", "unknown", "m/unknown", "seconds", "S", "m//s", "/",
];
fn naming(r: &mut Run) {
    let names = ["foo", "Foo.bar", "a-b/c.d_e", "x9", "r_", "a..b"];
    let opts = all_options();
    let units = UNITS;
    
    product(&[KINDS.len(), names.len(), units.len(), opts.len()], |ix| {
        let d = Def { unit: units[ix[2]], ..def(KINDS[ix[0]], names[ix[1]]) };
        // whether a ratio applies to anything but a gauge is left open
        if d.unit == "1" && d.kind.text() != "gauge" {
            return;
        }
        if !r.go() {
            return;
        }
        let op = &opts[ix[3]];
        r.case(|| format!("{d:?} with {op:?}"), |o| single(&World::new(op, scopes())?, &d, &[(3.0, vec![KeyValue::new("k", "v")])], o));
    });
}
fn options(r: &mut Run) {
    let selects = [None, Some(vec![]), Some(vec!["a.b"]), Some(vec!["service.name", "missing"])];
    let resources: [Vec<(&'static str, Value)>; 3] = [vec![], vec![("service.name", "sv\"\\\n".into())], vec![("a.b", 1.into()), ("service.name", "x".into()), ("z", true.into())]];
    let opts = all_options();
    let kinds = [Kind::CounterU64, Kind::UpDownF64, Kind::HistogramF64, Kind::GaugeI64, Kind::ObsCounterF64, Kind::ObsGaugeF64];
    product(&[kinds.len(), 4, selects.len(), resources.len(), opts.len()], |ix| {
        if !r.go() {
            return;
        }
        let op = Options { select: selects[ix[2]].clone(), resource: resources[ix[3]].clone(), ..opts[ix[4]].clone() };
        let d = Def { scope: ix[1], unit: "s", ..def(kinds[ix[0]], "m.n") };
        r.case(|| format!("{d:?} with {op:?}"), |o| single(&World::new(&op, scopes())?, &d, &[(3.0, vec![KeyValue::new("k", "v")]), (4.0, vec![])], o));
    });
}
fn values(r: &mut Run) {
    let list = |k: Kind| -> Vec<f64> {
        let mut l = vec![0.0, 1.0, 5.0, 7.0, 10_000.0, 10_001.0, 9_007_199_254_740_991.0];
        if k.signed() {
            l.extend([-1.0, -5.0, -9_007_199_254_740_991.0]);
        }
        if !k.whole() {
            l.extend([0.5, 5.000000000000001, 4.999999999999999, 1e300, 5e-324, 0.1]);
        }
        if !k.whole() && k.replaces() && k.signed() {
            l.extend([f64::INFINITY, f64::NEG_INFINITY, f64::MAX]);
        }
        l
    };
    let bounds: [Option<Vec<f64>>; 4] = [None, Some(vec![5.0]), Some(vec![-5.0, 0.5, 7.0]), Some(vec![])];
    for k in KINDS {
        for b in &bounds {
            if b.is_some() && k.text() != "histogram" {
                continue;
            }
            let l = list(k);
            let d = Def { bounds: b.clone(), ..def(k, "v") };
            let depth = r.pick(3, 4);
            r.all_sequences(&l, depth, |q| format!("{d:?}: measurements {q:?}"), |q, o| {
                // only the exact sum has one representation
                if !k.replaces() && !k.whole() {
                    let s: f64 = q.iter().sum();
                    let back: f64 = q.iter().rev().sum();
                    if s != back {
                        return Ok(());
                    }
                }
                if k.whole() && q.iter().map(|v| *v as i128).sum::<i128>().unsigned_abs() > 1 << 53 {
                    return Ok(());
                }
                single(&World::new(&Options::default(), scopes())?, &d, &q.iter().map(|v| (*v, vec![])).collect::<Vec<_>>(), o)
            });
        }
    }
}
pub fn families() -> Vec<bmc::Family> {
    vec![family("C49", "prometheus-names", naming), family("C49", "prometheus-options", options), family("C49", "prometheus-values", values)]
}
