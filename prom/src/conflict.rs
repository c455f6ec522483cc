use crate::text::{Family, Scrape};
use crate::world::*;
use bmc::{ensure, family, product, Run};
use opentelemetry::KeyValue;

/// Several definitions of what becomes one name: the first the exporter meets decides type and help, samples of
/// another type are left out, and everything else is unaffected. Which one it meets first is left open.
fn conflicts(r: &mut Run) {
    let shapes: Vec<(Kind, &'static str, &'static str)> = vec![
        (Kind::CounterU64, "c.x", ""),
        (Kind::CounterF64, "c.x", ""),
        (Kind::CounterU64, "c-x", ""),
        (Kind::CounterU64, "c", "x"),
        (Kind::UpDownI64, "c.x.total", ""),
        (Kind::UpDownF64, "c_x_total", ""),
        (Kind::HistogramF64, "c_x_total", ""),
        (Kind::GaugeU64, "c.x/total", ""),
        (Kind::ObsGaugeF64, "c.x-total", ""),
        (Kind::ObsCounterU64, "c/x", ""),
    ];
    let helps = ["one", "two"];
    let n = r.pick(3, 4);
    let mut dims = vec![];
    for _ in 0..n {
        dims.extend([shapes.len(), helps.len()]);
    }
    let op = Options::default();
    product(&dims, |ix| {
        if !r.go() {
            return;
        }
        let ds: Vec<Def> = (0..n).map(|i| {
            let (k, name, unit) = shapes[ix[2 * i]];
            Def { scope: i, unit, help: helps[ix[2 * i + 1]], ..def(k, name) }
        }).collect();
        // each in a scope of its own, so that their samples never have equal labels
        for late in [false, true] {
            r.case(|| format!("{ds:?}, the last one recorded after the first scrape: {late}"), |o| {
                let w = World::new(&op, scopes())?;
                let other = w.create(&def(Kind::CounterU64, "other"));
                other.record(1.0, &[]);
                let inst: Vec<_> = ds.iter().map(|d| w.create(d)).collect();
                let mut present: Vec<usize> = (0..n).collect();
                if late {
                    present.pop();
                }
                for &i in &present {
                    inst[i].record(1.0 + i as f64, &[KeyValue::new("k", "v")]);
                }
                // the definitions in force for each name, once a scrape has shown them
                let mut fixed: std::collections::BTreeMap<String, (String, String)> = Default::default();
                for round in 0..3 {
                    if late && round == 1 {
                        inst[n - 1].record(n as f64, &[KeyValue::new("k", "v")]);
                        present.push(n - 1);
                    }
                    let got = w.scrape()?;
                    let mut want: Scrape = op.infos(&present.iter().map(|i| &w.scopes[*i]).collect::<Vec<_>>());
                    let mut names: Vec<String> = present.iter().map(|i| full_name(&ds[*i], &op)).collect();
                    names.sort();
                    names.dedup();
                    for name in names {
                        let g = got.get(&name).ok_or(format!("scrape {round}: {name} is missing"))?;
                        let shown = (g.kind.clone(), g.help.clone());
                        let f = fixed.entry(name.clone()).or_insert(shown.clone());
                        ensure!(*f == shown, "scrape {round}: {name} was {f:?} and is {shown:?}");
                        ensure!(present.iter().any(|i| full_name(&ds[*i], &op) == name && ds[*i].kind.text() == f.0 && ds[*i].help == f.1), "scrape {round}: nobody defined {name} as {f:?}");
                        let mut fam = Family { help: f.1.clone(), kind: f.0.clone(), ..Family::default() };
                        for &i in present.iter().filter(|i| full_name(&ds[**i], &op) == name && ds[**i].kind.text() == f.0) {
                            let mut l = labels(&[("k".into(), "v".into())]);
                            l.extend(op.extra(&w.scopes[ds[i].scope]));
                            fam.samples.extend(samples(&name, &ds[i], &l, &[1.0 + i as f64]));
                        }
                        want.insert(name, fam);
                    }
                    want.insert("other_total".into(), {
                        let mut l = crate::text::Labels::new();
                        l.extend(op.extra(&w.scopes[0]));
                        let d = def(Kind::CounterU64, "other");
                        Family { help: d.help.into(), kind: "counter".into(), samples: samples("other_total", &d, &l, &[1.0]).into_iter().collect() }
                    });
                    differ(&got, &want).map_err(|e| format!("scrape {round}: {e}"))?;
                    o.step(&want);
                }
                o.outcome(&fixed);
                Ok(())
            });
        }
    });
}
pub fn families() -> Vec<bmc::Family> {
    vec![family("C49", "prometheus-conflicts", conflicts)]
}
