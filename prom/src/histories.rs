use crate::text::{Family, Scrape};
use crate::world::*;
use bmc::{ensure, family, Run};
use opentelemetry::KeyValue;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Op {
    /// instrument, attribute set, value
    Rec(usize, usize, i64),
    Scrape,
    Flush,
    /// the same instrument obtained again
    Again(usize),
    Shutdown,
}
fn defs() -> Vec<Def> {
    vec![
        Def { unit: "By", ..def(Kind::CounterU64, "c") },
        Def { scope: 1, ..def(Kind::UpDownI64, "u") },
        Def { scope: 2, bounds: Some(vec![1.0, 3.0]), ..def(Kind::HistogramF64, "h") },
        Def { help: "other", ..def(Kind::GaugeF64, "g") },
        Def { scope: 2, ..def(Kind::ObsCounterU64, "o") },
        Def { scope: 3, ..def(Kind::ObsGaugeI64, "p") },
    ]
}
fn set(i: usize) -> Vec<KeyValue> {
    vec![vec![], vec![KeyValue::new("k", "v")], vec![KeyValue::new("k", "w"), KeyValue::new("l", 1)]].swap_remove(i)
}
fn expected(op: &Options, ds: &[Def], log: &BTreeMap<(usize, usize), Vec<f64>>) -> Scrape {
    let sc = scopes();
    let mut used: Vec<usize> = log.keys().map(|k| ds[k.0].scope).collect();
    used.sort();
    used.dedup();
    let mut want = op.infos(&used.iter().map(|i| &sc[*i]).collect::<Vec<_>>());
    for ((i, a), vals) in log {
        let d = &ds[*i];
        let name = full_name(d, op);
        let f = want.entry(name.clone()).or_insert_with(|| Family { help: d.help.into(), kind: d.kind.text().into(), ..Family::default() });
        let mut l = labels(&of(&set(*a)));
        l.extend(op.extra(&sc[d.scope]));
        f.samples.extend(samples(&name, d, &l, vals));
    }
    want
}
fn histories(r: &mut Run) {
    let groups: [Vec<Op>; 3] = [
        vec![Op::Rec(0, 0, 1), Op::Rec(0, 1, 2), Op::Rec(1, 1, -3), Op::Rec(1, 1, 5), Op::Scrape, Op::Again(0), Op::Flush, Op::Shutdown],
        vec![Op::Rec(2, 0, 1), Op::Rec(2, 0, 4), Op::Rec(2, 2, 2), Op::Rec(3, 0, 7), Op::Rec(3, 1, -2), Op::Scrape, Op::Again(2)],
        vec![Op::Rec(4, 0, 5), Op::Rec(4, 1, 9), Op::Rec(5, 1, -3), Op::Rec(5, 1, 3), Op::Rec(0, 2, 2), Op::Scrape, Op::Shutdown],
    ];
    let op = Options { resource: vec![("service.name", "x".into())], ..Options::default() };
    let depth = r.pick(6, 7);
    for ops in groups {
        r.all_sequences(&ops, depth, |q| format!("{q:?}"), |q, o| {
            let ds = defs();
            let w = World::new(&op, scopes())?;
            let mut inst: Vec<_> = ds.iter().map(|d| w.create(d)).collect();
            let mut log: BTreeMap<(usize, usize), Vec<f64>> = BTreeMap::new();
            let mut down = false;
            for x in q.iter().chain([&Op::Scrape]) {
                match *x {
                    Op::Rec(i, a, v) => {
                        inst[i].record(v as f64, &set(a));
                        log.entry((i, a)).or_default().push(v as f64);
                    }
                    Op::Again(i) => inst[i] = w.create(&ds[i]),
                    Op::Flush => {
                        let _ = w.provider.force_flush();
                    }
                    Op::Shutdown => {
                        let _ = w.provider.shutdown();
                        down = true;
                    }
                    Op::Scrape => {
                        let got = w.scrape()?;
                        if down {
                            ensure!(got.is_empty(), "after shutdown a scrape shows {got:?}");
                        } else {
                            differ(&got, &expected(&op, &ds, &log))?;
                        }
                    }
                }
                o.step(&format!("{log:?}{down}"));
            }
            o.outcome(&(&log, down));
            Ok(())
        });
    }
}
/// Which registry an exporter shows its metrics in.
fn registries(r: &mut Run) {
    r.case(|| "two exporters with a registry each, measurements on both".into(), |o| {
        let op = Options::default();
        let (a, b) = (World::new(&op, scopes())?, World::new(&op, scopes())?);
        let d = def(Kind::CounterU64, "c");
        let (x, y) = (a.create(&d), b.create(&d));
        for round in 1..4u64 {
            x.record(1.0, &[]);
            y.record(2.0, &[]);
            for (w, n) in [(&a, 1), (&b, 2)] {
                let got = w.scrape()?;
                let v = got.get("c_total").and_then(|f| f.samples.values().next().copied());
                ensure!(v == Some(crate::text::F::of((n * round) as f64)), "{got:?}");
                o.step(&(round, n));
            }
        }
        o.outcome(&"two");
        Ok(())
    });
    r.case(|| "an exporter without a registry of its own".into(), |o| {
        use opentelemetry::metrics::MeterProvider as _;
        let e = opentelemetry_prometheus::exporter().build().map_err(|e| e.to_string())?;
        let p = opentelemetry_sdk::metrics::SdkMeterProvider::builder().with_reader(e).build();
        p.meter("m").u64_counter("only.here").build().add(3, &[]);
        let got = scrape(prometheus::default_registry())?;
        ensure!(got.contains_key("only_here_total"), "the default registry shows {:?}", got.keys());
        o.step(&1);
        o.outcome(&"default");
        Ok(())
    });
}
pub fn families() -> Vec<bmc::Family> {
    vec![family("C49", "prometheus-histories", histories), bmc::serial("C49", "prometheus-registries", registries)]
}
