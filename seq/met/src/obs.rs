//! C39: observable instruments.
use crate::common::*;
use crate::model::*;
use crate::sync::{default_agg, sets};
use bmc::*;
use opentelemetry::metrics::{AsyncInstrument, MeterProvider as _};
use opentelemetry_sdk::metrics::{new_view, Aggregation, Instrument, InstrumentKind as K, SdkMeterProvider, Stream as ViewStream, Temporality};
use opentelemetry_sdk::Resource;
use std::sync::atomic::Ordering::*;
use std::time::SystemTime;

/// What the callbacks observe before which reader is collected.
#[derive(Clone, Debug)]
struct Step {
    reader: usize,
    /// (callback, attribute set, written in the other order, value)
    obs: Vec<(usize, usize, bool, i64)>,
}
fn run(kind: Kind, prefs: &[Temporality], view: Option<(&Aggregation, &Agg)>, callbacks: usize, seq: &[Step], o: &mut Obs) -> Result<usize, Fail> {
    let mut cols: Vec<Col> = prefs.iter().map(|t| Col::new(*t, seq.len() % 2 == 0)).collect();
    let mut b = SdkMeterProvider::builder().with_resource(Resource::builder_empty().build());
    for c in &cols {
        b = b.with_reader(c.rd.clone());
    }
    if let Some((a, _)) = view {
        b = b.with_view(new_view(Instrument::new().name("*"), ViewStream::new().cardinality_limit(10).aggregation(a.clone())).map_err(|e| format!("view: {e}"))?);
    }
    let p = b.build();
    let m = p.meter("m");
    // several callbacks: the same instrument created again
    let before = SystemTime::now();
    let insts: Vec<Inst> = (0..callbacks).map(|_| Inst::new(&m, kind, &decl("x"))).collect();
    let mut times: Vec<Times> = prefs.iter().map(|_| Times::new(before)).collect();
    let agg = view.map(|(_, g)| g.clone()).unwrap_or(default_agg(kind));
    let mut models: Vec<Stream> = prefs.iter().map(|t| Stream::new(agg.clone(), temporality(kind.0, *t), kind.1)).collect();
    let sets = sets();
    let mut runs = 0u64;
    for (n, s) in seq.iter().enumerate() {
        for (c, i) in insts.iter().enumerate() {
            *i.feed().obs.lock().unwrap() = s
                .obs
                .iter()
                .filter(|x| x.0 == c)
                .map(|x| {
                    let mut a = sets[x.1].clone();
                    if x.2 {
                        a.reverse();
                    }
                    (kind.1.of(x.3), a)
                })
                .collect();
        }
        // callbacks run in the order they were registered
        for c in 0..callbacks {
            for x in s.obs.iter().filter(|x| x.0 == c) {
                models[s.reader].rec(attrs(&sets[x.1]), kind.1.of(x.3));
            }
        }
        let t0 = SystemTime::now();
        let out = cols[s.reader].one().map_err(|e| format!("collection {n}: {e}"))?;
        let temp = models[s.reader].temp;
        let mut timed = out.clone();
        if let (Agg::Last, Some(x)) = (&agg, &mut timed) {
            // what an observed gauge's start means is left open
            x.start = None;
        }
        times[s.reader].check(timed.as_ref(), (t0, SystemTime::now()), temp).map_err(|e| format!("collection {n}, {:?} reader: {e}", prefs[s.reader]))?;
        runs += 1;
        for (c, i) in insts.iter().enumerate() {
            same!(i.feed().runs.load(SeqCst), runs, "collection {n}: runs of callback {c}");
        }
        models[s.reader].check(out.as_ref()).map_err(|f| keyed(f.key, format!("collection {n}, {:?} reader: {}", prefs[s.reader], f.msg)))?;
        if agg == Agg::Last {
            models[s.reader].m.clear();
        }
        o.step(&(n, models.iter().map(|m| m.state()).collect::<Vec<_>>()));
        o.outcome(&out.map(|x| x.pts));
    }
    Ok(models.iter().map(|m| m.stale).sum())
}
fn steps(kind: Kind, readers: usize, callbacks: usize, vals: &[i64], nsets: usize) -> Vec<Step> {
    // per set: not observed, or one of the values
    let mut v = vec![];
    for reader in 0..readers {
        product(&vec![vals.len() + 1; nsets], |ix| {
            for shift in 0..callbacks {
                let obs: Vec<_> = ix.iter().enumerate().filter(|(_, k)| **k > 0).map(|(s, k)| ((s + shift) % callbacks, 2 - s, (k + reader) % 2 == 1, vals[k - 1])).collect();
                v.push(Step { reader, obs });
            }
        });
    }
    let _ = kind;
    v
}
fn observe(r: &mut Run) {
    use Temporality::*;
    for k in OBS {
        let vals: &[i64] = if k.1 == Ty::U { &[2, 9] } else if k.0 == K::ObservableCounter { &[2, 9] } else { &[7, -3] };
        for t in [Cumulative, Delta, LowMemory] {
            let a = steps(k, 1, 1, vals, 2);
            r.sequences(&a, r.pick(4, 6), |s| format!("{k:?} {t:?} {s:?}"), |s, o| run(k, &[t], None, 1, s, o).map(drop));
            let a = steps(k, 1, 1, vals, 3);
            r.sequences(&a, r.pick(3, 4), |s| format!("{k:?} {t:?} {s:?}"), |s, o| run(k, &[t], None, 1, s, o).map(drop));
            let a = steps(k, 1, 2, vals, 2);
            r.sequences(&a, r.pick(3, 4), |s| format!("{k:?} {t:?} two callbacks {s:?}"), |s, o| run(k, &[t], None, 2, s, o).map(drop));
        }
        for (t1, t2) in [(Cumulative, Delta), (Delta, Delta), (Delta, LowMemory)] {
            let a = steps(k, 2, 1, vals, 2);
            r.sequences(&a, r.pick(3, 4), |s| format!("{k:?} {t1:?}+{t2:?} {s:?}"), |s, o| run(k, &[t1, t2], None, 1, s, o).map(drop));
        }
        // an instrument observed twice in one collection, and summarised as histograms
        let twice: Vec<Step> = (0..2)
            .flat_map(|reader| {
                [vec![], vec![(0, 2, false, 3), (0, 2, true, 5)], vec![(0, 2, true, 5), (0, 2, false, 6), (0, 0, false, 2)], vec![(0, 0, false, 8), (0, 0, false, 4)]].map(|obs| Step { reader, obs })
            })
            .collect();
        for (t1, t2) in [(Cumulative, Delta), (Delta, Cumulative)] {
            r.sequences(&twice, r.pick(4, 6), |s| format!("{k:?} {t1:?}+{t2:?} {s:?}"), |s, o| run(k, &[t1, t2], None, 1, s, o).map(drop));
            let sum = k.0 == K::ObservableCounter;
            let h = Aggregation::ExplicitBucketHistogram { boundaries: vec![3.0, 5.0], record_min_max: true };
            let g = Agg::Hist { bounds: vec![3.0, 5.0], minmax: true, sum };
            r.sequences(&twice, r.pick(4, 5), |s| format!("{k:?} as histogram {t1:?}+{t2:?} {s:?}"), |s, o| run(k, &[t1, t2], Some((&h, &g)), 1, s, o).map(drop));
            let h = Aggregation::Base2ExponentialHistogram { max_size: 4, max_scale: 20, record_min_max: true };
            let g = Agg::Expo { size: 4, scale: 20, minmax: true, sum };
            r.sequences(&twice, r.pick(4, 5), |s| format!("{k:?} as exponential histogram {t1:?}+{t2:?} {s:?}"), |s, o| run(k, &[t1, t2], Some((&h, &g)), 1, s, o).map(drop));
        }
    }
}
/// A set is reported in the collections it was observed for, not in later ones.
fn no_longer_observed(r: &mut Run) {
    for k in OBS {
        for t in [Temporality::Cumulative, Temporality::Delta, Temporality::LowMemory] {
            let a = steps(k, 1, 1, &[4], 2);
            r.sequences(&a, 3, |s| format!("{k:?} {t:?} {s:?}"), |s, o| {
                let stale = run(k, &[t], None, 1, s, o)?;
                if stale > 0 {
                    return Err(keyed("stale-cumulative-observable", "a set that is no longer observed is still reported"));
                }
                Ok(())
            });
        }
    }
}
/// Several instruments, each with several callbacks: each callback runs once per collection and feeds its own instrument.
fn several(r: &mut Run) {
    for counts in [[1usize, 0, 2], [2, 1, 1], [3, 3, 3]] {
        for readers in [1usize, 2, 3] {
            let ops: Vec<usize> = (0..readers).collect();
            r.sequences(&ops, r.pick(4, 6), |s| format!("callbacks {counts:?}, collect readers {s:?}"), |s, o| {
                let mut cols: Vec<Col> = (0..readers).map(|i| Col::new(if i == 1 { Temporality::Delta } else { Temporality::Cumulative }, true)).collect();
                let p = provider(&cols);
                let runs = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
                let (ma, mb) = (p.meter("a"), p.meter("b"));
                macro_rules! make {
                    ($i:expr, $b:expr, $t:ty) => {{
                        let mut b = $b;
                        for c in 0..counts[$i] {
                            let runs = runs.clone();
                            b = b.with_callback(move |x: &dyn AsyncInstrument<$t>| {
                                runs.lock().unwrap().push(($i, c));
                                x.observe((10 * ($i + 1) + c) as $t, &[opentelemetry::KeyValue::new("c", c as i64)]);
                            });
                        }
                        b.build()
                    }};
                }
                let _a = make!(0usize, ma.u64_observable_counter("x"), u64);
                let _b = make!(1usize, mb.i64_observable_up_down_counter("x"), i64);
                let _c = make!(2usize, ma.f64_observable_gauge("y"), f64);
                let names = [("a", "x"), ("b", "x"), ("a", "y")];
                for (n, which) in s.iter().enumerate() {
                    runs.lock().unwrap().clear();
                    let outs = cols[*which].collect()?;
                    let mut got = runs.lock().unwrap().clone();
                    got.sort();
                    let want: Vec<(usize, usize)> = (0..3).flat_map(|i| (0..counts[i]).map(move |c| (i, c))).collect();
                    same!(got, want, "collection {n}: callbacks that ran");
                    same!(outs.len(), counts.iter().filter(|c| **c > 0).count(), "metrics");
                    for out in &outs {
                        let i = names.iter().position(|x| *x == (out.scope.as_str(), out.name.as_str())).ok_or("unknown metric")?;
                        let delta = *which == 1 && i == 0 && s[..n].contains(which);
                        let want: Vec<f64> = (0..counts[i]).map(|c| if delta { 0.0 } else { (10 * (i + 1) + c) as f64 }).collect();
                        let got: Vec<f64> = out.pts.values().map(|p| match p {
                            Pt::Val(v) => v.f(),
                            _ => -1.0,
                        }).collect();
                        same!(got, want, "collection {n}: {names:?}[{i}]");
                    }
                    o.step(&(n, which, counts));
                }
                Ok(())
            });
        }
    }
}
pub fn families() -> Vec<Family> {
    vec![family("C39", "observe", observe), family("C39", "no_longer_observed", no_longer_observed), family("C39", "several", several)]
}
