//! C35: a delta, a cumulative and a low-memory reader of one history.
use crate::common::*;
use crate::model::*;
use crate::sync::{default_agg, sets, DEFAULT};
use bmc::*;
use opentelemetry::metrics::MeterProvider as _;
use opentelemetry_sdk::metrics::{new_view, Aggregation, Instrument, InstrumentKind as K, SdkMeterProvider, Stream as ViewStream, Temporality};
use opentelemetry_sdk::Resource;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug)]
enum Op {
    Rec(usize, i64),
    Col(usize),
    All,
}
type Pts = BTreeMap<A, Pt>;
fn opt(a: Option<N>, b: Option<N>, less: bool) -> Option<N> {
    match (a, b) {
        (Some(x), Some(y)) => Some(if y.lt(x) == less { y } else { x }),
        _ => None,
    }
}
fn at(b: &(i32, Vec<u64>), from: i8, to: i8) -> BTreeMap<i32, u64> {
    let mut m = BTreeMap::new();
    for (k, c) in b.1.iter().enumerate().filter(|(_, c)| **c > 0) {
        *m.entry((b.0 + k as i32) >> (from - to)).or_default() += *c;
    }
    m
}
fn flat(m: BTreeMap<i32, u64>) -> (i32, Vec<u64>) {
    let Some(lo) = m.keys().next().copied() else { return (0, vec![]) };
    let hi = *m.keys().last().unwrap();
    (lo, (lo..=hi).map(|k| m.get(&k).copied().unwrap_or(0)).collect())
}
/// Brings an exponential point to a coarser scale, without empty buckets at the ends.
fn coarse(p: &Pt, to: i8) -> Pt {
    match p {
        Pt::Expo { count, sum, min, max, expo: e } if e.scale >= to => Pt::Expo {
            count: *count, sum: *sum, min: *min, max: *max,
            expo: Expo { scale: to, pos: flat(at(&e.pos, e.scale, to)), neg: flat(at(&e.neg, e.scale, to)), ..e.clone() },
        },
        p => p.clone(),
    }
}
fn both(a: &(i32, Vec<u64>), b: &(i32, Vec<u64>)) -> (i32, Vec<u64>) {
    let mut m = at(a, 0, 0);
    for (k, c) in at(b, 0, 0) {
        *m.entry(k).or_default() += c;
    }
    flat(m)
}
/// The point of two consecutive intervals.
fn join(x: &Pt, y: &Pt, gauge: bool) -> Result<Pt, String> {
    Ok(match (x, y) {
        (Pt::Val(a), Pt::Val(b)) => Pt::Val(if gauge { *b } else { a.add(*b) }),
        (Pt::Hist { count, sum, min, max, bounds, buckets }, Pt::Hist { count: c, sum: s, min: lo, max: hi, bounds: bb, buckets: bu }) => {
            if bounds != bb || buckets.len() != bu.len() {
                return Err(format!("boundaries changed from {bounds:?} to {bb:?}"));
            }
            Pt::Hist { count: count + c, sum: sum.add(*s), min: opt(*min, *lo, true), max: opt(*max, *hi, false), bounds: bounds.clone(), buckets: buckets.iter().zip(bu).map(|(a, b)| a + b).collect() }
        }
        (Pt::Expo { expo: e, .. }, Pt::Expo { expo: f, .. }) => {
            let mut to = e.scale.min(f.scale);
            let wide = |to: i8| {
                [(&e.pos, &f.pos), (&e.neg, &f.neg)].iter().any(|(x, y)| {
                    let k: Vec<i32> = at(x, e.scale, to).into_keys().chain(at(y, f.scale, to).into_keys()).collect();
                    !k.is_empty() && (*k.iter().max().unwrap() as i64 - *k.iter().min().unwrap() as i64) > 3
                })
            };
            while wide(to) && to > -10 {
                to -= 1;
            }
            let (Pt::Expo { count, sum, min, max, expo: e }, Pt::Expo { count: c, sum: s, min: lo, max: hi, expo: f }) = (coarse(x, to), coarse(y, to)) else { return Err("kinds of points differ".into()) };
            Pt::Expo {
                count: count + c, sum: sum.add(s), min: opt(min, lo, true), max: opt(max, hi, false),
                expo: Expo { zero: e.zero + f.zero, pos: both(&e.pos, &f.pos), neg: both(&e.neg, &f.neg), ..e },
            }
        }
        _ => return Err("kinds of points differ".into()),
    })
}
fn run(kind: Kind, prefs: &[Temporality], view: Option<&Aggregation>, agg: &Agg, seq: &[Op], o: &mut Obs) -> R {
    let mut cols: Vec<Col> = prefs.iter().map(|t| Col::new(*t, true)).collect();
    let mut b = SdkMeterProvider::builder().with_resource(Resource::builder_empty().build());
    for c in &cols {
        b = b.with_reader(c.rd.clone());
    }
    if let Some(a) = view {
        b = b.with_view(new_view(Instrument::new().name("*"), ViewStream::new().cardinality_limit(10).aggregation(a.clone())).map_err(|e| format!("view: {e}"))?);
    }
    let p = b.build();
    let inst = Inst::new(&p.meter("m"), kind, &decl("x"));
    let gauge = *agg == Agg::Last;
    let pre = matches!(agg, Agg::Pre(_));
    let observed = matches!(kind.0, K::ObservableCounter | K::ObservableGauge | K::ObservableUpDownCounter);
    let mut models: Vec<Stream> = prefs.iter().map(|t| Stream::new(agg.clone(), temporality(kind.0, *t), kind.1)).collect();
    let mut totals: Vec<Pts> = prefs.iter().map(|_| Pts::new()).collect();
    let mut now: BTreeMap<usize, i64> = BTreeMap::new();
    let sets = sets();
    for (step, op) in seq.iter().copied().chain([Op::All, Op::All]).enumerate() {
        let which: Vec<usize> = match op {
            Op::Rec(s, v) => {
                if observed {
                    // observable instruments observe a running value of every set seen so far
                    *now.entry(s).or_default() += v;
                    *inst.feed().obs.lock().unwrap() = now.iter().map(|(s, v)| (kind.1.of(*v), sets[*s].clone())).collect();
                } else {
                    inst.rec(kind.1.of(v), &sets[s]);
                    models.iter_mut().for_each(|m| m.rec(attrs(&sets[s]), kind.1.of(v)));
                }
                vec![]
            }
            Op::Col(r) => vec![r],
            Op::All => (0..cols.len()).collect(),
        };
        for r in &which {
            let out = cols[*r].one().map_err(|e| format!("step {step}: {e}"))?;
            if observed {
                now.iter().for_each(|(s, v)| models[*r].rec(attrs(&sets[*s]), kind.1.of(*v)));
            }
            let delta = models[*r].temp == Temporality::Delta;
            // each reader sees what it would see alone
            models[*r].check(out.as_ref()).map_err(|f| keyed(f.key, format!("step {step}, {:?} reader: {}", prefs[*r], f.msg)))?;
            if observed && !pre {
                models[*r].m.clear();
            }
            let pts = out.map(|x| x.pts).unwrap_or_default();
            if delta {
                for (a, p) in pts {
                    let t = match totals[*r].get(&a) {
                        Some(old) => join(old, &p, gauge)?,
                        None => p,
                    };
                    totals[*r].insert(a, t);
                }
            } else {
                totals[*r] = pts;
            }
        }
        if which.len() > 1 {
            // all readers were just collected: their totals are the same
            for r in 1..totals.len() {
                let (a, b): (Vec<_>, Vec<_>) = (totals[0].keys().collect(), totals[r].keys().collect());
                same!(b, a, "step {step}: attribute sets of the {:?} reader, compared with the {:?} reader", prefs[r], prefs[0]);
                for (k, x) in &totals[0] {
                    let y = &totals[r][k];
                    let (mut x, mut y) = (x.clone(), y.clone());
                    if let (Pt::Expo { expo: e, .. }, Pt::Expo { expo: f, .. }) = (&x, &y) {
                        let to = e.scale.min(f.scale);
                        (x, y) = (coarse(&x, to), coarse(&y, to));
                    }
                    same!(y, x, "step {step}: total of {k:?} of the {:?} reader, compared with the {:?} reader", prefs[r], prefs[0]);
                }
            }
        }
        o.step(&(models.iter().map(|m| m.state()).collect::<Vec<_>>(), &now));
        o.outcome(&totals);
    }
    Ok(())
}
fn agree(r: &mut Run) {
    use Temporality::*;
    let mut cfg: Vec<(Kind, Option<Aggregation>, Agg)> = vec![];
    for k in all_kinds() {
        cfg.push((k, None, default_agg(k)));
        if matches!(k.0, K::ObservableCounter | K::ObservableUpDownCounter | K::ObservableGauge) {
            continue;
        }
        let sum = k.0 != K::UpDownCounter;
        cfg.push((k, Some(Aggregation::ExplicitBucketHistogram { boundaries: DEFAULT.to_vec(), record_min_max: true }), Agg::Hist { bounds: DEFAULT.to_vec(), minmax: true, sum }));
        cfg.push((k, Some(Aggregation::Base2ExponentialHistogram { max_size: 4, max_scale: 20, record_min_max: true }), Agg::Expo { size: 4, scale: 20, minmax: true, sum }));
        if k.0 == K::Histogram {
            cfg.push((k, Some(Aggregation::Sum), Agg::Sum(true)));
        }
    }
    for (k, v, g) in cfg {
        for prefs in [vec![Cumulative, Delta], vec![Delta, Cumulative, LowMemory], vec![Cumulative, Delta, Delta]] {
            let mut a: Vec<Op> = vec![Op::Rec(0, 3), Op::Rec(1, 3), Op::Rec(1, 8)];
            if prefs.len() == 2 && k.0 != K::ObservableCounter && k.1 != Ty::U && k.0 != K::Counter {
                a.push(Op::Rec(1, -6));
            }
            a.extend((0..prefs.len()).map(Op::Col));
            a.push(Op::All);
            let n = if prefs.len() == 2 { r.pick(5, 6) } else { r.pick(4, 6) };
            r.sequences(&a, n, |s| format!("{k:?} {v:?} {prefs:?} {s:?}"), |s, o| run(k, &prefs, v.as_ref(), &g, s, o));
        }
    }
}
/// The temporality each preference gives each kind of instrument.
fn labels(r: &mut Run) {
    use Temporality::*;
    for k in all_kinds() {
        for t in [Cumulative, Delta, LowMemory] {
            for with_attrs in [false, true] {
                r.case(|| format!("{k:?} {t:?}"), |o| {
                    let mut c = [Col::new(t, true)];
                    let p = provider(&c);
                    let i = Inst::new(&p.meter("m"), k, &decl("x"));
                    i.rec(k.1.of(1), &sets()[with_attrs as usize]);
                    let out = c[0].one()?.ok_or("nothing exported")?;
                    if default_agg(k) != Agg::Last {
                        same!(out.temp, Some(temporality(k.0, t)), "temporality");
                    }
                    o.step(&(k, with_attrs));
                    o.outcome(&out.temp);
                    Ok(())
                });
            }
        }
    }
}
pub fn families() -> Vec<Family> {
    vec![family("C35", "labels", labels), family("C35", "agree", agree)]
}
