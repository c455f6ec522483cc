//! C31-C34: synchronous instruments against the arithmetic they are documented to do.
use crate::common::*;
use crate::model::*;
use bmc::*;
use opentelemetry::metrics::MeterProvider as _;
use opentelemetry::KeyValue;
use opentelemetry_sdk::metrics::{new_view, Aggregation, Instrument, InstrumentKind as K, SdkMeterProvider, Stream as ViewStream, Temporality};
use opentelemetry_sdk::Resource;
use std::time::SystemTime;

pub const DEFAULT: [f64; 15] = [0.0, 5.0, 10.0, 25.0, 50.0, 75.0, 100.0, 250.0, 500.0, 750.0, 1000.0, 2500.0, 5000.0, 7500.0, 10000.0];
pub fn default_agg(k: Kind) -> Agg {
    match k.0 {
        K::Counter => Agg::Sum(true),
        K::UpDownCounter => Agg::Sum(false),
        K::Histogram => Agg::Hist { bounds: DEFAULT.to_vec(), minmax: true, sum: true },
        K::Gauge | K::ObservableGauge => Agg::Last,
        K::ObservableCounter => Agg::Pre(true),
        K::ObservableUpDownCounter => Agg::Pre(false),
    }
}
/// The attribute sets of the sequence families.
pub fn sets() -> [Vec<KeyValue>; 3] {
    [vec![], vec![KeyValue::new("a", 1)], vec![KeyValue::new("a", 2), KeyValue::new("b", "x")]]
}
#[derive(Clone, Copy, Debug)]
pub enum Op {
    Rec(usize, N),
    Col(usize),
}
/// Runs one sequence against readers with the given preferences, each compared with its own model.
fn drive(kind: Kind, prefs: &[Temporality], view: Option<Aggregation>, agg: &Agg, d: &Decl, inert: bool, reuse: bool, seq: &[Op], o: &mut Obs) -> R {
    let before = SystemTime::now();
    let mut cols: Vec<Col> = prefs.iter().map(|t| Col::new(*t, reuse)).collect();
    let mut b = SdkMeterProvider::builder().with_resource(Resource::builder_empty().build());
    for c in &cols {
        b = b.with_reader(c.rd.clone());
    }
    if let Some(a) = view {
        b = b.with_view(new_view(Instrument::new().name("*"), ViewStream::new().cardinality_limit(10).aggregation(a)).map_err(|e| format!("view: {e}"))?);
    }
    let p = b.build();
    let inst = Inst::new(&p.meter("m"), kind, d);
    let mut models: Vec<Stream> = prefs.iter().map(|t| Stream::new(agg.clone(), temporality(kind.0, *t), kind.1)).collect();
    let mut times: Vec<Times> = prefs.iter().map(|_| Times::new(before)).collect();
    let sets = sets();
    let n = cols.len();
    // every reader is collected at the end, twice, so that nothing is left unobserved
    for (step, op) in seq.iter().copied().chain((0..n).map(Op::Col)).chain((0..n).map(Op::Col)).enumerate() {
        match op {
            Op::Rec(s, v) => {
                inst.rec(v, &sets[s]);
                if !inert {
                    models.iter_mut().for_each(|m| m.rec(attrs(&sets[s]), v));
                }
            }
            Op::Col(r) => {
                let t0 = SystemTime::now();
                let out = cols[r].one().map_err(|e| format!("step {step}, reader {r}: {e}"))?;
                let t1 = SystemTime::now();
                if let Some(x) = &out {
                    same!((x.name.as_str(), x.desc.as_str(), x.unit.as_str()), (&*d.name, &*d.desc, &*d.unit), "name, description and unit");
                }
                let temp = models[r].temp;
                models[r].check(out.as_ref()).map_err(|f| keyed(f.key, format!("step {step} ({op:?}), reader {:?}: {}", prefs[r], f.msg)))?;
                times[r].check(out.as_ref(), (t0, t1), temp).map_err(|e| format!("step {step}, reader {:?}: {e}", prefs[r]))?;
                o.outcome(&out.map(|x| x.pts));
            }
        }
        o.step(&models.iter().map(|m| m.state()).collect::<Vec<_>>());
    }
    Ok(())
}
fn ops(vals: &[N], nsets: usize, readers: usize) -> Vec<Op> {
    (0..nsets).flat_map(|s| vals.iter().map(move |v| Op::Rec(s, *v))).chain((0..readers).map(Op::Col)).collect()
}
fn f(v: &[f64]) -> Vec<N> {
    v.iter().map(|x| N::F(*x)).collect()
}
fn u(v: &[u64]) -> Vec<N> {
    v.iter().map(|x| N::U(*x)).collect()
}
fn i(v: &[i64]) -> Vec<N> {
    v.iter().map(|x| N::I(*x)).collect()
}
use Temporality::*;

fn sums(r: &mut Run) {
    let kinds = [
        (Kind(K::Counter, Ty::U), u(&[1, 1 << 62]), u(&[0, 3, u64::MAX])),
        (Kind(K::Counter, Ty::F), f(&[0.5, 1e300]), f(&[0.0, 0.1, 0.2])),
        (Kind(K::UpDownCounter, Ty::I), i(&[1, -3]), i(&[0, i64::MIN, i64::MAX])),
        (Kind(K::UpDownCounter, Ty::F), f(&[0.5, -0.1]), f(&[0.0, -0.0, 1e300])),
    ];
    let mut d = decl("c");
    (d.desc, d.unit) = ("what".into(), "By".into());
    for (k, v1, v2) in kinds {
        for vals in [v1, v2] {
            // one reader deep, two readers of every pair of preferences less deep
            for t in [Cumulative, Delta] {
                let a = ops(&vals, 3, 1);
                let n = r.pick(if vals.len() == 2 { 6 } else { 5 }, if vals.len() == 2 { 7 } else { 6 });
                r.sequences(&a, n, |s| format!("{k:?} {t:?} {s:?}"), |s, o| drive(k, &[t], None, &default_agg(k), &d, false, true, s, o));
            }
            for (t1, t2) in [(Cumulative, Delta), (Delta, Delta), (LowMemory, Cumulative), (Cumulative, Cumulative)] {
                let a = ops(&vals, 2, 2);
                let n = r.pick(if vals.len() == 2 { 6 } else { 5 }, if vals.len() == 2 { 7 } else { 6 });
                r.sequences(&a, n, |s| format!("{k:?} {t1:?}+{t2:?} {s:?}"), |s, o| drive(k, &[t1, t2], None, &default_agg(k), &d, false, s.len() % 2 == 0, s, o));
            }
        }
    }
}
/// Values at, just below and just above every boundary.
fn around(bounds: &[f64]) -> Vec<f64> {
    let mut v = vec![-1e300, 0.0, 1e300];
    for b in bounds.iter().filter(|b| b.is_finite()) {
        v.extend([f64::from_bits(b.to_bits().wrapping_sub(1)), *b, f64::from_bits(b.to_bits() + 1), b + 0.5]);
    }
    v.retain(|x| x.is_finite());
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup();
    v
}
fn lists() -> Vec<Vec<f64>> {
    vec![
        vec![], vec![0.0], vec![1.0], vec![-1.0, 1.0], vec![0.0, 5.0, 10.0], vec![1.0, 1.5, 2.0, 4.0], vec![-10.0, -5.0, 0.1, 1e9], vec![f64::MIN_POSITIVE, 1.0], vec![f64::MIN, 0.0, f64::MAX],
        (0..20).map(|x| x as f64 * 0.1).collect(),
    ]
}
fn hist(bounds: &[f64], minmax: bool) -> Agg {
    Agg::Hist { bounds: bounds.to_vec(), minmax, sum: true }
}
fn buckets(r: &mut Run) {
    for bounds in lists() {
        for how in 0..4 {
            // advice, view, view without min and max, view on top of (different) advice
            let (view, adv, mm) = match how {
                0 => (None, Some(bounds.clone()), true),
                1 => (Some(true), None, true),
                2 => (Some(false), None, false),
                _ => (Some(true), Some(vec![7.0]), true),
            };
            let view = view.map(|m| Aggregation::ExplicitBucketHistogram { boundaries: bounds.clone(), record_min_max: m });
            let mut d = decl("h");
            d.bounds = adv;
            let k = Kind(K::Histogram, Ty::F);
            let vals = around(&bounds);
            let ops: Vec<Op> = vals.iter().map(|v| Op::Rec(0, N::F(*v))).chain([Op::Rec(1, N::F(vals[0])), Op::Col(0)]).collect();
            for t in [Cumulative, Delta] {
                let n = r.pick(3, if bounds.len() < 6 { 4 } else { 3 });
                r.sequences(&ops, n, |s| format!("f64 {bounds:?} how {how} {t:?} {s:?}"), |s, o| drive(k, &[t], view.clone(), &hist(&bounds, mm), &d, false, true, s, o));
            }
            let k = Kind(K::Histogram, Ty::U);
            let mut iv: Vec<u64> = vals.iter().filter(|v| **v >= 0.0).flat_map(|v| [(*v as u64).saturating_sub(1), *v as u64, (*v as u64).saturating_add(1)]).filter(|x| *x < 1 << 60).collect();
            iv.sort();
            iv.dedup();
            let ops: Vec<Op> = iv.iter().map(|v| Op::Rec(0, N::U(*v))).chain([Op::Rec(1, N::U(iv[0])), Op::Col(0)]).collect();
            for t in [Cumulative, Delta] {
                r.sequences(&ops, r.pick(3, 4), |s| format!("u64 {bounds:?} how {how} {t:?} {s:?}"), |s, o| drive(k, &[t], view.clone(), &hist(&bounds, mm), &d, false, true, s, o));
            }
        }
    }
}
/// The default boundaries, and the two readers of one histogram.
fn readers(r: &mut Run) {
    let k = Kind(K::Histogram, Ty::F);
    let d = decl("h");
    for b in DEFAULT {
        for v in around(&[b]) {
            r.case(|| format!("default boundaries, {v:?}"), |o| drive(k, &[Cumulative, Delta], None, &default_agg(k), &d, false, false, &[Op::Rec(0, N::F(v)), Op::Rec(1, N::F(v))], o));
        }
    }
    let a = ops(&f(&[0.0, 6.5]), 2, 2);
    for (t1, t2) in [(Cumulative, Delta), (Delta, Delta), (LowMemory, Cumulative)] {
        r.sequences(&a, r.pick(6, 7), |s| format!("{t1:?}+{t2:?} {s:?}"), |s, o| drive(k, &[t1, t2], None, &default_agg(k), &d, false, s.len() % 2 == 0, s, o));
    }
    // instruments of every other kind summarised as a histogram: the sum is left out where it has no meaning
    for k in SYNC {
        let bounds = vec![1.0, 4.0];
        let view = Aggregation::ExplicitBucketHistogram { boundaries: bounds.clone(), record_min_max: true };
        let agg = Agg::Hist { bounds, minmax: true, sum: k.0 != K::UpDownCounter };
        let a: Vec<Op> = [0, 1, 4, 5].iter().map(|x| Op::Rec(0, k.1.of(*x))).chain([Op::Rec(1, k.1.of(2)), Op::Col(0)]).collect();
        for t in [Cumulative, Delta] {
            r.sequences(&a, r.pick(4, 6), |s| format!("{k:?} as histogram {t:?} {s:?}"), |s, o| drive(k, &[t], Some(view.clone()), &agg, &decl("h"), false, true, s, o));
        }
    }
}
/// Boundaries as a user may write them: every list up to three over an alphabet with all special values.
fn boundaries(r: &mut Run) {
    let al = [-1.0, -0.0, 0.0, 1.0, 2.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    let mut lists: Vec<Vec<f64>> = vec![vec![]];
    for n in 1..=r.pick(4, 5) {
        product(&vec![al.len(); n], |ix| lists.push(ix.iter().map(|i| al[*i]).collect()));
    }
    let seq: Vec<Op> = [-5.0, -1.0, -0.5, 0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 1e300].iter().map(|v| Op::Rec(0, N::F(*v))).collect();
    for l in lists {
        // invalid advice: nothing is recorded
        let bad = l.iter().any(|x| !x.is_finite()) || l.windows(2).any(|w| !(w[0] < w[1]));
        r.case(|| format!("advice {l:?}"), |o| {
            let mut d = decl("h");
            d.bounds = Some(l.clone());
            drive(Kind(K::Histogram, Ty::F), &[Cumulative], None, &hist(&l, true), &d, bad, true, &seq, o)
        });
        // a view whose list does not increase matches nothing; what it may hold besides is not documented, it must just not panic
        let falls = l.windows(2).any(|w| w[0] >= w[1]);
        r.case(|| format!("view {l:?}"), |o| {
            let d = decl("h");
            let k = Kind(K::Histogram, Ty::F);
            let v = Aggregation::ExplicitBucketHistogram { boundaries: l.clone(), record_min_max: true };
            if falls {
                drive(k, &[Cumulative], Some(v), &default_agg(k), &d, false, true, &seq, o)
            } else if l.iter().all(|x| x.is_finite()) {
                drive(k, &[Cumulative], Some(v), &hist(&l, true), &d, false, true, &seq, o)
            } else {
                let _ = drive(k, &[Cumulative], Some(v), &hist(&l, true), &d, false, true, &seq, o);
                Ok(())
            }
        });
    }
}
/// Exponential histograms over magnitudes from the smallest subnormal to the largest number.
fn expo(r: &mut Run) {
    let wide = f(&[0.0, 5e-324, f64::MIN_POSITIVE, 1e-3, 0.5, 0.75, 1.0, 1.0000001, 2.0, 3.0, 4.0, 1e9, 1e300, f64::MAX, -1.0, -2.5, -1e300, -5e-324]);
    let few = f(&[0.0, 1.0, 1.5, 2.0, -3.0, 1000.0, 5e-324]);
    for size in [1u32, 2, 3, 4, 5, 8, 20, 160] {
        for scale in [20i8, 19, 4, 1, 0, -1, -9, -10] {
            let v = Aggregation::Base2ExponentialHistogram { max_size: size, max_scale: scale, record_min_max: size != 5 };
            let agg = Agg::Expo { size, scale, minmax: size != 5, sum: true };
            let k = Kind(K::Histogram, Ty::F);
            let a: Vec<Op> = wide.iter().map(|v| Op::Rec(0, *v)).collect();
            let n = r.pick(3, 4);
            r.sequences(&a, n, |s| format!("size {size} scale {scale} {s:?}"), |s, o| drive(k, &[Cumulative], Some(v.clone()), &agg, &decl("h"), false, true, s, o));
            let a: Vec<Op> = few.iter().map(|v| Op::Rec(0, *v)).chain([Op::Rec(1, few[1]), Op::Col(0), Op::Col(1)]).collect();
            let n = r.pick(4, 5);
            r.sequences(&a, n, |s| format!("size {size} scale {scale} Cumulative+Delta {s:?}"), |s, o| drive(k, &[Cumulative, Delta], Some(v.clone()), &agg, &decl("h"), false, true, s, o));
        }
    }
}
/// All pairs and triples around powers of two and over mantissas, so that every shift and bucket placement occurs.
fn scales(r: &mut Run) {
    let mut vals = vec![];
    for e in [-1074, -1073, -1030, -1022, -1000, -65, -3, -2, -1, 0, 1, 2, 3, 4, 7, 31, 64, 1000, 1022, 1023] {
        let p = if e < -1022 { f64::from_bits(1 << (e + 1074)) } else { 2f64.powi(e) };
        vals.extend([f64::from_bits(p.to_bits() - 1), p, f64::from_bits(p.to_bits() + 1), p * 1.37]);
    }
    vals.retain(|x| *x > 0.0 && x.is_finite());
    vals.dedup();
    for size in [1u32, 3, 5, 160] {
        let k = Kind(K::Histogram, Ty::F);
        for scale in [20i8, 10, 2, 0, -3] {
            let v = Aggregation::Base2ExponentialHistogram { max_size: size, max_scale: scale, record_min_max: true };
            let agg = Agg::Expo { size, scale, minmax: true, sum: true };
            let a: Vec<Op> = vals.iter().map(|v| Op::Rec(0, N::F(*v))).collect();
            r.sequences(&a, 2, |s| format!("size {size} scale {scale} {s:?}"), |s, o| drive(k, &[Delta], Some(v.clone()), &agg, &decl("h"), false, true, s, o));
        }
        if r.thorough {
            let v = Aggregation::Base2ExponentialHistogram { max_size: size, max_scale: 20, record_min_max: true };
            let agg = Agg::Expo { size, scale: 20, minmax: true, sum: true };
            let a: Vec<Op> = vals.iter().map(|v| Op::Rec(0, N::F(*v))).collect();
            r.sequences(&a, 3, |s| format!("size {size} scale 20 {s:?}"), |s, o| drive(k, &[Delta], Some(v.clone()), &agg, &decl("h"), false, true, s, o));
        }
    }
    // integers, and the other kinds of instruments
    for k in SYNC {
        let v = Aggregation::Base2ExponentialHistogram { max_size: 4, max_scale: 20, record_min_max: true };
        let agg = Agg::Expo { size: 4, scale: 20, minmax: true, sum: k.0 != K::UpDownCounter };
        let mut vs: Vec<N> = [0, 1, 2, 3, 5, 1023, 1 << 40].iter().map(|x| k.1.of(*x)).collect();
        if k.1 != Ty::U {
            vs.extend([-1, -7].map(|x| k.1.of(x)));
        }
        let a: Vec<Op> = vs.iter().map(|v| Op::Rec(0, *v)).chain([Op::Rec(1, vs[1]), Op::Col(0)]).collect();
        for t in [Cumulative, Delta] {
            r.sequences(&a, r.pick(4, 5), |s| format!("{k:?} {t:?} {s:?}"), |s, o| drive(k, &[t], Some(v.clone()), &agg, &decl("h"), false, true, s, o));
        }
    }
}
fn gauges(r: &mut Run) {
    for (k, vals) in [
        (Kind(K::Gauge, Ty::U), u(&[0, u64::MAX])),
        (Kind(K::Gauge, Ty::I), i(&[i64::MIN, 7])),
        (Kind(K::Gauge, Ty::F), f(&[-0.5, f64::INFINITY])),
        (Kind(K::Gauge, Ty::F), f(&[f64::NAN, 0.0])),
    ] {
        for t in [Cumulative, Delta, LowMemory] {
            let a = ops(&vals, 3, 1);
            r.sequences(&a, r.pick(6, 7), |s| format!("{k:?} {t:?} {s:?}"), |s, o| drive(k, &[t], None, &Agg::Last, &decl("g"), false, true, s, o));
        }
        for (t1, t2) in [(Cumulative, Delta), (Delta, Delta), (LowMemory, Delta)] {
            let a = ops(&vals, 2, 2);
            r.sequences(&a, r.pick(6, 7), |s| format!("{k:?} {t1:?}+{t2:?} {s:?}"), |s, o| drive(k, &[t1, t2], None, &Agg::Last, &decl("g"), false, false, s, o));
        }
    }
}
pub fn families() -> Vec<Family> {
    vec![
        family("C31", "sums", sums),
        family("C32", "buckets", buckets),
        family("C32", "readers", readers),
        family("C32", "boundaries", boundaries),
        family("C33", "expo", expo),
        family("C33", "scales", scales),
        family("C34", "gauges", gauges),
    ]
}
