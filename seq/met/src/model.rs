//! What the aggregations are documented to compute, from plain lists of measurements.
use crate::common::*;
use bmc::*;
use opentelemetry_sdk::metrics::Temporality;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Agg {
    Sum(bool),
    Last,
    Hist { bounds: Vec<f64>, minmax: bool, sum: bool },
    Expo { size: u32, scale: i8, minmax: bool, sum: bool },
    /// Sum of an observable instrument: the observed value itself.
    Pre(bool),
}
/// One stream of one reader.
#[derive(Clone)]
pub struct Stream {
    pub agg: Agg,
    pub temp: Temporality,
    pub ty: Ty,
    pub m: BTreeMap<A, Vec<N>>,
    /// Pre: what the previous collection saw, and every set's last observed value.
    prev: BTreeMap<A, N>,
    last: BTreeMap<A, N>,
    /// Sets reported although they were not observed for that collection (with their last value).
    pub stale: usize,
}
impl Stream {
    pub fn new(agg: Agg, temp: Temporality, ty: Ty) -> Stream {
        Stream { agg, temp, ty, m: BTreeMap::new(), prev: BTreeMap::new(), last: BTreeMap::new(), stale: 0 }
    }
    pub fn rec(&mut self, a: A, v: N) {
        if let Agg::Expo { size, .. } = self.agg {
            // A value is dropped if no scale is coarse enough for it and the values of its sign before it: a size of
            // three is always enough.
            if size < 3 && v.f() != 0.0 {
                let same = self.m.get(&a).into_iter().flatten().map(|n| n.f()).filter(|x| *x != 0.0 && (*x < 0.0) == (v.f() < 0.0));
                let ix: Vec<i64> = same.chain([v.f()]).map(|x| index(x, -10).unwrap()).collect();
                if ix.iter().max().unwrap() - ix.iter().min().unwrap() >= size as i64 {
                    return;
                }
            }
        }
        self.m.entry(a).or_default().push(v);
    }
    fn shape(&self) -> Shape {
        match self.agg {
            Agg::Sum(m) | Agg::Pre(m) => Shape::Sum(m),
            Agg::Last => Shape::Gauge,
            Agg::Hist { .. } => Shape::Hist,
            Agg::Expo { .. } => Shape::Expo,
        }
    }
    pub fn state(&self) -> Vec<(A, Vec<N>)> {
        self.m.iter().map(|(k, v)| (k.clone(), v.clone())).collect()
    }
    /// Compares one collection and starts the next interval.
    pub fn check(&mut self, out: Option<&Out>) -> R {
        let r = self.compare(out);
        if self.temp == Temporality::Delta || matches!(self.agg, Agg::Pre(_)) {
            self.prev = self.m.iter().map(|(k, v)| (k.clone(), *v.last().unwrap())).collect();
            self.last.extend(self.prev.clone());
            self.m.clear();
        }
        r
    }
    fn compare(&mut self, out: Option<&Out>) -> R {
        let mut none = BTreeMap::new();
        let pts = match out {
            Some(o) => {
                same!(o.shape, self.shape(), "kind of data");
                same!(o.ty, self.ty, "number type");
                if self.agg != Agg::Last {
                    same!(o.temp, Some(self.temp), "temporality");
                }
                // Known finding: a set that is no longer observed keeps being reported, unchanged.
                if matches!(self.agg, Agg::Pre(_)) && self.temp == Temporality::Cumulative {
                    none = o.pts.clone();
                    none.retain(|a, p| self.m.contains_key(a) || self.last.get(a).map(|v| Pt::Val(*v)).as_ref() != Some(p));
                    self.stale += o.pts.len() - none.len();
                    &none
                } else {
                    &o.pts
                }
            }
            None => &none,
        };
        let (g, w): (Vec<&A>, Vec<&A>) = (pts.keys().collect(), self.m.keys().collect());
        same!(g, w, "attribute sets of the points");
        for (a, v) in &self.m {
            let p = &pts[a];
            let fold = |on: bool| v.iter().fold(self.ty.zero(), |x, y| if on { x.add(*y) } else { x });
            let least = |on: bool| on.then(|| v.iter().copied().reduce(|x, y| if y.lt(x) { y } else { x }).unwrap());
            let most = |on: bool| on.then(|| v.iter().copied().reduce(|x, y| if x.lt(y) { y } else { x }).unwrap());
            match &self.agg {
                Agg::Sum(_) => same!(*p, Pt::Val(fold(true)), "sum of {a:?}"),
                Agg::Last => same!(*p, Pt::Val(*v.last().unwrap()), "value of {a:?}"),
                Agg::Pre(mono) => {
                    let x = *v.last().unwrap();
                    let prev = self.prev.get(a).copied().unwrap_or(self.ty.zero());
                    // a monotonic value that falls has been reset
                    let want = if self.temp == Temporality::Cumulative || (*mono && x.lt(prev)) { x } else { x.sub(prev) };
                    same!(*p, Pt::Val(want), "value of {a:?}")
                }
                Agg::Hist { bounds, minmax, sum } => {
                    let mut b = vec![0u64; bounds.len() + 1];
                    for x in v {
                        // the first bucket whose upper bound is not below the value
                        b[bounds.iter().position(|u| x.f() <= *u).unwrap_or(bounds.len())] += 1;
                    }
                    let want = Pt::Hist {
                        count: v.len() as u64, sum: fold(*sum), min: least(*minmax), max: most(*minmax), bounds: bounds.iter().map(|x| N::F(*x)).collect(), buckets: b,
                    };
                    same!(*p, want, "point of {a:?}");
                }
                Agg::Expo { size, scale, minmax, sum } => {
                    let Pt::Expo { count, sum: s, min, max, expo } = p else { return Err("not an exponential histogram".into()) };
                    same!(*count, v.len() as u64, "count of {a:?}");
                    same!(*s, fold(*sum), "sum of {a:?}");
                    same!(*min, least(*minmax), "minimum of {a:?}");
                    same!(*max, most(*minmax), "maximum of {a:?}");
                    expo_check(v, *size, *scale, expo)?;
                }
            }
        }
        Ok(())
    }
}
/// (m, e) with |v| = m * 2^e and 1 <= m < 2.
fn parts(v: f64) -> (f64, i64) {
    let v = v.abs();
    if v < f64::MIN_POSITIVE {
        let (m, e) = parts(v * 2f64.powi(200));
        return (m, e - 200);
    }
    let bits = v.to_bits();
    let e = ((bits >> 52) & 0x7ff) as i64 - 1023;
    (f64::from_bits((bits & 0x000f_ffff_ffff_ffff) | 0x3ff0_0000_0000_0000), e)
}
/// The bucket of a magnitude at a scale: base^i < |v| <= base^(i+1). None: too close to a boundary to tell in floating point.
pub fn index(v: f64, scale: i8) -> Option<i64> {
    let (m, e) = parts(v);
    let exact = m == 1.0;
    if scale <= 0 {
        let i = if exact { e - 1 } else { e };
        return Some(i >> -scale);
    }
    if exact {
        return Some((e << scale) - 1);
    }
    let x = m.log2() * 2f64.powi(scale as i32);
    // the ends of the binade are exact
    let n = 1i64 << scale;
    let near = (x - x.round()).abs() < 1e-6 && x.round() != 0.0 && x.round() != n as f64;
    if near {
        return None;
    }
    Some((e << scale) + (x.ceil() as i64).clamp(1, n) - 1)
}
fn expo_check(v: &[N], size: u32, max_scale: i8, x: &Expo) -> R {
    same!(x.zero, v.iter().filter(|n| n.f() == 0.0).count() as u64, "zero count");
    same!(x.zero_threshold, N::F(0.0), "zero threshold");
    ensure!((-10..=max_scale).contains(&x.scale), "scale {} outside -10..={max_scale}", x.scale);
    let side = |neg: bool, s: i8| -> Vec<i64> { v.iter().map(|n| n.f()).filter(|f| *f != 0.0 && (*f < 0.0) == neg).map(|f| index(f, s).expect("unambiguous value")).collect() };
    let fits = |s: i8| {
        [false, true].iter().all(|neg| {
            let ix = side(*neg, s);
            ix.is_empty() || ix.iter().max().unwrap() - ix.iter().min().unwrap() < size as i64
        })
    };
    let best = (-10..=max_scale).rev().find(|s| fits(*s));
    same!(Some(x.scale), best, "scale (the finest at which the values fit)");
    for (neg, (off, counts)) in [(false, &x.pos), (true, &x.neg)] {
        ensure!(counts.len() <= size as usize, "{} buckets, allowed {size}", counts.len());
        let mut want: BTreeMap<i64, u64> = BTreeMap::new();
        for i in side(neg, x.scale) {
            *want.entry(i).or_default() += 1;
        }
        let got: BTreeMap<i64, u64> = counts.iter().enumerate().filter(|(_, c)| **c > 0).map(|(k, c)| (*off as i64 + k as i64, *c)).collect();
        same!(got, want, "buckets ({}) at scale {}", if neg { "negative" } else { "positive" }, x.scale);
    }
    Ok(())
}
