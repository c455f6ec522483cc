//! C38: which instruments are the same, and which are valid.
use crate::common::*;
use bmc::*;
use opentelemetry::metrics::MeterProvider as _;
use opentelemetry::InstrumentationScope;
use opentelemetry_sdk::metrics::{InstrumentKind as K, Temporality};
use std::collections::BTreeMap;
use std::sync::atomic::Ordering::*;

/// Instruments that differ in any part of their identity never share a stream, the others always do.
fn identity(r: &mut Run) {
    // (meter, name, description, unit, kind)
    type D = (usize, &'static str, &'static str, &'static str, Kind);
    let c = Kind(K::Counter, Ty::U);
    let mut defs: Vec<D> = vec![];
    for k in all_kinds() {
        defs.push((0, "n", "", "", k));
        defs.push((0, "N", "", "", k));
    }
    for m in 0..4 {
        for n in ["n", "N", "nn", "n.n"] {
            for d in ["", "d", "D"] {
                for u in ["", "u", "U"] {
                    if defs.len() < 400 {
                        defs.push((m, n, d, u, c));
                    }
                }
            }
        }
    }
    let run = |ds: &[D], temp: Temporality, o: &mut Obs| -> R {
        let mut col = [Col::new(temp, true)];
        let p = provider(&col);
        let meter = |i: usize| match i {
            0 => p.meter("m"),
            1 => p.meter("M"),
            2 => p.meter_with_scope(InstrumentationScope::builder("m").with_version("1").build()),
            _ => p.meter_with_scope(InstrumentationScope::builder("m").with_attributes([opentelemetry::KeyValue::new("k", 1)]).build()),
        };
        let kept: Vec<Inst> = ds
            .iter()
            .map(|(m, n, d, u, k)| Inst::new(&meter(*m), *k, &Decl { name: (*n).into(), desc: (*d).into(), unit: (*u).into(), bounds: None, limit: Some(2) }))
            .collect();
        let mut want: BTreeMap<String, Vec<i64>> = BTreeMap::new();
        for (i, (m, n, d, u, k)) in ds.iter().enumerate() {
            let v = 1 + 10i64.pow(i as u32);
            kept[i].rec(k.1.of(v), &[]);
            want.entry(format!("{m} {} {d} {u} {k:?}", n.to_ascii_lowercase())).or_default().push(v);
        }
        let out = col[0].collect()?;
        let mut w: Vec<(String, i64)> = want
            .iter()
            .map(|(k, l)| {
                let gauge = k.contains("Gauge") || k.contains("Observable");
                (k.split(' ').nth(1).unwrap().to_string(), if gauge { *l.last().unwrap() } else { l.iter().sum() })
            })
            .collect();
        let mut g: Vec<(String, i64)> = vec![];
        for x in &out {
            same!(x.pts.len(), 1, "points of {}", x.name);
            let v = match x.pts.values().next() {
                Some(Pt::Val(v)) => v.f() as i64,
                Some(Pt::Hist { sum, .. }) => sum.f() as i64,
                _ => 0,
            };
            // the name is written as one of the instruments wrote it
            ensure!(ds.iter().any(|d| d.1 == x.name && d.2 == x.desc && d.3 == x.unit), "stream {} {} {} is nobody's", x.name, x.desc, x.unit);
            g.push((x.name.to_ascii_lowercase(), v));
        }
        w.sort();
        g.sort();
        same!(g, w, "streams");
        o.step(&w);
        o.outcome(&w.len());
        Ok(())
    };
    for x in &defs {
        for y in &defs {
            for t in [Temporality::Cumulative, Temporality::Delta] {
                r.case(|| format!("{x:?} and {y:?}, {t:?}"), |o| run(&[*x, *y], t, o));
            }
        }
    }
    let few: Vec<D> = defs.iter().step_by(r.pick(4, 2)).copied().collect();
    for x in &few {
        for y in &few {
            for z in &few {
                r.case(|| format!("{x:?}, {y:?} and {z:?}"), |o| run(&[*x, *y, *z], Temporality::Cumulative, o));
            }
        }
    }
}
fn valid_name(n: &str) -> bool {
    let b = n.as_bytes();
    !b.is_empty() && b.len() <= 255 && b[0].is_ascii_alphabetic() && b.iter().all(|c| c.is_ascii_alphanumeric() || b"_.-/".contains(c))
}
/// An invalid instrument is inert, a valid one works.
fn try_one(k: Kind, name: &str, unit: &str, desc: &str, ok: bool, o: &mut Obs) -> R {
    let mut col = [Col::new(Temporality::Cumulative, true)];
    let p = provider(&col);
    let d = Decl { name: name.to_string().into(), desc: desc.to_string().into(), unit: unit.to_string().into(), bounds: None, limit: Some(1) };
    let i = Inst::new(&p.meter("m"), k, &d);
    i.rec(k.1.of(1), &[]);
    let out = col[0].collect()?;
    same!(out.len(), ok as usize, "metrics exported");
    if let Inst::Ob(f, _) = &i {
        same!(f.runs.load(SeqCst), ok as u64, "callback runs");
    }
    if ok {
        same!((out[0].name.as_str(), out[0].unit.as_str(), out[0].desc.as_str()), (name, unit, desc), "name, unit and description");
    }
    o.step(&(ok, k));
    o.outcome(&ok);
    Ok(())
}
fn names(r: &mut Run) {
    let al = ["a", "Z", "5", "_", ".", "-", "/", " ", "\u{e9}", "*", "\0", "\u{1F600}", ":", "(", "@", "["];
    let c = Kind(K::Counter, Ty::U);
    for n in strings(&al, r.pick(4, 5)) {
        r.case(|| format!("{n:?}"), |o| try_one(c, &n, "", "", valid_name(&n), o));
    }
    // every single character of the first block, at the start and inside
    for ch in (0u32..0x250).filter_map(char::from_u32) {
        for n in [format!("{ch}"), format!("a{ch}"), format!("{ch}a"), format!("a{ch}a")] {
            r.case(|| format!("{n:?}"), |o| try_one(c, &n, "", "", valid_name(&n), o));
        }
    }
    for k in all_kinds() {
        for n in ["", "a", "5", "a b", "_a", "a\u{e9}", "a/b", "a-b.c_d"] {
            r.case(|| format!("{k:?} {n:?}"), |o| try_one(k, n, "", "", valid_name(n), o));
        }
        for len in [1, 2, 62, 63, 64, 65, 254, 255, 256, 257, 1000] {
            for fill in ["a", "9", "/", "\u{e9}"] {
                let n = format!("a{}", fill.repeat(len - 1));
                r.case(|| format!("{k:?} {len} {fill}"), |o| try_one(k, &n, "", "", valid_name(&n), o));
            }
        }
    }
}
fn units(r: &mut Run) {
    for k in all_kinds() {
        for u in strings(&["a", "{", " ", "\u{e9}", "\0", "%", "\u{1F600}"], r.pick(3, 4)) {
            r.case(|| format!("{k:?} unit {u:?}"), |o| try_one(k, "n", &u, "", u.is_ascii(), o));
        }
        for len in [1, 61, 62, 63, 64, 65, 255, 1000] {
            for fill in ["a", "{", "\u{e9}"] {
                let u = fill.repeat(len);
                r.case(|| format!("{k:?} unit {len} {fill}"), |o| try_one(k, "n", &u, "", u.is_ascii() && u.len() <= 63, o));
            }
        }
        for d in ["d", "\u{e9}\0", " ", &"x".repeat(5000)] {
            r.case(|| format!("{k:?} description {d:?}"), |o| try_one(k, "n", "", d, true, o));
        }
    }
}
pub fn families() -> Vec<Family> {
    vec![family("C38", "identity", identity), family("C38", "names", names), family("C38", "units", units)]
}
